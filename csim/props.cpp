#include "core.hpp"
extern const Scenario scen_cs, scen_atom, scen_tls, scen_own, scen_rd, scen_pub, scen_guard;
static const Scenario* const scens[] = { &scen_cs, &scen_atom, &scen_tls, &scen_own, &scen_rd, &scen_pub, &scen_guard };
const Scenario* find_scenario(const std::string& n) { for (auto* s : scens) if (n == s->name) return s; return nullptr; }
static const PropInfo props[] = {
    {"C16", T_SCHED, {"critical_sections"}},
    {"C17", T_STATUS | T_PROGRESS, {"critical_sections"}},
    {"C19", T_CONTENT | T_PROGRESS, {"atomics"}},
    {"C20", T_CONTENT | T_SCHED, {"thread_local"}},
    {"C21", T_CONTENT | T_SCHED, {"own_objects"}},
    {"C22", T_CONTENT | T_SCHED, {"shared_readers"}},
    {"C23", T_CONTENT | T_SCHED, {"thread_local"}},
    {"C26", T_CONTENT | T_SCHED | T_PROGRESS, {"publication"}},
    {"C27", T_CONTENT | T_SCHED | T_PROGRESS, {"guarded_objects"}},
};
const PropInfo* find_prop(const std::string& id) { for (auto& p : props) if (id == p.id) return &p; return nullptr; }
