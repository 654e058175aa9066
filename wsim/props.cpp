#include "core.hpp"
extern const Scenario scen_win;
static const Scenario* const scens[] = { &scen_win };
const Scenario* find_scenario(const std::string& n) { for (auto* s : scens) if (n == s->name) return s; return nullptr; }
static const PropInfo props[] = { {"C18", T_SYS | T_LEAK, {"windows"}}, {"C24", T_SYS, {"windows"}}, {"C25", T_SYS, {"windows"}} };
const PropInfo* find_prop(const std::string& id) { for (auto& p : props) if (id == p.id) return &p; return nullptr; }
