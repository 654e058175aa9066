#include "core.hpp"
extern const Scenario scen_vec, scen_sys, scen_str, scen_list, scen_bits, scen_argp, scen_nest;
static const Scenario* const scens[] = { &scen_vec, &scen_sys, &scen_str, &scen_list, &scen_bits, &scen_argp, &scen_nest };
const Scenario* find_scenario(const std::string& n) { for (auto* s : scens) if (n == s->name) return s; return nullptr; }
static const PropInfo props[] = {
    {"C01", T_CONTENT | T_STATUS | T_ATOMIC | T_REFUSE, {"vector"}},
    {"C02", T_ATOMIC | T_REFUSE | T_AFTER, {"vector"}},
    {"C03", T_DTOR, {"vector", "list"}},
    {"C04", T_ALLOC | T_LEAK, {"vector", "string", "list", "bitset", "argparse"}},
    {"C05", T_BUFFER | T_ATOMIC | T_REFUSE, {"vector", "string", "list", "bitset"}},
    {"C06", T_CONTENT | T_STATUS | T_ATOMIC | T_REFUSE, {"string"}},
    {"C07", T_ATOMIC | T_REFUSE | T_AFTER, {"string"}},
    {"C08", T_CONTENT | T_STATUS | T_ATOMIC | T_REFUSE, {"string"}},
    {"C09", T_CONTENT | T_STATUS | T_ATOMIC | T_REFUSE, {"list"}},
    {"C10", T_ATOMIC | T_REFUSE | T_BUFFER | T_AFTER, {"list"}},
    {"C11", T_CONTENT | T_STATUS | T_ATOMIC | T_REFUSE, {"bitset"}},
    {"C12", T_ATOMIC | T_REFUSE | T_AFTER, {"bitset"}},
    {"C13", T_CONTENT | T_STATUS | T_LEAK | T_REFUSE | T_ALLOC, {"argparse"}},
    {"C14", T_CAP, {"vector", "string", "bitset"}},
    {"C15", T_ALLOC | T_LEAK | T_REFUSE | T_ATOMIC | T_AFTER, {"vector", "string", "list", "bitset", "argparse"}},
    {"C18", T_SYS | T_LEAK, {"system"}},
    {"C24", T_SYS, {"system"}},
    {"C25", T_SYS, {"system"}},
    {"C28", T_CONTENT | T_STATUS | T_ATOMIC | T_REFUSE | T_DTOR | T_LEAK | T_ALLOC | T_BUFFER | T_SYS, {"nested"}},
};
const PropInfo* find_prop(const std::string& id) { for (auto& p : props) if (id == p.id) return &p; return nullptr; }
