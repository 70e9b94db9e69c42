#pragma once
#include "scen.h"

struct Viol { std::string cls, detail; int op = -1; };
struct RunResult {
    std::vector<Viol> v;
    uint64_t trace = 0, events = 0, now = 0;
    uint64_t digest = 0, fdigest = 0;                 // final files + outputs
    std::map<std::string, uint64_t> fired, planned, ops, failed;
    std::vector<std::pair<int, std::vector<uint32_t>>> counts;
    std::string log;
    std::set<uint64_t> states;           // abstract package states reached
    std::string viol_text() const;
};
RunResult run_scenario(const Scenario &s, bool log);
bool listens(const std::string &prop, const std::string &cls);
void exec_global_init();
