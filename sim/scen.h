#pragma once
#include "sim.h"
#include <map>
#include <string>
#include <vector>

struct Op {
    int id = 0;
    std::string kind;
    std::map<std::string, std::string> a;
    bool has(const std::string &k) const { return a.count(k); }
    std::string s(const std::string &k, const std::string &d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
    int64_t i(const std::string &k, int64_t d = 0) const { auto i = a.find(k); return i == a.end() ? d : strtoll(i->second.c_str(), nullptr, 0); }
    Op &set(const std::string &k, const std::string &v) { a[k] = v; return *this; }
    Op &set(const std::string &k, int64_t v) { a[k] = std::to_string(v); return *this; }
};
struct FileDef {
    std::string name;
    std::map<std::string, std::string> a;   // seed len style | base mut | hex
    std::string s(const std::string &k, const std::string &d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
    int64_t i(const std::string &k, int64_t d = 0) const { auto i = a.find(k); return i == a.end() ? d : strtoll(i->second.c_str(), nullptr, 0); }
};
struct Scenario {
    std::string prop;
    uint64_t seed = 0;
    int variant = -1;            // C17: which re-execution is meant
    Env env;
    std::vector<FileDef> files;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::string text() const;
    bool parse(const std::string &t, std::string &err);
};
Bytes gen_content(uint64_t seed, size_t len, const std::string &style);
Bytes mutate_content(const Bytes &b, uint64_t seed, int n, int64_t len = -1);
Bytes make_file(const Scenario &s, const FileDef &f, std::map<std::string, Bytes> &done);

struct FaultPlan { std::vector<int> cls; };
// generator: property -> scenario
Scenario gen_scenario(const std::string &prop, uint64_t seed, bool thorough);
// choose faults for variant k given the trace of the fault-free run
std::vector<Fault> gen_faults(const Scenario &s, Rng &r, const std::vector<std::pair<int, std::vector<uint32_t>>> &counts, int variant);
int fault_variants(const std::string &prop, Rng &r, bool thorough);
