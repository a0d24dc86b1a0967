// Workloads, the reference model and the checks made against it.
#pragma once
#include "kernel.h"
#include <functional>
#include <string>
#include <vector>

namespace sim {
extern void interpose_install();
extern std::string errorLog;   // of this simulated process
extern void (*dropMain)();   // removes the eckit::Main of this process (a tool brings its own)

// ---- run options, private to each process (copied by fork)
struct RunOpts {
    std::set<int> skipOps;      // operations left out (minimisation)
    std::set<int> skipFaults;   // faults left out
    bool scripted = false;      // schedule given by script
    bool trace = false;
    std::map<uint64_t, int> script;
    std::string variant;
    bool thorough = false;
};
extern RunOpts opts;

struct Scenario { const char* id; void (*fn)(); const char* what; };
std::vector<Scenario>& scenarios();
struct RegScenario { RegScenario(const char* id, void (*fn)(), const char* what) { scenarios().push_back({id, fn, what}); } };

// report a violation: prop, stable signature, details
[[noreturn]] void violation(const std::string& prop, const std::string& sig, const std::string& details);
void count(const std::string& name, uint64_t n = 1);
void state(uint64_t h);
}
