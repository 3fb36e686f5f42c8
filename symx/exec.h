#pragma once
#include <set>
struct Violation { std::string kind, msg, loc, trace, known; std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint64_t> logs; uint64_t count; };
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint64_t> logs; };
struct ExecStats {
  uint64_t insts = 0, forks = 0, paths = 0, symBranches = 0, asserts = 0, allocs = 0, throws = 0, uninitReads = 0, concretizations = 0, allocFails = 0, violationPaths = 0, maxDepth = 0, incompleteN = 0;
  std::map<std::string, uint64_t> pathEnds;
  std::set<std::string> incomplete;
  double wall = 0;
};
struct ExecCfg { double maxTime = 60; uint64_t maxSteps = 20000000; int nsamples = 4; int maxViol = 25; bool verbose = false; uint32_t seed = 0; };
extern ExecStats ES;
extern ExecCfg CFG;
extern std::vector<Sample> samples;
extern std::set<std::string> coverTags;
extern std::map<std::string, uint64_t> assertCount;
const std::map<std::string, Violation> &getViolations();
const std::map<std::string, Violation> &getKnowns();
bool execInit();
void execTask(const std::string &entry, const std::map<std::string, int64_t> &p);
