// symx prog.bc tasks.txt outdir [-j N] [-v]
// tasks.txt: one task per line:  <taskid> <entry> <timeout_s> <nsamples> [k=v ...]
#include "state.h"
#include "exec.h"
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#include <signal.h>

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static void inputs(std::ostream &o, const std::vector<std::pair<std::string, std::string>> &in) {
  o << "[";
  for (size_t i = 0; i < in.size(); i++) o << (i ? "," : "") << "[" << js(in[i].first) << "," << js(in[i].second) << "]";
  o << "]";
}
static void nums(std::ostream &o, const std::vector<uint64_t> &v) {
  o << "[";
  for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "\"" << v[i] << "\"";
  o << "]";
}
static void viol(std::ostream &o, const std::map<std::string, Violation> &m) {
  o << "[";
  bool f = true;
  for (auto &p : m) {
    auto &v = p.second;
    o << (f ? "" : ",") << "\n{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"count\":" << v.count << ",\"known\":" << js(v.known) << ",\"trace\":" << js(v.trace) << ",\"inputs\":";
    inputs(o, v.inputs); o << ",\"logs\":"; nums(o, v.logs); o << "}"; f = false;
  }
  o << "]";
}

struct Task { std::string id, entry; double timeout; int ns; std::map<std::string, int64_t> p; };

static void writeResult(const Task &t, const std::string &path) {
  std::ofstream o(path + ".tmp");
  auto &s = solverStats;
  o << "{\"task\":" << js(t.id) << ",\"entry\":" << js(t.entry) << ",\"complete\":" << (ES.incompleteN == 0 ? "true" : "false")
    << ",\"incomplete\":[";
  bool f = true;
  for (auto &x : ES.incomplete) { o << (f ? "" : ",") << js(x); f = false; }
  o << "],\"paths\":" << ES.paths << ",\"insts\":" << ES.insts << ",\"forks\":" << ES.forks << ",\"sym_branches\":" << ES.symBranches
    << ",\"asserts\":" << ES.asserts << ",\"allocs\":" << ES.allocs << ",\"throws\":" << ES.throws << ",\"uninit_reads\":" << ES.uninitReads
    << ",\"concretizations\":" << ES.concretizations << ",\"alloc_fails\":" << ES.allocFails << ",\"max_depth\":" << ES.maxDepth
    << ",\"queries\":" << s.queries << ",\"z3_calls\":" << s.z3calls << ",\"cache_hits\":" << s.cacheHits << ",\"model_hits\":" << s.modelHits
    << ",\"sat\":" << s.sat << ",\"unsat\":" << s.unsat << ",\"unknown\":" << s.unknown << ",\"solver_s\":" << s.time << ",\"max_query_s\":" << s.maxTime
    << ",\"wall_s\":" << ES.wall << ",\"exprs\":" << exprCount() << ",\"path_ends\":{";
  f = true; for (auto &p : ES.pathEnds) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
  o << "},\"covers\":["; f = true; for (auto &c : coverTags) { o << (f ? "" : ",") << js(c); f = false; }
  o << "],\"assert_tags\":{"; f = true; for (auto &c : assertCount) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; }
  o << "},\"functions\":["; f = true;
  for (auto fi : allFuncs()) if (fi->executed && !fi->file.empty() && (fi->demangled.find("mfast::") != std::string::npos)) {
    std::string d = fi->demangled; size_t p = d.find('('); 
    if (p != std::string::npos && p > 0) d = d.substr(0, p);
    o << (f ? "" : ",") << js(d.substr(0, 200)); f = false;
  }
  o << "],\"violations\":"; viol(o, getViolations());
  o << ",\"knowns\":"; viol(o, getKnowns());
  o << ",\"samples\":["; f = true;
  for (auto &x : samples) { o << (f ? "" : ",") << "{\"inputs\":"; inputs(o, x.inputs); o << ",\"logs\":"; nums(o, x.logs); o << "}"; f = false; }
  o << "]}\n";
  o.close();
  rename((path + ".tmp").c_str(), path.c_str());
}

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: symx prog.bc tasks.txt outdir [-j N] [-v]\n"); return 2; }
  int jobs = 1;
  for (int i = 4; i < argc; i++) {
    if (!strcmp(argv[i], "-j") && i + 1 < argc) jobs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "-v")) CFG.verbose = true;
  }
  if (getenv("VERIF_SEED")) CFG.seed = atoi(getenv("VERIF_SEED"));
  struct rlimit rl = {1ul << 29, 1ul << 29}; setrlimit(RLIMIT_STACK, &rl);
  if (!loadProgram(argv[1])) return 2;
  if (!execInit()) return 2;
  std::vector<Task> tasks;
  std::ifstream in(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line); Task t; std::string kv;
    if (!(is >> t.id >> t.entry >> t.timeout >> t.ns)) continue;
    while (is >> kv) { size_t e = kv.find('='); if (e != std::string::npos) t.p[kv.substr(0, e)] = atoll(kv.c_str() + e + 1); }
    tasks.push_back(t);
  }
  std::map<pid_t, size_t> run;
  size_t nextT = 0; int bad = 0;
  while (nextT < tasks.size() || !run.empty()) {
    while (nextT < tasks.size() && (int)run.size() < jobs) {
      pid_t p = ::fork();
      if (p == 0) {
        struct rlimit ml = {6ul << 30, 6ul << 30}; setrlimit(RLIMIT_AS, &ml);
        const Task &t = tasks[nextT];
        CFG.maxTime = t.timeout; CFG.nsamples = t.ns;
        alarm((unsigned)(t.timeout * 1.5) + 90);
        solverInit(60000, nullptr);
        execTask(t.entry, t.p);
        writeResult(t, std::string(argv[3]) + "/" + t.id + ".json");
        _exit(0);
      }
      run[p] = nextT++;
    }
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p <= 0) break;
    auto it = run.find(p);
    if (it == run.end()) continue;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "task %s died (status %x)\n", tasks[it->second].id.c_str(), st); bad++; }
    run.erase(it);
  }
  return bad ? 3 : 0;
}
