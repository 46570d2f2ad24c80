#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <map>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace llvm;
// usage: rsa MODULE.bc JOBS OUT.jsonl [workers]
// JOBS lines: id<TAB>function<TAB>args,...<TAB>key=lo-hi;..<TAB>only kinds,..<TAB>maxPaths<TAB>maxSec
static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> r; std::string t; std::istringstream is(s); while (std::getline(is, t, c)) r.push_back(t); return r; }
static std::string emit(const Job &j, const JobResult &R, double sec) {
  std::ostringstream o;
  o << "{\"id\":" << jsonStr(j.id) << ",\"func\":" << jsonStr(j.func) << ",\"args\":[";
  for (size_t i = 0; i < j.args.size(); i++) o << (i ? "," : "") << j.args[i];
  o << "],\"paths\":" << R.paths << ",\"merges\":" << R.merges << ",\"steps\":" << R.steps << ",\"iters\":" << R.iters << ",\"enums\":" << R.enums << ",\"sec\":" << sec;
  o << ",\"incomplete\":" << (R.incomplete ? "true" : "false") << ",\"why\":" << jsonStr(R.why) << ",\"inexact_states\":" << (R.inexactStates ? "true" : "false");
  auto mapn = [&](const char *nm, const std::map<std::string, u64> &m) { o << ",\"" << nm << "\":{"; int k = 0; for (auto &p : m) o << (k++ ? "," : "") << jsonStr(p.first) << ":" << p.second; o << "}"; };
  auto maps = [&](const char *nm, const std::map<std::string, std::string> &m) { o << ",\"" << nm << "\":{"; int k = 0; for (auto &p : m) o << (k++ ? "," : "") << jsonStr(p.first) << ":" << jsonStr(p.second); o << "}"; };
  auto sets = [&](const char *nm, auto &m) { o << ",\"" << nm << "\":["; int k = 0; for (auto &p : m) o << (k++ ? "," : "") << jsonStr(p); o << "]"; };
  mapn("obl", R.obl); mapn("reach", R.reach); maps("states", R.states); maps("outs", R.outs); { std::map<std::string, std::string> cm; for (auto &p : R.collect) cm[p.first] = p.second.strFull(); maps("collect", cm); } sets("sites", R.sites); sets("funcs", R.funcs); sets("undecided", R.undecided);
  o << ",\"viol\":["; int k = 0;
  for (auto &v : R.viol) {
    o << (k++ ? "," : "") << "{\"kind\":" << jsonStr(v.kind) << ",\"msg\":" << jsonStr(v.msg) << ",\"where\":" << jsonStr(v.where) << ",\"func\":" << jsonStr(v.func);
    sets("stack", v.stack); sets("notes", v.notes); o << ",\"wit\":{"; int q = 0; for (auto &p : v.wit) if (p.first.compare(0, 5, "addr:")) o << (q++ ? "," : "") << jsonStr(p.first) << ":" << p.second; o << "}}";
  }
  o << "]}\n"; return o.str();
}
int main(int argc, char **argv) {
  if (argc < 4) return 3;
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("rsa", errs()); return 3; }
  engineInit(M.get());
  std::vector<Job> jobs; std::ifstream in(argv[2]); std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    auto f = split(line, '\t'); f.resize(9); Job j; j.id = f[0]; j.func = f[1];
    for (auto &a : split(f[2], ',')) if (!a.empty()) j.args.push_back(strtoll(a.c_str(), 0, 0));
    auto parse = [&](const std::string &t, std::map<std::string, ISet> &m) { for (auto &a : split(t, ';')) { if (a.empty()) continue; auto e = a.find('='); std::string k = a.substr(0, e); ISet s; for (auto &r : split(a.substr(e + 1), ',')) { auto d = r.find('-'); u64 lo = strtoull(r.c_str(), 0, 0), hi = d == std::string::npos ? lo : strtoull(r.c_str() + d + 1, 0, 0); s.v.push_back({lo, hi}); } s.norm(); m[k] = s; } };
    parse(f[3], j.init); parse(f[7], j.universe);
    for (auto &a : split(f[4], ',')) if (!a.empty()) j.only.insert(a);
    if (!f[5].empty()) j.maxPaths = strtoull(f[5].c_str(), 0, 0);
    if (!f[6].empty()) j.maxSec = atof(f[6].c_str());
    if (!f[8].empty()) j.nojoin = atoi(f[8].c_str());
    jobs.push_back(j);
  }
  int nw = argc > 4 ? atoi(argv[4]) : 1;
  auto *next = (std::atomic<int> *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (next) std::atomic<int>(0);
  std::map<pid_t, int> pids; int respawns = 0, bad = 0;
  for (int w = 0; w < nw; w++) unlink((std::string(argv[3]) + "." + std::to_string(w)).c_str());
  auto spawn = [&](int w) {
    pid_t p = nw > 1 ? fork() : 0;
    if (p == 0) {
      // a job that needs more memory than its share ends its worker, not the machine; the job counts as incomplete
      if (nw > 1) { rlim_t b = 24ull << 30; struct rlimit rl = {b / nw, b / nw}; setrlimit(RLIMIT_AS, &rl); }
      std::ofstream out(std::string(argv[3]) + "." + std::to_string(w), std::ios::app);
      for (;;) {
        int i = next->fetch_add(1); if (i >= (int)jobs.size()) break;
        auto t = std::chrono::steady_clock::now();
        JobResult R = runJob(jobs[i]);
        out << emit(jobs[i], R, std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count()); out.flush();
      }
      out.close();
      if (nw > 1) _exit(0);
    } else pids[p] = w;
  };
  for (int w = 0; w < nw; w++) spawn(w);
  while (!pids.empty()) {
    int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) break;
    auto it = pids.find(p); if (it == pids.end()) continue;
    int w = it->second; pids.erase(it);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (++respawns < 400) spawn(w); else bad = 4; }
  }
  std::ofstream out(argv[3]); for (int w = 0; w < nw; w++) { std::string fn = std::string(argv[3]) + "." + std::to_string(w); { std::ifstream i(fn); std::string l; while (std::getline(i, l)) out << l << "\n"; } unlink(fn.c_str()); }
  return bad;
}
