// sx driver: explores every path of a harness, forks worker processes over the frontier, writes a JSON report.
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <atomic>
#include <csignal>
using namespace llvm;
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string b64(const std::string& s) { std::string o; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); o += b; } return o.empty() ? "-" : o; }
static std::string ub64(const std::string& s) { if (s == "-") return ""; std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return o; }

struct Res { std::map<std::string, u64> n; std::map<std::string, double> t; std::set<std::string> reached, notes, unsup, known, lines, fns; std::vector<Violation> viol; std::vector<std::string> samples; };
static void dumpRes(Exec& X, std::ostream& o) {
  auto N = [&](const char* k, u64 v) { o << "N " << k << " " << v << "\n"; };
  N("paths", X.paths); N("forks", X.forks); N("instructions", X.instrs); N("asserts_checked", X.asserts); N("asserts_symbolic", X.assertsSolver); N("exits", X.exits); N("assume_pruned", X.assumeKilled); N("inconclusive", X.inconclusive);
  N("queries", X.sol.queries); N("queries_sat", X.sol.sat); N("queries_unsat", X.sol.unsat); N("queries_unknown", X.sol.unknown); N("query_cache_hits", X.sol.cacheHits); o << "M max_steps " << X.maxSteps << "\n";
  o << "T solver_s " << X.sol.time << "\n"; o << "X max_query_s " << X.sol.maxq << "\n";
  for (auto& s : X.reached) o << "R " << b64(s) << "\n"; for (auto& s : X.notes) o << "O " << b64(s) << "\n"; for (auto& s : X.unsupported) o << "U " << b64(s) << "\n"; for (auto& s : X.knownHits) o << "K " << b64(s) << "\n";
  for (auto& v : X.viol) { o << "V " << b64(v.kind) << " " << b64(v.msg) << " " << b64(v.where) << " " << v.uninit << " " << v.in.size(); for (size_t i = 0; i < v.in.size(); i++) o << " " << b64(v.in[i].name) << " " << v.in[i].w << " " << v.vals[i]; o << "\n"; }
  for (auto& s : X.samples) { o << "S " << s.first.size(); for (auto& p : s.first) o << " " << b64(p.first.name) << " " << p.first.w << " " << p.second; o << " " << s.second.size(); for (auto& p : s.second) o << " " << b64(p.first) << " " << p.second; o << "\n"; }
  std::set<std::string> L, F;
  for (auto& fp : X.funcs) { DFunc* f = fp.second; if (!f->decoded) continue;
    for (auto& b : f->bl) for (auto& d : b.is) if (d.visited) for (const DILocation* l = d.I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
      std::string fn = l->getFilename().str(); size_t p = fn.find("include/qlmps/"); if (p == std::string::npos) continue; fn = fn.substr(p + 14); if (fn.find("third_party") != std::string::npos) continue;
      if (l->getLine()) L.insert(fn + ":" + std::to_string(l->getLine()));
      if (auto* sp = l->getScope()->getSubprogram()) { std::string nm = demangle(sp->getLinkageName().str().empty() ? sp->getName().str() : sp->getLinkageName().str()); size_t q = nm.find('('); F.insert(fn + " :: " + nm.substr(0, 140)); (void)q; } } }
  for (auto& s : L) o << "L " << b64(s) << "\n"; for (auto& s : F) o << "F " << b64(s) << "\n";
}
static void merge(Res& R, std::istream& in) {
  std::string line; while (std::getline(in, line)) { std::istringstream is(line); std::string k, a; is >> k;
    if (k == "N") { u64 v; is >> a >> v; R.n[a] += v; } else if (k == "M") { u64 v; is >> a >> v; R.n[a] = std::max(R.n[a], v); } else if (k == "T") { double v; is >> a >> v; R.t[a] += v; } else if (k == "X") { double v; is >> a >> v; R.t[a] = std::max(R.t[a], v); }
    else if (k == "R") { is >> a; R.reached.insert(ub64(a)); } else if (k == "O") { is >> a; R.notes.insert(ub64(a)); } else if (k == "U") { is >> a; R.unsup.insert(ub64(a)); } else if (k == "K") { is >> a; R.known.insert(ub64(a)); } else if (k == "L") { is >> a; R.lines.insert(ub64(a)); } else if (k == "F") { is >> a; R.fns.insert(ub64(a)); }
    else if (k == "V") { Violation v; std::string m, w; size_t n; is >> a >> m >> w >> v.uninit >> n; v.kind = ub64(a); v.msg = ub64(m); v.where = ub64(w); for (size_t i = 0; i < n; i++) { Input x; u64 y; is >> a >> x.w >> y; x.name = ub64(a); x.var = i; v.in.push_back(x); v.vals.push_back(y); } R.viol.push_back(v); }
    else if (k == "S") R.samples.push_back(line.substr(2)); else if (k == "END") R.n["workers_done"]++; }
}
int main(int argc, char** argv) {
  std::string bc, out = "-", entry = "sx_main", dumpf; int jobs = 1; double timeout = 600; Exec X; size_t frontier = 0, maxPer = 24;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--jobs") jobs = stoi(nx()); else if (a == "--timeout") timeout = stod(nx()); else if (a == "--keep-going") X.stopFirst = false; else if (a == "--steps") X.stepLimit = stoull(nx()); else if (a == "--frontier") frontier = stoul(nx()); else if (a == "--samples") maxPer = stoul(nx()); else if (a == "--query-ms") X.sol.timeout_ms = stoul(nx());
    else if (a == "--dump") dumpf = nx(); else if (a == "--enum") X.enumLimit = stoul(nx()); else if (a == "--seed") X.rng ^= stoull(nx()) * 0x9E3779B97F4A7C15ULL; else if (a == "-P") { std::string p = nx(); size_t e = p.find('='); X.params[p.substr(0, e)] = stoll(p.substr(e + 1)); } else bc = a; }
  double t0 = nowS(); LLVMContext C; SMDiagnostic E; auto M = parseIRFile(bc, E, C); if (!M) { E.print("sx", errs()); return 2; }
  X.load(M.get()); X.deadline = t0 + timeout; X.maxSamples = maxPer;
  State* s0 = X.initial(entry);
  if (!frontier) frontier = jobs <= 1 ? 1 : jobs * 24;
  // breadth-first until enough independent subtrees exist
  std::deque<State*> q; q.push_back(s0); Res R;
  auto stop = [&] { return X.stopFirst && !X.viol.empty(); };
  while (!q.empty() && (q.size() < frontier || jobs <= 1) && nowS() < X.deadline && !stop()) { // run one path segment: until it forks
    State* s = jobs <= 1 ? q.back() : q.front(); if (jobs <= 1) q.pop_back(); else q.pop_front();
    if (jobs <= 1) { X.run(s); } else {
      while (!s->dead && X.work.empty()) { if (s->th[s->cur].st.empty()) { X.threadEnded(*s); continue; } X.step(*s); if ((s->steps & 0x3fff) == 0) { if (s->steps > X.stepLimit) X.fail(*s, "hang", "no termination within the step bound"); if (nowS() > X.deadline) { X.inconclusive++; X.notes.insert("time budget exhausted"); s->dead = true; } } }
      if (s->dead) delete s; else q.push_back(s);
    }
    for (auto* w : X.work) q.push_back(w); X.work.clear();
  }
  if (jobs <= 1 && !q.empty() && !stop()) { X.inconclusive++; X.notes.insert("time budget exhausted"); }
  size_t frontierN = q.size();
  if (jobs > 1 && !q.empty() && !stop()) {
    std::vector<State*> fs(q.begin(), q.end());
    struct Sh { std::atomic<u64> next; std::atomic<int> stop; }; Sh* sh = (Sh*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Sh(); sh->next = 0; sh->stop = 0;
    std::string tmp = out == "-" ? "/tmp/sx." + std::to_string(getpid()) : out; std::vector<pid_t> pids; std::vector<std::string> files;
    { std::ofstream f(tmp + ".w"); dumpRes(X, f); f << "END\n"; } { std::ifstream f(tmp + ".w"); merge(R, f); } unlink((tmp + ".w").c_str());
    for (int j = 0; j < jobs; j++) {
      std::string fn = tmp + ".w" + std::to_string(j); files.push_back(fn); unlink(fn.c_str()); pid_t p = fork();
      if (p == 0) {
        X.paths = X.forks = X.instrs = X.asserts = X.assertsSolver = X.exits = X.assumeKilled = X.inconclusive = 0; X.sol.queries = X.sol.sat = X.sol.unsat = X.sol.unknown = X.sol.cacheHits = 0; X.sol.time = 0; X.samples.clear(); X.rng ^= (j + 1) * 0x9E3779B97F4A7C15ULL; for (auto& fp : X.funcs) for (auto& b : fp.second->bl) for (auto& d : b.is) d.visited = 0;
        if (!dumpf.empty()) { X.sol.dump = fopen((dumpf + "." + std::to_string(j)).c_str(), "w"); X.sol.dumpEvery = 7; X.sol.dumpMax = 60; }
        X.sol.reset();
        while (!sh->stop) { u64 i = sh->next++; if (i >= fs.size()) break; X.work.clear(); X.work.push_back(fs[i]);
          while (!X.work.empty()) { if (sh->stop) break; if (nowS() > X.deadline) { X.inconclusive++; X.notes.insert("time budget exhausted"); X.work.clear(); break; } State* s = X.work.back(); X.work.pop_back(); X.run(s); if (stop()) { sh->stop = 1; break; } } }
        if (X.sol.dump) fclose(X.sol.dump);
        std::ofstream f(fn); dumpRes(X, f); f << "END\n"; f.close(); _exit(0);
      }
      pids.push_back(p);
    }
    u64 before = R.n["workers_done"]; (void)before;
    for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { R.n["inconclusive"]++; R.notes.insert("a worker process died"); } }
    for (auto& f : files) { std::ifstream in(f); merge(R, in); unlink(f.c_str()); }
  } else {
    std::ostringstream os; dumpRes(X, os); std::istringstream is(os.str()); merge(R, is);
  }
  R.t["wall_s"] = nowS() - t0; R.n["frontier"] = frontierN;
  // reach tags the harness declares
  std::set<std::string> want; if (auto* f = M->getFunction("sx_reach")) for (auto* u : f->users()) if (auto* cb = dyn_cast<CallBase>(u)) { StringRef sr; if (cb->arg_size() && isa<Constant>(cb->getArgOperand(0))) if (auto* g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (g->hasInitializer()) if (auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) want.insert(cd->isCString() ? cd->getAsCString().str() : ""); }
  std::ostringstream o; o << "{\n";
  for (auto& p : R.n) o << js(p.first) << ": " << p.second << ",\n"; for (auto& p : R.t) o << js(p.first) << ": " << p.second << ",\n";
  auto arr = [&](const char* k, const std::set<std::string>& v) { o << js(k) << ": ["; bool f = true; for (auto& s : v) { o << (f ? "" : ", ") << js(s); f = false; } o << "],\n"; };
  arr("reached", R.reached); arr("reach_declared", want); arr("notes", R.notes); arr("unsupported", R.unsup); arr("known", R.known); arr("functions", R.fns); arr("lines", R.lines);
  o << "\"violations\": ["; bool f1 = true; std::set<std::string> vk;
  for (auto& v : R.viol) { if (!vk.insert(v.kind + v.msg + v.where).second) continue; o << (f1 ? "\n" : ",\n") << "{\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where) << ", \"uninit\": " << (v.uninit ? "true" : "false") << ", \"inputs\": ["; f1 = false; for (size_t i = 0; i < v.in.size(); i++) o << (i ? ", " : "") << "[" << js(v.in[i].name) << ", " << v.in[i].w << ", " << v.vals[i] << "]"; o << "]}"; }
  o << "],\n\"samples\": ["; f1 = true;
  for (auto& s : R.samples) { std::istringstream is(s); size_t n; is >> n; o << (f1 ? "\n" : ",\n") << "{\"inputs\": ["; f1 = false; for (size_t i = 0; i < n; i++) { std::string a; unsigned w; u64 v; is >> a >> w >> v; o << (i ? ", " : "") << "[" << js(ub64(a)) << ", " << w << ", " << v << "]"; } is >> n; o << "], \"obs\": ["; for (size_t i = 0; i < n; i++) { std::string a; u64 v; is >> a >> v; o << (i ? ", " : "") << "[" << js(ub64(a)) << ", " << v << "]"; } o << "]}"; }
  o << "]\n}\n";
  if (out == "-") std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
  fprintf(stderr, "sx: paths=%llu forks=%llu instrs=%llu queries=%llu solver=%.1fs wall=%.1fs viol=%zu inconclusive=%llu\n", (unsigned long long)R.n["paths"], (unsigned long long)R.n["forks"], (unsigned long long)R.n["instructions"], (unsigned long long)R.n["queries"], R.t["solver_s"], R.t["wall_s"], R.viol.size(), (unsigned long long)R.n["inconclusive"]);
  _exit(R.viol.empty() ? (R.n["inconclusive"] ? 2 : 0) : 1);
}
