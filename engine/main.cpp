// symrs: bounded symbolic execution of Rust/C bitcode, deciding assertions with Z3.
#include "engine.h"
#include <fstream>
#include <sstream>
#include <iostream>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <atomic>
#include <llvm/IR/DerivedTypes.h>
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string hexs(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r.empty() ? "-" : r; }
static std::string unhex(const std::string &s) { if (s == "-") return ""; std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return r; }

struct Totals { double solverCpu = 0; };
static void dumpStats(Engine &E, std::ostream &o) {
  o << "stat instrs " << E.instrs << "\nstat paths " << E.paths << "\nstat okPaths " << E.okPaths << "\nstat assumeEnds " << E.assumeEnds << "\nstat forks " << E.forks << "\nstat asserts " << E.asserts << "\nstat dis " << E.assertsDischarged
    << "\nstat queries " << E.solver.st.queries << "\nstat z3calls " << E.solver.st.z3calls << "\nstat cache " << E.solver.st.cacheHits << "\nstat model " << E.solver.st.modelHits << "\nstat sat " << E.solver.st.sat << "\nstat unsat " << E.solver.st.unsat << "\nstat timedOut " << E.timedOut << "\nstat maxDepth " << E.maxDepth << "\n";
  o << "fstat z3time " << E.solver.st.z3time << "\nfstat maxq " << E.solver.st.maxq << "\n";
  for (auto &c : E.covers) o << "cover " << hexs(c.first) << " " << c.second << "\n";
  for (auto &c : E.symAsserts) o << "assert " << hexs(c.first) << " " << c.second << "\n";
  for (auto &c : E.errors) if (c.second) o << "error " << hexs(c.first) << " " << c.second << "\n";
  for (auto *k : E.kfuncs) if (k->hits || k->instrs) o << "func " << hexs(k->dem) << " " << k->instrs << "\n";
  for (auto &v : E.viols) {
    o << "viol " << hexs(v.kind) << " " << hexs(v.msg) << " " << hexs(v.where) << " " << v.values.size();
    for (size_t i = 0; i < v.values.size(); i++) o << " " << v.values[i] << " " << v.widths[i];
    o << " " << v.log.size(); for (auto &l : v.log) o << " " << hexs(l);
    o << " " << v.stack.size(); for (auto &l : v.stack) o << " " << hexs(l);
    o << "\n";
  }
}
struct Agg {
  std::map<std::string, u64> st; std::map<std::string, double> fst; std::map<std::string, u64> covers, errors, funcs, asserts; std::vector<Violation> viols;
  void read(std::istream &in) {
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream s(line); std::string k; s >> k;
      if (k == "stat") { std::string n; u64 v; s >> n >> v; if (n == "maxDepth") st[n] = std::max(st[n], v); else st[n] += v; }
      else if (k == "fstat") { std::string n; double v; s >> n >> v; if (n == "maxq") fst[n] = std::max(fst[n], v); else fst[n] += v; }
      else if (k == "cover") { std::string n; u64 v; s >> n >> v; covers[unhex(n)] += v; }
      else if (k == "assert") { std::string n; u64 v; s >> n >> v; asserts[unhex(n)] += v; }
      else if (k == "error") { std::string n; u64 v; s >> n >> v; errors[unhex(n)] += v; }
      else if (k == "func") { std::string n; u64 v; s >> n >> v; funcs[unhex(n)] += v; }
      else if (k == "viol") { Violation v; std::string a, b, c; size_t n; s >> a >> b >> c >> n; v.kind = unhex(a); v.msg = unhex(b); v.where = unhex(c);
        for (size_t i = 0; i < n; i++) { u64 x; unsigned w; s >> x >> w; v.values.push_back(x); v.widths.push_back(w); }
        size_t m; s >> m; for (size_t i = 0; i < m; i++) { std::string l; s >> l; v.log.push_back(unhex(l)); }
        s >> m; for (size_t i = 0; i < m; i++) { std::string l; s >> l; v.stack.push_back(unhex(l)); }
        viols.push_back(v); }
    }
  }
};
struct Shared { std::atomic<u64> next; std::atomic<int> stop; std::atomic<int> active; };

int main(int argc, char **argv) {
  Engine E; std::string entry, out, bcList, ovFile, tmpDir = "/tmp"; std::vector<std::string> bcs; int jobs = 1; u64 split = 0; bool quiet = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--bc-list") bcList = nx(); else if (a == "--bc") bcs.push_back(nx());
    else if (a == "--overrides") ovFile = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--split") split = atoll(nx().c_str());
    else if (a == "--time") E.timeLimit = atof(nx().c_str()); else if (a == "--max-viol") E.maxViol = atoi(nx().c_str()); else if (a == "--trace") E.trace = true;
    else if (a == "--max-steps") E.maxSteps = atoll(nx().c_str()); else if (a == "--rlimit") E.solver.rlimit = atoll(nx().c_str()); else if (a == "--tmp") tmpDir = nx();
    else if (a == "--dump-smt") { E.solver.dumpDir = nx(); } else if (a == "--dump-every") E.solver.dumpEvery = atoll(nx().c_str()); else if (a == "--quiet") quiet = true; else if (a == "--preempt") E.preemptBound = atoi(nx().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 64; }
  }
  if (!bcList.empty()) { std::ifstream f(bcList); std::string l; while (std::getline(f, l)) if (!l.empty()) bcs.push_back(l); }
  E.setupBuiltins();
  if (!ovFile.empty()) { std::ifstream f(ovFile); std::string l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; size_t p = l.find(" => "); if (p == std::string::npos) continue; E.overrides[l.substr(0, p)] = l.substr(p + 4); } }
  double t0 = now();
  for (auto &b : bcs) E.loadModule(b);
  // one word of storage for errno
  { auto *G = new llvm::GlobalVariable(*E.mods[0], llvm::Type::getInt64Ty(E.ctx), false, llvm::GlobalValue::InternalLinkage, llvm::ConstantInt::get(llvm::Type::getInt64Ty(E.ctx), 0), "errno$"); E.extGlobals["errno$"] = E.globalAddr(G); }
  double tl = now() - t0;
  // an entry "harness": call it from an empty frame
  FuncRef *r = E.frefNamed(entry); E.resolve(r); if (!r->def) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 65; }
  E.startTime = now();
  State *S = new State(); S->id = 0; S->model = std::make_shared<Model>();
  { auto f = std::make_shared<Frame>(); KFunc *k = E.compile(r); f->fn = k; f->regs.resize(k->nregs); k->hits++; S->threads.emplace_back(); E.initTls(*S, 0, *f); S->stack.push_back(f); }
  E.work.push_back(S);
  Agg G;
  {
    // Workers are processes. A worker with more than one pending state forks a new worker, which
    // takes half of them, whenever fewer than `jobs` are active.
    Shared *sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->stop = 0; sh->active = 1;
    std::string base = tmpDir + "/symrs." + std::to_string(getpid()) + "."; fflush(stdout); fflush(stderr);
    auto fresh = [&]() {
      E.instrs = E.paths = E.okPaths = E.assumeEnds = E.forks = E.asserts = E.assertsDischarged = 0; E.covers.clear(); E.errors.clear(); E.viols.clear(); E.symAsserts.clear(); for (auto *k : E.kfuncs) k->hits = k->instrs = 0;
      E.solver.st = SolverStats(); if (E.solver.ctx) E.solver.resetCtx(); E.timedOut = false;
    };
    pid_t root = fork();
    if (root == 0) {
      u64 me = sh->next.fetch_add(1); std::vector<pid_t> kids; double last = now();
      while (!E.work.empty()) {
        if (sh->stop) break;
        if (jobs > 1 && E.work.size() > 1 && sh->active.load() < jobs && now() - last > 0.02) {
          if (sh->active.fetch_add(1) >= jobs) sh->active.fetch_sub(1);
          else {
            pid_t p = fork();
            std::deque<State*> mine; size_t k = 0; for (auto *s : E.work) { if ((k++ & 1) == (p == 0 ? 0 : 1)) mine.push_back(s); else delete s; }
            E.work.swap(mine); last = now();
            if (p == 0) { fresh(); kids.clear(); me = sh->next.fetch_add(1); }
            else if (p < 0) { E.errors["fork failed"]++; sh->stop = 1; break; }
            else kids.push_back(p);
          }
        }
        State *s = E.work.back(); E.work.pop_back(); E.run(s); delete s;
        if (E.stopAll) { sh->stop = 1; break; }
        if (E.timedOut || now() - E.startTime > E.timeLimit) { E.timedOut = true; sh->stop = 1; break; }
      }
      std::string fn = base + std::to_string(me);
      { std::ofstream o(fn + ".tmp"); dumpStats(E, o); o << "done\n"; o.close(); rename((fn + ".tmp").c_str(), fn.c_str()); }
      sh->active.fetch_sub(1); int bad = 0;
      for (auto p : kids) { int stt = 0; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) bad = 1; }
      _exit(bad);
    }
    int stt = 0; waitpid(root, &stt, 0);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) G.errors["worker died (status " + std::to_string(stt) + ")"]++;
    u64 n = sh->next;
    for (u64 j = 0; j < n; j++) { std::string fn = base + std::to_string(j); std::ifstream f(fn); if (!f) G.errors["worker left no result"]++; else G.read(f); unlink(fn.c_str()); unlink((fn + ".tmp").c_str()); }
  }
  double wall = now() - t0;
  bool complete = !G.st["timedOut"] && G.errors.empty();
  std::ostringstream o;
  o << "{\"entry\":" << js(entry) << ",\"complete\":" << (complete ? "true" : "false") << ",\"timed_out\":" << (G.st["timedOut"] ? "true" : "false") << ",\"wall_s\":" << wall << ",\"load_s\":" << tl;
  for (auto &p : G.st) if (p.first != "timedOut") o << ",\"" << p.first << "\":" << p.second;
  for (auto &p : G.fst) o << ",\"" << p.first << "\":" << p.second;
  auto mp = [&](const char *n, std::map<std::string, u64> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &c : m) { if (!f) o << ","; f = false; o << js(c.first) << ":" << c.second; } o << "}"; };
  mp("covers", G.covers); mp("assertions", G.asserts); mp("errors", G.errors); mp("functions", G.funcs);
  o << ",\"violations\":[";
  for (size_t i = 0; i < G.viols.size(); i++) {
    auto &v = G.viols[i]; if (i) o << ",";
    o << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"values\":["; for (size_t j = 0; j < v.values.size(); j++) o << (j ? "," : "") << v.values[j];
    o << "],\"widths\":["; for (size_t j = 0; j < v.widths.size(); j++) o << (j ? "," : "") << v.widths[j];
    o << "],\"log\":["; for (size_t j = 0; j < v.log.size(); j++) o << (j ? "," : "") << js(v.log[j]);
    o << "],\"stack\":["; for (size_t j = 0; j < v.stack.size(); j++) o << (j ? "," : "") << js(v.stack[j]); o << "]}";
  }
  o << "]}\n";
  if (!out.empty()) { std::ofstream f(out); f << o.str(); }
  if (!quiet) {
    fprintf(stderr, "%s: paths=%llu ok=%llu instrs=%llu queries=%llu z3=%llu z3time=%.2f wall=%.2f (load %.2f) viol=%zu errors=%zu%s\n", entry.c_str(), (unsigned long long)G.st["paths"], (unsigned long long)G.st["okPaths"], (unsigned long long)G.st["instrs"], (unsigned long long)G.st["queries"], (unsigned long long)G.st["z3calls"], G.fst["z3time"], wall, tl, G.viols.size(), G.errors.size(), G.st["timedOut"] ? " TIMEOUT" : "");
    for (auto &e : G.errors) fprintf(stderr, "  error x%llu: %s\n", (unsigned long long)e.second, e.first.c_str());
    for (auto &v : G.viols) { fprintf(stderr, "  %s: %s in %s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str()); for (auto &l : v.log) fprintf(stderr, "     log: %s\n", l.c_str()); }
  }
  _exit(0);
}
