// Symbolic interpreter for LLVM IR produced by rustc/clang.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <functional>
#include <deque>

struct Val { u64 lo = 0, hi = 0; Expr *e = nullptr; };
static inline Val cval(u64 x) { Val v; v.lo = x; return v; }
static inline u128 cv128(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
static inline Val mk128(u128 x) { Val v; v.lo = (u64)x; v.hi = (u64)(x >> 64); return v; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : C(cv128(v), w); }
static inline Val fromE(Expr *e) { if (isC(e)) return mk128(e->val); Val v; v.e = e; return v; }

enum KOp : uint8_t {
  K_BIN, K_FBIN, K_FNEG, K_ICMP, K_FCMP, K_SELECT, K_CAST, K_BITCAST, K_COPY, K_LOAD, K_STORE, K_GEP, K_ALLOCA,
  K_BR, K_CONDBR, K_SWITCH, K_RET, K_UNREACHABLE, K_CALL, K_INTRIN, K_EXTRACTELT, K_INSERTELT, K_SHUFFLE,
  K_RMW, K_CMPXCHG, K_EXTRACTVAL, K_INSERTVAL, K_FREEZE, K_NOP, K_UNSUPPORTED, K_LANDINGPAD, K_INDIRECTBR, K_VAARG
};
struct Leaf { uint32_t off; uint16_t w; };
struct Move { int dst, src; };
struct KEdge { uint32_t target = 0; std::vector<Move> moves; };
struct GepIdx { int op; int w; i64 scale; };
struct KFunc;
struct FuncRef;
struct KExtra {
  std::vector<Leaf> leaves, leaves2;
  std::vector<KEdge> edges;
  std::vector<u128> caseVals; // switch: case i -> edges[caseEdge[i]], default edges[0]
  std::vector<uint32_t> caseEdge;
  std::vector<GepIdx> gep; i64 gepConst = 0;
  std::vector<int> mask;
  FuncRef *callee = nullptr; // direct call
  unsigned iid = 0;
  u64 allocSize = 0;
  std::vector<std::pair<int, u64>> byvals; // argument slot index, size
  std::vector<unsigned> argw; // widths of argument slots
  std::string msg;
  bool asmNop = false;
};
struct KInst {
  KOp op; uint8_t sub = 0; uint16_t w = 0, w2 = 0; int dst = -1; uint16_t n = 1; // n lanes/slots
  int a = 0, b = 0, c = 0; // operand slots (negative: constant pool)
  std::vector<int> ops;
  KExtra *x = nullptr;
  unsigned line = 0;
};
struct KFunc {
  llvm::Function *F; std::string name, dem;
  std::vector<KInst> code; std::vector<Val> consts; unsigned nregs = 0, nargs = 0;
  std::vector<unsigned> retw;
  u64 hits = 0, instrs = 0;
  bool inRepo = false;
  struct Tls { int slot; uint32_t idx; u64 off; }; std::vector<Tls> tls; // registers holding thread-local addresses
};
struct Engine; struct State;
typedef std::function<void(Engine &, State &, KInst &, std::vector<Val> &, std::vector<Val> &)> Builtin;
struct FuncRef {
  std::string name, dem; llvm::Function *decl = nullptr; llvm::Function *def = nullptr; KFunc *k = nullptr; Builtin bi; bool resolved = false; u64 addr = 0;
};

struct Obj {
  uint32_t refs = 1; uint32_t size = 0; uint8_t kind = 0; bool ro = false; // kind: 0 global 1 heap 2 stack 3 freed
  uint8_t *data = nullptr; Expr **sym = nullptr;
  ~Obj() { free(data); free(sym); }
};
struct Page { uint32_t refs = 1; Obj *o[64] = {}; };
struct PageTable {
  std::vector<Page*> pages;
  PageTable() {}
  PageTable(const PageTable &t) : pages(t.pages) { for (auto *p : pages) if (p) p->refs++; }
  PageTable &operator=(const PageTable &) = delete;
  ~PageTable() { for (auto *p : pages) if (p) unref(p); }
  static void unref(Page *p) { if (--p->refs == 0) { for (auto *o : p->o) if (o && --o->refs == 0) delete o; delete p; } }
  Obj *get(uint32_t i) const { uint32_t k = i >> 6; if (k >= pages.size() || !pages[k]) return nullptr; return pages[k]->o[i & 63]; }
  Page *wpage(uint32_t i) {
    uint32_t k = i >> 6; if (k >= pages.size()) pages.resize(k + 16, nullptr);
    Page *&p = pages[k];
    if (!p) p = new Page();
    else if (p->refs > 1) { Page *q = new Page(); for (int j = 0; j < 64; j++) { q->o[j] = p->o[j]; if (q->o[j]) q->o[j]->refs++; } p->refs--; p = q; }
    return p;
  }
  void set(uint32_t i, Obj *o) { Page *p = wpage(i); Obj *&s = p->o[i & 63]; if (s && --s->refs == 0) delete s; s = o; }
  Obj *getW(uint32_t i) {
    Page *p = wpage(i); Obj *&s = p->o[i & 63];
    if (!s) return nullptr;
    if (s->refs > 1) {
      Obj *n = new Obj(); n->size = s->size; n->kind = s->kind; n->ro = s->ro;
      n->data = (uint8_t*)malloc(s->size ? s->size : 1); memcpy(n->data, s->data, s->size);
      if (s->sym) { n->sym = (Expr**)malloc(sizeof(Expr*) * s->size); memcpy(n->sym, s->sym, sizeof(Expr*) * s->size); }
      s->refs--; s = n;
    }
    return s;
  }
};
struct Frame { KFunc *fn; uint32_t pc = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; int retDst = -1; uint16_t retN = 0; std::vector<Val> va; };
struct Thread {
  std::vector<std::shared_ptr<Frame>> stack; // saved while not running
  enum { RUN, FUTEX, JOIN, DONE } st = RUN; u64 waitAddr = 0; bool timed = false; int joinOn = -1;
  std::map<uint32_t, u64> tls; // thread-local global index -> address of this thread's copy
};
struct State {
  u64 id; std::vector<std::shared_ptr<Frame>> stack;
  PageTable g, h; uint32_t nextHeap = 1; std::vector<uint32_t> freeIds;
  std::vector<Expr*> cons; std::unordered_map<Expr*, u64> facts;
  std::shared_ptr<Model> model;
  std::vector<Expr*> vars; // symbolic inputs in creation order
  std::vector<std::string> log; // sym_log trace
  u64 steps = 0; u64 forks = 0;
  std::set<std::string> covers;
  std::deque<Thread> threads; int cur = 0; int preempts = 0, resched = 0; u64 clock = 0; // threads[cur] is live in `stack`
};
enum EndKind { END_OK, END_ASSUME, END_VIOLATION, END_PANIC, END_ERROR, END_STOP, END_HANG };
struct PathEnd { EndKind kind; std::string msg; };
struct Violation { std::string kind, msg, where; std::vector<u64> values; std::vector<unsigned> widths; std::vector<std::string> log; std::vector<std::string> stack; };

struct Engine {
  llvm::LLVMContext ctx; std::vector<std::unique_ptr<llvm::Module>> mods;
  std::unordered_map<std::string, llvm::Function*> defs; std::unordered_map<std::string, llvm::GlobalVariable*> gdefs;
  std::unordered_map<std::string, llvm::GlobalAlias*> adefs;
  std::unordered_map<std::string, std::string> overrides; // symbol or demangled path -> harness symbol
  std::unordered_map<std::string, Builtin> builtins, builtinsDem;
  std::unordered_map<const llvm::Function*, FuncRef*> frefs; std::unordered_map<std::string, FuncRef*> frefByName;
  std::vector<FuncRef*> fAddrs;
  std::unordered_map<const llvm::GlobalVariable*, u64> gAddr; std::vector<llvm::GlobalVariable*> gByIdx; std::vector<Obj*> gInit;
  std::unordered_map<std::string, u64> extGlobals;
  Solver solver;
  std::deque<State*> work; u64 nextState = 1;
  // stats
  u64 instrs = 0, paths = 0, okPaths = 0, assumeEnds = 0, forks = 0, asserts = 0, assertsDischarged = 0; std::map<std::string, u64> covers;
  std::vector<Violation> viols; std::map<std::string, u64> errors; std::map<std::string, u64> symAsserts;
  u64 maxStates = 0; u64 maxSteps = 100000000; double timeLimit = 1e9; double startTime = 0; int maxViol = 1; bool trace = false; int jobs = 1; u64 maxPaths = 1ull << 60;
  std::vector<KFunc*> kfuncs;
  std::vector<std::string> repoPrefixes;
  bool stopAll = false;
  bool timedOut = false;
  u64 maxDepth = 0;
  Expr *symVar(State &S, unsigned w);
  std::map<std::pair<unsigned, unsigned>, Expr*> varCache;

  void loadModule(const std::string &path);
  FuncRef *fref(llvm::Function *F);
  FuncRef *frefNamed(const std::string &n);
  void resolve(FuncRef *r);
  KFunc *compile(FuncRef *r);
  u64 funcAddr(FuncRef *r);
  u64 globalAddr(llvm::GlobalVariable *G);
  Obj *initObj(uint32_t idx);
  void fillInit(Obj *o, u64 off, llvm::Constant *c, const llvm::DataLayout &DL);
  void evalConst(llvm::Constant *c, const llvm::DataLayout &DL, std::vector<Val> &out);
  // memory
  uint32_t allocId(State &S);
  u64 alloc(State &S, u64 size, uint8_t kind, bool zero);
  void dealloc(State &S, u64 addr, const char *what);
  const Obj *obj(State &S, u64 addr, u64 n, const char *what);
  Obj *objW(State &S, u64 addr, u64 n);
  Val loadC(State &S, u64 addr, unsigned w);
  void storeC(State &S, u64 addr, const Val &v, unsigned w);
  Val loadV(State &S, const Val &addr, unsigned w, u64 off);
  void copyMem(State &S, u64 d, u64 s, u64 n);
  void setMem(State &S, u64 d, const Val &v, u64 n);
  std::string cstr(State &S, u64 addr, u64 len);
  // solver-facing
  bool mayBe(State &S, Expr *c, std::shared_ptr<Model> *out);
  void addCons(State &S, Expr *c);
  Expr *known(State &S, Expr *e);
  bool decide(State &S, const Val &cond); // forks a re-executing sibling
  u64 concretize(State &S, const Val &v, unsigned w);
  State *clone(State &S);
  void switchTo(State &S, int t);
  void reschedule(State &S, bool mayStay); // pick another runnable thread
  int spawnThread(State &S, u64 fn, const Val &arg);
  std::unordered_map<uint32_t, char> tlsIdx; // indices of thread-local globals
  void initTls(State &S, int thread, Frame &f);
  int preemptBound = 0;
  bool preempt(State &S);
  void violation(State &S, const std::string &kind, const std::string &msg, std::shared_ptr<Model> m);
  void run(State *S);
  void explore();
  void start(const std::string &entry);
  void callFn(State &S, FuncRef *r, KInst &I, std::vector<Val> &args, int dst, int n);
  void intrinsic(State &S, Frame &fr, KInst &I);
  void setupBuiltins();
  void finishRet(State &S, KInst &I, std::vector<Val> &ret);
  std::string where(State &S);
  std::vector<std::string> backtrace(State &S);
};
std::string rustDemangle(const std::string &n);
unsigned slotCount(llvm::Type *t);
void leavesOf(llvm::Type *t, const llvm::DataLayout &DL, u64 off, std::vector<Leaf> &out);
