// Execution of lowered code on symbolic states.
#include "engine.h"
#include <cmath>
#include <unistd.h>
#include <sys/time.h>
using namespace llvm;
static double now() { struct timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
[[noreturn]] static void err(const std::string &m) { throw PathEnd{END_ERROR, m}; }

// ---------------------------------------------------------------- memory
static const uint32_t HEAP0 = 1u << 20;
uint32_t Engine::allocId(State &S) {
  if (!S.freeIds.empty()) { uint32_t i = S.freeIds.back(); S.freeIds.pop_back(); return i; }
  if (S.nextHeap >= 0x3f000000u) err("out of object ids");
  return S.nextHeap++;
}
u64 Engine::alloc(State &S, u64 size, uint8_t kind, bool zero) {
  if (size > (1u << 30)) err("huge allocation");
  uint32_t id = allocId(S); Obj *o = new Obj(); o->size = size; o->kind = kind;
  o->data = (uint8_t*)(zero ? calloc(1, size ? size : 1) : malloc(size ? size : 1));
  if (!zero && size) memset(o->data, 0xAA, size);
  S.h.set(id, o);
  return (u64)(id + HEAP0) << 32;
}
void Engine::dealloc(State &S, u64 addr, const char *what) {
  if ((uint32_t)addr != 0) err(std::string("free of interior pointer in ") + what);
  uint32_t id = addr >> 32; if (id < HEAP0) err(std::string("free of non-heap pointer in ") + what);
  id -= HEAP0; Obj *o = S.h.get(id); if (!o) err(std::string("double free in ") + what);
  S.h.set(id, nullptr); S.freeIds.push_back(id);
}
const Obj *Engine::obj(State &S, u64 addr, u64 n, const char *what) {
  uint32_t id = addr >> 32; u64 off = (uint32_t)addr; const Obj *o;
  if (id >= HEAP0) o = S.h.get(id - HEAP0);
  else { o = S.g.get(id); if (!o) o = initObj(id); }
  if (!o || off + n > o->size) {
    char b[128]; snprintf(b, sizeof b, "invalid %s of %llu bytes at %llx (%s)", what, (unsigned long long)n, (unsigned long long)addr, o ? "out of bounds" : "no object");
    err(b);
  }
  return o;
}
Obj *Engine::objW(State &S, u64 addr, u64 n) {
  uint32_t id = addr >> 32; u64 off = (uint32_t)addr; Obj *o;
  if (id >= HEAP0) o = S.h.get(id - HEAP0) ? S.h.getW(id - HEAP0) : nullptr;
  else {
    o = S.g.get(id);
    if (o) o = S.g.getW(id);
    else if (Obj *in = initObj(id)) {
      if (in->ro) err("write to constant");
      Obj *c = new Obj(); c->size = in->size; c->data = (uint8_t*)malloc(in->size ? in->size : 1); memcpy(c->data, in->data, in->size);
      S.g.set(id, c); o = c;
    }
  }
  if (!o || off + n > o->size) {
    char b[128]; snprintf(b, sizeof b, "invalid store of %llu bytes at %llx (%s)", (unsigned long long)n, (unsigned long long)addr, o ? "out of bounds" : "no object");
    err(b);
  }
  return o;
}
static Val readBytes(const Obj *o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8; bool sym = false;
  if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
  if (!sym) {
    Val v; if (n <= 8) { u64 x = 0; memcpy(&x, o->data + off, n); v.lo = w < 64 ? x & (((u64)1 << w) - 1) : x; }
    else { u128 x = 0; memcpy(&x, o->data + off, n); x &= maskw(w); v = mk128(x); }
    return v;
  }
  Expr *e = nullptr;
  for (unsigned i = 0; i < n; i++) { Expr *b = o->sym[off + i] ? o->sym[off + i] : C(o->data[off + i], 8); e = e ? mkConcat(b, e) : b; }
  if (e->w > w) e = mkExtract(e, 0, w);
  return fromE(e);
}
Val Engine::loadC(State &S, u64 addr, unsigned w) { const Obj *o = obj(S, addr, (w + 7) / 8, "load"); return readBytes(o, (uint32_t)addr, w); }
void Engine::storeC(State &S, u64 addr, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8; Obj *o = objW(S, addr, n); u64 off = (uint32_t)addr;
  if (!v.e) {
    if (n <= 8) memcpy(o->data + off, &v.lo, n); else { u128 x = cv128(v); memcpy(o->data + off, &x, n); }
    if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  if (!o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*));
  Expr *e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Expr *b = mkExtract(e, i * 8, 8);
    if (isC(b)) { o->data[off + i] = (uint8_t)b->val; o->sym[off + i] = nullptr; } else o->sym[off + i] = b;
  }
}
static unsigned trailZ(Expr *e) {
  switch (e->op) {
  case E_CONST: return e->val ? (u64)e->val ? __builtin_ctzll((u64)e->val) : 64 : e->w;
  case E_CONCAT: { unsigned t = trailZ(e->b); return t == e->b->w ? t + trailZ(e->a) : t; }
  case E_ZEXT: case E_SEXT: { unsigned t = trailZ(e->a); return t; }
  case E_ADD: case E_SUB: case E_OR: case E_XOR: return std::min(trailZ(e->a), trailZ(e->b));
  case E_MUL: return std::min<unsigned>(e->w, trailZ(e->a) + trailZ(e->b));
  case E_ITE: return std::min(trailZ(e->b), trailZ(e->c));
  case E_AND: return std::max(trailZ(e->a), trailZ(e->b));
  default: return 0;
  }
}
Val Engine::loadV(State &S, const Val &addr, unsigned w, u64 off) {
  if (!addr.e) return loadC(S, addr.lo + off, w);
  Expr *a = addr.e; if (off) a = mkBin(E_ADD, C(off, 64), a);
  Expr *kn = known(S, a); if (isC(kn)) return loadC(S, (u64)kn->val, w);
  unsigned n = (w + 7) / 8;
  u64 cur = (u64)evalExpr(a, *S.model); u64 base = cur & ~0xffffffffull;
  uint32_t id = base >> 32; const Obj *o = id >= HEAP0 ? S.h.get(id - HEAP0) : (S.g.get(id) ? S.g.get(id) : initObj(id));
  if (o && o->size >= n) {
    Expr *rel = mkBin(E_SUB, a, C(base, 64));
    Expr *oob = mkNot(mkBin(E_ULE, rel, C(o->size - n, 64)));
    if (!mayBe(S, oob, nullptr)) {
      unsigned tz = std::min(trailZ(rel), 12u); u64 stride = 1ull << tz;
      u64 cnt = (o->size - n) / stride + 1;
      if (cnt <= 512) {
        // runs of equal values become one comparison
        Expr *acc = nullptr; Expr *runv = nullptr;
        for (u64 k = cnt; k-- > 0;) {
          Expr *v = toE(readBytes(o, k * stride, w), w);
          if (!acc) { acc = v; runv = v; continue; }
          if (v == runv) continue;
          acc = mkIte(mkBin(E_ULE, rel, C(k * stride, 64)), v, acc); // provisional: entries <= k take v, refined by lower k
          runv = v;
        }
        return fromE(acc);
      }
    }
  }
  u64 c = concretize(S, fromE(a), 64);
  return loadC(S, c, w);
}
void Engine::copyMem(State &S, u64 d, u64 s, u64 n) {
  if (!n) return;
  const Obj *so = obj(S, s, n, "copy source"); u64 soff = (uint32_t)s;
  if ((d >> 32) == (s >> 32)) {
    std::vector<uint8_t> tmp(so->data + soff, so->data + soff + n); std::vector<Expr*> ts;
    if (so->sym) ts.assign(so->sym + soff, so->sym + soff + n);
    Obj *o = objW(S, d, n); memcpy(o->data + (uint32_t)d, tmp.data(), n);
    if (o->sym) memcpy(o->sym + (uint32_t)d, ts.data(), n * sizeof(Expr*));
    return;
  }
  Obj *o = objW(S, d, n); so = obj(S, s, n, "copy source");
  memcpy(o->data + (uint32_t)d, so->data + soff, n);
  if (so->sym) {
    if (!o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*));
    memcpy(o->sym + (uint32_t)d, so->sym + soff, n * sizeof(Expr*));
  } else if (o->sym) memset(o->sym + (uint32_t)d, 0, n * sizeof(Expr*));
}
void Engine::setMem(State &S, u64 d, const Val &v, u64 n) {
  if (!n) return;
  Obj *o = objW(S, d, n); u64 off = (uint32_t)d;
  if (!v.e) { memset(o->data + off, (int)v.lo, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*)); return; }
  if (!o->sym) o->sym = (Expr**)calloc(o->size, sizeof(Expr*));
  for (u64 i = 0; i < n; i++) o->sym[off + i] = v.e;
}
std::string Engine::cstr(State &S, u64 addr, u64 len) {
  std::string r;
  if (len == 0) return r;
  if (len == ~0ull) { for (u64 i = 0; i < 4096; i++) { Val b = loadC(S, addr + i, 8); u64 c = b.e ? (u64)evalExpr(b.e, *S.model) : b.lo; if (!c) break; r += (char)c; } return r; }
  const Obj *o = obj(S, addr, len, "string");
  for (u64 i = 0; i < len && i < 65536; i++) { Expr *e = o->sym ? o->sym[(uint32_t)addr + i] : nullptr; r += e ? (char)evalExpr(e, *S.model) : (char)o->data[(uint32_t)addr + i]; }
  return r;
}

// ---------------------------------------------------------------- constraints
Expr *Engine::known(State &S, Expr *e) {
  if (isC(e)) return e;
  auto it = S.facts.find(e);
  if (it != S.facts.end()) return C(it->second, e->w);
  if (e->w == 1 && e->op == E_NOT) { it = S.facts.find(e->a); if (it != S.facts.end()) return C(!it->second, 1); }
  if (e->w == 1 && e->op == E_EQ && isC(e->a)) { it = S.facts.find(e->b); if (it != S.facts.end()) return C(it->second == (u64)e->a->val, 1); }
  return e;
}
static void slice(const std::vector<Expr*> &cons, Expr *q, std::vector<Expr*> &out) {
  std::vector<u64> vs = q->vs->bits; std::vector<char> in(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) if (!in[i]) {
      auto &b = cons[i]->vs->bits; bool hit = false; size_t m = std::min(b.size(), vs.size());
      for (size_t k = 0; k < m; k++) if (b[k] & vs[k]) { hit = true; break; }
      if (hit) {
        in[i] = 1; out.push_back(cons[i]);
        if (vs.size() < b.size()) vs.resize(b.size(), 0);
        for (size_t k = 0; k < b.size(); k++) if (b[k] & ~vs[k]) { vs[k] |= b[k]; ch = true; }
      }
    }
  }
}
bool Engine::mayBe(State &S, Expr *c, std::shared_ptr<Model> *out) {
  if (isC(c)) { if (c->val && out) *out = S.model; return c->val; }
  if (evalExpr(c, *S.model)) { if (out) *out = S.model; return true; }
  std::vector<Expr*> cs; slice(S.cons, c, cs); cs.push_back(c);
  std::shared_ptr<Model> m; bool r;
  try { r = solver.check(cs, S.model, m); } catch (SolverUnknown &u) { err("solver gave up: " + u.why); }
  if (r && out) *out = m;
  return r;
}
void Engine::addCons(State &S, Expr *c) {
  if (isC(c)) return;
  if (c->op == E_AND && c->w == 1) { addCons(S, c->a); addCons(S, c->b); return; }
  auto f = S.facts.find(c); if (f != S.facts.end() && f->second == 1) return;
  S.cons.push_back(c); S.facts[c] = 1;
  if (c->op == E_NOT) S.facts[c->a] = 0;
  if (c->op == E_EQ && isC(c->a) && c->b->w <= 64) {
    S.facts[c->b] = (u64)c->a->val;
    Expr *x = c->b; u64 v = (u64)c->a->val;
    while (x->op == E_ZEXT || x->op == E_SEXT) { x = x->a; v &= (u64)maskw(x->w); S.facts[x] = v; }
    S.facts[mkZext(x, 64)] = v & (u64)maskw(x->w);
    if (x->w < 32) S.facts[mkZext(x, 32)] = v & (u64)maskw(x->w);
  }
}
State *Engine::clone(State &S) { State *n = new State(S); n->stack.back() = std::make_shared<Frame>(*n->stack.back()); n->id = nextState++; forks++; return n; }
bool Engine::decide(State &S, const Val &cond) {
  if (!cond.e) return cond.lo & 1;
  Expr *c = known(S, cond.e); if (isC(c)) return c->val;
  bool v = evalExpr(c, *S.model) != 0;
  Expr *other = v ? mkNot(c) : c; std::shared_ptr<Model> m;
  if (mayBe(S, other, &m)) {
    State *n = clone(S); addCons(*n, other); n->facts[c] = !v; n->model = m; work.push_back(n);
    addCons(S, v ? c : mkNot(c));
  }
  S.facts[c] = v;
  return v;
}
u64 Engine::concretize(State &S, const Val &v, unsigned w) {
  if (!v.e) return v.lo;
  Expr *e = known(S, v.e); if (isC(e)) return (u64)e->val;
  u64 x = (u64)evalExpr(e, *S.model);
  Expr *eq = mkEq(C(x, e->w), e); std::shared_ptr<Model> m;
  if (mayBe(S, mkNot(eq), &m)) { State *n = clone(S); addCons(*n, mkNot(eq)); n->model = m; work.push_back(n); addCons(S, eq); }
  S.facts[e] = x;
  return x;
}
Expr *Engine::symVar(State &S, unsigned w) {
  unsigned k = S.vars.size(); auto key = std::make_pair(k, w); auto it = varCache.find(key); Expr *e;
  if (it == varCache.end()) { e = P.newVar("in" + std::to_string(k) + "_" + std::to_string(w), w); varCache[key] = e; } else e = it->second;
  S.vars.push_back(e);
  return e;
}
std::vector<std::string> Engine::backtrace(State &S) {
  std::vector<std::string> r;
  for (size_t i = S.stack.size(); i-- > 0 && r.size() < 40;) r.push_back(S.stack[i]->fn->dem);
  return r;
}
std::string Engine::where(State &S) { return S.stack.empty() ? "" : S.stack.back()->fn->dem; }
void Engine::violation(State &S, const std::string &kind, const std::string &msg, std::shared_ptr<Model> m) {
  Violation v; v.kind = kind; v.msg = msg; v.where = where(S); v.stack = backtrace(S);
  for (Expr *e : S.vars) { v.values.push_back(m->get(e->aux) & (u64)maskw(e->w)); v.widths.push_back(e->w); }
  v.log = S.log;
  viols.push_back(v);
  if ((int)viols.size() >= maxViol) stopAll = true;
}

// ---------------------------------------------------------------- threads (cooperative)
void Engine::switchTo(State &S, int t) {
  if (t == S.cur) return;
  Thread &o = S.threads[S.cur], &n = S.threads[t];
  o.stack.swap(S.stack); S.stack.clear();
  S.stack.swap(n.stack); n.stack.clear(); S.cur = t;
}
void Engine::initTls(State &S, int thread, Frame &f) {
  for (auto &t : f.fn->tls) {
    u64 base = (u64)t.idx << 32;
    if (thread != 0) {
      auto &m = S.threads[thread].tls; auto it = m.find(t.idx);
      if (it == m.end()) { Obj *in = initObj(t.idx); base = alloc(S, in->size, 1, true); Obj *o = objW(S, base, 0); memcpy(o->data, in->data, in->size); m[t.idx] = base; }
      else base = it->second;
    }
    f.regs[t.slot] = cval(base + t.off);
  }
}
void Engine::reschedule(State &S, bool mayStay) {
  int n = S.threads.size();
  for (int pass = 0; pass < 2; pass++) {
    for (int d = 1; d <= n; d++) {
      int t = (S.cur + d) % n; Thread &T = S.threads[t];
      if (T.st == Thread::JOIN && S.threads[T.joinOn].st == Thread::DONE) T.st = Thread::RUN;
      if (T.st == Thread::RUN && (t != S.cur || mayStay)) { switchTo(S, t); return; }
    }
    // nothing can run: a timed wait expires
    for (int d = 1; d <= n && pass == 0; d++) { int t = (S.cur + d) % n; Thread &T = S.threads[t]; if (T.st == Thread::FUTEX && T.timed) { T.st = Thread::RUN; T.waitAddr = 0; S.clock += 3600; mayStay = true; break; } }
  }
  throw PathEnd{END_HANG, "deadlock: every thread is blocked"};
}
int Engine::spawnThread(State &S, u64 fnp, const Val &arg) {
  uint32_t ix = fnp >> 32; if (ix <= 0x40000000u || ix - 0x40000001u >= fAddrs.size()) err("thread start address");
  FuncRef *r = fAddrs[ix - 0x40000001u]; resolve(r); if (!r->def) err("thread start function");
  KFunc *k = compile(r); auto f = std::make_shared<Frame>(); f->fn = k; f->regs.resize(k->nregs); f->regs[0] = arg;
  S.threads.emplace_back(); initTls(S, S.threads.size() - 1, *f); S.threads.back().stack.push_back(f);
  return S.threads.size() - 1;
}
// A point where another thread may take over; which one is a symbolic choice.
bool Engine::preempt(State &S) {
  if (S.threads.size() < 2 || S.preempts >= preemptBound) return false;
  int n = S.threads.size(); bool any = false;
  for (int t = 0; t < n; t++) {
    if (t == S.cur || S.threads[t].st != Thread::RUN) continue;
    State *c = clone(S); c->preempts++; c->log.push_back("schedule: thread " + std::to_string(S.cur) + " -> " + std::to_string(t)); switchTo(*c, t); work.push_back(c); any = true;
  }
  return any;
}

// ---------------------------------------------------------------- interpreter
void Engine::finishRet(State &S, KInst &I, std::vector<Val> &ret) {
  Frame &f = *S.stack.back();
  if (I.dst >= 0) for (size_t i = 0; i < ret.size() && i < I.n; i++) f.regs[I.dst + i] = ret[i];
}
void Engine::callFn(State &S, FuncRef *r, KInst &I, std::vector<Val> &args, int dst, int n) {
  resolve(r);
  if (r->bi) {
    std::vector<Val> ret; r->bi(*this, S, I, args, ret);
    finishRet(S, I, ret);
    S.stack.back()->pc++;
    if (S.resched) { bool stay = S.resched == 2; S.resched = 0; reschedule(S, stay); }
    return;
  }
  if (!r->def) err("call to unmodelled function " + r->dem);
  KFunc *k = compile(r);
  if (S.stack.size() > 4000) err("stack overflow in " + r->dem);
  auto f = std::make_shared<Frame>(); f->fn = k; f->regs.resize(k->nregs); f->retDst = dst; f->retN = n;
  for (size_t i = 0; i < k->nargs && i < args.size(); i++) f->regs[i] = args[i];
  if (args.size() > k->nargs) f->va.assign(args.begin() + k->nargs, args.end());
  k->hits++; if (!k->tls.empty()) initTls(S, S.cur, *f);
  S.stack.push_back(f);
  if (S.stack.size() > maxDepth) maxDepth = S.stack.size();
  if (S.stack.size() > 20000) throw PathEnd{END_HANG, "recursion deeper than 20000 calls"};
}
template <class T> static T asf(const Val &v);
template <> float asf<float>(const Val &v) { float f; uint32_t x = v.lo; memcpy(&f, &x, 4); return f; }
template <> double asf<double>(const Val &v) { double f; memcpy(&f, &v.lo, 8); return f; }
static Val ff(double d, unsigned w) { Val v; if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); v.lo = x; } else memcpy(&v.lo, &d, 8); return v; }
static double fin(const Val &v, unsigned w) { if (v.e) err("symbolic floating point"); return w == 32 ? asf<float>(v) : asf<double>(v); }

static Val doBin(EOp op, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    if (w <= 64) {
      u64 m = w == 64 ? ~0ull : ((1ull << w) - 1);
      switch (op) {
      case E_ADD: return cval((a.lo + b.lo) & m); case E_SUB: return cval((a.lo - b.lo) & m); case E_MUL: return cval((a.lo * b.lo) & m);
      case E_AND: return cval(a.lo & b.lo); case E_OR: return cval(a.lo | b.lo); case E_XOR: return cval(a.lo ^ b.lo);
      case E_SHL: return cval(b.lo >= w ? 0 : (a.lo << b.lo) & m); case E_LSHR: return cval(b.lo >= w ? 0 : a.lo >> b.lo);
      default: break;
      }
    }
    if ((op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) && cv128(b) == 0) err("division by zero");
    return mk128(foldBin(op, w, cv128(a), cv128(b)));
  }
  return fromE(mkBin(op, toE(a, w), toE(b, w)));
}
static Val doICmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    i64 sa = w == 64 ? (i64)a.lo : (i64)(a.lo << (64 - w)) >> (64 - w), sb = w == 64 ? (i64)b.lo : (i64)(b.lo << (64 - w)) >> (64 - w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return cval(a.lo == b.lo); case CmpInst::ICMP_NE: return cval(a.lo != b.lo);
    case CmpInst::ICMP_UGT: return cval(a.lo > b.lo); case CmpInst::ICMP_UGE: return cval(a.lo >= b.lo);
    case CmpInst::ICMP_ULT: return cval(a.lo < b.lo); case CmpInst::ICMP_ULE: return cval(a.lo <= b.lo);
    case CmpInst::ICMP_SGT: return cval(sa > sb); case CmpInst::ICMP_SGE: return cval(sa >= sb);
    case CmpInst::ICMP_SLT: return cval(sa < sb); case CmpInst::ICMP_SLE: return cval(sa <= sb);
    }
  }
  Expr *x = toE(a, w), *y = toE(b, w);
  switch (pred) {
  case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
  case CmpInst::ICMP_UGT: return fromE(mkBin(E_ULT, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(E_ULE, y, x));
  case CmpInst::ICMP_ULT: return fromE(mkBin(E_ULT, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(E_ULE, x, y));
  case CmpInst::ICMP_SGT: return fromE(mkBin(E_SLT, y, x)); case CmpInst::ICMP_SGE: return fromE(mkBin(E_SLE, y, x));
  case CmpInst::ICMP_SLT: return fromE(mkBin(E_SLT, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(E_SLE, x, y));
  }
  err("icmp predicate");
}
static Val doCast(unsigned op, const Val &a, unsigned sw, unsigned w) {
  switch (op) {
  case Instruction::Trunc: if (!a.e) return w <= 64 ? cval(w == 64 ? a.lo : a.lo & ((1ull << w) - 1)) : mk128(cv128(a) & maskw(w)); return fromE(mkExtract(a.e, 0, w));
  case Instruction::ZExt: if (!a.e) return a; return fromE(mkZext(a.e, w));
  case Instruction::SExt: if (!a.e) return mk128((u128)sext128(cv128(a), sw) & maskw(w)); return fromE(mkSext(a.e, w));
  case Instruction::FPExt: case Instruction::FPTrunc: return ff(fin(a, sw), w);
  case Instruction::SIToFP: if (a.e) err("symbolic sitofp"); return ff((double)(i64)sext128(cv128(a), sw), w);
  case Instruction::UIToFP: if (a.e) err("symbolic uitofp"); return w == 32 ? ff((float)a.lo, w) : ff((double)a.lo, w);
  case Instruction::FPToSI: { double d = fin(a, sw); return cval((u64)(i64)d & (u64)maskw(w)); }
  case Instruction::FPToUI: { double d = fin(a, sw); return cval((u64)d & (u64)maskw(w)); }
  }
  err("cast");
}
static void takeEdge(Frame &fr, KEdge &e) {
  size_t n = e.moves.size();
  Val *R = fr.regs.data(); Val *K = fr.fn->consts.data();
  if (n == 1) { auto &m = e.moves[0]; R[m.dst] = m.src >= 0 ? R[m.src] : K[~m.src]; }
  else if (n) {
    Val buf[32]; std::vector<Val> big; Val *t = buf; if (n > 32) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) { int s = e.moves[i].src; t[i] = s >= 0 ? R[s] : K[~s]; }
    for (size_t i = 0; i < n; i++) R[e.moves[i].dst] = t[i];
  }
  fr.pc = e.target;
}
static inline Frame &wtop(State &S) {
  auto &p = S.stack.back();
  if (p.use_count() > 1) p = std::make_shared<Frame>(*p);
  return *p;
}

void Engine::run(State *Sp) {
  State &S = *Sp;
  try {
    u64 tick = 0;
    while (true) {
      Frame &fr = wtop(S);
      KFunc *fn = fr.fn; 
      // inner loop: stays in this frame until the frame or state changes
      bool again = true;
      while (again) {
        KInst &I = fn->code[fr.pc]; Val *R = fr.regs.data(); Val *K = fn->consts.data();
#define OP(s) ((s) >= 0 ? R[s] : K[~(s)])
#define OPI(s, i) ((s) >= 0 ? R[(s) + (i)] : K[~(s) + (i)])
        instrs++; fn->instrs++;
        if (++S.steps > maxSteps) throw PathEnd{END_HANG, "no end after " + std::to_string(maxSteps) + " steps"};
        if ((++tick & 0xfffff) == 0) { if (now() - startTime > timeLimit) { timedOut = true; throw PathEnd{END_STOP, "time"}; } }
        if (trace) { std::string s; fprintf(stderr, "[%zu] %s @%u op%d\n", S.stack.size(), fn->dem.c_str(), fr.pc, I.op); }
        switch (I.op) {
        case K_BIN:
          if ((I.sub == E_UDIV || I.sub == E_SDIV || I.sub == E_UREM || I.sub == E_SREM)) for (int i = 0; i < I.n; i++) { const Val &d = OPI(I.b, i); if (d.e) { if (decide(S, fromE(mkEq(C(0, I.w), d.e)))) err("division by zero"); } }
          if (I.n == 1) { R[I.dst] = doBin((EOp)I.sub, OP(I.a), OP(I.b), I.w); }
          else for (int i = 0; i < I.n; i++) R[I.dst + i] = doBin((EOp)I.sub, OPI(I.a, i), OPI(I.b, i), I.w);
          fr.pc++; break;
        case K_ICMP:
          if (I.n == 1) R[I.dst] = doICmp(I.sub, OP(I.a), OP(I.b), I.w);
          else for (int i = 0; i < I.n; i++) R[I.dst + i] = doICmp(I.sub, OPI(I.a, i), OPI(I.b, i), I.w);
          fr.pc++; break;
        case K_FBIN: for (int i = 0; i < I.n; i++) {
            double x = fin(OPI(I.a, i), I.w), y = fin(OPI(I.b, i), I.w), z;
            switch (I.w2) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: z = fmod(x, y); break; }
            R[I.dst + i] = ff(z, I.w); }
          fr.pc++; break;
        case K_FNEG: for (int i = 0; i < I.n; i++) R[I.dst + i] = ff(-fin(OPI(I.a, i), I.w), I.w); fr.pc++; break;
        case K_FCMP: for (int i = 0; i < I.n; i++) {
            double x = fin(OPI(I.a, i), I.w), y = fin(OPI(I.b, i), I.w); bool un = std::isnan(x) || std::isnan(y), r = false;
            switch (I.sub) {
            case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; }
            R[I.dst + i] = cval(r); }
          fr.pc++; break;
        case K_SELECT: {
          if (!I.sub) {
            Val c = OP(I.a); if (c.e) c = fromE(known(S, c.e));
            if (!c.e) { int s = (c.lo & 1) ? I.b : I.c; for (int i = 0; i < I.n; i++) { Val t = OPI(s, i); R[I.dst + i] = t; } }
            else for (int i = 0; i < I.n; i++) { unsigned w = I.x->leaves[i].w; R[I.dst + i] = fromE(mkIte(c.e, toE(OPI(I.b, i), w), toE(OPI(I.c, i), w))); }
          } else for (int i = 0; i < I.n; i++) {
            Val c = OPI(I.a, i); unsigned w = I.x->leaves[i].w;
            if (!c.e) R[I.dst + i] = (c.lo & 1) ? OPI(I.b, i) : OPI(I.c, i); else R[I.dst + i] = fromE(mkIte(c.e, toE(OPI(I.b, i), w), toE(OPI(I.c, i), w)));
          }
          fr.pc++; break; }
        case K_CAST: for (int i = 0; i < I.n; i++) R[I.dst + i] = doCast(I.sub, OPI(I.a, i), I.w2, I.w); fr.pc++; break;
        case K_COPY: if (I.n == 1) R[I.dst] = OP(I.a); else for (int i = 0; i < I.n; i++) R[I.dst + i] = OPI(I.a, i); fr.pc++; break;
        case K_BITCAST: {
          unsigned sn = I.c, sw = I.w2, dn = I.n, dw = I.w;
          // bit i of the whole value lives in lane i / lanewidth
          std::vector<Val> out;
          if (dw >= sw && dw % sw == 0) { // merge
            unsigned per = dw / sw;
            for (unsigned d = 0; d < dn; d++) {
              bool sym = false; for (unsigned j = 0; j < per; j++) if (OPI(I.a, (int)(d * per + j)).e) sym = true;
              if (!sym) { u128 x = 0; for (unsigned j = 0; j < per; j++) x |= cv128(OPI(I.a, (int)(d * per + j))) << (j * sw); out.push_back(mk128(x)); }
              else { Expr *e = nullptr; for (unsigned j = 0; j < per; j++) { Expr *b = toE(OPI(I.a, (int)(d * per + j)), sw); e = e ? mkConcat(b, e) : b; } out.push_back(fromE(e)); }
            }
          } else if (sw % dw == 0) {
            unsigned per = sw / dw;
            for (unsigned s = 0; s < sn; s++) for (unsigned j = 0; j < per; j++) { const Val &v = OPI(I.a, (int)s); if (v.e) out.push_back(fromE(mkExtract(v.e, j * dw, dw))); else out.push_back(mk128((cv128(v) >> (j * dw)) & maskw(dw))); }
          } else err("bitcast shape");
          for (unsigned i = 0; i < dn; i++) R[I.dst + i] = out[i];
          fr.pc++; break; }
        case K_LOAD: {
          const Val a = OP(I.a); auto &lv = I.x->leaves;
          if (!a.e) {
            if (lv.size() == 1) R[I.dst] = loadC(S, a.lo, lv[0].w);
            else for (size_t i = 0; i < lv.size(); i++) R[I.dst + i] = loadC(S, a.lo + lv[i].off, lv[i].w);
          } else { std::vector<Val> t; for (size_t i = 0; i < lv.size(); i++) t.push_back(loadV(S, a, lv[i].w, lv[i].off)); for (size_t i = 0; i < lv.size(); i++) R[I.dst + i] = t[i]; }
          fr.pc++; break; }
        case K_STORE: {
          const Val a = OP(I.a); u64 ad = a.e ? concretize(S, a, 64) : a.lo; auto &lv = I.x->leaves;
          for (size_t i = 0; i < lv.size(); i++) storeC(S, ad + lv[i].off, OPI(I.b, (int)i), lv[i].w);
          fr.pc++; break; }
        case K_GEP: {
          Val b = OP(I.a); 
          if (!b.e) b.lo += I.x->gepConst; else if (I.x->gepConst) b = fromE(mkBin(E_ADD, C((u64)I.x->gepConst, 64), b.e));
          for (auto &g : I.x->gep) {
            const Val &ix = OP(g.op);
            if (!ix.e && !b.e) { i64 x = g.w == 64 ? (i64)ix.lo : (i64)sext128(ix.lo, g.w); b.lo += (u64)(x * g.scale); }
            else { Expr *e = toE(ix, g.w); if (g.w < 64) e = mkSext(e, 64); else if (g.w > 64) e = mkExtract(e, 0, 64);
              Expr *sc; u64 s = g.scale; if (s && (s & (s - 1)) == 0) sc = mkBin(E_SHL, e, C(__builtin_ctzll(s), 64)); else sc = mkBin(E_MUL, C(s, 64), e);
              b = fromE(mkBin(E_ADD, toE(b, 64), sc)); }
          }
          R[I.dst] = b; fr.pc++; break; }
        case K_ALLOCA: { Val n = OP(I.a); u64 c = concretize(S, n, 64); u64 ad = alloc(S, I.x->allocSize * c, 2, false); fr.allocas.push_back((ad >> 32) - HEAP0); R[I.dst] = cval(ad); fr.pc++; break; }
        case K_BR: takeEdge(fr, I.x->edges[0]); break;
        case K_CONDBR: {
          Val c = OP(I.a); 
          if (c.e) {
            Expr *e = known(S, c.e);
            if (isC(e)) c = cval(e->val);
            else {
              bool v = evalExpr(e, *S.model) != 0; Expr *other = v ? mkNot(e) : e; std::shared_ptr<Model> m;
              if (mayBe(S, other, &m)) {
                State *n = clone(S); addCons(*n, other); n->facts[e] = !v; n->model = m;
                Frame &nf = wtop(*n); takeEdge(nf, I.x->edges[v ? 1 : 0]); work.push_back(n);
                addCons(S, v ? e : mkNot(e)); S.facts[e] = v; 
                Frame &mf = wtop(S); takeEdge(mf, I.x->edges[v ? 0 : 1]);
                if (jobs == 0) return; // breadth phase: yield at forks
                again = false; break;
              }
              S.facts[e] = v; c = cval(v);
            }
          }
          takeEdge(fr, I.x->edges[(c.lo & 1) ? 0 : 1]); break; }
        case K_SWITCH: {
          Val c = OP(I.a); if (c.e) c = fromE(known(S, c.e));
          if (!c.e) {
            uint32_t e = 0; u128 x = cv128(c); for (size_t i = 0; i < I.x->caseVals.size(); i++) if (I.x->caseVals[i] == x) { e = I.x->caseEdge[i]; break; }
            takeEdge(fr, I.x->edges[e]); break;
          }
          size_t ne = I.x->edges.size(); std::vector<Expr*> cond(ne, nullptr); Expr *def = C(1, 1);
          for (size_t i = 0; i < I.x->caseVals.size(); i++) {
            Expr *q = mkEq(C(I.x->caseVals[i], I.w), c.e); uint32_t e = I.x->caseEdge[i]; cond[e] = cond[e] ? mkOr(cond[e], q) : q; def = mkAnd(def, mkNot(q));
          }
          cond[0] = cond[0] ? mkOr(cond[0], def) : def;
          std::vector<std::pair<size_t, std::shared_ptr<Model>>> feas;
          for (size_t i = 0; i < ne; i++) { std::shared_ptr<Model> m; if (cond[i] && mayBe(S, cond[i], &m)) feas.push_back({i, m}); }
          if (feas.empty()) err("switch with no feasible case");
          if (feas.size() == 1) { takeEdge(fr, I.x->edges[feas[0].first]); break; }
          for (size_t i = 1; i < feas.size(); i++) { State *n = clone(S); addCons(*n, cond[feas[i].first]); n->model = feas[i].second; takeEdge(wtop(*n), I.x->edges[feas[i].first]); work.push_back(n); }
          addCons(S, cond[feas[0].first]); S.model = feas[0].second; takeEdge(wtop(S), I.x->edges[feas[0].first]);
          if (jobs == 0) return;
          again = false; break; }
        case K_RET: {
          Val rv[8]; std::vector<Val> big; Val *t = rv; if (I.n > 8) { big.resize(I.n); t = big.data(); }
          for (int i = 0; i < I.n; i++) t[i] = OPI(I.a, i);
          for (uint32_t id : fr.allocas) { S.h.set(id, nullptr); S.freeIds.push_back(id); }
          int dst = fr.retDst; uint16_t rn = fr.retN; int n = I.n;
          S.stack.pop_back();
          if (S.stack.empty()) {
            if (S.cur == 0) throw PathEnd{END_OK, ""};
            S.threads[S.cur].st = Thread::DONE; reschedule(S, false); again = false; break;
          }
          Frame &p = wtop(S); if (dst >= 0) for (int i = 0; i < n && i < rn; i++) p.regs[dst + i] = t[i];
          p.pc++; again = false; break; }
        case K_CALL: {
          std::vector<Val> args; args.reserve(I.ops.size());
          for (int s : I.ops) args.push_back(OP(s));
          FuncRef *r = I.x->callee;
          if (!r) {
            const Val &a = OP(I.a); u64 ad = a.e ? concretize(S, a, 64) : a.lo; uint32_t ix = (ad >> 32);
            if (ix <= 0x40000000u || ix - 0x40000001u >= fAddrs.size() || (uint32_t)ad) err("indirect call to invalid address");
            r = fAddrs[ix - 0x40000001u];
          }
          for (auto &b : I.x->byvals) { u64 ad = concretize(S, args[b.first], 64); u64 c = alloc(S, b.second, 2, false); fr.allocas.push_back((c >> 32) - HEAP0); copyMem(S, c, ad, b.second); args[b.first] = cval(c); }
          size_t w0 = work.size();
          callFn(S, r, I, args, I.dst, I.n);
          if (jobs == 0 && work.size() != w0) return;
          again = false; break; }
        case K_INTRIN: { size_t w0 = work.size(); intrinsic(S, fr, I); wtop(S).pc++; if (jobs == 0 && work.size() != w0) return; again = false; break; }
        case K_EXTRACTELT: { u64 ix = concretize(S, OP(I.b), 64); if (ix >= (u64)I.c) err("extractelement index"); R[I.dst] = OPI(I.a, (int)ix); fr.pc++; break; }
        case K_INSERTELT: { u64 ix = concretize(S, OP(I.c), 64); Val v = OP(I.b); for (int i = 0; i < I.n; i++) R[I.dst + i] = OPI(I.a, i); if (ix < I.n) R[I.dst + ix] = v; fr.pc++; break; }
        case K_SHUFFLE: { std::vector<Val> t; for (int m : I.x->mask) t.push_back(m < 0 ? Val() : m < I.c ? OPI(I.a, m) : OPI(I.b, m - I.c)); for (size_t i = 0; i < t.size(); i++) R[I.dst + i] = t[i]; fr.pc++; break; }
        case K_INSERTVAL: { std::vector<Val> t; for (int i = 0; i < I.n; i++) t.push_back(OPI(I.a, i)); for (int i = 0; i < I.w2; i++) t[I.c + i] = OPI(I.b, i); for (int i = 0; i < I.n; i++) R[I.dst + i] = t[i]; fr.pc++; break; }
        case K_RMW: {
          u64 ad = concretize(S, OP(I.a), 64); Val old = loadC(S, ad, I.w), v = OP(I.b), nv;
          switch (I.sub) {
          case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = doBin(E_ADD, old, v, I.w); break; case AtomicRMWInst::Sub: nv = doBin(E_SUB, old, v, I.w); break;
          case AtomicRMWInst::And: nv = doBin(E_AND, old, v, I.w); break; case AtomicRMWInst::Or: nv = doBin(E_OR, old, v, I.w); break; case AtomicRMWInst::Xor: nv = doBin(E_XOR, old, v, I.w); break;
          case AtomicRMWInst::Nand: nv = fromE(mkNot(mkAnd(toE(old, I.w), toE(v, I.w)))); break;
          case AtomicRMWInst::UMax: nv = fromE(mkIte(mkBin(E_ULT, toE(old, I.w), toE(v, I.w)), toE(v, I.w), toE(old, I.w))); break;
          case AtomicRMWInst::UMin: nv = fromE(mkIte(mkBin(E_ULT, toE(v, I.w), toE(old, I.w)), toE(v, I.w), toE(old, I.w))); break;
          default: err("atomicrmw"); }
          storeC(S, ad, nv, I.w); R[I.dst] = old; fr.pc++; break; }
        case K_CMPXCHG: {
          u64 ad = concretize(S, OP(I.a), 64); Val old = loadC(S, ad, I.w); Val eq = doICmp(CmpInst::ICMP_EQ, old, OP(I.b), I.w);
          bool ok = decide(S, eq); Frame &f2 = wtop(S); Val *R2 = f2.regs.data();
          Val nv = I.c >= 0 ? R2[I.c] : K[~I.c];
          if (ok) storeC(S, ad, nv, I.w);
          R2[I.dst] = old; R2[I.dst + 1] = cval(ok); f2.pc++; again = false; break; }
        case K_NOP: fr.pc++; break;
        case K_UNREACHABLE: err("reached unreachable in " + fn->dem);
        default: err("unsupported instruction in " + fn->dem + ": " + (I.x ? I.x->msg : ""));
        }
        // a fork inside the instruction may have shared this frame with the clone
        if (again && S.stack.back().use_count() > 1) again = false;
        if (again && &fr != S.stack.back().get()) again = false;
        if (stopAll) throw PathEnd{END_STOP, ""};
        if (jobs == 0 && !work.empty() && !again) return;
      }
    }
  } catch (PathEnd &p) {
    paths++;
    switch (p.kind) {
    case END_OK: okPaths++; for (auto &c : S.covers) covers[c]++; break;
    case END_ASSUME: assumeEnds++; break;
    case END_VIOLATION: break;
    case END_PANIC: violation(S, "panic", p.msg, S.model); break;
    case END_HANG: violation(S, "hang", p.msg, S.model); break;
    case END_ERROR: { std::string bt; auto b = backtrace(S); for (size_t i = 0; i < b.size() && i < 14; i++) bt += " < " + b[i]; errors[p.msg + " @" + bt]++; if (errors.size() > 20) stopAll = true; break; }
    case END_STOP: break;
    }
    S.stack.clear();
  }
}
