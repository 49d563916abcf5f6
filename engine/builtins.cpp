// Intrinsics, runtime builtins and the harness-facing primitives.
#include "engine.h"
#include <cmath>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;
[[noreturn]] static void err(const std::string &m) { throw PathEnd{END_ERROR, m}; }
static Val bin(EOp op, const Val &a, const Val &b, unsigned w) { if (!a.e && !b.e) return mk128(foldBin(op, w, cv128(a), cv128(b))); return fromE(mkBin(op, toE(a, w), toE(b, w))); }

void Engine::intrinsic(State &S, Frame &fr, KInst &I) {
  Val *R = fr.regs.data(); Val *K = fr.fn->consts.data();
  auto A = [&](int i) -> const Val & { int s = I.ops.at(i); return s >= 0 ? R[s] : K[~s]; };
  unsigned w = I.w; int n = I.n;
  auto lanes = [&](std::function<Val(const Val&, const Val&)> f) { std::vector<Val> t; for (int i = 0; i < n; i++) t.push_back(f(A(i), A(n + i))); for (int i = 0; i < n; i++) R[I.dst + i] = t[i]; };
  auto lanes1 = [&](std::function<Val(const Val&)> f) { std::vector<Val> t; for (int i = 0; i < n; i++) t.push_back(f(A(i))); for (int i = 0; i < n; i++) R[I.dst + i] = t[i]; };
  auto ovf = [&](std::function<std::pair<Expr*, Expr*>(Expr*, Expr*, unsigned)> f) {
    // result struct {iN, i1}; vectors of overflow intrinsics are not produced by rustc
    unsigned aw = I.x->argw[0]; auto p = f(toE(A(0), aw), toE(A(1), aw), aw); R[I.dst] = fromE(p.first); R[I.dst + 1] = fromE(p.second);
  };
  auto fd = [&](const Val &v) -> double { if (v.e) err("symbolic floating point"); if (w == 32) { float f; uint32_t x = v.lo; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v.lo, 8); return d; };
  auto fo = [&](double d) { Val v; if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); v.lo = x; } else memcpy(&v.lo, &d, 8); return v; };
  switch (I.x->iid) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
    u64 d = concretize(S, A(0), 64), s = concretize(S, A(1), 64), l = concretize(S, A(2), I.x->argw[2]); copyMem(S, d, s, l); return; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { u64 d = concretize(S, A(0), 64), l = concretize(S, A(2), I.x->argw[2]); setMem(S, d, A(1), l); return; }
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address:
    for (int i = 0; i < n; i++) R[I.dst + i] = A(i);
    return;
  case Intrinsic::is_constant: R[I.dst] = cval(0); return;
  case Intrinsic::objectsize: R[I.dst] = mk128(maskw(w)); return;
  case Intrinsic::trap: case Intrinsic::ubsantrap: throw PathEnd{END_PANIC, "trap (abort) in " + fr.fn->dem};
  case Intrinsic::debugtrap: return;
  case Intrinsic::uadd_with_overflow: ovf([](Expr *a, Expr *b, unsigned) { Expr *s = mkBin(E_ADD, a, b); return std::make_pair(s, mkBin(E_ULT, s, a)); }); return;
  case Intrinsic::usub_with_overflow: ovf([](Expr *a, Expr *b, unsigned) { return std::make_pair(mkBin(E_SUB, a, b), mkBin(E_ULT, a, b)); }); return;
  case Intrinsic::sadd_with_overflow: ovf([](Expr *a, Expr *b, unsigned w) { Expr *s = mkBin(E_ADD, a, b); Expr *z = C(0, w); Expr *v = mkAnd(mkBin(E_XOR, a, s), mkBin(E_XOR, b, s)); return std::make_pair(s, mkBin(E_SLT, v, z)); }); return;
  case Intrinsic::ssub_with_overflow: ovf([](Expr *a, Expr *b, unsigned w) { Expr *s = mkBin(E_SUB, a, b); Expr *z = C(0, w); Expr *v = mkAnd(mkBin(E_XOR, a, b), mkBin(E_XOR, a, s)); return std::make_pair(s, mkBin(E_SLT, v, z)); }); return;
  case Intrinsic::umul_with_overflow: ovf([](Expr *a, Expr *b, unsigned w) { if (w > 64) err("umul overflow width"); 
      if (isC(b)) std::swap(a, b);
      if (isC(a)) { Expr *p = mkBin(E_MUL, a, b); if (a->val <= 1) return std::make_pair(p, C(0, 1)); return std::make_pair(p, mkBin(E_ULT, C(maskw(w) / a->val, w), b)); }
      Expr *p = mkBin(E_MUL, mkZext(a, 2 * w), mkZext(b, 2 * w)); return std::make_pair(mkExtract(p, 0, w), mkNot(mkEq(C(0, w), mkExtract(p, w, w)))); }); return;
  case Intrinsic::smul_with_overflow: ovf([](Expr *a, Expr *b, unsigned w) { if (w > 64) err("smul overflow width"); Expr *p = mkBin(E_MUL, mkSext(a, 2 * w), mkSext(b, 2 * w)); Expr *lo = mkExtract(p, 0, w); return std::make_pair(lo, mkNot(mkEq(mkSext(lo, 2 * w), p))); }); return;
  case Intrinsic::uadd_sat: lanes([&](const Val &a, const Val &b) { Expr *x = toE(a, w), *y = toE(b, w), *s = mkBin(E_ADD, x, y); return fromE(mkIte(mkBin(E_ULT, s, x), C(maskw(w), w), s)); }); return;
  case Intrinsic::usub_sat: lanes([&](const Val &a, const Val &b) { Expr *x = toE(a, w), *y = toE(b, w); return fromE(mkIte(mkBin(E_ULT, x, y), C(0, w), mkBin(E_SUB, x, y))); }); return;
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { bool add = I.x->iid == Intrinsic::sadd_sat; lanes([&](const Val &a, const Val &b) { Expr *x = mkSext(toE(a, w), w + 1), *y = mkSext(toE(b, w), w + 1), *s = mkBin(add ? E_ADD : E_SUB, x, y);
      Expr *mx = C(maskw(w - 1), w + 1), *mn = C(~maskw(w - 1), w + 1); return fromE(mkExtract(mkIte(mkBin(E_SLT, mx, s), mx, mkIte(mkBin(E_SLT, s, mn), mn, s)), 0, w)); }); return; }
  case Intrinsic::umin: lanes([&](const Val &a, const Val &b) { Expr *x = toE(a, w), *y = toE(b, w); return fromE(mkIte(mkBin(E_ULT, x, y), x, y)); }); return;
  case Intrinsic::umax: lanes([&](const Val &a, const Val &b) { Expr *x = toE(a, w), *y = toE(b, w); return fromE(mkIte(mkBin(E_ULT, x, y), y, x)); }); return;
  case Intrinsic::smin: lanes([&](const Val &a, const Val &b) { Expr *x = toE(a, w), *y = toE(b, w); return fromE(mkIte(mkBin(E_SLT, x, y), x, y)); }); return;
  case Intrinsic::smax: lanes([&](const Val &a, const Val &b) { Expr *x = toE(a, w), *y = toE(b, w); return fromE(mkIte(mkBin(E_SLT, x, y), y, x)); }); return;
  case Intrinsic::abs: lanes1([&](const Val &a) { Expr *x = toE(a, w); return fromE(mkIte(mkBin(E_SLT, x, C(0, w)), mkBin(E_SUB, C(0, w), x), x)); }); return;
  case Intrinsic::ctpop: lanes1([&](const Val &a) { if (!a.e) { u128 x = cv128(a); return cval(__builtin_popcountll((u64)x) + __builtin_popcountll((u64)(x >> 64))); }
      Expr *s = C(0, w); for (unsigned i = 0; i < w; i++) s = mkBin(E_ADD, s, mkZext(mkExtract(a.e, i, 1), w)); return fromE(s); }); return;
  case Intrinsic::ctlz: lanes1([&](const Val &a) { if (!a.e) { u128 x = cv128(a); unsigned c = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); i--) c++; return cval(c); }
      Expr *s = C(w, w); for (unsigned i = 0; i < w; i++) s = mkIte(mkExtract(a.e, i, 1), C(w - 1 - i, w), s); return fromE(s); }); return;
  case Intrinsic::cttz: lanes1([&](const Val &a) { if (!a.e) { u128 x = cv128(a); unsigned c = 0; for (unsigned i = 0; i < w && !((x >> i) & 1); i++) c++; return cval(c); }
      Expr *s = C(w, w); for (unsigned i = w; i-- > 0;) s = mkIte(mkExtract(a.e, i, 1), C(i, w), s); return fromE(s); }); return;
  case Intrinsic::bswap: lanes1([&](const Val &a) { if (!a.e) { u128 x = cv128(a), r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((x >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return mk128(r); }
      Expr *e = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(a.e, w - 8 - 8 * i, 8); e = e ? mkConcat(b, e) : b; } return fromE(e); }); return;
  case Intrinsic::bitreverse: lanes1([&](const Val &a) { if (!a.e) { u128 x = cv128(a), r = 0; for (unsigned i = 0; i < w; i++) r |= ((x >> i) & 1) << (w - 1 - i); return mk128(r); }
      Expr *e = nullptr; for (unsigned i = 0; i < w; i++) { Expr *b = mkExtract(a.e, w - 1 - i, 1); e = e ? mkConcat(b, e) : b; } return fromE(e); }); return;
  case Intrinsic::fshl: case Intrinsic::fshr: { bool l = I.x->iid == Intrinsic::fshl; std::vector<Val> t; for (int i = 0; i < n; i++) {
      const Val &a = A(i), &b = A(n + i), &c = A(2 * n + i);
      if (c.e) { Expr *s = mkBin(E_UREM, c.e, C(w, w)); Expr *inv = mkBin(E_SUB, C(w, w), s); Expr *x = toE(a, w), *y = toE(b, w);
        t.push_back(fromE(l ? mkIte(mkEq(C(0, w), s), x, mkOr(mkBin(E_SHL, x, s), mkBin(E_LSHR, y, inv))) : mkIte(mkEq(C(0, w), s), y, mkOr(mkBin(E_SHL, x, inv), mkBin(E_LSHR, y, s))))); continue; }
      unsigned s = c.lo % w; Expr *x = toE(a, w), *y = toE(b, w);
      if (s == 0) t.push_back(l ? a : b);
      else if (l) t.push_back(fromE(mkConcat(mkExtract(x, 0, w - s), mkExtract(y, w - s, s))));
      else t.push_back(fromE(mkConcat(mkExtract(x, 0, s), mkExtract(y, s, w - s)))); }
    for (int i = 0; i < n; i++) R[I.dst + i] = t[i]; return; }
  case Intrinsic::ptrmask: R[I.dst] = bin(E_AND, A(0), A(1), 64); return;
  case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul:
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
    Val r = A(0); for (int i = 1; i < I.c; i++) { const Val &v = A(i); switch (I.x->iid) {
      case Intrinsic::vector_reduce_or: r = bin(E_OR, r, v, w); break; case Intrinsic::vector_reduce_and: r = bin(E_AND, r, v, w); break; case Intrinsic::vector_reduce_add: r = bin(E_ADD, r, v, w); break;
      case Intrinsic::vector_reduce_xor: r = bin(E_XOR, r, v, w); break; case Intrinsic::vector_reduce_mul: r = bin(E_MUL, r, v, w); break;
      case Intrinsic::vector_reduce_umax: { Expr *x = toE(r, w), *y = toE(v, w); r = fromE(mkIte(mkBin(E_ULT, x, y), y, x)); break; }
      default: { Expr *x = toE(r, w), *y = toE(v, w); r = fromE(mkIte(mkBin(E_ULT, x, y), x, y)); break; } } }
    R[I.dst] = r; return; }
  case Intrinsic::x86_sse2_pmovmskb_128: { Expr *e = nullptr; bool sym = false; u64 c = 0; for (int i = 0; i < 16; i++) { const Val &v = A(i); if (v.e) sym = true; else c |= ((v.lo >> 7) & 1) << i; }
    if (!sym) { R[I.dst] = cval(c); return; }
    for (int i = 0; i < 16; i++) { Expr *b = mkExtract(toE(A(i), 8), 7, 1); e = e ? mkConcat(b, e) : b; } R[I.dst] = fromE(mkZext(e, 32)); return; }
  case Intrinsic::fabs: lanes1([&](const Val &a) { return fo(std::fabs(fd(a))); }); return;
  case Intrinsic::floor: lanes1([&](const Val &a) { return fo(std::floor(fd(a))); }); return;
  case Intrinsic::ceil: lanes1([&](const Val &a) { return fo(std::ceil(fd(a))); }); return;
  case Intrinsic::round: lanes1([&](const Val &a) { return fo(std::round(fd(a))); }); return;
  case Intrinsic::trunc: lanes1([&](const Val &a) { return fo(std::trunc(fd(a))); }); return;
  case Intrinsic::sqrt: lanes1([&](const Val &a) { return fo(std::sqrt(fd(a))); }); return;
  case Intrinsic::log2: lanes1([&](const Val &a) { return fo(std::log2(fd(a))); }); return;
  case Intrinsic::log: lanes1([&](const Val &a) { return fo(std::log(fd(a))); }); return;
  case Intrinsic::copysign: lanes([&](const Val &a, const Val &b) { return fo(std::copysign(fd(a), fd(b))); }); return;
  case Intrinsic::minnum: lanes([&](const Val &a, const Val &b) { return fo(std::fmin(fd(a), fd(b))); }); return;
  case Intrinsic::maxnum: lanes([&](const Val &a, const Val &b) { return fo(std::fmax(fd(a), fd(b))); }); return;
  case Intrinsic::pow: lanes([&](const Val &a, const Val &b) { return fo(std::pow(fd(a), fd(b))); }); return;
  case Intrinsic::powi: { const Val &b = A(1); R[I.dst] = fo(std::pow(fd(A(0)), (int)b.lo)); return; }
  case Intrinsic::fma: case Intrinsic::fmuladd: R[I.dst] = fo(std::fma(fd(A(0)), fd(A(1)), fd(A(2)))); return;
  case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: { const Val &a = A(0); unsigned sw = I.x->argw[0]; if (a.e) err("symbolic fp"); double d; if (sw == 32) { float f; uint32_t x = a.lo; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &a.lo, 8);
    i128 v; if (std::isnan(d)) v = 0; else { bool sg = I.x->iid == Intrinsic::fptosi_sat; long double lo = sg ? -std::ldexp(1.0L, w - 1) : 0, hi = sg ? std::ldexp(1.0L, w - 1) - 1 : std::ldexp(1.0L, w) - 1; long double x = d; if (x < lo) x = lo; if (x > hi) x = hi; v = (i128)x; }
    R[I.dst] = mk128((u128)v & maskw(w)); return; }
  case Intrinsic::vastart: { // SysV va_list: everything spilled to the overflow area
    u64 ap = concretize(S, A(0), 64); Frame &f = *S.stack.back(); u64 area = alloc(S, f.va.size() * 8 + 8, 2, true); f.allocas.push_back((area >> 32) - (1u << 20));
    for (size_t i = 0; i < f.va.size(); i++) { Val v = f.va[i]; if (v.e && v.e->w < 64) v = fromE(mkZext(v.e, 64)); storeC(S, area + 8 * i, v, 64); }
    storeC(S, ap, cval(48), 32); storeC(S, ap + 4, cval(304), 32); storeC(S, ap + 8, cval(area), 64); storeC(S, ap + 16, cval(area), 64); return; }
  case Intrinsic::vaend: return;
  case Intrinsic::vacopy: { u64 d = concretize(S, A(0), 64), s = concretize(S, A(1), 64); copyMem(S, d, s, 24); return; }
  case Intrinsic::stacksave: R[I.dst] = cval(0); return;
  case Intrinsic::stackrestore: return;
  case Intrinsic::frameaddress: case Intrinsic::returnaddress: R[I.dst] = cval(0); return;
  case Intrinsic::readcyclecounter: R[I.dst] = cval(12345); return;
  default: err("unsupported intrinsic " + I.x->msg);
  }
}

static std::string decodePanic(Engine &E, State &S, u64 args, u64 loc) {
  std::string m;
  try {
    u64 pp = E.loadC(S, args, 64).lo, pn = E.loadC(S, args + 8, 64).lo;
    for (u64 i = 0; i < pn && i < 8; i++) { u64 p = E.loadC(S, pp + 16 * i, 64).lo, l = E.loadC(S, pp + 16 * i + 8, 64).lo; if (l < 4096) m += E.cstr(S, p, l); if (i + 1 < pn) m += "{}"; }
  } catch (PathEnd &) {}
  try {
    if (loc) { u64 p = E.loadC(S, loc, 64).lo, l = E.loadC(S, loc + 8, 64).lo; u64 line = E.loadC(S, loc + 16, 32).lo; if (l < 4096) m += " at " + E.cstr(S, p, l) + ":" + std::to_string(line); }
  } catch (PathEnd &) {}
  return m;
}

void Engine::setupBuiltins() {
#define BI(name) builtins[name] = [](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret)
#define BD(name) builtinsDem[name] = [](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret)
#define CZ(i) E.concretize(S, a[i], I.x->argw[i])
  BI("__rust_alloc") { u64 n = CZ(0); ret.push_back(cval(E.alloc(S, n, 1, false))); };
  BI("__rust_alloc_zeroed") { u64 n = CZ(0); ret.push_back(cval(E.alloc(S, n, 1, true))); };
  BI("__rust_dealloc") { u64 p = CZ(0); E.dealloc(S, p, "dealloc"); };
  auto realloc_ = [](Engine &E, State &S, u64 p, u64 n) { if (!p) return E.alloc(S, n, 1, false); const Obj *o = E.obj(S, p, 0, "realloc"); u64 old = o->size; u64 q = E.alloc(S, n, 1, false); E.copyMem(S, q, p, std::min(old, n)); E.dealloc(S, p, "realloc"); return q; };
  builtins["__rust_realloc"] = [realloc_](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), n = CZ(3); ret.push_back(cval(realloc_(E, S, p, n))); };
  builtins["realloc"] = [realloc_](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), n = CZ(1); ret.push_back(cval(realloc_(E, S, p, n))); };
  BI("malloc") { u64 n = CZ(0); ret.push_back(cval(E.alloc(S, n, 1, false))); };
  BI("calloc") { u64 n = CZ(0), m = CZ(1); ret.push_back(cval(E.alloc(S, n * m, 1, true))); };
  BI("free") { u64 p = CZ(0); if (p) E.dealloc(S, p, "free"); };
  BI("malloc_usable_size") { u64 p = CZ(0); ret.push_back(cval(E.obj(S, p, 0, "usable")->size)); };
  BI("posix_memalign") { u64 pp = CZ(0), n = CZ(2); E.storeC(S, pp, cval(E.alloc(S, n, 1, false)), 64); ret.push_back(cval(0)); };
  BI("memcpy") { u64 d = CZ(0), s = CZ(1), n = CZ(2); E.copyMem(S, d, s, n); ret.push_back(cval(d)); };
  builtins["memmove"] = builtins["memcpy"];
  BI("memset") { u64 d = CZ(0), n = CZ(2); Val v = a[1]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.lo &= 0xff; E.setMem(S, d, v, n); ret.push_back(cval(d)); };
  auto cmp = [](Engine &E, State &S, u64 p, u64 q, u64 n, bool eqOnly) -> Val {
    if (!n) return cval(0);
    E.obj(S, p, n, "memcmp"); E.obj(S, q, n, "memcmp");
    Expr *alleq = C(1, 1), *lt = C(0, 1); 
    std::vector<std::pair<Expr*, Expr*>> bs; bool sym = false;
    for (u64 i = 0; i < n; i++) {
      Val x = E.loadC(S, p + i, 8), y = E.loadC(S, q + i, 8);
      if (!x.e && !y.e) { if (x.lo == y.lo) continue; if (!sym) return cval(x.lo < y.lo ? 0xffffffffu : 1); bs.push_back({toE(x, 8), toE(y, 8)}); break; }
      Expr *ex = toE(x, 8), *ey = toE(y, 8); if (ex == ey) continue;
      sym = true; bs.push_back({ex, ey});
    }
    for (size_t i = bs.size(); i-- > 0;) { Expr *eq = mkEq(bs[i].first, bs[i].second); alleq = mkAnd(eq, alleq); if (!eqOnly) lt = mkIte(eq, lt, mkBin(E_ULT, bs[i].first, bs[i].second)); }
    if (eqOnly) return fromE(mkZext(mkNot(alleq), 32));
    return fromE(mkIte(alleq, C(0, 32), mkIte(lt, C(0xffffffffu, 32), C(1, 32))));
  };
  builtins["memcmp"] = [cmp](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), q = CZ(1), n = CZ(2); ret.push_back(cmp(E, S, p, q, n, false)); };
  builtins["bcmp"] = [cmp](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), q = CZ(1), n = CZ(2); ret.push_back(cmp(E, S, p, q, n, true)); };
  auto slen = [](Engine &E, State &S, u64 p, u64 mx) { u64 i = 0; for (; i < mx; i++) { Val b = E.loadC(S, p + i, 8); if (!b.e) { if (!b.lo) break; } else if (E.decide(S, fromE(mkEq(C(0, 8), b.e)))) break; } return i; };
  builtins["strlen"] = [slen](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0); ret.push_back(cval(slen(E, S, p, ~0ull))); };
  builtins["strnlen"] = [slen](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), n = CZ(1); ret.push_back(cval(slen(E, S, p, n))); };
  auto scmp = [](Engine &E, State &S, u64 p, u64 q, u64 n, bool ci) -> u64 {
    for (u64 i = 0; i < n; i++) {
      Val x = E.loadC(S, p + i, 8), y = E.loadC(S, q + i, 8);
      if (ci) { auto lw = [&](Val v) { if (!v.e) return cval(v.lo >= 'A' && v.lo <= 'Z' ? v.lo + 32 : v.lo); Expr *b = v.e; Expr *up = mkAnd(mkBin(E_ULE, C('A', 8), b), mkBin(E_ULE, b, C('Z', 8))); return fromE(mkIte(up, mkBin(E_ADD, C(32, 8), b), b)); }; x = lw(x); y = lw(y); }
      if (!E.decide(S, fromE(mkEq(toE(x, 8), toE(y, 8))))) return E.decide(S, fromE(mkBin(E_ULT, toE(x, 8), toE(y, 8)))) ? 0xffffffffu : 1;
      if (E.decide(S, fromE(mkEq(C(0, 8), toE(x, 8))))) return 0;
    }
    return 0;
  };
  builtins["strcmp"] = [scmp](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), q = CZ(1); ret.push_back(cval(scmp(E, S, p, q, ~0ull, false))); };
  builtins["strncmp"] = [scmp](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), q = CZ(1), n = CZ(2); ret.push_back(cval(scmp(E, S, p, q, n, false))); };
  builtins["strcasecmp"] = [scmp](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), q = CZ(1); ret.push_back(cval(scmp(E, S, p, q, ~0ull, true))); };
  builtins["strncasecmp"] = [scmp](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), q = CZ(1), n = CZ(2); ret.push_back(cval(scmp(E, S, p, q, n, true))); };
  auto mchr = [](Engine &E, State &S, u64 p, Val c, u64 n, bool str, bool rev) -> u64 {
    Expr *ce = c.e ? mkExtract(c.e, 0, 8) : C(c.lo & 0xff, 8);
    if (rev) { for (u64 i = n; i-- > 0;) { Val b = E.loadC(S, p + i, 8); if (E.decide(S, fromE(mkEq(toE(b, 8), ce)))) return p + i; } return 0; }
    for (u64 i = 0; i < n; i++) { Val b = E.loadC(S, p + i, 8); if (E.decide(S, fromE(mkEq(toE(b, 8), ce)))) return p + i; if (str && E.decide(S, fromE(mkEq(C(0, 8), toE(b, 8))))) return 0; }
    return 0;
  };
  builtins["memchr"] = [mchr](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), n = CZ(2); ret.push_back(cval(mchr(E, S, p, a[1], n, false, false))); };
  builtins["memrchr"] = [mchr](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0), n = CZ(2); ret.push_back(cval(mchr(E, S, p, a[1], n, false, true))); };
  builtins["strchr"] = [mchr](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(0); ret.push_back(cval(mchr(E, S, p, a[1], ~0ull, true, false))); };
  // core's word-at-a-time memchr and the memchr crate: same result as the byte loop
  // Rust signature: memchr(x: u8, text: &[u8]) -> Option<usize>
  auto rchr = [mchr](bool rev) { return [mchr, rev](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) { u64 p = CZ(1), n = CZ(2); u64 q = mchr(E, S, p, a[0], n, false, rev); ret.push_back(cval(q ? 1 : 0)); ret.push_back(cval(q ? q - p : 0)); }; };
  builtinsDem["core::slice::memchr::memchr"] = rchr(false);
  builtinsDem["core::slice::memchr::memchr_aligned"] = rchr(false);
  builtinsDem["core::slice::memchr::memrchr"] = rchr(true);
  builtinsDem["std::sys::unix::memchr::memchr"] = rchr(false);
  builtinsDem["std::sys_common::memchr::memchr"] = rchr(false);
  builtinsDem["std::memchr::memchr"] = rchr(false);
  builtinsDem["memchr::memchr::memchr"] = rchr(false);
  builtinsDem["memchr::memchr::memrchr"] = rchr(true);
  auto rchrN = [](int k, bool rev) { return [k, rev](Engine &E, State &S, KInst &I, std::vector<Val> &a, std::vector<Val> &ret) {
    u64 p = CZ(k), n = CZ(k + 1);
    for (u64 j = 0; j < n; j++) { u64 i = rev ? n - 1 - j : j; Val b = E.loadC(S, p + i, 8); Expr *c = C(0, 1); for (int q = 0; q < k; q++) c = mkOr(c, mkEq(toE(b, 8), toE(a[q], 8))); if (E.decide(S, fromE(c))) { ret.push_back(cval(1)); ret.push_back(cval(i)); return; } }
    ret.push_back(cval(0)); ret.push_back(cval(0)); }; };
  builtinsDem["memchr::memchr::memchr2"] = rchrN(2, false);
  builtinsDem["memchr::memchr::memchr3"] = rchrN(3, false);
  builtinsDem["memchr::memchr::memrchr2"] = rchrN(2, true);
  builtinsDem["memchr::memchr::memrchr3"] = rchrN(3, true);

  // hashing: constant hash values keep real hash tables correct and keys symbolic
  BD("core::hash::BuildHasher::hash_one") { ret.push_back(cval(1)); };
  BD("<std::collections::hash::map::DefaultHasher as core::hash::Hasher>::finish") { ret.push_back(cval(1)); };
  BD("<std::collections::hash::map::DefaultHasher as core::hash::Hasher>::write") { };
  BD("<std::collections::hash::map::DefaultHasher as core::hash::Hasher>::write_str") { };
  BD("std::sys::unix::rand::hashmap_random_keys") { ret.push_back(cval(1)); ret.push_back(cval(2)); };
  BD("std_detect::detect::cache::detect_and_initialize") { for (int i = 0; i < (int)I.x->leaves.size(); i++) ret.push_back(cval(0)); };
  BD("std_detect::detect::check_for") { ret.push_back(cval(0)); };

  // panics
  BD("core::panicking::panic_fmt") { u64 p = CZ(0), l = CZ(1); throw PathEnd{END_PANIC, decodePanic(E, S, p, l)}; };
  BD("core::panicking::panic_nounwind_fmt") { u64 p = CZ(0); throw PathEnd{END_PANIC, decodePanic(E, S, p, 0)}; };
  BD("std::panicking::rust_panic_with_hook") { throw PathEnd{END_PANIC, "panic"}; };
  BD("std::panicking::begin_panic_handler") { throw PathEnd{END_PANIC, "panic"}; };
  BI("rust_begin_unwind") { throw PathEnd{END_PANIC, "panic"}; };
  BD("core::panicking::panic_cannot_unwind") { throw PathEnd{END_PANIC, "panic in no-unwind"}; };
  BD("alloc::alloc::handle_alloc_error") { throw PathEnd{END_ERROR, "allocation error"}; };
  BD("alloc::raw_vec::capacity_overflow") { throw PathEnd{END_PANIC, "capacity overflow"}; };
  BI("abort") { throw PathEnd{END_PANIC, "abort()"}; };
  BI("exit") { throw PathEnd{END_PANIC, "exit()"}; };
  BI("_exit") { throw PathEnd{END_PANIC, "_exit()"}; };
  BI("__assert_fail") { u64 p = CZ(0); throw PathEnd{END_PANIC, "assert " + E.cstr(S, p, ~0ull)}; };
  BI("__stack_chk_fail") { throw PathEnd{END_ERROR, "stack smash"}; };

  // environment
  BI("getenv") { ret.push_back(cval(0)); };
  BI("write") { u64 n = CZ(2); ret.push_back(cval(n)); };
  BI("writev") { u64 v = CZ(1), n = CZ(2); u64 t = 0; for (u64 i = 0; i < n; i++) t += E.loadC(S, v + 16 * i + 8, 64).lo; ret.push_back(cval(t)); };
  BI("isatty") { ret.push_back(cval(0)); };
  BI("getpid") { ret.push_back(cval(4242)); };
  BI("clock_gettime") { u64 p = CZ(1); E.storeC(S, p, cval(1700000000 + S.clock), 64); E.storeC(S, p + 8, cval(0), 64); ret.push_back(cval(0)); };
  BI("gettimeofday") { u64 p = CZ(0); E.storeC(S, p, cval(1700000000 + S.clock), 64); E.storeC(S, p + 8, cval(0), 64); ret.push_back(cval(0)); };
  BI("time") { u64 p = CZ(0); if (p) E.storeC(S, p, cval(1700000000), 64); ret.push_back(cval(1700000000)); };
  BI("__cxa_thread_atexit_impl") { ret.push_back(cval(0)); };
  BI("__cxa_atexit") { ret.push_back(cval(0)); };
  BI("__errno_location") { static u64 a0 = 0; if (!a0) { a0 = E.extGlobals["errno$"]; } ret.push_back(cval(a0)); };
  BI("pthread_self") { ret.push_back(cval(S.cur + 1)); };
  BI("pthread_atfork") { ret.push_back(cval(0)); };
  BI("pthread_getattr_np") { ret.push_back(cval(1)); };
  BI("pthread_create") { u64 tp = CZ(0), fn = CZ(2); int t = E.spawnThread(S, fn, a[3]); E.storeC(S, tp, cval(t + 1), 64); ret.push_back(cval(0)); };
  BI("pthread_join") { u64 t = CZ(0) - 1; if (t >= S.threads.size()) err("join of unknown thread"); ret.push_back(cval(0)); if (S.threads[t].st != Thread::DONE) { S.threads[S.cur].st = Thread::JOIN; S.threads[S.cur].joinOn = t; S.resched = 1; } };
  BI("sched_yield") { ret.push_back(cval(0)); S.resched = 2; };
  BI("nanosleep") { ret.push_back(cval(0)); S.clock++; S.resched = 2; };
  BI("clock_nanosleep") { ret.push_back(cval(0)); S.resched = 2; };
  BI("usleep") { ret.push_back(cval(0)); S.resched = 2; };
  BI("sched_getaffinity") { u64 n = CZ(1), p = CZ(2); E.setMem(S, p, cval(0), n); E.storeC(S, p, cval(1), 8); ret.push_back(cval(0)); };
  for (const char *n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_mutex_trylock", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "dlsym", "sigaction", "signal", "pthread_detach", "pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setstacksize", "pthread_setname_np", "prctl", "pthread_sigmask", "sigaltstack", "pthread_attr_setguardsize", "pthread_key_create", "pthread_setspecific", "pthread_key_delete", "sigemptyset", "sigaddset", "kill"})
    builtins[n] = [](Engine &, State &, KInst &, std::vector<Val> &, std::vector<Val> &ret) { ret.push_back(cval(0)); };
  BI("sysconf") { ret.push_back(cval(4096)); };
  BI("getrandom") { u64 p = CZ(0), n = CZ(1); E.setMem(S, p, cval(7), n); ret.push_back(cval(n)); };
  BI("syscall") {
    u64 nr = CZ(0);
    if (nr == 202) { // futex
      u64 ad = CZ(1); int op = (int)CZ(2) & 127; 
      if (op == 0 || op == 9) {
        u64 v = CZ(3) & 0xffffffffu; u64 to = CZ(4); Val curv = E.loadC(S, ad, 32);
        u64 cv = E.concretize(S, curv, 32);
        if (cv != v) { E.storeC(S, E.extGlobals["errno$"], cval(11), 32); ret.push_back(cval(~0ull)); return; }
        Thread &T = S.threads[S.cur]; T.st = Thread::FUTEX; T.waitAddr = ad; T.timed = to != 0; S.resched = 1; ret.push_back(cval(0)); return;
      }
      if (op == 1 || op == 10) {
        u64 n = CZ(3) & 0x7fffffffu; u64 k = 0;
        for (auto &T : S.threads) if (k < n && T.st == Thread::FUTEX && T.waitAddr == ad) { T.st = Thread::RUN; T.waitAddr = 0; k++; }
        ret.push_back(cval(k)); return;
      }
      err("futex operation " + std::to_string(op));
    }
    if (nr == 186) { ret.push_back(cval(4242 + S.cur)); return; } // gettid
    if (nr == 318) { u64 p = CZ(1), n = CZ(2); E.setMem(S, p, cval(7), n); ret.push_back(cval(n)); return; } // getrandom
    E.storeC(S, E.extGlobals["errno$"], cval(38), 32); ret.push_back(cval(~0ull)); };
  BI("tolower") { Val v = a[0]; if (!v.e) { u64 c = v.lo; ret.push_back(cval(c >= 'A' && c <= 'Z' ? c + 32 : c)); } else { Expr *b = v.e; Expr *up = mkAnd(mkBin(E_ULE, C('A', 32), b), mkBin(E_ULE, b, C('Z', 32))); ret.push_back(fromE(mkIte(up, mkBin(E_ADD, C(32, 32), b), b))); } };
  BI("pthread_getspecific") { ret.push_back(cval(0)); };

  // harness primitives
  BI("sym_u8") { ret.push_back(fromE(E.symVar(S, 8))); };
  BI("sym_u16") { ret.push_back(fromE(E.symVar(S, 16))); };
  BI("sym_u32") { ret.push_back(fromE(E.symVar(S, 32))); };
  BI("sym_u64") { ret.push_back(fromE(E.symVar(S, 64))); };
  BI("sym_bool") { ret.push_back(fromE(E.symVar(S, 1))); };
  BI("sym_engine") { ret.push_back(cval(1)); };
  BI("sym_bytes") { u64 p = CZ(0), n = CZ(1); for (u64 i = 0; i < n; i++) E.storeC(S, p + i, fromE(E.symVar(S, 8)), 8); };
  BI("sym_concretize") { u64 v = CZ(0); ret.push_back(cval(v)); };
  BI("sym_assume") {
    Val c = a[0]; if (!c.e) { if (!(c.lo & 1)) throw PathEnd{END_ASSUME, ""}; return; }
    Expr *e = c.e->w == 1 ? c.e : mkNot(mkEq(C(0, c.e->w), c.e)); std::shared_ptr<Model> m;
    if (!E.mayBe(S, e, &m)) throw PathEnd{END_ASSUME, ""};
    E.addCons(S, e); S.model = m; };
  BI("sym_assert") {
    E.asserts++; u64 mp = CZ(1), ml = CZ(2); std::string msg = E.cstr(S, mp, ml); E.symAsserts[msg]++;
    Val c = a[0]; if (!c.e) { if (!(c.lo & 1)) { E.violation(S, "assert", msg, S.model); throw PathEnd{END_VIOLATION, ""}; } return; }
    Expr *e = c.e->w == 1 ? c.e : mkNot(mkEq(C(0, c.e->w), c.e)); Expr *k = E.known(S, e); if (isC(k) && k->val) return;
    std::shared_ptr<Model> m;
    if (E.mayBe(S, mkNot(e), &m)) { E.violation(S, "assert", msg, m); if (!E.mayBe(S, e, &m)) throw PathEnd{END_VIOLATION, ""}; S.model = m; E.addCons(S, e); }
    else { E.assertsDischarged++; S.facts[e] = 1; } };
  BI("sym_cover") { u64 p = CZ(0), n = CZ(1); S.covers.insert(E.cstr(S, p, n)); };
  BI("sym_log") { u64 p = CZ(0), n = CZ(1); S.log.push_back(E.cstr(S, p, n)); };
  BI("sym_end") { throw PathEnd{END_OK, ""}; };
}
