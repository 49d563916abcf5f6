// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <string>
#include <memory>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum EOp : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_NOT, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE,
  E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT
};

struct VarSet { std::vector<u64> bits; u64 hash; };

struct Expr {
  EOp op; uint16_t w; uint32_t id; uint32_t aux; // aux: extract low bit / var index
  Expr *a, *b, *c;
  u128 val;
  VarSet *vs;
  Z3_ast zbv, zbool;
  uint32_t epoch; u128 ev;
  u64 hash;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sext128(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

struct ExprPool {
  std::vector<Expr*> table; size_t count = 0; uint32_t nextId = 1;
  std::vector<std::string> varNames; std::vector<unsigned> varW;
  std::vector<Expr*> varExprs;
  std::unordered_map<u64, std::vector<VarSet*>> vsets;
  VarSet *emptyVs;
  char *arena = nullptr; size_t arenaLeft = 0;
  ExprPool() { table.resize(1 << 20, nullptr); emptyVs = internVs(VarSet{{}, 0}); }
  VarSet *internVs(VarSet v) {
    u64 h = 1469598103934665603ull;
    for (u64 x : v.bits) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; }
    v.hash = h;
    auto &b = vsets[h];
    for (auto *p : b) if (p->bits == v.bits) return p;
    auto *n = new VarSet(v); b.push_back(n); return n;
  }
  VarSet *vsUnion(VarSet *x, VarSet *y) {
    if (x == y || y == emptyVs) return x;
    if (x == emptyVs) return y;
    VarSet r; r.bits.resize(std::max(x->bits.size(), y->bits.size()), 0);
    for (size_t i = 0; i < x->bits.size(); i++) r.bits[i] |= x->bits[i];
    for (size_t i = 0; i < y->bits.size(); i++) r.bits[i] |= y->bits[i];
    return internVs(r);
  }
  static u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
  Expr *get(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, u128 val, uint32_t aux) {
    u64 h = mix(op, w); h = mix(h, (u64)a); h = mix(h, (u64)b); h = mix(h, (u64)c);
    h = mix(h, (u64)val); h = mix(h, (u64)(val >> 64)); h = mix(h, aux);
    size_t m = table.size() - 1, i = h & m;
    while (Expr *e = table[i]) {
      if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val && e->aux == aux) return e;
      i = (i + 1) & m;
    }
    if (arenaLeft < sizeof(Expr)) { size_t sz = sizeof(Expr) * 65536; arena = (char*)aligned_alloc(16, sz); arenaLeft = sz; }
    Expr *e = (Expr*)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr);
    memset((void*)e, 0, sizeof(Expr));
    e->op = op; e->w = w; e->id = nextId++; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = val; e->hash = h;
    VarSet *vs = emptyVs;
    if (a) vs = vsUnion(vs, a->vs);
    if (b) vs = vsUnion(vs, b->vs);
    if (c) vs = vsUnion(vs, c->vs);
    e->vs = vs;
    table[i] = e;
    if (++count * 2 > table.size()) rehash();
    return e;
  }
  void rehash() {
    std::vector<Expr*> old; old.swap(table); table.resize(old.size() * 2, nullptr);
    size_t m = table.size() - 1;
    for (Expr *e : old) if (e) { size_t i = e->hash & m; while (table[i]) i = (i + 1) & m; table[i] = e; }
  }
  Expr *constant(u128 v, unsigned w) { return get(E_CONST, w, 0, 0, 0, v & maskw(w), 0); }
  Expr *newVar(const std::string &n, unsigned w) {
    uint32_t idx = varNames.size(); varNames.push_back(n); varW.push_back(w);
    Expr *e = get(E_VAR, w, 0, 0, 0, 0, idx);
    VarSet v; v.bits.resize(idx / 64 + 1, 0); v.bits[idx / 64] |= 1ull << (idx % 64);
    e->vs = internVs(v);
    varExprs.push_back(e);
    return e;
  }
};
extern ExprPool P;

static inline bool isC(Expr *e) { return e->op == E_CONST; }
static inline Expr *C(u128 v, unsigned w) { return P.constant(v, w); }

u128 foldBin(EOp op, unsigned w, u128 a, u128 b);
Expr *mkBin(EOp op, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *e, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZext(Expr *e, unsigned w);
Expr *mkSext(Expr *e, unsigned w);
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(E_EQ, a, b); }
static inline Expr *mkAnd(Expr *a, Expr *b) { return mkBin(E_AND, a, b); }
static inline Expr *mkOr(Expr *a, Expr *b) { return mkBin(E_OR, a, b); }

struct Model { std::vector<u64> v; u64 get(uint32_t i) const { return i < v.size() ? v[i] : 0; } };
u128 evalExpr(Expr *e, const Model &m); // starts a new epoch
u128 evalExprCont(Expr *e, const Model &m); // continues the current epoch
void newEpoch();
std::string exprStr(Expr *e, int depth = 6);
