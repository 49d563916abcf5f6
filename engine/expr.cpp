#include "expr.h"
ExprPool P;

u128 foldBin(EOp op, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w); a &= m; b &= m;
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? (a / b) & m : m;
  case E_UREM: return b ? (a % b) & m : a;
  case E_SDIV: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return (x < 0 ? (u128)1 : m); if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
  case E_SREM: { i128 x = sext128(a, w), y = sext128(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
  case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
  case E_ASHR: { i128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sext128(a, w) < sext128(b, w);
  case E_SLE: return sext128(a, w) <= sext128(b, w);
  default: abort();
  }
}
static bool isCmp(EOp o) { return o >= E_EQ && o <= E_SLE; }
static bool isComm(EOp o) { return o == E_ADD || o == E_MUL || o == E_AND || o == E_OR || o == E_XOR || o == E_EQ; }

Expr *mkNot(Expr *a) {
  if (isC(a)) return C(~a->val, a->w);
  if (a->op == E_NOT) return a->a;
  if (a->w == 1) {
    if (a->op == E_ULT) return mkBin(E_ULE, a->b, a->a);
    if (a->op == E_ULE) return mkBin(E_ULT, a->b, a->a);
    if (a->op == E_SLT) return mkBin(E_SLE, a->b, a->a);
    if (a->op == E_SLE) return mkBin(E_SLT, a->b, a->a);
    if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  }
  return P.get(E_NOT, a->w, a, 0, 0, 0, 0);
}

// depth of ite-chains with constant leaves we are willing to push operations through
static bool iteConst(Expr *e, int d = 0) {
  if (isC(e)) return true;
  if (e->op != E_ITE || d > 8) return false;
  return isC(e->b) ? iteConst(e->c, d + 1) : (isC(e->c) && iteConst(e->b, d + 1));
}

Expr *mkBin(EOp op, Expr *a, Expr *b) {
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
  unsigned w = a->w; unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) return C(foldBin(op, w, a->val, b->val), rw);
  if (isComm(op)) {
    if (isC(b)) { Expr *t = a; a = b; b = t; } // constant on the left
    else if (!isC(a) && a->id > b->id) { Expr *t = a; a = b; b = t; }
  }
  u128 m = maskw(w);
  switch (op) {
  case E_ADD:
    if (isC(a)) {
      if (a->val == 0) return b;
      if (b->op == E_ADD && isC(b->a)) return mkBin(E_ADD, C(a->val + b->a->val, w), b->b);
      if (b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    } else {
      if (b->op == E_ADD && isC(b->a)) return mkBin(E_ADD, b->a, mkBin(E_ADD, a, b->b));
      if (a->op == E_ADD && isC(a->a)) return mkBin(E_ADD, a->a, mkBin(E_ADD, a->b, b));
    }
    break;
  case E_SUB:
    if (a == b) return C(0, w);
    if (isC(b)) return mkBin(E_ADD, C((~b->val + 1), w), a);
    if (isC(a) && b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    if (a->op == E_ADD && isC(a->a) && a->b == b) return a->a;
    if (a->op == E_ADD && b->op == E_ADD && isC(a->a) && isC(b->a) && a->b == b->b) return C(a->a->val - b->a->val, w);
    if (b->op == E_ADD && isC(b->a) && b->b == a) return C(0 - b->a->val, w);
    break;
  case E_MUL:
    if (isC(a)) { if (a->val == 0) return a; if (a->val == 1) return b;
      if (b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c)); }
    break;
  case E_UDIV: if (isC(b) && b->val == 1) return a; 
    if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->val) s++; return mkBin(E_LSHR, a, C(s, w)); }
    break;
  case E_UREM: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(E_AND, a, C(b->val - 1, w)); break;
  case E_AND:
    if (a == b) return a;
    if (isC(a)) {
      if (a->val == 0) return a; if (a->val == m) return b;
      if (b->op == E_AND && isC(b->a)) return mkBin(E_AND, C(a->val & b->a->val, w), b->b);
      // low mask -> zext(extract)
      u128 v = a->val; if ((v & (v + 1)) == 0) { unsigned k = 0; while (((v >> k) & 1)) k++; return mkZext(mkExtract(b, 0, k), w); }
      if (b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    }
    if (w == 1 && (a == mkNot(b))) return C(0, 1);
    if (w == 1) { if (b->op == E_AND && (b->a == a || b->b == a)) return b; if (a->op == E_AND && (a->a == b || a->b == b)) return a; }
    break;
  case E_OR:
    if (a == b) return a;
    if (isC(a)) {
      if (a->val == 0) return b; if (a->val == m) return a;
      if (b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    }
    if (w == 1 && (a == mkNot(b))) return C(1, 1);
    // zext(x) | (y << k)  with k >= width(x): concat
    for (int sw = 0; sw < 2; sw++) {
      Expr *x = sw ? b : a, *y = sw ? a : b;
      if (x->op == E_ZEXT && y->op == E_CONCAT && isC(y->b) && y->b->val == 0 && y->b->w >= x->a->w)
        return mkConcat(y->a, mkZext(x->a, y->b->w));
      if (x->op == E_CONCAT && isC(x->a) && x->a->val == 0 && y->op == E_CONCAT && isC(y->b) && y->b->val == 0 && y->b->w >= x->b->w)
        return mkConcat(y->a, mkZext(x->b, y->b->w));
    }
    break;
  case E_XOR:
    if (a == b) return C(0, w);
    if (isC(a)) { if (a->val == 0) return b; if (a->val == m) return mkNot(b);
      if (b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c)); }
    break;
  case E_SHL:
    if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return C(0, w); unsigned s = (unsigned)b->val;
      return mkConcat(mkExtract(a, 0, w - s), C(0, s)); }
    if (isC(a) && a->val == 0) return a;
    if (isC(a) && b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    break;
  case E_LSHR:
    if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return C(0, w); unsigned s = (unsigned)b->val;
      return mkZext(mkExtract(a, s, w - s), w); }
    if (isC(a) && a->val == 0) return a;
    if (isC(a) && b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    break;
  case E_ASHR:
    if (isC(b)) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
      return mkSext(mkExtract(a, s, w - s), w); }
    break;
  case E_EQ:
    if (a == b) return C(1, 1);
    if (isC(a)) {
      if (w == 1) return a->val ? b : mkNot(b);
      if (b->op == E_ZEXT) { unsigned iw = b->a->w; if (a->val >> iw) return C(0, 1); return mkEq(C(a->val, iw), b->a); }
      if (b->op == E_SEXT) { unsigned iw = b->a->w; u128 t = a->val & maskw(iw); if (((u128)sext128(t, iw) & m) != a->val) return C(0, 1); return mkEq(C(t, iw), b->a); }
      if (b->op == E_CONCAT) { unsigned lw = b->b->w; Expr *r = mkEq(C(a->val >> lw, w - lw), b->a); if (isC(r) && !r->val) return r; return mkAnd(r, mkEq(C(a->val, lw), b->b)); }
      if (b->op == E_ITE && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkEq(a, b->b), mkEq(a, b->c));
      if (b->op == E_ADD && isC(b->a)) return mkEq(C(a->val - b->a->val, w), b->b);
      if (b->op == E_NOT) return mkEq(C(~a->val, w), b->a);
      if (b->op == E_XOR && isC(b->a)) return mkEq(C(a->val ^ b->a->val, w), b->b);
      if (b->op == E_SUB && a->val == 0) return mkEq(b->a, b->b);
    } else {
      if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) { Expr *r = mkEq(a->a, b->a); if (isC(r) && !r->val) return r; return mkAnd(r, mkEq(a->b, b->b)); }
      if (w == 1 && a == mkNot(b)) return C(0, 1);
      if (a->op == E_ADD && isC(a->a) && a->b == b && a->a->val) return C(0, 1);
      if (b->op == E_ADD && isC(b->a) && b->b == a && b->a->val) return C(0, 1);
    }
    break;
  case E_ULT:
    if (a == b) return C(0, 1);
    if (isC(b)) { if (b->val == 0) return C(0, 1); if (b->val == 1) return mkEq(C(0, w), a);
      if (a->op == E_ZEXT) { unsigned iw = a->a->w; if (b->val > maskw(iw)) return C(1, 1); return mkBin(op, a->a, C(b->val, iw)); } }
    if (isC(a)) { if (a->val == m) return C(0, 1); if (a->val == 0) return mkNot(mkEq(C(0, w), b));
      if (b->op == E_ZEXT) { unsigned iw = b->a->w; if (a->val >= maskw(iw)) return C(0, 1); return mkBin(op, C(a->val, iw), b->a); } }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    goto cmpite;
  case E_ULE:
    if (a == b) return C(1, 1);
    if (isC(a)) { if (a->val == 0) return C(1, 1);
      if (b->op == E_ZEXT) { unsigned iw = b->a->w; if (a->val > maskw(iw)) return C(0, 1); return mkBin(op, C(a->val, iw), b->a); } }
    if (isC(b)) { if (b->val == m) return C(1, 1); if (b->val == 0) return mkEq(C(0, w), a);
      if (a->op == E_ZEXT) { unsigned iw = a->a->w; if (b->val >= maskw(iw)) return C(1, 1); return mkBin(op, a->a, C(b->val, iw)); } }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    goto cmpite;
  case E_SLT: case E_SLE:
    if (a == b) return C(op == E_SLE, 1);
    // zero-extended operands are non-negative: use unsigned comparison
    if (a->op == E_ZEXT && b->op == E_ZEXT) return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b);
    if (a->op == E_ZEXT && isC(b)) { if (sext128(b->val, w) < 0) return C(0, 1); return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b); }
    if (b->op == E_ZEXT && isC(a)) { if (sext128(a->val, w) < 0) return C(1, 1); return mkBin(op == E_SLT ? E_ULT : E_ULE, a, b); }
    if (a->op == E_SEXT && isC(b)) { i128 v = sext128(b->val, w); unsigned iw = a->a->w; i128 lo = sext128((u128)1 << (iw - 1), iw), hi = -(lo + 1);
      if (v > hi) return C(1, 1); if (v < lo) return C(0, 1); return mkBin(op, a->a, C((u128)v, iw)); }
    if (b->op == E_SEXT && isC(a)) { i128 v = sext128(a->val, w); unsigned iw = b->a->w; i128 lo = sext128((u128)1 << (iw - 1), iw), hi = -(lo + 1);
      if (v < lo) return C(1, 1); if (v > hi) return C(0, 1); return mkBin(op, C((u128)v, iw), b->a); }
  cmpite:
    if (isC(a) && b->op == E_ITE && iteConst(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    if (isC(b) && a->op == E_ITE && iteConst(a)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  default: break;
  }
  return P.get(op, rw, a, b, 0, 0, 0);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == E_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return P.get(E_ITE, a->w, c, a, b, 0, 0);
}

Expr *mkExtract(Expr *e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  switch (e->op) {
  case E_CONST: return C(e->val >> lo, w);
  case E_EXTRACT: return mkExtract(e->a, e->aux + lo, w);
  case E_CONCAT: { unsigned lw = e->b->w;
    if (lo >= lw) return mkExtract(e->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(e->b, lo, w);
    return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo)); }
  case E_ZEXT: { unsigned iw = e->a->w;
    if (lo >= iw) return C(0, w);
    if (lo + w <= iw) return mkExtract(e->a, lo, w);
    return mkZext(mkExtract(e->a, lo, iw - lo), w); }
  case E_SEXT: { unsigned iw = e->a->w;
    if (lo + w <= iw) return mkExtract(e->a, lo, w);
    if (lo == 0) return mkSext(e->a, w);
    break; }
  case E_ITE: if (isC(e->b) || isC(e->c)) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w)); break;
  default: break;
  }
  return P.get(E_EXTRACT, w, e, 0, 0, 0, lo);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w; assert(w <= 128);
  if (isC(hi) && isC(lo)) return C((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (isC(hi) && lo->op == E_ITE && (isC(lo->b) || isC(lo->c))) return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
  if (isC(lo) && hi->op == E_ITE && (isC(hi->b) || isC(hi->c))) return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
  if (lo->op == E_CONCAT) { // re-associate to merge extracts:  hi . (x . y)
    Expr *x = lo->a;
    if ((isC(hi) && isC(x)) || (hi->op == E_EXTRACT && x->op == E_EXTRACT && hi->a == x->a && hi->aux == x->aux + x->w))
      return mkConcat(mkConcat(hi, x), lo->b);
  }
  if (hi->op == E_CONCAT) {
    Expr *y = hi->b;
    if ((isC(y) && isC(lo)) || (y->op == E_EXTRACT && lo->op == E_EXTRACT && y->a == lo->a && y->aux == lo->aux + lo->w))
      return mkConcat(hi->a, mkConcat(y, lo));
  }
  return P.get(E_CONCAT, w, hi, lo, 0, 0, 0);
}
Expr *mkZext(Expr *e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return C(e->val, w);
  if (e->op == E_ZEXT) return mkZext(e->a, w);
  if (e->op == E_ITE && isC(e->b) && isC(e->c)) return mkIte(e->a, C(e->b->val, w), C(e->c->val, w));
  return P.get(E_ZEXT, w, e, 0, 0, 0, 0);
}
Expr *mkSext(Expr *e, unsigned w) {
  if (e->w == w) return e;
  if (isC(e)) return C((u128)sext128(e->val, e->w), w);
  if (e->op == E_SEXT) return mkSext(e->a, w);
  if (e->op == E_ZEXT) return mkZext(e->a, w);
  if (e->w == 1) return mkIte(e, C(~(u128)0, w), C(0, w));
  if (e->op == E_ITE && isC(e->b) && isC(e->c)) return mkIte(e->a, mkSext(e->b, w), mkSext(e->c, w));
  return P.get(E_SEXT, w, e, 0, 0, 0, 0);
}

static uint32_t curEpoch = 0;
void newEpoch() { curEpoch++; }
u128 evalExprCont(Expr *e, const Model &m) {
  if (e->op == E_CONST) return e->val;
  if (e->epoch == curEpoch) return e->ev;
  u128 r;
  switch (e->op) {
  case E_VAR: r = m.get(e->aux) & maskw(e->w); break;
  case E_NOT: r = ~evalExprCont(e->a, m) & maskw(e->w); break;
  case E_ITE: r = evalExprCont(e->a, m) ? evalExprCont(e->b, m) : evalExprCont(e->c, m); break;
  case E_CONCAT: r = (evalExprCont(e->a, m) << e->b->w) | evalExprCont(e->b, m); break;
  case E_EXTRACT: r = (evalExprCont(e->a, m) >> e->aux) & maskw(e->w); break;
  case E_ZEXT: r = evalExprCont(e->a, m); break;
  case E_SEXT: r = (u128)sext128(evalExprCont(e->a, m), e->a->w) & maskw(e->w); break;
  case E_AND: { u128 x = evalExprCont(e->a, m); r = x ? x & evalExprCont(e->b, m) : 0; break; }
  default: r = foldBin(e->op, e->a->w, evalExprCont(e->a, m), evalExprCont(e->b, m)); break;
  }
  e->epoch = curEpoch; e->ev = r;
  return r;
}
u128 evalExpr(Expr *e, const Model &m) { newEpoch(); return evalExprCont(e, m); }

std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext"};
  if (!e) return "null";
  char buf[96];
  if (isC(e)) { snprintf(buf, sizeof buf, "0x%llx:%u", (unsigned long long)e->val, e->w); return buf; }
  if (e->op == E_VAR) return P.varNames[e->aux];
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->op];
  if (e->op == E_EXTRACT) { snprintf(buf, sizeof buf, "[%u+%u]", e->aux, e->w); s += buf; }
  else { snprintf(buf, sizeof buf, ":%u", e->w); s += buf; }
  for (Expr *k : {e->a, e->b, e->c}) if (k) s += " " + exprStr(k, d - 1);
  return s + ")";
}
