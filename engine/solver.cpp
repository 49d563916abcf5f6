#include "solver.h"
#include <fstream>
#include <unistd.h>
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(70); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, zerr);
  s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
}
void Solver::resetCtx() {
  for (Expr *e : translated) { e->zbv = nullptr; e->zbool = nullptr; }
  translated.clear(); guards.clear();
  if (ctx) { Z3_solver_dec_ref(ctx, s); Z3_del_context(ctx); }
  init();
}
static Z3_ast num(Z3_context ctx, u128 v, unsigned w) {
  Z3_sort so = Z3_mk_bv_sort(ctx, w);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, so);
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
  return Z3_mk_concat(ctx, hi, lo);
}
Z3_ast Solver::boolean(Expr *e) {
  assert(e->w == 1);
  if (e->zbool) return e->zbool;
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, boolean(e->a), boolean(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
  case E_ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
  case E_ULE: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
  case E_SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
  case E_SLE: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
  case E_NOT: r = Z3_mk_not(ctx, boolean(e->a)); break;
  case E_AND: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
  case E_OR: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
  case E_XOR: r = Z3_mk_xor(ctx, boolean(e->a), boolean(e->b)); break;
  case E_ITE: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->c)); break;
  default: r = Z3_mk_eq(ctx, bv(e), num(ctx, 1, 1)); break;
  }
  e->zbool = r; translated.push_back(e);
  return r;
}
Z3_ast Solver::bv(Expr *e) {
  if (e->zbv) return e->zbv;
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = num(ctx, e->val, e->w); break;
  case E_VAR: { char n[32]; snprintf(n, sizeof n, "v%u", e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, e->w)); break; }
  case E_ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
  case E_SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
  case E_MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
  case E_UDIV: r = Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
  case E_SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
  case E_UREM: r = Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
  case E_SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
  case E_SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
  case E_LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
  case E_ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
  case E_CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
  case E_EXTRACT: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bv(e->a)); break;
  case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
  case E_ITE: if (e->w > 1) { r = Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->c)); break; } goto viaBool;
  case E_AND: if (e->w > 1) { r = Z3_mk_bvand(ctx, bv(e->a), bv(e->b)); break; } goto viaBool;
  case E_OR: if (e->w > 1) { r = Z3_mk_bvor(ctx, bv(e->a), bv(e->b)); break; } goto viaBool;
  case E_XOR: if (e->w > 1) { r = Z3_mk_bvxor(ctx, bv(e->a), bv(e->b)); break; } goto viaBool;
  case E_NOT: if (e->w > 1) { r = Z3_mk_bvnot(ctx, bv(e->a)); break; } goto viaBool;
  default: viaBool:
    r = Z3_mk_ite(ctx, boolean(e), num(ctx, 1, 1), num(ctx, 0, 1)); break;
  }
  e->zbv = r; translated.push_back(e);
  return r;
}
bool Solver::check(std::vector<Expr*> &cs, std::shared_ptr<Model> base, std::shared_ptr<Model> &out) {
  st.queries++;
  std::vector<uint32_t> key; key.reserve(cs.size());
  for (Expr *e : cs) { if (isC(e) && !e->val) { st.unsat++; return false; } key.push_back(e->id); }
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  u64 h = 0; for (auto k : key) h = ExprPool::mix(h, k);
  auto &bucket = cache[h];
  VarSet *vs = P.emptyVs; for (Expr *e : cs) vs = P.vsUnion(vs, e->vs);
  auto merge = [&](const Model &m) {
    auto r = std::make_shared<Model>(base ? *base : Model());
    if (r->v.size() < P.varNames.size()) r->v.resize(P.varNames.size(), 0);
    for (size_t i = 0; i < vs->bits.size(); i++) for (u64 b = vs->bits[i]; b; b &= b - 1) { unsigned k = i * 64 + __builtin_ctzll(b); r->v[k] = m.get(k); }
    return r;
  };
  for (auto &p : bucket) if (p.first == key) {
    st.cacheHits++;
    if (!p.second.first) { st.unsat++; return false; }
    st.sat++; out = merge(*p.second.second); return true;
  }
  for (auto &m : recent) {
    newEpoch(); bool ok = true;
    for (size_t i = cs.size(); i-- > 0;) if (!evalExprCont(cs[i], *m)) { ok = false; break; }
    if (ok) { st.modelHits++; st.sat++; out = merge(*m); bucket.push_back({key, {true, m}}); return true; }
  }
  if (!ctx) init();
  if (guards.size() > 3000 || translated.size() > 400000) resetCtx();
  st.z3calls++;
  auto t0 = std::chrono::steady_clock::now();
  std::vector<Z3_ast> as;
  for (Expr *e : cs) {
    if (isC(e)) continue;
    auto it = guards.find(e);
    if (it == guards.end()) {
      char n[32]; snprintf(n, sizeof n, "g%u", e->id);
      Z3_ast g = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bool_sort(ctx));
      Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, g, boolean(e)));
      it = guards.emplace(e, g).first;
    }
    as.push_back(it->second);
  }
  Z3_lbool r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.z3time += dt; if (dt > st.maxq) st.maxq = dt;
  if (r == Z3_L_UNDEF) {
    std::string why = Z3_solver_get_reason_unknown(ctx, s);
    resetCtx();
    throw SolverUnknown{why};
  }
  if (!dumpDir.empty() && dumpEvery && (st.z3calls % dumpEvery) == 0 && dumped < 400) {
    // dump the query for an independent solver
    Z3_solver t = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, t);
    for (Expr *e : cs) if (!isC(e)) Z3_solver_assert(ctx, t, boolean(e));
    char fn[64]; snprintf(fn, sizeof fn, "/q%d_%llu.%s.smt2", (int)getpid(), (unsigned long long)st.z3calls, r == Z3_L_TRUE ? "sat" : "unsat");
    std::ofstream f(dumpDir + fn); f << "(set-logic QF_BV)\n" << Z3_solver_to_string(ctx, t) << "(check-sat)\n";
    Z3_solver_dec_ref(ctx, t); dumped++;
  }
  if (++cacheEntries > 2000000) { cache.clear(); cacheEntries = 0; }
  auto &bk = cache[h];
  if (r == Z3_L_FALSE) { st.unsat++; bk.push_back({key, {false, nullptr}}); return false; }
  st.sat++;
  Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
  auto mm = std::make_shared<Model>(); mm->v.resize(P.varNames.size(), 0);
  for (size_t i = 0; i < vs->bits.size(); i++) for (u64 b = vs->bits[i]; b; b &= b - 1) {
    unsigned k = i * 64 + __builtin_ctzll(b); Z3_ast v;
    if (Z3_model_eval(ctx, m, bv(P.varExprs[k]), true, &v)) { uint64_t x = 0; if (Z3_get_numeral_uint64(ctx, v, &x)) mm->v[k] = x; }
  }
  Z3_model_dec_ref(ctx, m);
  // validate the model against our own semantics: a disagreement is a bug in the translation
  newEpoch();
  for (Expr *e : cs) if (!evalExprCont(e, *mm)) { fprintf(stderr, "MODEL MISMATCH: %s\n", exprStr(e, 12).c_str()); exit(71); }
  if (recent.size() < 12) recent.push_back(mm); else recent[recentPos++ % 12] = mm;
  bk.push_back({key, {true, mm}});
  out = merge(*mm);
  return true;
}
