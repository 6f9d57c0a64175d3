#include "solver.h"
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void onErr(Z3_context c, Z3_error_code e) { fail(std::string("z3 error: ") + Z3_get_error_msg(c, e)); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, onErr);
  s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1); Z3_solver_set_params(ctx, s, p);
}
static Z3_ast num(Z3_context c, u128 v, unsigned w) {
  Z3_sort so = Z3_mk_bv_sort(c, w);
  if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, so);
  return Z3_mk_concat(c, Z3_mk_unsigned_int64(c, (u64)(v >> 64), Z3_mk_bv_sort(c, w - 64)), Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, 64)));
}
static Z3_ast zvar(Solver& S, i32 v) {
  if ((size_t)v >= S.zv.size()) S.zv.resize(v + 1, nullptr);
  if (!S.zv[v]) { S.zv[v] = Z3_mk_const(S.ctx, Z3_mk_int_symbol(S.ctx, v), Z3_mk_bv_sort(S.ctx, g_vars[v].w)); }
  return S.zv[v];
}
Z3_ast Solver::inSet(i32 var, const Bits& d) {
  u32 n = g_vars[var].n; unsigned w = g_vars[var].w; Z3_ast x = zvar(*this, var); std::vector<Z3_ast> ds;
  for (u32 i = 0; i < n;) { if (!d.get(i)) { i++; continue; } u32 j = i; while (j + 1 < n && d.get(j + 1)) j++;
    if (i == j) ds.push_back(Z3_mk_eq(ctx, x, num(ctx, i, w))); else { Z3_ast a[2] = {Z3_mk_bvuge(ctx, x, num(ctx, i, w)), Z3_mk_bvule(ctx, x, num(ctx, j, w))}; ds.push_back(Z3_mk_and(ctx, 2, a)); }
    i = j + 1; }
  if (ds.empty()) return Z3_mk_false(ctx);
  return ds.size() == 1 ? ds[0] : Z3_mk_or(ctx, ds.size(), ds.data());
}
Z3_ast Solver::tr(Expr* e) { // bit-vector term; width-1 booleans are 1-bit vectors
  if (e->z) return e->z;
  Z3_ast r; unsigned w = e->w;
  auto b2v = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, num(ctx, 1, 1), num(ctx, 0, 1)); };
  if (e->op == O_CONST) r = num(ctx, ((u128)e->hi << 64) | e->lo, w);
  else if (e->op == O_VAR) r = zvar(*this, e->lo);
  else if (e->op == O_TABLE) {
    u32 n = g_vars[e->var].n; auto& v = e->tab->v; unsigned vw = g_vars[e->var].w; Z3_ast x = zvar(*this, e->var);
    if (w == 1) { Bits d = noBits(); for (u32 i = 0; i < n; i++) if (v[i]) d.set(i); r = b2v(inSet(e->var, d)); }
    else { std::vector<std::pair<u32, u64>> runs; for (u32 i = 0; i < n; i++) if (i == 0 || v[i] != v[i - 1]) runs.push_back({i, v[i]});
      std::function<Z3_ast(size_t, size_t)> go = [&](size_t a, size_t b) -> Z3_ast { if (b - a == 1) return num(ctx, runs[a].second, w); size_t m = (a + b) / 2; return Z3_mk_ite(ctx, Z3_mk_bvult(ctx, x, num(ctx, runs[m].first, vw)), go(a, m), go(m, b)); };
      r = go(0, runs.size()); }
  } else {
    Z3_ast a = tr(e->k[0]), b = e->k[1] ? tr(e->k[1]) : nullptr, c = e->k[2] ? tr(e->k[2]) : nullptr;
    switch (e->op) {
      case O_ADD: r = Z3_mk_bvadd(ctx, a, b); break; case O_SUB: r = Z3_mk_bvsub(ctx, a, b); break; case O_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
      case O_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break; case O_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break; case O_UREM: r = Z3_mk_bvurem(ctx, a, b); break; case O_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
      case O_AND: r = Z3_mk_bvand(ctx, a, b); break; case O_OR: r = Z3_mk_bvor(ctx, a, b); break; case O_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
      case O_SHL: r = Z3_mk_bvshl(ctx, a, b); break; case O_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break; case O_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
      case O_EQ: r = b2v(Z3_mk_eq(ctx, a, b)); break; case O_ULT: r = b2v(Z3_mk_bvult(ctx, a, b)); break; case O_ULE: r = b2v(Z3_mk_bvule(ctx, a, b)); break;
      case O_SLT: r = b2v(Z3_mk_bvslt(ctx, a, b)); break; case O_SLE: r = b2v(Z3_mk_bvsle(ctx, a, b)); break;
      case O_ITE: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, a, num(ctx, 1, 1)), b, c); break;
      case O_CONCAT: r = Z3_mk_concat(ctx, a, b); break; case O_EXTRACT: r = Z3_mk_extract(ctx, e->lo + w - 1, e->lo, a); break;
      case O_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->k[0]->w, a); break; case O_SEXT: r = Z3_mk_sign_ext(ctx, w - e->k[0]->w, a); break;
      default: fail("tr");
    }
  }
  Z3_inc_ref(ctx, r); e->z = r; return r;
}
bool Solver::check(const std::vector<Bits>& dom, const std::vector<Expr*>& cs, std::vector<u64>& model) {
  std::vector<i32> vars; for (Expr* e : cs) { std::vector<i32> m; std::set_union(vars.begin(), vars.end(), e->vars->begin(), e->vars->end(), std::back_inserter(m)); vars.swap(m); }
  std::vector<u64> key; std::vector<u64> ids; for (Expr* e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  key = ids; key.push_back(~0ULL);
  for (i32 v : vars) { key.push_back(v); if (g_vars[v].n) for (int i = 0; i < 4; i++) key.push_back(dom[v].b[i]); }
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; if (it->second.sat) for (auto& p : it->second.model) model[p.first] = p.second; return it->second.sat; }
  double t0 = now();
  Z3_solver_push(ctx, s);
  for (i32 v : vars) if (g_vars[v].n) Z3_solver_assert(ctx, s, inSet(v, dom[v]));
  for (Expr* e : cs) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), num(ctx, 1, 1)));
  Z3_lbool r = Z3_solver_check(ctx, s); st.queries++;
  Res res{r == Z3_L_TRUE, {}};
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (i32 v : vars) { Z3_ast val; u64 x = 0; if (!Z3_model_eval(ctx, m, zvar(*this, v), true, &val)) fail("z3 model"); if (!Z3_get_numeral_uint64(ctx, val, (uint64_t*)&x)) fail("z3 numeral"); res.model.push_back({v, x}); }
    Z3_model_dec_ref(ctx, m); st.sat++;
  } else st.unsat++;
  Z3_solver_pop(ctx, s, 1);
  st.z3s += now() - t0;
  if (r == Z3_L_UNDEF) fail("solver returned unknown");
  if (res.sat) for (auto& p : res.model) model[p.first] = p.second;
  if (cache.size() < 2000000) cache.emplace(std::move(key), res);
  return res.sat;
}
bool Solver::confirmUnaryUnsat(i32 var, const Bits& dom, Expr* cond, bool val) {
  std::vector<u64> key{(u64)var, cond->id, val, dom.b[0], dom.b[1], dom.b[2], dom.b[3]};
  auto it = unaryCache.find(key); if (it != unaryCache.end()) { st.cacheHits++; return it->second; }
  double t0 = now(); Z3_solver_push(ctx, s);
  Z3_solver_assert(ctx, s, inSet(var, dom)); Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(cond), num(ctx, val, 1)));
  Z3_lbool r = Z3_solver_check(ctx, s); Z3_solver_pop(ctx, s, 1); st.queries++; st.unary++; st.z3s += now() - t0;
  if (r == Z3_L_UNDEF) fail("solver returned unknown");
  if (r == Z3_L_TRUE) st.sat++; else st.unsat++;
  bool u = r == Z3_L_FALSE; if (unaryCache.size() < 4000000) unaryCache.emplace(std::move(key), u); return u;
}
