#include "solver.h"
#include <algorithm>
#include <chrono>
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
Solver::Solver() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, errh);
  simple = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, simple); plain = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, plain);
  hard = Z3_mk_solver_from_tactic(ctx, Z3_mk_tactic(ctx, "qfbv")); Z3_solver_inc_ref(ctx, hard);
}
Z3_ast Solver::asBV(ZV v) {
  if (!v.isBool) return v.a;
  Z3_sort s = Z3_mk_bv_sort(ctx, 1);
  return Z3_mk_ite(ctx, v.a, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
}
Z3_ast Solver::asBool(ZV v) {
  if (v.isBool) return v.a;
  return Z3_mk_eq(ctx, v.a, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
}
Solver::ZV Solver::conv(T t0, std::unordered_map<T, ZV> &m, const std::unordered_set<T> *leaf, std::vector<std::pair<T, Z3_ast>> *leaves) {
  std::vector<T> st{t0};
  while (!st.empty()) {
    T t = st.back();
    if (m.count(t)) { st.pop_back(); continue; }
    bool isLeaf = leaf && leaf->count(t) && t->op != T_CONST;
    if (!isLeaf) {
      bool ready = true;
      for (T o : {t->a, t->b, t->c}) if (o && !m.count(o)) { st.push_back(o); ready = false; }
      if (!ready) continue;
    }
    ZV r{nullptr, false};
    Z3_sort s = Z3_mk_bv_sort(ctx, t->w);
    if (isLeaf || t->op == T_VAR) {
      char nm[32]; snprintf(nm, 32, "%c%u", t->op == T_VAR ? 'v' : 'n', t->op == T_VAR ? (u32)t->imm : t->id);
      r.a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), s);
      if (leaves) leaves->push_back({t, r.a});
    } else if (t->op == T_CONST) {
      if (t->w == 1) { r.a = t->imm ? Z3_mk_true(ctx) : Z3_mk_false(ctx); r.isBool = true; }
      else r.a = Z3_mk_unsigned_int64(ctx, t->imm, s);
    } else {
      ZV a = m[t->a], b = t->b ? m[t->b] : ZV{}, c = t->c ? m[t->c] : ZV{};
      if (t->w == 1 && (t->op == T_AND || t->op == T_OR || t->op == T_XOR)) {
        Z3_ast x = asBool(a), y = asBool(b); Z3_ast xs[2] = {x, y};
        r.isBool = true;
        if (t->op == T_XOR) { if (t->b->op == T_CONST) r.a = t->b->imm ? Z3_mk_not(ctx, x) : x; else r.a = Z3_mk_xor(ctx, x, y); }
        else r.a = t->op == T_AND ? Z3_mk_and(ctx, 2, xs) : Z3_mk_or(ctx, 2, xs);
      } else switch (t->op) {
      case T_ADD: r.a = Z3_mk_bvadd(ctx, asBV(a), asBV(b)); break;
      case T_SUB: r.a = Z3_mk_bvsub(ctx, asBV(a), asBV(b)); break;
      case T_MUL: r.a = Z3_mk_bvmul(ctx, asBV(a), asBV(b)); break;
      case T_UDIV: r.a = Z3_mk_bvudiv(ctx, asBV(a), asBV(b)); break;
      case T_UREM: r.a = Z3_mk_bvurem(ctx, asBV(a), asBV(b)); break;
      case T_SDIV: r.a = Z3_mk_bvsdiv(ctx, asBV(a), asBV(b)); break;
      case T_SREM: r.a = Z3_mk_bvsrem(ctx, asBV(a), asBV(b)); break;
      case T_AND: r.a = Z3_mk_bvand(ctx, asBV(a), asBV(b)); break;
      case T_OR: r.a = Z3_mk_bvor(ctx, asBV(a), asBV(b)); break;
      case T_XOR: r.a = Z3_mk_bvxor(ctx, asBV(a), asBV(b)); break;
      case T_SHL: r.a = Z3_mk_bvshl(ctx, asBV(a), asBV(b)); break;
      case T_LSHR: r.a = Z3_mk_bvlshr(ctx, asBV(a), asBV(b)); break;
      case T_ASHR: r.a = Z3_mk_bvashr(ctx, asBV(a), asBV(b)); break;
      case T_ZEXT: r.a = Z3_mk_zero_ext(ctx, t->w - t->a->w, asBV(a)); break;
      case T_SEXT: r.a = Z3_mk_sign_ext(ctx, t->w - t->a->w, asBV(a)); break;
      case T_EXTRACT: r.a = Z3_mk_extract(ctx, t->imm + t->w - 1, t->imm, asBV(a)); break;
      case T_CONCAT: r.a = Z3_mk_concat(ctx, asBV(a), asBV(b)); break;
      case T_ITE: if (t->w == 1) { r.a = Z3_mk_ite(ctx, asBool(a), asBool(b), asBool(c)); r.isBool = true; } else r.a = Z3_mk_ite(ctx, asBool(a), asBV(b), asBV(c)); break;
      case T_EQ: r.a = Z3_mk_eq(ctx, asBV(a), asBV(b)); r.isBool = true; break;
      case T_ULT: r.a = Z3_mk_bvult(ctx, asBV(a), asBV(b)); r.isBool = true; break;
      case T_SLT: r.a = Z3_mk_bvslt(ctx, asBV(a), asBV(b)); r.isBool = true; break;
      default: abort();
      }
    }
    Z3_inc_ref(ctx, r.a);
    m[t] = r; st.pop_back();
  }
  return m[t0];
}
Z3_ast Solver::rangeOfVar(T v, Z3_ast x) {
  Z3_sort s = Z3_mk_bv_sort(ctx, v->w); u64 m = maskw(v->w);
  std::vector<Z3_ast> c;
  if (v->umin > 0) c.push_back(Z3_mk_bvuge(ctx, x, Z3_mk_unsigned_int64(ctx, v->umin, s)));
  if (v->umax < m) c.push_back(Z3_mk_bvule(ctx, x, Z3_mk_unsigned_int64(ctx, v->umax, s)));
  if (v->smin > sx(1ull << (v->w - 1), v->w)) c.push_back(Z3_mk_bvsge(ctx, x, Z3_mk_unsigned_int64(ctx, (u64)v->smin & m, s)));
  if (v->smax < (i64)(m >> 1)) c.push_back(Z3_mk_bvsle(ctx, x, Z3_mk_unsigned_int64(ctx, (u64)v->smax & m, s)));
  if (v->op != T_VAR && (v->kz | v->ko)) c.push_back(Z3_mk_eq(ctx, Z3_mk_bvand(ctx, x, Z3_mk_unsigned_int64(ctx, v->kz | v->ko, s)), Z3_mk_unsigned_int64(ctx, v->ko, s)));
  if (c.empty()) return nullptr;
  return Z3_mk_and(ctx, c.size(), c.data());
}
const std::vector<u32> &Solver::varsOf(T t) {
  auto it = varsCache.find(t);
  if (it != varsCache.end()) return it->second;
  std::vector<u32> r; std::unordered_set<T> seen; std::vector<T> st{t};
  while (!st.empty()) { T x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->op == T_VAR) r.push_back(x->imm);
    for (T o : {x->a, x->b, x->c}) if (o) { if (o != t) { auto j = varsCache.find(o); if (j != varsCache.end()) { for (u32 v : j->second) r.push_back(v); continue; } } st.push_back(o); } }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
  return varsCache[t] = std::move(r);
}
SatRes Solver::runInc(const std::vector<T> &cs, T last, const std::vector<u32> &vars, std::vector<u64> *model) {
  auto t0 = std::chrono::steady_clock::now();
  if (!paramsSet[0]) { paramsSet[0] = true; Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 20000000u); Z3_solver_set_params(ctx, simple, p); Z3_params_dec_ref(ctx, p); }
  if (++incUses > 3000) { // start afresh from time to time: the core keeps garbage
    incUses = 0; Z3_solver_dec_ref(ctx, simple); simple = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, simple); incStack.clear(); paramsSet[0] = false; return runInc(cs, last, vars, model); }
  auto add = [&](T t) { ZV z = conv(t, memo, nullptr, nullptr); Z3_solver_assert(ctx, simple, asBool(z)); for (u32 v : varsOf(t)) { T x = gVars[v].term; conv(x, memo, nullptr, nullptr); Z3_ast r = rangeOfVar(x, memo[x].a); if (r) Z3_solver_assert(ctx, simple, r); } };
  size_t k = 0; while (k < incStack.size() && k < cs.size() && incStack[k] == cs[k]) k++;
  if (k < incStack.size()) { Z3_solver_pop(ctx, simple, incStack.size() - k); incStack.resize(k); }
  for (; k < cs.size(); k++) { Z3_solver_push(ctx, simple); add(cs[k]); incStack.push_back(cs[k]); }
  Z3_solver_push(ctx, simple); add(last);
  Z3_lbool r = Z3_solver_check(ctx, simple); SatRes res = r == Z3_L_FALSE ? R_UNSAT : r == Z3_L_TRUE ? R_SAT : R_UNKNOWN;
  if (res == R_SAT && model) {
    Z3_model m = Z3_solver_get_model(ctx, simple); Z3_model_inc_ref(ctx, m);
    for (u32 v : vars) { T t = gVars[v].term; Z3_ast o; u64 val = 0; if (Z3_model_eval(ctx, m, memo[t].a, true, &o)) { Z3_inc_ref(ctx, o); Z3_get_numeral_uint64(ctx, o, &val); Z3_dec_ref(ctx, o); } if (model->size() <= v) model->resize(gVars.size(), 0); (*model)[v] = val; }
    Z3_model_dec_ref(ctx, m);
  }
  Z3_solver_pop(ctx, simple, 1);
  double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
  st.ms += ms; if (res != R_UNKNOWN) { st.queries++; st.maxMs = std::max(st.maxMs, ms); if (res == R_SAT) st.sat++; else st.unsat++; }
  return res;
}
SatRes Solver::run(const std::vector<Z3_ast> &as, const std::vector<u32> *vars, std::vector<u64> *model) {
  auto t0 = std::chrono::steady_clock::now();
  st.queries++;
  SatRes res = R_UNKNOWN;
  for (int pass = 0; pass < 2 && res == R_UNKNOWN; pass++) {
    Z3_solver s = pass ? hard : plain;
    if (!paramsSet[pass + 1]) { paramsSet[pass + 1] = true;
      Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
      if (pass) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs); else Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 20000000u);
      Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p); }
    Z3_solver_push(ctx, s);
    for (auto a : as) Z3_solver_assert(ctx, s, a);
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE) res = R_UNSAT;
    else if (r == Z3_L_TRUE) {
      res = R_SAT;
      if (vars && model) {
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
        for (u32 v : *vars) {
          T t = gVars[v].term; Z3_ast o; u64 val = 0;
          if (Z3_model_eval(ctx, m, memo[t].a, true, &o)) { Z3_inc_ref(ctx, o); if (Z3_get_numeral_uint64(ctx, o, &val)) {} Z3_dec_ref(ctx, o); }
          if (model->size() <= v) model->resize(gVars.size(), 0);
          (*model)[v] = val;
        }
        Z3_model_dec_ref(ctx, m);
      }
    }
    Z3_solver_pop(ctx, s, 1);
  }
  double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
  st.ms += ms; st.maxMs = std::max(st.maxMs, ms);
  if (res == R_SAT) st.sat++; else if (res == R_UNSAT) st.unsat++; else st.unknown++;
  return res;
}
SatRes Solver::check(const std::vector<T> &cs, std::vector<u64> *model) {
  std::vector<T> u(cs); std::sort(u.begin(), u.end(), [](T a, T b) { return a->id < b->id; }); u.erase(std::unique(u.begin(), u.end()), u.end());
  std::string key; for (T t : u) { if (t->op == T_CONST) { if (!t->imm) return R_UNSAT; continue; } key.append((const char *)&t->id, 4); }
  auto it = cache.find(key);
  if (it != cache.end()) { st.cacheHits++; if (model) for (auto &p : it->second.second) { if (model->size() <= p.first) model->resize(gVars.size(), 0); (*model)[p.first] = p.second; } return it->second.first; }
  std::vector<Z3_ast> as; std::vector<u32> vs;
  for (T t : u) { if (t->op == T_CONST) continue; ZV z = conv(t, memo, nullptr, nullptr); as.push_back(asBool(z)); for (u32 v : varsOf(t)) vs.push_back(v); }
  std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  for (u32 v : vs) { T t = gVars[v].term; conv(t, memo, nullptr, nullptr); Z3_ast r = rangeOfVar(t, memo[t].a); if (r) as.push_back(r); }
  std::vector<u64> m; SatRes r = R_UNKNOWN;
  if (cs.size() > 1) { std::vector<T> pre; for (size_t i = 1; i < cs.size(); i++) if (cs[i]->op != T_CONST) pre.push_back(cs[i]); r = runInc(pre, cs[0], vs, &m); }
  if (r == R_UNKNOWN) r = run(as, &vs, &m);
  if (r == R_UNKNOWN) return r;
  auto &e = cache[key]; e.first = r;
  if (r == R_SAT) { for (u32 v : vs) { e.second.push_back({v, m[v]}); if (model) { if (model->size() <= v) model->resize(gVars.size(), 0); (*model)[v] = m[v]; } } }
  return r;
}
SatRes Solver::checkCutEq(T a, T b, const std::unordered_set<T> &leaf) {
  std::unordered_map<T, ZV> m; std::vector<std::pair<T, Z3_ast>> leaves;
  ZV x = conv(a, m, &leaf, &leaves), y = conv(b, m, &leaf, &leaves);
  std::vector<Z3_ast> as; as.push_back(Z3_mk_not(ctx, Z3_mk_eq(ctx, asBV(x), asBV(y))));
  for (auto &p : leaves) { Z3_ast r = rangeOfVar(p.first, p.second); if (r) as.push_back(r); }
  SatRes r = run(as, nullptr, nullptr);
  for (auto &p : m) Z3_dec_ref(ctx, p.second.a);
  return r;
}
SatRes Solver::proveLemma(const NarrowLemma &l) {
  // for all k-bit a (and b): if the exact result fits k signed bits then op_w(sext a, sext b) = sext(op_k(a,b))
  unsigned w = l.w, k = l.k, W = 2 * w > 64 ? 2 * w : 2 * w;
  Z3_ast a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, "la"), Z3_mk_bv_sort(ctx, k)), b = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, "lb"), Z3_mk_bv_sort(ctx, k));
  auto se = [&](Z3_ast x, unsigned n) { return n ? Z3_mk_sign_ext(ctx, n, x) : x; };
  auto opx = [&](Z3_ast x, Z3_ast y, unsigned ww) -> Z3_ast {
    switch (l.op) { case T_ADD: return Z3_mk_bvadd(ctx, x, y); case T_SUB: return Z3_mk_bvsub(ctx, x, y); case T_MUL: return Z3_mk_bvmul(ctx, x, y);
    default: return Z3_mk_bvshl(ctx, x, Z3_mk_unsigned_int64(ctx, l.imm, Z3_mk_bv_sort(ctx, ww))); } };
  if (l.op == T_MUL) { // low k bits of a product do not depend on the width: reduce to k+1.. by extract; keep W small
    W = 2 * k;
    Z3_ast ex = opx(se(a, W - k), se(b, W - k), W), nk = opx(a, b, k);
    std::vector<Z3_ast> as{Z3_mk_not(ctx, Z3_mk_eq(ctx, Z3_mk_extract(ctx, k - 1, 0, ex), nk))};
    return run(as, nullptr, nullptr);
  }
  Z3_ast exact = opx(se(a, W - k), se(b, W - k), W);
  if (l.op == T_SHL && l.imm >= W - k) { }
  Z3_ast fit = Z3_mk_eq(ctx, exact, se(Z3_mk_extract(ctx, k - 1, 0, exact), W - k));
  Z3_ast wide = opx(se(a, w - k), se(b, w - k), w), nar = se(opx(a, b, k), w - k);
  std::vector<Z3_ast> as{fit, Z3_mk_not(ctx, Z3_mk_eq(ctx, wide, nar))};
  return run(as, nullptr, nullptr);
}
