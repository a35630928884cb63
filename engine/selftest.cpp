// Fuzz of the term simplifier and its range analysis against direct evaluation.
#include "term.h"
#include <random>
int main(int argc, char **argv) {
  unsigned seed = argc > 1 ? atoi(argv[1]) : 1; int rounds = argc > 2 ? atoi(argv[2]) : 2000;
  gNarrow = argc > 3 && atoi(argv[3]);
  std::mt19937_64 rng(seed);
  auto R = [&](u64 n) { return rng() % n; };
  unsigned ws[] = {1, 2, 3, 7, 8, 9, 16, 17, 32, 64};
  const int NA = 6; u64 bad = 0, n = 0;
  for (int r = 0; r < rounds && !bad; r++) {
    struct E { T t; u64 v[NA]; }; std::vector<E> pool;
    size_t v0 = gVars.size();
    for (int i = 0; i < 4; i++) {
      unsigned w = ws[R(10)]; E e; bool full = R(2);
      i64 lo = 0, hi = 0; bool sg = R(2);
      if (!full) { if (sg) { i64 a = sx(rng(), w), b = sx(rng(), w); if (R(2)) { a = sx(rng(), std::min(w, 5u)); b = sx(rng(), std::min(w, 5u)); } lo = std::min(a, b); hi = std::max(a, b); }
        else { u64 a = rng() & maskw(std::min(w, 63u)), b = rng() & maskw(std::min(w, 63u)); if (R(2)) { a &= 31; b &= 31; a &= maskw(w); b &= maskw(w); } lo = std::min(a, b); hi = std::max(a, b); } }
      e.t = full ? mkVarFull(w, "v") : mkVar(w, "v", lo, hi, sg);
      for (int k = 0; k < NA; k++) { u64 x = rng() & maskw(w); if (!full) { u64 span = (u64)hi - (u64)lo + 1; x = span ? lo + rng() % span : rng(); x &= maskw(w); if (k == 0) x = lo & maskw(w); if (k == 1) x = hi & maskw(w); } e.v[k] = x; }
      pool.push_back(e);
    }
    for (int i = 0; i < 40; i++) {
      Op op = (Op)(T_ADD + R(T_NOPS - T_ADD)); const E *a = &pool[R(pool.size())], *b = &pool[R(pool.size())];
      auto cst = [&](unsigned w) { u64 x = R(3) == 0 ? rng() : R(3) ? R(9) : (u64)-R(9); if (R(4) == 0) x = maskw(1 + R(w)) << R(w); return x & maskw(w); };
      E e; Term tmp{}; tmp.op = op;
      auto match = [&](unsigned w) -> E { for (int q = 0; q < 8; q++) { const E &x = pool[R(pool.size())]; if (x.t->w == w) return x; } E y; u64 c = cst(w); y.t = mkConst(w, c); for (int k = 0; k < NA; k++) y.v[k] = c; return y; };
      E bb, cc; unsigned w = a->t->w; E aa = *a; u64 imm = 0; bool skip = false;
      switch (op) {
      case T_ZEXT: case T_SEXT: { unsigned nw = ws[R(10)]; if (nw <= w) { skip = true; break; } tmp.w = nw; tmp.a = aa.t; e.t = op == T_ZEXT ? mkZExt(aa.t, nw) : mkSExt(aa.t, nw); for (int k = 0; k < NA; k++) e.v[k] = evalOp(&tmp, aa.v[k], 0, 0); break; }
      case T_EXTRACT: { unsigned nw = 1 + R(w); imm = R(w - nw + 1); tmp.w = nw; tmp.imm = imm; tmp.a = aa.t; e.t = mkExtract(aa.t, imm, nw); for (int k = 0; k < NA; k++) e.v[k] = evalOp(&tmp, aa.v[k], 0, 0); break; }
      case T_CONCAT: { if (w + b->t->w > 64) { skip = true; break; } bb = *b; tmp.w = w + bb.t->w; tmp.a = aa.t; tmp.b = bb.t; e.t = mkConcat(aa.t, bb.t); for (int k = 0; k < NA; k++) e.v[k] = evalOp(&tmp, aa.v[k], bb.v[k], 0); break; }
      case T_ITE: { E c1 = match(1); bb = match(w); cc = aa; e.t = mkIte(c1.t, bb.t, cc.t); for (int k = 0; k < NA; k++) e.v[k] = c1.v[k] ? bb.v[k] : cc.v[k]; break; }
      default: bb = match(w); if (R(2)) std::swap(aa, bb); tmp.w = op >= T_EQ ? 1 : w; tmp.a = aa.t; tmp.b = bb.t; e.t = mkOp(op, tmp.w, aa.t, bb.t, 0, 0); for (int k = 0; k < NA; k++) e.v[k] = evalOp(&tmp, aa.v[k], bb.v[k], 0);
      }
      if (skip) continue;
      pool.push_back(e); n++;
      for (int k = 0; k < NA; k++) {
        std::vector<u64> as(gVars.size(), 0); for (int q = 0; q < 4; q++) as[v0 + q] = pool[q].v[k];
        Evaluator ev; ev.begin(as.data(), as.size()); u64 g = ev.eval(e.t); T t = e.t; u64 x = e.v[k];
        if (g != x || x < t->umin || x > t->umax || sx(x, t->w) < t->smin || sx(x, t->w) > t->smax || (x & t->kz) || (~x & t->ko)) {
          printf("MISMATCH op=%s w=%d want %llx got %llx range u[%llx,%llx] s[%lld,%lld]\n a=%s\n b=%s\n t=%s\n", opname[op], t->w, (unsigned long long)x, (unsigned long long)g, (unsigned long long)t->umin, (unsigned long long)t->umax, (long long)t->smin, (long long)t->smax, termStr(aa.t).c_str(), bb.t ? termStr(bb.t).c_str() : "", termStr(t).c_str()); bad++; break; }
      }
    }
  }
  printf("%llu nodes, %zu terms, %llu bad\n", (unsigned long long)n, gTerms.size(), (unsigned long long)bad);
  return bad != 0;
}
