// Hash-consed bit-vector terms (width 1..64) with known bits, intervals and,
// optionally, affine range analysis over the input variables.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum Op : uint8_t {
  T_CONST, T_VAR, T_ADD, T_SUB, T_MUL, T_UDIV, T_UREM, T_SDIV, T_SREM,
  T_AND, T_OR, T_XOR, T_SHL, T_LSHR, T_ASHR,
  T_ZEXT, T_SEXT, T_EXTRACT, T_CONCAT, T_ITE,
  T_EQ, T_ULT, T_SLT, T_NOPS
};
extern const char *opname[];

struct Affine { // value = base + sum coef[i]*var[i] + [elo,ehi]  (exact, no wrap)
  std::vector<std::pair<u32, double>> t;
  double base, elo, ehi;
  double lo, hi; // derived range
};

struct Term {
  Op op; uint8_t w; uint8_t nops;
  u32 id;
  const Term *a, *b, *c;
  u64 imm;            // CONST value, VAR index, EXTRACT low bit
  u64 kz, ko;         // known zero / one bits
  u64 umin, umax;     // unsigned interval
  i64 smin, smax;     // signed interval
  const Affine *aff;  // or null
};
typedef const Term *T;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) {
  if (w >= 64) return (i64)v;
  u64 m = 1ull << (w - 1);
  v &= maskw(w);
  return (i64)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; T term; };
extern std::vector<VarInfo> gVars;
extern bool gNarrow;   // minimal width canonicalisation + affine ranges
extern std::vector<const Term *> gTerms;

T mkConst(unsigned w, u64 v);
T mkVar(unsigned w, const std::string &name, i64 lo, i64 hi, bool sgn); // range constrained
T mkVarFull(unsigned w, const std::string &name);
T mkAdd(T a, T b); T mkSub(T a, T b); T mkMul(T a, T b);
T mkUDiv(T a, T b); T mkURem(T a, T b); T mkSDiv(T a, T b); T mkSRem(T a, T b);
T mkAnd(T a, T b); T mkOr(T a, T b); T mkXor(T a, T b);
T mkShl(T a, T b); T mkLShr(T a, T b); T mkAShr(T a, T b);
T mkZExt(T a, unsigned w); T mkSExt(T a, unsigned w);
T mkExtract(T a, unsigned lo, unsigned w); T mkConcat(T hi, T lo);
T mkIte(T c, T a, T b);
T mkEq(T a, T b); T mkUlt(T a, T b); T mkSlt(T a, T b);
static inline T mkNot(T a) { return mkXor(a, mkConst(1, 1)); }
static inline T mkUle(T a, T b) { return mkNot(mkUlt(b, a)); }
static inline T mkSle(T a, T b) { return mkNot(mkSlt(b, a)); }
T mkOp(Op op, unsigned w, T a, T b, T c, u64 imm); // rebuild through the simplifier

u64 evalOp(const Term *t, u64 a, u64 b, u64 c);

struct Evaluator { // memoised evaluation under an assignment of variables
  std::vector<u64> val; std::vector<u32> stamp; u32 cur = 0;
  const u64 *vars = nullptr; size_t nvars = 0;
  void begin(const u64 *v, size_t n) {
    vars = v; nvars = n; cur++;
    if (stamp.size() < gTerms.size()) { stamp.resize(gTerms.size() + 4096, 0); val.resize(stamp.size()); }
  }
  u64 eval(T t);
};

struct NarrowLemma { Op op; unsigned w, k; u64 imm;
  bool operator<(const NarrowLemma &o) const { return std::tie(op, w, k, imm) < std::tie(o.op, o.w, o.k, o.imm); } };
extern std::map<NarrowLemma, u64> gLemmas;
std::string termStr(T t, int depth = 6);
