#include "term.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>

const char *opname[] = {"const","var","add","sub","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","zext","sext","extract","concat","ite","eq","ult","slt"};
std::vector<VarInfo> gVars;
std::vector<const Term *> gTerms;
bool gNarrow = false;
std::map<NarrowLemma, u64> gLemmas;

struct Key { Op op; uint8_t w; const Term *a, *b, *c; u64 imm;
  bool operator==(const Key &o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && imm == o.imm; } };
struct KeyH { size_t operator()(const Key &k) const {
  u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w;
  auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((u64)k.a >> 4); mix((u64)k.b >> 4); mix((u64)k.c >> 4); mix(k.imm); return h; } };
static std::unordered_map<Key, const Term *, KeyH> gTab;

static inline bool isC(T t) { return t->op == T_CONST; }
static inline u64 allones(unsigned w) { return maskw(w); }
static int sbits(i64 lo, i64 hi) { // signed bits needed
  int k = 1;
  while (k < 64 && (lo < -(1ll << (k - 1)) || hi > (1ll << (k - 1)) - 1)) k++;
  return k;
}

u64 evalOp(const Term *t, u64 a, u64 b, u64 c) {
  unsigned w = t->w; u64 m = maskw(w);
  switch (t->op) {
  case T_CONST: return t->imm;
  case T_ADD: return (a + b) & m;
  case T_SUB: return (a - b) & m;
  case T_MUL: return (a * b) & m;
  case T_UDIV: return b ? (a / b) & m : m;
  case T_UREM: return b ? (a % b) & m : a;
  case T_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(-(u64)x) & m; return (u64)(x / y) & m; }
  case T_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
  case T_AND: return a & b;
  case T_OR: return a | b;
  case T_XOR: return a ^ b;
  case T_SHL: return b >= w ? 0 : (a << b) & m;
  case T_LSHR: return b >= w ? 0 : a >> b;
  case T_ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? (w > 63 ? 63 : w) : b)) & m; }
  case T_ZEXT: return a;
  case T_SEXT: return (u64)sx(a, t->a->w) & m;
  case T_EXTRACT: return (a >> t->imm) & m;
  case T_CONCAT: return ((a << t->b->w) | b) & m;
  case T_ITE: return a ? b : c;
  case T_EQ: return a == b;
  case T_ULT: return a < b;
  case T_SLT: return sx(a, t->a->w) < sx(b, t->b->w);
  default: abort();
  }
}

u64 Evaluator::eval(T t0) {
  if (stamp.size() < gTerms.size()) { stamp.resize(gTerms.size() + 4096, 0); val.resize(stamp.size()); }
  if (t0->op == T_CONST) return t0->imm;
  if (stamp[t0->id] == cur) return val[t0->id];
  std::vector<T> st; st.push_back(t0);
  while (!st.empty()) {
    T t = st.back();
    if (stamp[t->id] == cur) { st.pop_back(); continue; }
    if (t->op == T_CONST) { val[t->id] = t->imm; stamp[t->id] = cur; st.pop_back(); continue; }
    if (t->op == T_VAR) { val[t->id] = t->imm < nvars ? vars[t->imm] : (t->smin >= 0 ? t->umin : ((u64)t->smin & maskw(t->w))); stamp[t->id] = cur; st.pop_back(); continue; }
    bool ready = true;
    for (T o : {t->a, t->b, t->c}) if (o && stamp[o->id] != cur) { st.push_back(o); ready = false; }
    if (!ready) continue;
    val[t->id] = evalOp(t, val[t->a->id], t->b ? val[t->b->id] : 0, t->c ? val[t->c->id] : 0);
    stamp[t->id] = cur; st.pop_back();
  }
  return val[t0->id];
}

// ---------------------------------------------------------------- affine
static const Affine *affMake(Affine *f) {
  double lo = f->base + f->elo, hi = f->base + f->ehi;
  for (auto &p : f->t) {
    T v = gVars[p.first >> 1].term; // index 2i: unsigned value of variable i, 2i+1: its signed value
    double l = p.first & 1 ? (double)v->smin : (double)v->umin, h = p.first & 1 ? (double)v->smax : (double)v->umax;
    if (p.second >= 0) { lo += p.second * l; hi += p.second * h; } else { lo += p.second * h; hi += p.second * l; }
  }
  f->lo = lo; f->hi = hi;
  return f;
}
static const Affine *affLin(const Affine *a, double ca, const Affine *b, double cb) {
  Affine *r = new Affine; r->base = a->base * ca + (b ? b->base * cb : 0);
  auto e = [](double lo, double hi, double c, double &ol, double &oh) { if (c >= 0) { ol += lo * c; oh += hi * c; } else { ol += hi * c; oh += lo * c; } };
  r->elo = r->ehi = 0; e(a->elo, a->ehi, ca, r->elo, r->ehi); if (b) e(b->elo, b->ehi, cb, r->elo, r->ehi);
  size_t i = 0, j = 0; size_t nb = b ? b->t.size() : 0;
  r->t.reserve(a->t.size() + nb);
  while (i < a->t.size() || j < nb) {
    if (j >= nb || (i < a->t.size() && a->t[i].first < b->t[j].first)) { r->t.push_back({a->t[i].first, a->t[i].second * ca}); i++; }
    else if (i >= a->t.size() || b->t[j].first < a->t[i].first) { r->t.push_back({b->t[j].first, b->t[j].second * cb}); j++; }
    else { double c = a->t[i].second * ca + b->t[j].second * cb; if (c != 0) r->t.push_back({a->t[i].first, c}); i++; j++; }
  }
  return affMake(r);
}
static const Affine *affConst(double c) { Affine *r = new Affine; r->base = c; r->elo = r->ehi = 0; return affMake(r); }
static const size_t AFFMAX = 6000;

// is the affine form's value the SIGNED value of the term (always our convention; requires fit)
static const Affine *affOf(T t) {
  if (t->aff) return t->aff;
  if (isC(t)) return affConst((double)sx(t->imm, t->w));
  return nullptr;
}

// ---------------------------------------------------------------- node construction
static void setRange(Term *t) { // tighten mutually
  u64 m = maskw(t->w);
  // from known bits
  t->umin = std::max(t->umin, t->ko); t->umax = std::min(t->umax, m & ~t->kz);
  // signed from unsigned
  u64 sbit = 1ull << (t->w - 1);
  if (t->umax < sbit) { t->smin = std::max(t->smin, (i64)t->umin); t->smax = std::min(t->smax, (i64)t->umax); }
  else if (t->umin >= sbit) { t->smin = std::max(t->smin, sx(t->umin, t->w)); t->smax = std::min(t->smax, sx(t->umax, t->w)); }
  if (t->smin >= 0) { t->umin = std::max(t->umin, (u64)t->smin); t->umax = std::min(t->umax, (u64)t->smax); }
  else if (t->smax < 0) { t->umin = std::max(t->umin, (u64)t->smin & m); t->umax = std::min(t->umax, (u64)t->smax & m); }
  // known leading bits from unsigned interval
  u64 diff = t->umin ^ t->umax;
  int hb = diff ? 64 - __builtin_clzll(diff) : 0;
  u64 known = hb >= 64 ? 0 : m & ~((hb == 0 ? 0 : maskw(hb)));
  t->ko |= t->umin & known; t->kz |= ~t->umin & known & m;
}

static T intern(Op op, unsigned w, T a, T b, T c, u64 imm) {
  Key k{op, (uint8_t)w, a, b, c, imm};
  auto it = gTab.find(k);
  if (it != gTab.end()) return it->second;
  Term *t = new Term; memset(t, 0, sizeof *t);
  t->op = op; t->w = w; t->a = a; t->b = b; t->c = c; t->imm = imm;
  t->nops = (a != 0) + (b != 0) + (c != 0);
  u64 m = maskw(w);
  t->kz = 0; t->ko = 0; t->umin = 0; t->umax = m; t->smin = sx(1ull << (w - 1), w); t->smax = (i64)(m >> 1);
  typedef __int128 I;
  auto setS = [&](I lo, I hi) { if (lo >= t->smin && hi <= t->smax) { t->smin = (i64)lo; t->smax = (i64)hi; return true; } return false; };
  auto setU = [&](unsigned __int128 lo, unsigned __int128 hi) { if (hi <= m) { t->umin = (u64)lo; t->umax = (u64)hi; } };
  switch (op) {
  case T_CONST: t->ko = imm; t->kz = ~imm & m; t->umin = t->umax = imm; t->smin = t->smax = sx(imm, w); break;
  case T_ADD: {
    bool fits = setS((I)a->smin + b->smin, (I)a->smax + b->smax);
    setU((unsigned __int128)a->umin + b->umin, (unsigned __int128)a->umax + b->umax);
    // low known zeros
    u64 z = a->kz & b->kz; int n = ~z ? __builtin_ctzll(~z) : 64; if (n > 0) t->kz |= maskw(n) & m;
    (void)fits; break; }
  case T_SUB: setS((I)a->smin - b->smax, (I)a->smax - b->smin); if (a->umin >= b->umax) setU(a->umin - b->umax, a->umax - b->umin); break;
  case T_MUL: {
    I p[4] = {(I)a->smin * b->smin, (I)a->smin * b->smax, (I)a->smax * b->smin, (I)a->smax * b->smax};
    setS(std::min(std::min(p[0], p[1]), std::min(p[2], p[3])), std::max(std::max(p[0], p[1]), std::max(p[2], p[3])));
    setU((unsigned __int128)a->umin * b->umin, (unsigned __int128)a->umax * b->umax);
    int n = std::min(64, (~a->kz ? __builtin_ctzll(~a->kz) : 64) + (~b->kz ? __builtin_ctzll(~b->kz) : 64)); if (n > 0) t->kz |= maskw(std::min(n, 64)) & m;
    break; }
  case T_UDIV: if (b->umin > 0) setU(a->umin / b->umax, a->umax / b->umin); break;
  case T_UREM: if (b->umin > 0) setU(0, std::min(a->umax, b->umax - 1)); break;
  case T_SDIV: if (isC(b) && sx(b->imm, w) > 0) { i64 d = sx(b->imm, w); setS(a->smin / d, a->smax / d); } break;
  case T_SREM: if (isC(b) && sx(b->imm, w) > 0) { i64 d = sx(b->imm, w); setS(a->smin >= 0 ? 0 : -(d - 1), a->smax <= 0 ? 0 : d - 1); } break;
  case T_AND: t->kz = a->kz | b->kz; t->ko = a->ko & b->ko; setU(0, std::min(a->umax, b->umax)); break;
  case T_OR: t->kz = a->kz & b->kz; t->ko = a->ko | b->ko; t->umin = std::max(a->umin, b->umin); break;
  case T_XOR: t->kz = (a->kz & b->kz) | (a->ko & b->ko); t->ko = (a->kz & b->ko) | (a->ko & b->kz); break;
  case T_SHL: if (isC(b)) { unsigned s = b->imm; t->kz = ((a->kz << s) | maskw(s)) & m; t->ko = (a->ko << s) & m;
      setS((I)a->smin << s, (I)a->smax << s); setU((unsigned __int128)a->umin << s, (unsigned __int128)a->umax << s); }
    else { // low zeros preserved; range
      u64 smx = b->umax; if (smx < w) { setU((unsigned __int128)a->umin << b->umin, (unsigned __int128)a->umax << smx); I p[4] = {(I)a->smin << b->umin, (I)a->smin << smx, (I)a->smax << b->umin, (I)a->smax << smx}; setS(std::min(std::min(p[0],p[1]),std::min(p[2],p[3])), std::max(std::max(p[0],p[1]),std::max(p[2],p[3]))); } }
    break;
  case T_LSHR: if (isC(b)) { unsigned s = b->imm; t->kz = (a->kz >> s) | (m & ~(m >> s)); t->ko = a->ko >> s; }
    setU(b->umax >= w ? 0 : a->umin >> b->umax, b->umin >= w ? 0 : a->umax >> b->umin); break;
  case T_ASHR: { unsigned s0 = std::min<u64>(b->umin, 63), s1 = std::min<u64>(b->umax, 63);
      I p[4] = {a->smin >> s0, a->smin >> s1, a->smax >> s0, a->smax >> s1};
      setS(std::min(std::min(p[0],p[1]),std::min(p[2],p[3])), std::max(std::max(p[0],p[1]),std::max(p[2],p[3])));
      break; }
  case T_ZEXT: t->kz = a->kz | (m & ~maskw(a->w)); t->ko = a->ko; setU(a->umin, a->umax); break;
  case T_SEXT: { u64 sb = 1ull << (a->w - 1), hi = m & ~maskw(a->w); t->kz = a->kz | ((a->kz & sb) ? hi : 0); t->ko = a->ko | ((a->ko & sb) ? hi : 0);
      setS(a->smin, a->smax); break; }
  case T_EXTRACT: t->kz = (a->kz >> imm) & m; t->ko = (a->ko >> imm) & m;
    if (imm == 0) { if (a->umax <= m) setU(a->umin, a->umax); if (a->smin >= t->smin && a->smax <= t->smax) setS(a->smin, a->smax); }
    else if (imm + w == a->w) { setU(a->umin >> imm, a->umax >> imm); setS(a->smin >> imm, a->smax >> imm); }
    else if ((a->umax >> imm) <= m) setU(a->umin >> imm, a->umax >> imm);
    else if ((a->smin >> imm) >= t->smin && (a->smax >> imm) <= t->smax) setS(a->smin >> imm, a->smax >> imm);
    break;
  case T_CONCAT: t->kz = (a->kz << b->w) | b->kz; t->ko = (a->ko << b->w) | b->ko; setU((a->umin << b->w) | b->umin, (a->umax << b->w) | b->umax); break;
  case T_ITE: t->kz = b->kz & c->kz; t->ko = b->ko & c->ko; setU(std::min(b->umin, c->umin), std::max(b->umax, c->umax)); setS(std::min(b->smin, c->smin), std::max(b->smax, c->smax)); break;
  default: break;
  }
  setRange(t);
  if (gNarrow && w > 1) {
    // affine forms (value = signed value of the term; no wrap has to be established here)
    const Affine *f = nullptr;
    const Affine *fa = a ? affOf(a) : nullptr, *fb = b ? affOf(b) : nullptr;
    switch (op) {
    case T_ADD: if (fa && fb) f = affLin(fa, 1, fb, 1); break;
    case T_SUB: if (fa && fb) f = affLin(fa, 1, fb, -1); break;
    case T_MUL: if (fa && isC(b)) f = affLin(fa, (double)sx(b->imm, w), nullptr, 0); break;
    case T_SHL: if (fa && isC(b)) f = affLin(fa, (double)(1ull << b->imm), nullptr, 0); break;
    case T_ASHR: if (fa && isC(b)) { Affine *g = new Affine(*affLin(fa, 1.0 / (double)(1ull << b->imm), nullptr, 0)); g->elo -= 1.0 - 1.0 / (double)(1ull << b->imm); f = affMake(g); } break;
    case T_SEXT: f = fa; break;
    case T_ZEXT: if (a->op != T_VAR && fa && fa->lo >= 0) f = fa;
      else if (a->op == T_VAR) { Affine *g = new Affine; g->base = g->elo = g->ehi = 0; g->t.push_back({(u32)(a->imm * 2), 1.0}); f = affMake(g); } break;
    case T_EXTRACT:
      if (fa && imm == 0) f = fa;                // checked below to fit
      else if (fa && imm + w == a->w) { Affine *g = new Affine(*affLin(fa, 1.0 / (double)(1ull << imm), nullptr, 0)); g->elo -= 1.0 - 1.0 / (double)(1ull << imm); f = affMake(g); }
      break;
    default: break;
    }
    if (f && !isC(t)) {
      double L = (double)sx(1ull << (w - 1), w), H = (double)(m >> 1);
      if (w <= 40 && f->lo >= L && f->hi <= H && f->t.size() <= AFFMAX) {
        t->aff = f;
        i64 lo = (i64)std::ceil(f->lo), hi = (i64)std::floor(f->hi);
        t->smin = std::max(t->smin, lo); t->smax = std::min(t->smax, hi); setRange(t);
      }
    }
  }
  t->id = gTerms.size(); gTerms.push_back(t);
  gTab.emplace(k, t);
  return t;
}

T mkConst(unsigned w, u64 v) { return intern(T_CONST, w, 0, 0, 0, v & maskw(w)); }

static T mkVarRaw(unsigned w, const std::string &name, i64 lo, i64 hi, bool sgn, bool full) {
  Term *t = new Term; memset(t, 0, sizeof *t);
  t->op = T_VAR; t->w = w; t->imm = gVars.size();
  u64 m = maskw(w); t->umin = 0; t->umax = m; t->smin = sx(1ull << (w - 1), w); t->smax = (i64)(m >> 1);
  if (!full) { if (sgn) { t->smin = lo; t->smax = hi; } else { t->umin = lo; t->umax = hi; } }
  setRange(t);
  t->id = gTerms.size(); gTerms.push_back(t);
  gVars.push_back({name, w, t});
  if (gNarrow && w > 1 && w <= 40) { Affine *g = new Affine; g->base = g->elo = g->ehi = 0; g->t.push_back({(u32)(t->imm * 2 + 1), 1.0}); t->aff = affMake(g); }
  return t;
}
T mkVar(unsigned w, const std::string &n, i64 lo, i64 hi, bool sgn) { return mkVarRaw(w, n, lo, hi, sgn, false); }
T mkVarFull(unsigned w, const std::string &n) { return mkVarRaw(w, n, 0, 0, false, true); }

// constant result from intervals
static T fold(T t) { if (!isC(t) && t->umin == t->umax) return mkConst(t->w, t->umin); return t; }
static T mk(Op op, unsigned w, T a, T b = nullptr, T c = nullptr, u64 imm = 0) { return fold(intern(op, w, a, b, c, imm)); }

static inline T sextTo(T a, unsigned w) { return mkSExt(a, w); }

// ---- exact integer linear normal form (gNarrow).  For a term whose operations do not overflow, the signed
// value is k + sum c_i * value(atom_i) over the integers.  Two syntactically different exact sums with the same
// form become the same term.  The interval / affine analysis supplies the bounds; the lemma "operands and exact
// result fit k signed bits => the k-bit operation, sign extended, equals the w-bit one" is discharged by the
// solver at the end of the job; re-association is modular ring arithmetic.
struct Lin { std::vector<std::pair<T, i64>> v; i64 k; };
static std::unordered_map<T, const Lin *> gLin;
static const size_t LINMAX = 32;
static const Lin *linAtom(T t) { Lin *l = new Lin; l->k = 0; l->v.push_back({t, 1}); return l; }
static const Lin *linOf(T t) {
  auto it = gLin.find(t); if (it != gLin.end()) return it->second;
  const Lin *r;
  if (isC(t)) { Lin *l = new Lin; l->k = sx(t->imm, t->w); r = l; }
  else if (t->op == T_SEXT) r = linOf(t->a);
  else if (t->op == T_ZEXT && t->a->smin >= 0) r = linOf(t->a);
  else if (t->op == T_ZEXT && t->w > t->a->w + 1) r = linOf(intern(T_ZEXT, t->a->w + 1, t->a, nullptr, nullptr, 0));
  else r = linAtom(t);
  return gLin[t] = r;
}
static T linRoot(T t) { // the representative used when a whole subterm is treated as an atom
  while (t->op == T_SEXT || (t->op == T_ZEXT && t->a->smin >= 0)) t = t->a;
  if (t->op == T_ZEXT && t->w > t->a->w + 1) return intern(T_ZEXT, t->a->w + 1, t->a, nullptr, nullptr, 0);
  return t;
}
static bool mulOk(i64 a, i64 b, i64 &r) { return !__builtin_mul_overflow(a, b, &r); }
static const Lin *linComb(const Lin *a, i64 ca, const Lin *b, i64 cb) {
  Lin *r = new Lin; i64 x, y; if (!mulOk(a->k, ca, x) || !mulOk(b ? b->k : 0, cb, y) || __builtin_add_overflow(x, y, &r->k)) { delete r; return nullptr; }
  size_t i = 0, j = 0, nb = b ? b->v.size() : 0;
  while (i < a->v.size() || j < nb) {
    T t; i64 c;
    if (j >= nb || (i < a->v.size() && a->v[i].first->id < b->v[j].first->id)) { t = a->v[i].first; if (!mulOk(a->v[i].second, ca, c)) { delete r; return nullptr; } i++; }
    else if (i >= a->v.size() || b->v[j].first->id < a->v[i].first->id) { t = b->v[j].first; if (!mulOk(b->v[j].second, cb, c)) { delete r; return nullptr; } j++; }
    else { t = a->v[i].first; if (!mulOk(a->v[i].second, ca, x) || !mulOk(b->v[j].second, cb, y) || __builtin_add_overflow(x, y, &c)) { delete r; return nullptr; } i++; j++; }
    if (c) r->v.push_back({t, c});
  }
  return r;
}
static bool linRange(const Lin *l, __int128 &lo, __int128 &hi) {
  lo = hi = l->k; for (auto &p : l->v) { __int128 a = (__int128)p.first->smin * p.second, b = (__int128)p.first->smax * p.second; lo += std::min(a, b); hi += std::max(a, b); }
  return true;
}
static T resz(T t, unsigned W) { return t->w < W ? mkSExt(t, W) : t->w > W ? mkExtract(t, 0, W) : t; }
static void tighten(T t, __int128 lo, __int128 hi, const Affine *f) {
  if (isC(t)) return; Term *x = const_cast<Term *>(t);
  if (lo > x->smin) x->smin = (i64)lo; if (hi < x->smax) x->smax = (i64)hi; setRange(x);
  if (f && !x->aff && x->w <= 40 && f->t.size() <= AFFMAX) x->aff = f;
}
// canonical term whose signed value is the linear form; value known to lie in [lo,hi]
static T linBuild(const Lin *l, __int128 lo, __int128 hi, const Affine *f) {
  if (l->v.empty()) return mkConst(std::max(2, sbits(l->k, l->k)), (u64)l->k);
  if (l->v.size() == 1 && l->v[0].second == 1 && l->k == 0) { T t = l->v[0].first; tighten(t, lo, hi, nullptr); return t; }
  if (lo < INT64_MIN / 2 || hi > INT64_MAX / 2) return nullptr;
  unsigned W = std::max(2, sbits((i64)lo, (i64)hi));
  u64 all = (u64)l->k; for (auto &p : l->v) all |= (u64)p.second;
  unsigned g = all ? __builtin_ctzll(all) : 0;
  if (g >= W) g = W - 1;
  T r;
  if (g) {
    Lin *c = new Lin; c->k = l->k >> g; for (auto &p : l->v) c->v.push_back({p.first, p.second >> g});
    T core = linBuild(c, lo >> g, hi >> g, f ? affLin(f, 1.0 / (double)(1ull << g), nullptr, 0) : nullptr); if (!core) return nullptr;
    if (isC(core)) return mkConst(W, (u64)sx(core->imm, core->w) << g);
    r = mk(T_SHL, W, resz(core, W), mkConst(W, g));
  } else {
    r = nullptr;
    auto sc = [&](T t, u64 c) -> T { t = resz(t, W); if (c == 1) return t; if ((c & (c - 1)) == 0) { unsigned sft = __builtin_ctzll(c); return sft >= W ? mkConst(W, 0) : isC(t) ? mkConst(W, t->imm << sft) : mk(T_SHL, W, t, mkConst(W, sft)); } return isC(t) ? mkConst(W, t->imm * c) : mk(T_MUL, W, t, mkConst(W, c)); };
    auto rawAdd = [&](T a, T b) -> T { if (isC(a) && isC(b)) return mkConst(W, a->imm + b->imm); if (isC(a)) std::swap(a, b); if (isC(b) && !b->imm) return a; return mk(T_ADD, W, a, b); };
    auto rawSub = [&](T a, T b) -> T { if (isC(a) && isC(b)) return mkConst(W, a->imm - b->imm); if (isC(b)) return rawAdd(a, mkConst(W, -b->imm)); return mk(T_SUB, W, a, b); };
    for (auto &p : l->v) if (p.second > 0) { T x = sc(p.first, (u64)p.second); r = r ? rawAdd(r, x) : x; }
    bool usedk = false; if (!r) { r = mkConst(W, (u64)l->k); usedk = true; }
    for (auto &p : l->v) if (p.second < 0) r = rawSub(r, sc(p.first, 0 - (u64)p.second));
    if (!usedk && l->k) r = rawAdd(r, mkConst(W, (u64)l->k));
  }
  if (!isC(r)) { tighten(r, lo, hi, f); if (r->op == T_ADD || r->op == T_SUB || r->op == T_SHL || r->op == T_MUL) gLin[r] = l; }
  return r;
}
static const Affine *affFromLin(const Lin *q) {
  const Affine *fq = nullptr; for (auto &p : q->v) { const Affine *x = affOf(p.first); if (!x) return nullptr; fq = fq ? affLin(fq, 1, x, (double)p.second) : affLin(x, (double)p.second, nullptr, 0); }
  if (!fq) return nullptr; Affine *y = new Affine(*fq); y->base += (double)q->k; fq = affMake(y);
  return std::fabs(fq->lo) < 1e15 && std::fabs(fq->hi) < 1e15 ? fq : nullptr;
}
static T narrow2(Op op, unsigned w, T a, T b) {
  typedef __int128 I; I lo, hi; const Affine *fa = affOf(a), *fb = affOf(b), *f = nullptr; const Lin *L;
  i64 ca = 1, cb = 1;
  if (op == T_ADD) { lo = (I)a->smin + b->smin; hi = (I)a->smax + b->smax; }
  else if (op == T_SUB) { lo = (I)a->smin - b->smax; hi = (I)a->smax - b->smin; cb = -1; }
  else { ca = op == T_MUL ? sx(b->imm, w) : (b->imm >= 62 ? 0 : (i64)1 << b->imm); if (!ca) return nullptr; cb = 0; I p = (I)a->smin * ca, q = (I)a->smax * ca; lo = std::min(p, q); hi = std::max(p, q); }
  const Lin *la = linOf(a), *lb = cb ? linOf(b) : nullptr;
  L = linComb(la, ca, lb, cb); if (!L) return nullptr;
  if (L->v.size() > LINMAX) { // collapse the larger operand, then both
    T ra = linRoot(a), rb = cb ? linRoot(b) : nullptr; const Lin *xa = la->v.size() >= (lb ? lb->v.size() : 0) ? linAtom(ra) : la, *xb = lb && lb->v.size() >= la->v.size() ? linAtom(rb) : lb;
    L = linComb(xa, ca, xb, cb); if (L && L->v.size() > LINMAX) L = linComb(linAtom(ra), ca, cb && !isC(b) ? linAtom(rb) : lb, cb);
    if (!L) return nullptr;
  }
  if (fa && (!cb || fb) && !(isC(a) && isC(b))) f = cb ? affLin(fa, (double)ca, fb, (double)cb) : affLin(fa, (double)ca, nullptr, 0);
  if (f && std::fabs(f->lo) < 1e15 && std::fabs(f->hi) < 1e15) { I l = (I)(i64)std::ceil(f->lo), h = (I)(i64)std::floor(f->hi); lo = std::max(lo, l); hi = std::min(hi, h); } else f = nullptr;
  I l2, h2; linRange(L, l2, h2); lo = std::max(lo, l2); hi = std::min(hi, h2);
  I wlo = sx(1ull << (w - 1), w), whi = (I)(maskw(w) >> 1);
  if (lo < wlo || hi > whi) { // may overflow: exact only if the form reduced modulo 2^w has a range that fits
    Lin *q = new Lin; q->k = sx((u64)L->k, w); bool ch = q->k != L->k; for (auto &p : L->v) { i64 c = sx((u64)p.second, w); if (c != p.second) ch = true; if (c) q->v.push_back({p.first, c}); }
    if (!ch) return nullptr;
    linRange(q, lo, hi); f = affFromLin(q); if (f) { lo = std::max(lo, (I)(i64)std::ceil(f->lo)); hi = std::min(hi, (I)(i64)std::floor(f->hi)); }
    if (lo < wlo || hi > whi) return nullptr;
    T r = linBuild(q, lo, hi, f); return r ? resz(r, w) : nullptr;
  }
  T r = linBuild(L, lo, hi, f); if (!r) return nullptr;
  if (r->w > w) r = mkExtract(r, 0, w);
  if (!isC(r) && r->w < w) { unsigned k = std::max<unsigned>(r->w, std::max(sbits(a->smin, a->smax), cb ? sbits(b->smin, b->smax) : 1)); if (op == T_MUL) k = std::max<unsigned>(k, sbits(b->smin, b->smax)); if (k < w) gLemmas[NarrowLemma{op, w, k, op == T_SHL ? b->imm : 0}]++; }
  return r->w == w ? r : isC(r) ? mkConst(w, (u64)sx(r->imm, r->w)) : mkSExt(r, w);
}
// arithmetic shift right of an exact linear form: parts divisible by 2^s are moved out, common factors cancelled
static T narrowAshr(T a, unsigned s, unsigned w) {
  const Lin *l = linOf(a); if (l->v.empty()) return nullptr;
  if (l->v.size() == 1 && l->v[0].second == 1 && l->k == 0) return nullptr; // plain atom
  Lin D, R; D.k = l->k >> s; R.k = l->k - (D.k << s); u64 m = (1ull << s) - 1, all = 0;
  for (auto &p : l->v) if (((u64)p.second & m) == 0) D.v.push_back({p.first, p.second >> s}); else { R.v.push_back(p); all |= (u64)p.second; }
  typedef __int128 I; const Affine *fa = affOf(a), *f = nullptr;
  I lo = a->smin >> s, hi = a->smax >> s;
  if (fa) { Affine *g = new Affine(*affLin(fa, 1.0 / (double)(1ull << s), nullptr, 0)); g->elo -= 1.0 - 1.0 / (double)(1ull << s); f = affMake(g); }
  const Lin *res = new Lin(D);
  if (!R.v.empty()) {
    unsigned g = __builtin_ctzll(all), s2 = s - g; Lin *q = new Lin; q->k = R.k >> g; for (auto &p : R.v) q->v.push_back({p.first, p.second >> g});
    I ql, qh; linRange(q, ql, qh);
    const Affine *fq = affFromLin(q);
    if (fq && std::fabs(fq->lo) < 1e15 && std::fabs(fq->hi) < 1e15) { ql = std::max(ql, (I)(i64)std::ceil(fq->lo)); qh = std::min(qh, (I)(i64)std::floor(fq->hi)); }
    if (D.v.empty() && g == 0 && D.k == 0) return nullptr; // nothing to simplify
    T core = linBuild(q, ql, qh, fq); if (!core) return nullptr;
    if (isC(core)) { Lin *z = new Lin(D); z->k += sx(core->imm, core->w) >> s2; res = z; }
    else { T at = s2 >= core->w ? mkExtract(core, core->w - 1, 1) : mkExtract(core, s2, core->w - s2); if (at->w < 2) at = mkSExt(at, 2); res = linComb(res, 1, linOf(at), 1); if (!res) return nullptr; }
  }
  if (res->v.size() > LINMAX) return nullptr;
  I l2, h2; linRange(res, l2, h2); lo = std::max(lo, l2); hi = std::min(hi, h2);
  if (f && std::fabs(f->lo) < 1e15 && std::fabs(f->hi) < 1e15) { lo = std::max(lo, (I)(i64)std::ceil(f->lo)); hi = std::min(hi, (I)(i64)std::floor(f->hi)); }
  T r = linBuild(res, lo, hi, f); if (!r) return nullptr;
  return resz(r, w);
}

T mkAdd(T a, T b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->imm + b->imm);
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  if (isC(b) && b->imm == 0) return a;
  if (gNarrow && w > 1) { T r = narrow2(T_ADD, w, a, b); if (r) return r; }
  if (isC(b)) {
    if (a->op == T_ADD && isC(a->b)) return mkAdd(a->a, mkConst(w, a->b->imm + b->imm));
    if (a->op == T_SUB && isC(a->a)) return mkSub(mkConst(w, a->a->imm + b->imm), a->b);
    if (w == 1) return mkXor(a, b);
  } else {
    if (w == 1) return mkXor(a, b);
    // (x-y)+y
    if (a->op == T_SUB && a->b == b) return a->a;
    if (b->op == T_SUB && b->b == a) return b->a;
    if (!gNarrow) {
      // pull constants outward
      if (a->op == T_ADD && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
      if (b->op == T_ADD && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
    }
    if (a == b) return mkShl(a, mkConst(w, 1));
  }
  return mk(T_ADD, w, a, b);
}
T mkSub(T a, T b) {
  unsigned w = a->w;
  if (a == b) return mkConst(w, 0);
  if (isC(b)) return mkAdd(a, mkConst(w, -b->imm));
  if (w == 1) return mkXor(a, b);
  if (gNarrow) { T r = narrow2(T_SUB, w, a, b); if (r) return r; }
  if (a->op == T_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  if (!gNarrow) {
    if (a->op == T_ADD && isC(a->b)) return mkAdd(mkSub(a->a, b), a->b);
    if (b->op == T_ADD && isC(b->b)) return mkAdd(mkSub(a, b->a), mkConst(w, -b->b->imm));
  }
  if (isC(a) && a->imm == 0 && b->op == T_SUB) return mkSub(b->b, b->a);
  return mk(T_SUB, w, a, b);
}
T mkMul(T a, T b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(w, a->imm * b->imm);
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  if (w == 1) return mkAnd(a, b);
  if (isC(b)) {
    if (b->imm == 0) return b;
    if (b->imm == 1) return a;
    if ((b->imm & (b->imm - 1)) == 0) return mkShl(a, mkConst(w, __builtin_ctzll(b->imm)));
    if (a->op == T_MUL && isC(a->b)) return mkMul(a->a, mkConst(w, a->b->imm * b->imm));
    if (gNarrow) { T r = narrow2(T_MUL, w, a, b); if (r) return r; }
  }
  return mk(T_MUL, w, a, b);
}
T mkUDiv(T a, T b) {
  if (isC(b)) { if (isC(a)) { Term t{}; t.op = T_UDIV; t.w = a->w; return mkConst(a->w, evalOp(&t, a->imm, b->imm, 0)); }
    if (b->imm == 1) return a; if (b->imm && (b->imm & (b->imm - 1)) == 0) return mkLShr(a, mkConst(a->w, __builtin_ctzll(b->imm))); }
  return mk(T_UDIV, a->w, a, b);
}
T mkURem(T a, T b) {
  if (isC(b)) { if (isC(a)) { Term t{}; t.op = T_UREM; t.w = a->w; return mkConst(a->w, evalOp(&t, a->imm, b->imm, 0)); }
    if (b->imm && (b->imm & (b->imm - 1)) == 0) return mkAnd(a, mkConst(a->w, b->imm - 1)); if (a->umax < b->imm) return a; }
  return mk(T_UREM, a->w, a, b);
}
T mkSDiv(T a, T b) {
  if (isC(a) && isC(b)) { Term t{}; t.op = T_SDIV; t.w = a->w; return mkConst(a->w, evalOp(&t, a->imm, b->imm, 0)); }
  if (a->smin >= 0 && b->smin >= 0) return mkUDiv(a, b);
  if (isC(b) && b->imm == 1 && a->w > 1) return a;
  if (isC(b) && a->w > 1 && b->imm && !(b->imm & (b->imm - 1)) && !(b->imm >> (a->w - 1))) { // signed division by 2^k rounds towards zero
    unsigned k = __builtin_ctzll(b->imm), w = a->w; T kk = mkConst(w, k);
    if ((a->kz & maskw(k)) == maskw(k)) return mkAShr(a, kk);
    return mkAShr(mkAdd(a, mkLShr(mkAShr(a, mkConst(w, w - 1)), mkConst(w, w - k))), kk); }
  return mk(T_SDIV, a->w, a, b);
}
T mkSRem(T a, T b) {
  if (isC(a) && isC(b)) { Term t{}; t.op = T_SREM; t.w = a->w; return mkConst(a->w, evalOp(&t, a->imm, b->imm, 0)); }
  if (a->smin >= 0 && b->smin >= 0) return mkURem(a, b);
  if (isC(b) && a->w > 1 && b->imm && !(b->imm & (b->imm - 1)) && !(b->imm >> (a->w - 1))) return mkSub(a, mkShl(mkSDiv(a, b), mkConst(a->w, __builtin_ctzll(b->imm))));
  return mk(T_SREM, a->w, a, b);
}
static bool ctgMask(u64 v, unsigned &lo, unsigned &n) { // contiguous ones
  if (!v) return false; lo = __builtin_ctzll(v); u64 s = v >> lo; if (s & (s + 1)) return false; n = s == ~0ull ? 64 : __builtin_ctzll(~s); return true;
}
T mkAnd(T a, T b) {
  unsigned w = a->w; u64 m = maskw(w);
  if (a == b) return a;
  if (isC(a) && isC(b)) return mkConst(w, a->imm & b->imm);
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  if (isC(b)) {
    u64 v = b->imm;
    // bits of mask where a is known zero are irrelevant
    if ((m & ~a->kz & ~v) == 0) return a;     // mask keeps every possibly set bit
    if ((m & ~a->kz & v) == 0) return mkConst(w, 0);
    if (a->op == T_AND && isC(a->b)) return mkAnd(a->a, mkConst(w, a->b->imm & v));
    if (w == 1) return v ? a : b;
    unsigned lo, n;
    if (ctgMask(v, lo, n)) { // a & mask -> zext(extract)<<lo as concat
      T e = mkExtract(a, lo, n);
      if (lo) e = mkConcat(e, mkConst(lo, 0));
      return mkZExt(e, w);
    }
    // mask that clears a low part only: v = ~((1<<k)-1) is contiguous -> handled above
  } else if (w == 1) {
    if (a->op == T_XOR && isC(a->b) && a->a == b) return mkConst(1, 0);
    if (b->op == T_XOR && isC(b->b) && b->a == a) return mkConst(1, 0);
  }
  if ((a->kz | b->kz) == m) return mkConst(w, 0);
  return mk(T_AND, w, a, b);
}
// view a term as (value at bit lo, width n, zero elsewhere)
static T splitOr(T a, T b) { // disjoint support -> concat canonical form
  unsigned w = a->w; u64 m = maskw(w);
  u64 na = m & ~a->kz, nb = m & ~b->kz;
  if (!na || !nb) return nullptr;
  if (na & nb) return nullptr;
  // only if one lies completely above the other
  if (nb > na) { std::swap(a, b); std::swap(na, nb); }
  unsigned hb = 64 - __builtin_clzll(nb); // width of low part
  unsigned la = __builtin_ctzll(na);
  if (la < hb) return nullptr;
  // concat(a[w-1:hb'], b[hb'-1:0]) with split at la
  if (la >= w) return nullptr;
  return mkConcat(mkExtract(a, la, w - la), mkExtract(b, 0, la));
}
T mkOr(T a, T b) {
  unsigned w = a->w; u64 m = maskw(w);
  if (a == b) return a;
  if (isC(a) && isC(b)) return mkConst(w, a->imm | b->imm);
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  if (isC(b)) {
    if (b->imm == 0) return a;
    if ((b->imm & ~a->ko & m) == 0) return a;
    if ((b->imm | a->kz) == m && 0) return b;
    if (b->imm == m) return b;
    if (a->op == T_OR && isC(a->b)) return mkOr(a->a, mkConst(w, a->b->imm | b->imm));
    if (w == 1) return b;
    // contiguous constant over a: slice
    unsigned lo, n;
    if (ctgMask(b->imm, lo, n)) {
      T r = mkConst(n, maskw(n));
      if (lo) r = mkConcat(r, mkExtract(a, 0, lo));
      if (lo + n < w) r = mkConcat(mkExtract(a, lo + n, w - lo - n), r);
      return r;
    }
  } else if (w == 1) {
    if (a->op == T_XOR && isC(a->b) && a->a == b) return mkConst(1, 1);
    if (b->op == T_XOR && isC(b->b) && b->a == a) return mkConst(1, 1);
  }
  if (w > 1) { T r = splitOr(a, b); if (r) return r; }
  return mk(T_OR, w, a, b);
}
T mkXor(T a, T b) {
  unsigned w = a->w;
  if (a == b) return mkConst(w, 0);
  if (isC(a) && isC(b)) return mkConst(w, a->imm ^ b->imm);
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  if (isC(b)) {
    if (b->imm == 0) return a;
    if (a->op == T_XOR && isC(a->b)) return mkXor(a->a, mkConst(w, a->b->imm ^ b->imm));
    if (w == 1 && a->op == T_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkXor(a->b, b), mkXor(a->c, b));
  }
  if (w > 1 && !isC(b)) { T r = splitOr(a, b); if (r) return r; }
  return mk(T_XOR, w, a, b);
}
static T shiftIte(Op op, T a, T b); // symbolic amount
T mkShl(T a, T b) {
  unsigned w = a->w;
  if (isC(b)) {
    if (b->imm == 0) return a;
    if (b->imm >= w) return mkConst(w, 0);
    if (isC(a)) return mkConst(w, a->imm << b->imm);
    unsigned s = b->imm;
    if (gNarrow) {
      T r = narrow2(T_SHL, w, a, b); if (r) return r;
      if (a->op == T_SHL && isC(a->b)) return mkShl(a->a, mkConst(w, a->b->imm + s));
      return mk(T_SHL, w, a, b);
    }
    return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
  }
  if (isC(a) && a->imm == 0) return a;
  return shiftIte(T_SHL, a, b);
}
T mkLShr(T a, T b) {
  unsigned w = a->w;
  if (isC(b)) {
    if (b->imm == 0) return a;
    if (b->imm >= w) return mkConst(w, 0);
    if (isC(a)) return mkConst(w, a->imm >> b->imm);
    return mkZExt(mkExtract(a, b->imm, w - b->imm), w);
  }
  if (isC(a) && a->imm == 0) return a;
  return shiftIte(T_LSHR, a, b);
}
T mkAShr(T a, T b) {
  unsigned w = a->w;
  if (isC(b)) {
    u64 s = b->imm;
    if (s == 0) return a;
    if (s >= w) s = w - 1;
    if (isC(a)) return mkConst(w, (u64)(sx(a->imm, w) >> s));
    if (gNarrow) { T r = narrowAshr(a, s, w); if (r) return r; }
    if (a->op == T_SEXT) {
      unsigned iw = a->a->w;
      if (s >= iw) s = iw - 1;
      return mkSExt(mkExtract(a->a, s, iw - s), w);
    }
    return mkSExt(mkExtract(a, s, w - s), w);
  }
  if (isC(a) && a->imm == 0) return a;
  if (a->smin >= 0) return mkLShr(a, b);
  return shiftIte(T_ASHR, a, b);
}
// a, simplified under the assumption atom == u: table look-ups in its linear form that depend on the atom alone are resolved
static T assumeAtom(T a, T atom, u64 u, unsigned w) {
  while (atom->op == T_ZEXT || atom->op == T_SEXT) { atom = atom->a; u &= maskw(atom->w); }
  const Lin *l = linOf(a); T r = a;
  for (auto &p : l->v) {
    T t = p.first; while (t->op == T_EXTRACT || t->op == T_ZEXT || t->op == T_SEXT || t->op == T_CONCAT || (t->op == T_SHL && isC(t->b))) t = t->op == T_CONCAT && isC(t->a) ? t->b : t->a; if (t->op != T_ITE) continue;
    T full = p.first; std::unordered_map<T, T> m; int budget = 200;
    std::function<T(T)> sub = [&](T x) -> T {
      if (x == atom) return mkConst(x->w, u); if (isC(x)) return x; if (x->op == T_VAR || --budget < 0) return nullptr;
      auto it = m.find(x); if (it != m.end()) return it->second;
      if (x->op == T_ITE) { T c = sub(x->a); if (!c || !isC(c)) return m[x] = nullptr; return m[x] = sub(c->imm ? x->b : x->c); }
      T q[3] = {x->a, x->b, x->c}; for (T &o : q) if (o) { o = sub(o); if (!o) return m[x] = nullptr; }
      return m[x] = mkOp(x->op, x->w, q[0], q[1], q[2], x->imm); };
    T v = sub(full); if (!v || !isC(v)) continue;
    i64 k; if (!mulOk(sx(v->imm, v->w), p.second, k)) continue;
    r = mkAdd(mkSub(r, mkMul(resz(full, w), mkConst(w, (u64)p.second))), mkConst(w, (u64)k));
  }
  return r;
}
static T shiftIte(Op op, T a, T b) {
  // amount with few values: expand into an ite chain over constant shifts
  unsigned w = a->w;
  u64 lo = b->umin, hi = b->umax;
  if (hi >= w) hi = w; // >= w behaves as w
  if (hi - lo <= 16) {
    T r = nullptr, atom = nullptr; i64 ac = 0, ak = 0; T a0 = a;
    if (gNarrow && b->umax < w) { const Lin *l = linOf(b); if (l->v.size() == 1 && l->v[0].second != INT64_MIN) { atom = l->v[0].first; ac = l->v[0].second; ak = l->k; } }
    for (u64 v = lo; v <= hi; v++) {
      if (atom) { i64 d = (i64)v - ak; if (d % ac) continue; a = assumeAtom(a0, atom, (u64)(d / ac) & maskw(atom->w), w); }
      T x = op == T_SHL ? mkShl(a, mkConst(w, v)) : op == T_LSHR ? mkLShr(a, mkConst(w, v)) : mkAShr(a, mkConst(w, v));
      if (!r) r = x; else r = mkIte(v == hi ? mkUle(mkConst(w, v), b) : mkEq(b, mkConst(w, v)), x, r);
    }
    return r;
  }
  return mk(op, w, a, b);
}
T mkZExt(T a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, a->imm);
  if (a->op == T_ZEXT) return mkZExt(a->a, w);
  if (gNarrow && a->op == T_SEXT && a->smin >= 0 && a->aff) return mkSExt(a->a, w);
  return mk(T_ZEXT, w, a);
}
T mkSExt(T a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(w, (u64)sx(a->imm, a->w));
  if (a->op == T_SEXT) return mkSExt(a->a, w);
  if (a->kz >> (a->w - 1) & 1) return mkZExt(a, w);
  if (a->op == T_ZEXT) return mkZExt(a->a, w);
  if (!gNarrow && a->op == T_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return mk(T_SEXT, w, a);
}
T mkExtract(T a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) abort();
  if (isC(a)) return mkConst(w, a->imm >> lo);
  u64 m = maskw(w);
  u64 kz = (a->kz >> lo) & m, ko = (a->ko >> lo) & m;
  if ((kz | ko) == m) return mkConst(w, ko);
  if (gNarrow && lo > 0) { // only copies of the sign bit
    T b = a; while (b->op == T_SEXT) b = b->a; unsigned k = std::max(1, (int)sbits(b->smin, b->smax));
    if (lo + 1 >= k && !(b == a && w == 1 && lo == k - 1)) { if (k > b->w) k = b->w; T sg = k == 1 && b->w == 1 ? b : mkExtract(b, k - 1, 1); return w == 1 ? sg : mkSExt(sg, w); } }
  if (gNarrow && lo > 0 && w > 1 && (a->op == T_SHL || a->op == T_ADD || a->op == T_SUB || a->op == T_MUL || a->op == T_SEXT || a->op == T_ZEXT)) { T r = narrowAshr(a, lo, w); if (r) return r; }
  switch (a->op) {
  case T_EXTRACT: return mkExtract(a->a, a->imm + lo, w);
  case T_ZEXT: { unsigned iw = a->a->w;
    if (lo >= iw) return mkConst(w, 0);
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, iw - lo), w); }
  case T_SEXT: { unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo >= iw) return mkSExt(mkExtract(a->a, iw - 1, 1), w);
    return mkSExt(mkExtract(a->a, lo, iw - lo), w); }
  case T_CONCAT: { unsigned bw = a->b->w;
    if (lo >= bw) return mkExtract(a->a, lo - bw, w);
    if (lo + w <= bw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - bw), mkExtract(a->b, lo, bw - lo)); }
  case T_AND: return mkAnd(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case T_OR: return mkOr(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case T_XOR: return mkXor(mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case T_ITE: if (isC(a->b) || isC(a->c) || gNarrow) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w)); break;
  case T_ADD: if (lo == 0) return mkAdd(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); if (gNarrow && lo + w < a->w) return mkExtract(mkAdd(mkExtract(a->a, 0, lo + w), mkExtract(a->b, 0, lo + w)), lo, w); break;
  case T_SUB: if (lo == 0) return mkSub(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); if (gNarrow && lo + w < a->w) return mkExtract(mkSub(mkExtract(a->a, 0, lo + w), mkExtract(a->b, 0, lo + w)), lo, w); break;
  case T_MUL: if (lo == 0) return mkMul(mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case T_SHL: if (isC(a->b)) { u64 s = a->b->imm; if (lo >= s) return mkExtract(a->a, lo - s, w); if (lo == 0 && s < w) return mkShl(mkExtract(a->a, 0, w), mkConst(w, s)); } break;
  default: break;
  }
  if (gNarrow) {
    // value fits below: extract of the sign-extension view
    int k = sbits(a->smin, a->smax);
    if (lo == 0 && k < (int)w && k >= 2 && a->op != T_VAR) return mkSExt(mkExtract(a, 0, k), w);
    if (lo == 0 && (int)w >= k && w < a->w) { /* keep */ }
  }
  return mk(T_EXTRACT, w, a, nullptr, nullptr, lo);
}
T mkConcat(T hi, T lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(w, (hi->imm << lo->w) | lo->imm);
  if (isC(hi) && hi->imm == 0) return mkZExt(lo, w);
  if (hi->op == T_SEXT && hi->a->w == 1 && hi->a == mkExtract(lo, lo->w - 1, 1)) return mkSExt(lo, w);
  if (hi->op == T_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->op == T_EXTRACT && lo->op == T_EXTRACT && hi->a == lo->a && hi->imm == lo->imm + lo->w) return mkExtract(hi->a, lo->imm, w);
  // extract[n-1:k](x) ++ x-narrow? lo is a whole term x and hi = extract(x',..) of a sext/zext : handled by extract forms
  if (hi->op == T_EXTRACT && hi->imm == lo->w && lo->op == T_EXTRACT && lo->imm == 0 && hi->a == lo->a) return mkExtract(hi->a, 0, w);
  // right-associate
  if (hi->op == T_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (lo->op == T_CONCAT) { // merge hi with lo->a if adjacent extracts
    T x = lo->a;
    if ((isC(hi) && isC(x)) || (hi->op == T_EXTRACT && x->op == T_EXTRACT && hi->a == x->a && hi->imm == x->imm + x->w)) return mkConcat(mkConcat(hi, x), lo->b);
  }
  // sign extension pattern: hi = sext(bit k-1 of lo)
  if (hi->op == T_SEXT && hi->a->w == 1 && hi->a->op == T_EXTRACT) {
    T sb = mkExtract(lo, lo->w - 1, 1);
    if (sb == hi->a) return mkSExt(lo, w);
  }
  if (hi->w == 1 && hi->op == T_EXTRACT && mkExtract(lo, lo->w - 1, 1) == hi) return mkSExt(lo, w);
  return mk(T_CONCAT, w, hi, lo);
}
// c implies b == v (sufficient test)
static bool impliesEq(T c, T b, u64 v) {
  if (c->op == T_AND && c->w == 1) return impliesEq(c->a, b, v) || impliesEq(c->b, b, v);
  if (c->op != T_EQ || !isC(c->b)) return false;
  T x = b; std::vector<T> ch; while (x != c->a && (x->op == T_ZEXT || x->op == T_SEXT)) { ch.push_back(x); x = x->a; }
  if (x == c->a) { u64 u = c->b->imm; for (size_t i = ch.size(); i-- > 0;) u = evalOp(ch[i], u, 0, 0); return u == v; }
  if (gNarrow && c->a->w > 1 && b->w > 1) { // equal linear forms up to the constant
    const Lin *p = linOf(c->a), *q = linOf(b); if (p->v.size() != q->v.size()) return false;
    for (size_t i = 0; i < p->v.size(); i++) if (p->v[i] != q->v[i]) return false;
    __int128 u = (__int128)sx(c->b->imm, c->a->w) - p->k + q->k; return u == (__int128)sx(v, b->w);
  }
  return false;
}
T mkIte(T c, T a, T b) {
  if (isC(c)) return c->imm ? a : b;
  if (a == b) return a;
  if (c->op == T_XOR && isC(c->b)) return mkIte(c->a, b, a);
  unsigned w = a->w;
  if (w == 1) {
    if (isC(a) && isC(b)) return a->imm ? c : mkNot(c);
    if (isC(a)) return a->imm ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->imm ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->op == T_ITE && a->a == c) a = a->b;
  if (b->op == T_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (isC(a) && impliesEq(c, b, a->imm)) return b; // ite(x == K, f(K), f(x)) is f(x)
  if (gNarrow && w > 1) {
    int k = std::max(sbits(a->smin, a->smax), sbits(b->smin, b->smax));
    if (k < 2) k = 2;
    if (k < (int)w) return mkSExt(mkIte(c, mkExtract(a, 0, k), mkExtract(b, 0, k)), w);
  }
  if ((a->op == T_ZEXT || isC(a)) && (b->op == T_ZEXT || isC(b)) && !(isC(a) && isC(b)) && !gNarrow) {
    unsigned k = std::max(a->op == T_ZEXT ? a->a->w : 64 - __builtin_clzll(a->imm | 1), b->op == T_ZEXT ? b->a->w : 64 - __builtin_clzll(b->imm | 1));
    if (k < w) return mkZExt(mkIte(c, mkExtract(a, 0, k), mkExtract(b, 0, k)), w);
  }
  return mk(T_ITE, w, c, a, b);
}
T mkEq(T a, T b) {
  unsigned w = a->w;
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(1, a->imm == b->imm);
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return mkConst(1, 0);
  if ((a->ko & b->kz) || (a->kz & b->ko)) return mkConst(1, 0);
  if (w == 1) { if (isC(b)) return b->imm ? a : mkNot(a); return mkNot(mkXor(a, b)); }
  if (isC(b)) {
    if (gNarrow && (a->op == T_ADD || a->op == T_SUB || a->op == T_SHL || a->op == T_MUL)) { // k + c * atom == constant
      const Lin *l = linOf(a);
      if (l->v.size() == 1 && l->v[0].first != a && l->v[0].second != INT64_MIN) { __int128 d = (__int128)sx(b->imm, w) - l->k; i64 c = l->v[0].second; T x = l->v[0].first; __int128 q = d / c;
        if (d % c || q < x->smin || q > x->smax) return mkConst(1, 0); return mkEq(x, mkConst(x->w, (u64)(i64)q)); }
    }
    switch (a->op) {
    case T_ADD: if (isC(a->b)) return mkEq(a->a, mkConst(w, b->imm - a->b->imm)); break;
    case T_SUB: if (isC(a->a)) return mkEq(a->b, mkConst(w, a->a->imm - b->imm)); if (b->imm == 0) return mkEq(a->a, a->b); break;
    case T_XOR: if (isC(a->b)) return mkEq(a->a, mkConst(w, b->imm ^ a->b->imm)); break;
    case T_ZEXT: if (b->imm > maskw(a->a->w)) return mkConst(1, 0); return mkEq(a->a, mkConst(a->a->w, b->imm));
    case T_SEXT: { unsigned iw = a->a->w; if (((u64)sx(b->imm, iw) & maskw(w)) != b->imm) return mkConst(1, 0); return mkEq(a->a, mkConst(iw, b->imm)); }
    case T_CONCAT: return mkAnd(mkEq(a->a, mkConst(a->a->w, b->imm >> a->b->w)), mkEq(a->b, mkConst(a->b->w, b->imm)));
    case T_ITE: if (isC(a->b) || isC(a->c)) { return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b)); } break;
    case T_MUL: if (isC(a->b) && (a->b->imm & 1)) { // odd: invertible
        u64 inv = 1, x = a->b->imm; for (int i = 0; i < 6; i++) inv *= 2 - x * inv; return mkEq(a->a, mkConst(w, b->imm * inv)); } break;
    default: break;
    }
  } else {
    if (a->op == b->op && (a->op == T_ZEXT || a->op == T_SEXT) && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == T_CONCAT && b->op == T_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == T_ADD && b->op == T_ADD && isC(a->b) && isC(b->b)) return mkEq(a->a, mkAdd(b->a, mkConst(w, b->b->imm - a->b->imm)));
  }
  return mk(T_EQ, 1, a, b);
}
T mkUlt(T a, T b) {
  if (a == b) return mkConst(1, 0);
  if (a->umax < b->umin) return mkConst(1, 1);
  if (a->umin >= b->umax) return mkConst(1, 0);
  unsigned w = a->w;
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && a->umax == b->imm) return mkNot(mkEq(a, b));
  if (isC(a) && b->umin == a->imm) return mkNot(mkEq(b, a));
  if (isC(b)) {
    if (b->imm == 1) return mkEq(a, mkConst(w, 0));
    if (a->op == T_ZEXT) return mkUlt(a->a, mkConst(a->a->w, b->imm)); // b<=umax+... b->imm fits, since umin<b<=.. (else folded)
  }
  if (isC(a) && b->op == T_ZEXT) return mkUlt(mkConst(b->a->w, a->imm), b->a);
  if (a->op == T_ZEXT && b->op == T_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
  return mk(T_ULT, 1, a, b);
}
T mkSlt(T a, T b) {
  if (a == b) return mkConst(1, 0);
  if (a->smax < b->smin) return mkConst(1, 1);
  if (a->smin >= b->smax) return mkConst(1, 0);
  unsigned w = a->w;
  if (w == 1) return mkAnd(a, mkNot(b));
  if (a->smin >= 0 && b->smin >= 0) return mkUlt(a, b);
  if (isC(b)) {
    if (b->imm == 0) return mkExtract(a, w - 1, 1); // sign bit
    if (a->op == T_SEXT && sx(b->imm, a->a->w) == sx(b->imm, w)) return mkSlt(a->a, mkConst(a->a->w, b->imm));
    // add without signed overflow
    if (a->op == T_ADD && isC(a->b)) { i64 c = sx(a->b->imm, w); __int128 lo = (__int128)a->a->smin + c, hi = (__int128)a->a->smax + c, r = (__int128)sx(b->imm, w) - c;
      if (lo >= sx(1ull << (w - 1), w) && hi <= (i64)(maskw(w) >> 1) && r >= sx(1ull << (w - 1), w) && r <= (i64)(maskw(w) >> 1)) return mkSlt(a->a, mkConst(w, (u64)(i64)r)); }
  }
  if (isC(a) && b->op == T_SEXT && sx(a->imm, b->a->w) == sx(a->imm, w)) return mkSlt(mkConst(b->a->w, a->imm), b->a);
  if (isC(a) && sx(a->imm, w) == -1) return mkNot(mkExtract(b, w - 1, 1));
  if (a->op == T_SEXT && b->op == T_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
  return mk(T_SLT, 1, a, b);
}
T mkOp(Op op, unsigned w, T a, T b, T c, u64 imm) {
  switch (op) {
  case T_CONST: return mkConst(w, imm);
  case T_VAR: return gVars[imm].term;
  case T_ADD: return mkAdd(a, b); case T_SUB: return mkSub(a, b); case T_MUL: return mkMul(a, b);
  case T_UDIV: return mkUDiv(a, b); case T_UREM: return mkURem(a, b); case T_SDIV: return mkSDiv(a, b); case T_SREM: return mkSRem(a, b);
  case T_AND: return mkAnd(a, b); case T_OR: return mkOr(a, b); case T_XOR: return mkXor(a, b);
  case T_SHL: return mkShl(a, b); case T_LSHR: return mkLShr(a, b); case T_ASHR: return mkAShr(a, b);
  case T_ZEXT: return mkZExt(a, w); case T_SEXT: return mkSExt(a, w); case T_EXTRACT: return mkExtract(a, imm, w); case T_CONCAT: return mkConcat(a, b);
  case T_ITE: return mkIte(a, b, c); case T_EQ: return mkEq(a, b); case T_ULT: return mkUlt(a, b); case T_SLT: return mkSlt(a, b);
  default: abort();
  }
}
std::string termStr(T t, int d) {
  char buf[64];
  if (t->op == T_CONST) { snprintf(buf, 64, "%lld:%d", (long long)sx(t->imm, t->w), t->w); return buf; }
  if (t->op == T_VAR) return gVars[t->imm].name;
  if (d == 0) { snprintf(buf, 64, "#%u", t->id); return buf; }
  std::string s = "("; s += opname[t->op]; snprintf(buf, 64, "%d", t->w); s += buf; if (t->op == T_EXTRACT) { snprintf(buf, 64, "@%d", (int)t->imm); s += buf; }
  for (T o : {t->a, t->b, t->c}) if (o) { s += " "; s += termStr(o, d - 1); }
  return s + ")";
}
