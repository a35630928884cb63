// rfxsym: symbolic executor for LLVM IR of the code under test plus a C harness.
#include "term.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <functional>
#include <random>
#include <set>
#include <unistd.h>
using namespace llvm;

// ------------------------------------------------------------------ options
static std::map<std::string, std::string> gParams;
static bool optForkShift = false, optVerbose = false;
static double optTime = 300; static u64 optMaxViol = 3; static u64 optMaxPaths = 0;
static std::string optOut; static std::string optReplay;
static std::chrono::steady_clock::time_point gStart;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - gStart).count(); }

// ------------------------------------------------------------------ decoded code
struct Val { u64 c; T t; };
enum IOp : uint16_t { I_BIN, I_ICMP, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_CAST, I_MOV, I_UNREACH, I_INTR };
struct FnInfo;
struct Edge { int target; std::vector<std::pair<int, int>> phis; };
struct Inst {
  IOp op; uint16_t sub = 0; uint8_t w = 0, sw = 0; int dst = -1;
  int a = 0, b = 0, c = 0; u64 imm = 0;
  std::vector<std::pair<int, u64>> scaled; std::vector<int> args;
  int e0 = -1, e1 = -1; std::vector<std::pair<u64, int>> cases;
  Function *callee = nullptr; const Instruction *src = nullptr; int builtin = -1;
};
struct FnInfo { Function *F; std::vector<Inst> code; std::vector<Edge> edges; std::vector<Val> consts; int nregs = 0; bool isHarness = false; std::string name; u64 hits = 0; };

// ------------------------------------------------------------------ memory
struct Page { int rc = 1; uint8_t d[256]; u64 init[4]; T *s = nullptr; uint8_t *si = nullptr; int nsym = 0; };
struct Obj { int rc = 1; u64 base, size; bool ro = false, freed = false, heap = false, stack = false, dead = false, noinit = false, mall = false, reused = false; i64 hw = 0; std::vector<Page *> pages; const char *name; };
static Page *clonePage(Page *p) { Page *q = new Page(*p); q->rc = 1; if (p->s) { q->s = new T[256]; memcpy(q->s, p->s, 256 * sizeof(T)); q->si = new uint8_t[256]; memcpy(q->si, p->si, 256); } return q; }
static void relPage(Page *p) { if (--p->rc == 0) { delete[] p->s; delete[] p->si; delete p; } }
static void relObj(Obj *o) { if (--o->rc == 0) { for (auto p : o->pages) if (p) relPage(p); delete o; } }

struct Frame { FnInfo *f; int pc = 0; std::vector<Val> regs; std::vector<u32> allocas; int dst = -1; uint8_t dw = 0; };
struct InputRec { u32 var; int kind; }; // variable creation order
struct State {
  std::vector<Frame> fr; std::vector<Obj *> objs; std::vector<T> pc; std::unordered_map<T, u64> known; std::unordered_map<T, std::pair<i64, i64>> bnd; std::vector<u64> model;
  std::vector<InputRec> inputs; bool allocFail = false; std::vector<u32> covers; u64 depth = 0; std::vector<i64> obs; std::vector<std::pair<u32, Obj *>> gsnap;
  State() {}
  State(const State &o) : fr(o.fr), objs(o.objs), pc(o.pc), known(o.known), bnd(o.bnd), model(o.model), inputs(o.inputs), allocFail(o.allocFail), covers(o.covers), depth(o.depth), obs(o.obs), gsnap(o.gsnap) { for (auto p : objs) if (p) p->rc++; for (auto &g : gsnap) g.second->rc++; }
  ~State() { for (auto p : objs) if (p) relObj(p); for (auto &g : gsnap) relObj(g.second); }
};

static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<Function *, FnInfo *> gFns;
static std::unordered_map<const GlobalValue *, u64> gAddr; static std::unordered_map<u64, Function *> gFnAt;
static Solver *S; static Evaluator EV;
static std::vector<State *> gStack; static std::vector<u32> gLibGlobals;
static std::vector<std::string> gCoverNames; static std::map<std::string, u32> gCoverIdx; static std::map<std::string, u64> gCoverHits;
static u64 nIv = 0, nPaths = 0, nForks = 0, nInstr = 0, nAsserts = 0, nAssertQ = 0, nKilled = 0, nEqPairs = 0, nEqTrivial = 0, nEqLocal = 0, nEqFull = 0, nLemmas = 0;
static bool gIncomplete = false; static std::string gWhy;
static std::set<std::string> gFuncsHit;
struct Viol { std::string kind, msg, loc; std::vector<std::pair<std::string, std::pair<int, u64>>> in; std::string known; };
static std::vector<Viol> gViol; static std::set<std::string> gViolKeys;
struct Stop {};

static void fatal(const std::string &s) { fprintf(stderr, "rfxsym: %s\n", s.c_str()); gIncomplete = true; gWhy = s; throw 1; }
#include <stdexcept>

// ------------------------------------------------------------------ state helpers
static inline T tm(const Val &v, unsigned w) { return v.t ? v.t : mkConst(w, v.c); }
static inline Val mv(T t) { if (t->op == T_CONST) return Val{t->imm, nullptr}; return Val{0, t}; }

static u64 evalIn(State &s, T t) { EV.begin(s.model.data(), s.model.size()); return EV.eval(t); }
// ---- signed interval reasoning implied by the path condition (cheap; avoids many queries)
struct Iv { i64 lo, hi; };
static Iv ival(State &s, T t, int d = 12) {
  Iv r{t->smin, t->smax};
  if (t->op == T_CONST) { i64 v = sx(t->imm, t->w); return {v, v}; }
  auto it = s.bnd.find(t); if (it != s.bnd.end()) { r.lo = std::max(r.lo, it->second.first); r.hi = std::min(r.hi, it->second.second); }
  if (d <= 0 || t->w > 62) { if (t->w > 62 && t->op != T_SEXT && t->op != T_ZEXT && t->op != T_ADD && t->op != T_SUB) return r; if (d <= 0) return r; }
  auto meet = [&](i64 lo, i64 hi) { r.lo = std::max(r.lo, lo); r.hi = std::min(r.hi, hi); };
  i64 mx = t->w >= 64 ? INT64_MAX : (1ll << (t->w - 1)) - 1, mn = -mx - 1; i64 big = 1ll << 60;
  switch (t->op) {
  case T_ADD: { Iv a = ival(s, t->a, d - 1), b = ival(s, t->b, d - 1); if (a.lo > -big && a.hi < big && b.lo > -big && b.hi < big && a.lo + b.lo >= mn && a.hi + b.hi <= mx) meet(a.lo + b.lo, a.hi + b.hi); break; }
  case T_SUB: { Iv a = ival(s, t->a, d - 1), b = ival(s, t->b, d - 1); if (a.lo > -big && a.hi < big && b.lo > -big && b.hi < big && a.lo - b.hi >= mn && a.hi - b.lo <= mx) meet(a.lo - b.hi, a.hi - b.lo); break; }
  case T_SEXT: { Iv a = ival(s, t->a, d - 1); meet(a.lo, a.hi); break; }
  case T_ZEXT: { Iv a = ival(s, t->a, d - 1); if (a.lo >= 0) meet(a.lo, a.hi); break; }
  case T_EXTRACT: if (t->imm == 0) { Iv a = ival(s, t->a, d - 1); if (a.lo >= mn && a.hi <= mx) meet(a.lo, a.hi); } break;
  case T_ITE: { Iv a = ival(s, t->b, d - 1), b = ival(s, t->c, d - 1); meet(std::min(a.lo, b.lo), std::max(a.hi, b.hi)); break; }
  case T_ASHR: if (t->b->op == T_CONST && t->b->imm < t->w) { Iv a = ival(s, t->a, d - 1); meet(a.lo >> t->b->imm, a.hi >> t->b->imm); } break;
  case T_LSHR: if (t->b->op == T_CONST && t->b->imm < t->w) { Iv a = ival(s, t->a, d - 1); if (a.lo >= 0) meet(a.lo >> t->b->imm, a.hi >> t->b->imm); } break;
  case T_MUL: if (t->b->op == T_CONST) { i64 k = sx(t->b->imm, t->w); Iv a = ival(s, t->a, d - 1); if (k > 0 && k < 4096 && a.lo > -(1ll << 40) && a.hi < (1ll << 40) && a.lo * k >= mn && a.hi * k <= mx) meet(a.lo * k, a.hi * k); } break;
  case T_SHL: if (t->b->op == T_CONST && t->b->imm < 12) { Iv a = ival(s, t->a, d - 1); i64 k = 1ll << t->b->imm; if (a.lo > -(1ll << 40) && a.hi < (1ll << 40) && a.lo * k >= mn && a.hi * k <= mx) meet(a.lo * k, a.hi * k); } break;
  default: break;
  }
  return r;
}
// the path condition implies lo <= t <= hi (signed)
static void refine(State &s, T t, i64 lo, i64 hi, int d = 8) {
  if (t->op == T_CONST || d <= 0) return;
  auto it = s.bnd.find(t);
  if (it != s.bnd.end()) { if (lo <= it->second.first && hi >= it->second.second) return; lo = std::max(lo, it->second.first); hi = std::min(hi, it->second.second); it->second = {lo, hi}; }
  else { if (lo <= t->smin && hi >= t->smax) return; lo = std::max(lo, t->smin); hi = std::min(hi, t->smax); s.bnd[t] = {lo, hi}; }
  i64 mx = t->w >= 64 ? INT64_MAX : (1ll << (t->w - 1)) - 1, mn = -mx - 1; i64 big = 1ll << 60; if (lo < -big || hi > big) return;
  switch (t->op) {
  case T_ADD: if (t->b->op == T_CONST) { i64 c = sx(t->b->imm, t->w); Iv a = ival(s, t->a); if (c > -big && c < big && a.lo > -big && a.hi < big && a.lo + c >= mn && a.hi + c <= mx) refine(s, t->a, lo - c, hi - c, d - 1); } break;
  case T_SUB: if (t->b->op == T_CONST) { i64 c = sx(t->b->imm, t->w); Iv a = ival(s, t->a); if (c > -big && c < big && a.lo > -big && a.hi < big && a.lo - c >= mn && a.hi - c <= mx) refine(s, t->a, lo + c, hi + c, d - 1); }
    else if (t->a->op == T_CONST) { i64 c = sx(t->a->imm, t->w); Iv b = ival(s, t->b); if (c > -big && c < big && b.lo > -big && b.hi < big && c - b.hi >= mn && c - b.lo <= mx) refine(s, t->b, c - hi, c - lo, d - 1); } break;
  case T_SEXT: refine(s, t->a, lo, hi, d - 1); break;
  case T_ZEXT: { i64 am = (1ll << (t->a->w - 1)) - 1; if (hi <= am) refine(s, t->a, std::max<i64>(lo, 0), hi, d - 1); else { Iv a = ival(s, t->a); if (a.lo >= 0) refine(s, t->a, std::max<i64>(lo, 0), hi, d - 1); } break; }
  case T_EXTRACT: if (t->imm == 0) { Iv a = ival(s, t->a); if (a.lo >= mn && a.hi <= mx) refine(s, t->a, lo, hi, d - 1); } break;
  default: break;
  }
}
// truth of a 1-bit term from intervals: 0, 1 or -1
static int ivTruth(State &s, T c, int d = 6) {
  if (c->op == T_CONST) return (int)c->imm;
  auto it = s.known.find(c); if (it != s.known.end()) return (int)(it->second & 1);
  if (d <= 0) return -1;
  switch (c->op) {
  case T_XOR: if (c->w == 1 && c->b->op == T_CONST) { int r = ivTruth(s, c->a, d - 1); return r < 0 ? -1 : r ^ (int)c->b->imm; } return -1;
  case T_AND: if (c->w == 1) { int a = ivTruth(s, c->a, d - 1); if (a == 0) return 0; int b = ivTruth(s, c->b, d - 1); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; } return -1;
  case T_OR: if (c->w == 1) { int a = ivTruth(s, c->a, d - 1); if (a == 1) return 1; int b = ivTruth(s, c->b, d - 1); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; } return -1;
  case T_SLT: { Iv a = ival(s, c->a), b = ival(s, c->b); if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; return -1; }
  case T_ULT: { Iv a = ival(s, c->a), b = ival(s, c->b); if (a.lo < 0 || b.lo < 0) return -1; if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; return -1; }
  case T_EQ: { if (c->a->w == 1) return -1; Iv a = ival(s, c->a), b = ival(s, c->b); if (a.hi < b.lo || b.hi < a.lo) return 0; if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; return -1; }
  default: return -1;
  }
}
static void learnIv(State &s, T c, bool v) {
  if (c->op == T_SLT) { Iv a = ival(s, c->a), b = ival(s, c->b); if (v) { if (b.hi > INT64_MIN) refine(s, c->a, INT64_MIN, b.hi - 1); if (a.lo < INT64_MAX) refine(s, c->b, a.lo + 1, INT64_MAX); } else { refine(s, c->a, b.lo, INT64_MAX); refine(s, c->b, INT64_MIN, a.hi); } }
  else if (c->op == T_ULT) { Iv a = ival(s, c->a), b = ival(s, c->b);
    if (v) { if (b.lo >= 0) { refine(s, c->a, 0, b.hi - 1); if (a.lo >= 0 && a.lo < INT64_MAX) refine(s, c->b, a.lo + 1, INT64_MAX); } }
    else if (a.lo >= 0) { refine(s, c->b, 0, a.hi); if (b.lo >= 0) refine(s, c->a, b.lo, INT64_MAX); } }
  else if (c->op == T_EQ && c->a->w > 1) { Iv a = ival(s, c->a), b = ival(s, c->b); if (v) { refine(s, c->a, b.lo, b.hi); refine(s, c->b, a.lo, a.hi); }
    else { if (b.lo == b.hi) { if (a.lo == b.lo) refine(s, c->a, a.lo + 1, INT64_MAX); else if (a.hi == b.lo) refine(s, c->a, INT64_MIN, a.hi - 1); } if (a.lo == a.hi) { if (b.lo == a.lo) refine(s, c->b, b.lo + 1, INT64_MAX); else if (b.hi == a.lo) refine(s, c->b, INT64_MIN, b.hi - 1); } } }
}
static void learn(State &s, T c) {
  s.known[c] = 1; learnIv(s, c, true);
  if (c->op == T_EQ && c->b->op == T_CONST) s.known[c->a] = c->b->imm;
  else if (c->op == T_AND && c->w == 1) { learn(s, c->a); learn(s, c->b); }
  else if (c->op == T_XOR && c->b->op == T_CONST) { s.known[c->a] = 0; learnIv(s, c->a, false); if (c->a->op == T_OR) { learn(s, mkNot(c->a->a)); learn(s, mkNot(c->a->b)); } }
}
static void addC(State &s, T c) { if (c->op == T_CONST) return; s.pc.push_back(c); learn(s, c); }
static std::vector<T> slice(State &s, T c) { // c first, then the path constraints that share variables with it, in path order
  std::unordered_set<u32> vs; for (u32 v : S->varsOf(c)) vs.insert(v);
  std::vector<char> used(s.pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { const auto &pv = S->varsOf(s.pc[i]); bool hit = false; for (u32 v : pv) if (vs.count(v)) { hit = true; break; } if (hit) { used[i] = 1; for (u32 v : pv) if (vs.insert(v).second) ch = true; } } }
  std::vector<T> out{c}; for (size_t i = 0; i < s.pc.size(); i++) if (used[i]) out.push_back(s.pc[i]);
  return out;
}
// is pc && c satisfiable?  On SAT, *m = model of the state updated.
static SatRes feasible(State &s, T c, std::vector<u64> *m, bool soft = false) {
  if (c->op == T_CONST) { if (m) *m = s.model; return c->imm ? R_SAT : R_UNSAT; }
  if (evalIn(s, c)) { if (m) *m = s.model; return R_SAT; }
  if (ivTruth(s, c) == 0) { nIv++; return R_UNSAT; }
  std::vector<u64> mm = s.model; SatRes r = S->check(slice(s, c), &mm);
  if (r == R_SAT && m) *m = mm;
  if (r == R_UNKNOWN && !soft) { gIncomplete = true; gWhy = "solver timeout"; }
  return r;
}
static std::string locOf(State &s) {
  for (int i = (int)s.fr.size() - 1; i >= 0; i--) {
    Frame &f = s.fr[i]; if (f.pc >= (int)f.f->code.size()) continue; const Instruction *I = f.f->code[f.pc].src;
    if (!I) continue; auto &dl = I->getDebugLoc(); std::string r = f.f->name; if (dl) { r += " "; r += dl->getFilename().str(); r += ":" + std::to_string(dl->getLine()); }
    return r;
  }
  return "?";
}
static u64 optSamples = 0; static std::vector<std::vector<std::pair<std::string, std::pair<int, u64>>>> gSamples;
static void sample(State &s) {
  if (!optSamples) return; u64 n = nPaths; // keep the first few paths and then exponentially spaced ones
  if (gSamples.size() >= optSamples) { if (n & (n - 1)) return; gSamples.erase(gSamples.begin() + gSamples.size() / 2); }
  std::vector<std::pair<std::string, std::pair<int, u64>>> in; for (auto &r : s.inputs) { u64 x = r.var < s.model.size() ? s.model[r.var] : 0; in.push_back({gVars[r.var].name, {gVars[r.var].w, x}}); }
  gSamples.push_back(in);
}
static void report(State &s, const std::string &kind, const std::string &msg, const std::vector<u64> &model, const std::string &known = "") {
  Viol v; v.kind = kind; v.msg = msg; v.loc = locOf(s); v.known = known;
  std::string key = kind + "|" + msg + "|" + known + (known.empty() && kind != "assert" ? v.loc : "");
  if (!gViolKeys.insert(key).second) return;
  for (auto &r : s.inputs) { u64 x = r.var < model.size() ? model[r.var] : 0; v.in.push_back({gVars[r.var].name, {gVars[r.var].w, x}}); }
  if (optVerbose) fprintf(stderr, "VIOL %s %s @ %s\n", kind.c_str(), msg.c_str(), v.loc.c_str());
  gViol.push_back(v);
  u64 n = 0; for (auto &x : gViol) if (x.known.empty()) n++;
  if (v.known.empty()) optTime = std::min(optTime, elapsed() + 8); // a little longer for further ones
  if (n >= optMaxViol) throw Stop();
}
struct PathEnd {};
// assert helper: if !c is feasible report; continue under c (or end the path)
static void require(State &s, T c, const std::string &kind, const std::string &msg, const std::string &known = "") {
  if (c->op == T_CONST) { if (c->imm) return; report(s, kind, msg, s.model, known); if (known.empty()) throw PathEnd(); return; }
  auto it = s.known.find(c); if (it != s.known.end() && it->second) return;
  nAssertQ++;
  std::vector<u64> m; SatRes r = feasible(s, mkNot(c), &m);
  if (r == R_SAT) { report(s, kind, msg, m, known);
    if (!known.empty()) return;
    std::vector<u64> m2; if (feasible(s, c, &m2) != R_SAT) throw PathEnd(); s.model = m2; addC(s, c); return; }
  if (r == R_UNSAT) s.known[c] = 1;
}
static inline Val rd(State &s, Frame &f, int o) { (void)s;
  const Val &v = o >= 0 ? f.regs[o] : f.f->consts[~o];
  if (v.t && !s.known.empty()) { auto it = s.known.find(v.t); if (it != s.known.end()) return Val{it->second, nullptr}; }
  return v; }
// concretise by forking (the clone re-executes the current instruction)
static u64 concretise(State &s, T t) {
  if (t->op == T_CONST) return t->imm;
  u64 v = evalIn(s, t); T eq = mkEq(t, mkConst(t->w, v)); std::vector<u64> m; T ne = mkNot(eq);
  SatRes r = feasible(s, ne, &m);
  if (r == R_SAT) { State *c = new State(s); c->model = m; addC(*c, ne); c->depth++; gStack.push_back(c); nForks++; }
  addC(s, eq); s.known[t] = v; return v;
}
static u64 cv(State &s, const Val &v) { return v.t ? concretise(s, v.t) : v.c; }

// ------------------------------------------------------------------ memory ops
static u64 newObj(State &s, u64 size, const char *name, int initMode /*0 uninit 1 zero*/) {
  Obj *o = new Obj; u64 idx = s.objs.size(); o->base = ((idx + 1) << 32) + 0x10000; o->size = size; o->name = name;
  o->pages.resize((size + 255) / 256, nullptr); o->noinit = initMode == 0;
  s.objs.push_back(o); return o->base;
}
static Page *newPage(Obj *o) { Page *p = new Page; memset(p->d, 0, 256); memset(p->init, o->noinit ? 0 : 0xff, sizeof p->init); return p; }
static Obj *findObj(State &s, u64 a) { u64 i = (a >> 32); if (i == 0 || i > s.objs.size()) return nullptr; return s.objs[i - 1]; }
static Obj *wobj(State &s, u64 a) { u64 i = (a >> 32) - 1; Obj *o = s.objs[i]; if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; for (auto p : n->pages) if (p) p->rc++; o->rc--; s.objs[i] = n; o = n; } return o; }
static Page *wpage(Obj *o, u64 pi) { Page *&p = o->pages[pi]; if (!p) p = newPage(o); else if (p->rc > 1) { Page *q = clonePage(p); p->rc--; p = q; } return p; }
// HEAPFILL: malloc'd blocks hold fixed bytes, different in every block, as in the native replay;
// with HEAPFILL 2 they hold what the last freed block of the same size held
static void heapFill(State &s) {
  Obj *o = s.objs.back(); int k = 0; for (auto x : s.objs) if (x && x->mall) k++;
  o->mall = true; o->noinit = false;
  if (gParams["HEAPFILL"] == "2") // the block freed last of this size, contents and all
    for (size_t i = s.objs.size() - 1; i-- > 0;) if (s.objs[i] && s.objs[i]->heap && s.objs[i]->freed && !s.objs[i]->reused && s.objs[i]->size == o->size) { wobj(s, s.objs[i]->base)->reused = true; o->noinit = s.objs[i]->noinit; o->pages = s.objs[i]->pages; for (auto p : o->pages) if (p) p->rc++; return; }
  for (u64 i = 0; i < o->pages.size(); i++) memset(wpage(o, i)->d, (0xA5 + 37 * k) & 255, 256);
}
static Obj *checkAcc(State &s, u64 a, u64 n, bool wr) {
  Obj *o = findObj(s, a); char b[160];
  if (!o) { snprintf(b, 160, "%s of %llu bytes at invalid address 0x%llx", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)a); report(s, "memory", b, s.model); throw PathEnd(); }
  if (o->freed || o->dead) { snprintf(b, 160, "%s of freed object %s", wr ? "write" : "read", o->name); report(s, "memory", b, s.model); throw PathEnd(); }
  i64 off = (i64)(a - o->base);
  if (off < 0 || (u64)off + n > o->size) { snprintf(b, 160, "%s out of bounds of %s: offset %lld size %llu of %llu", wr ? "write" : "read", o->name, (long long)off, (unsigned long long)n, (unsigned long long)o->size); report(s, "memory", b, s.model); throw PathEnd(); }
  if (wr && o->ro) { snprintf(b, 160, "write to read-only object %s at offset %lld", o->name, (long long)off); report(s, "memory", b, s.model); throw PathEnd(); }
  return o;
}
static T loadByteT(State &s, Obj *o, u64 off) { // byte as 8-bit term
  u64 pi = off >> 8, bi = off & 255; Page *p = o->pages[pi];
  if (!p) { if (!o->noinit) return mkConst(8, 0); p = wpage(wobj(s, o->base), pi); }
  if (p->s && p->s[bi]) return mkExtract(p->s[bi], p->si[bi] * 8, 8);
  if (!(p->init[bi >> 6] >> (bi & 63) & 1)) {
    T v = mkVarFull(8, "undef"); if (s.model.size() < gVars.size()) s.model.resize(gVars.size(), 0);
    Obj *w = wobj(s, o->base); p = wpage(w, pi); p->init[bi >> 6] |= 1ull << (bi & 63);
    if (!p->s) { p->s = new T[256](); p->si = new uint8_t[256](); } p->s[bi] = v; p->si[bi] = 0; p->nsym++;
    return v; }
  return mkConst(8, p->d[bi]);
}
static Val load(State &s, u64 a, unsigned n) {
  Obj *o = checkAcc(s, a, n, false); u64 off = a - o->base; u64 pi = off >> 8, bi = off & 255;
  if (bi + n <= 256) {
    Page *p = o->pages[pi];
    if (!p) { if (!o->noinit) return Val{0, nullptr}; }
    else {
      bool plain = true;
      if (p->nsym) for (unsigned i = 0; i < n; i++) if (p->s[bi + i]) { plain = false; break; }
      if (plain) { for (unsigned i = 0; i < n; i++) if (!(p->init[(bi + i) >> 6] >> ((bi + i) & 63) & 1)) { plain = false; break; } }
      if (plain) { u64 v = 0; memcpy(&v, p->d + bi, n); return Val{v, nullptr}; }
      if (p->s) { T t0 = p->s[bi]; if (t0 && t0->w == n * 8) { bool ok = true; for (unsigned i = 0; i < n; i++) if (p->s[bi + i] != t0 || p->si[bi + i] != i) { ok = false; break; } if (ok) return mv(t0); } }
    }
  }
  // join runs of bytes that come from one stored term
  auto at = [&](u64 q, T &t, unsigned &si) { Page *p = o->pages[q >> 8]; if (!p || !p->s || !p->s[q & 255]) return false; t = p->s[q & 255]; si = p->si[q & 255]; return true; };
  T r = nullptr;
  for (unsigned i = 0; i < n;) {
    T t; unsigned si; T part; o = findObj(s, a);
    if (at(off + i, t, si)) { unsigned k = 1; T t2; unsigned s2; while (i + k < n && at(off + i + k, t2, s2) && t2 == t && s2 == si + k) k++; part = mkExtract(t, si * 8, k * 8); i += k; }
    else { part = loadByteT(s, o, off + i); i++; }
    r = r ? mkConcat(part, r) : part;
  }
  return mv(r);
}
static void store(State &s, u64 a, unsigned n, const Val &v) {
  checkAcc(s, a, n, true); Obj *o = wobj(s, a); u64 off = a - o->base; if ((i64)(off + n) > o->hw) o->hw = off + n;
  T t = v.t; if (t && t->w != n * 8) t = mkZExt(t, n * 8);
  for (unsigned i = 0; i < n;) {
    u64 pi = (off + i) >> 8, bi = (off + i) & 255; Page *p = wpage(o, pi); unsigned m = std::min<u64>(n - i, 256 - bi);
    for (unsigned k = 0; k < m; k++, i++, bi++) {
      p->init[bi >> 6] |= 1ull << (bi & 63);
      if (t) { if (!p->s) { p->s = new T[256](); p->si = new uint8_t[256](); } if (!p->s[bi]) p->nsym++; p->s[bi] = t; p->si[bi] = i; }
      else { if (p->nsym && p->s[bi]) { p->s[bi] = nullptr; p->nsym--; } p->d[bi] = (uint8_t)(v.c >> (8 * i)); }
    }
  }
}
static void copyMem(State &s, u64 d, u64 a, u64 n, bool mv_) {
  if (!n) return; checkAcc(s, a, n, false); checkAcc(s, d, n, true);
  if (!mv_ && d != a && d < a + n && a < d + n) { report(s, "memory", "memcpy with overlapping ranges", s.model); throw PathEnd(); }
  struct B { T t; uint8_t si, d; bool init; }; std::vector<B> tmp(n);
  Obj *o = findObj(s, a); u64 off = a - o->base;
  for (u64 i = 0; i < n; i++) { u64 pi = (off + i) >> 8, bi = (off + i) & 255; Page *p = o->pages[pi]; B &b = tmp[i]; b.t = nullptr; b.si = 0; b.d = 0; b.init = !o->noinit; if (p) { b.init = p->init[bi >> 6] >> (bi & 63) & 1; b.d = p->d[bi]; if (p->s) { b.t = p->s[bi]; b.si = p->si[bi]; } } }
  Obj *w = wobj(s, d); u64 wo = d - w->base; if ((i64)(wo + n) > w->hw) w->hw = wo + n;
  for (u64 i = 0; i < n; i++) { u64 pi = (wo + i) >> 8, bi = (wo + i) & 255; Page *p = wpage(w, pi); B &b = tmp[i];
    if (b.init) p->init[bi >> 6] |= 1ull << (bi & 63); else p->init[bi >> 6] &= ~(1ull << (bi & 63));
    if (b.t) { if (!p->s) { p->s = new T[256](); p->si = new uint8_t[256](); } if (!p->s[bi]) p->nsym++; p->s[bi] = b.t; p->si[bi] = b.si; }
    else { if (p->nsym && p->s[bi]) { p->s[bi] = nullptr; p->nsym--; } p->d[bi] = b.d; } }
}
static std::string cstr(State &s, u64 a) { std::string r; if (!a) return r; for (int i = 0; i < 400; i++) { Val v = load(s, a + i, 1); if (v.t || !v.c) break; r += (char)v.c; } return r; }

// ------------------------------------------------------------------ decoding
static u64 constAddr(const Constant *C);
static u64 evalConst(const Constant *C) {
  if (auto *ci = dyn_cast<ConstantInt>(C)) return ci->getValue().getZExtValue();
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto *gv = dyn_cast<GlobalValue>(C)) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee()); auto it = gAddr.find(gv); if (it == gAddr.end()) fatal("no address for global " + gv->getName().str()); return it->second; }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *g = cast<GEPOperator>(ce); if (!g->accumulateConstantOffset(*DL, off)) fatal("const gep"); return evalConst(cast<Constant>(g->getPointerOperand())) + off.getSExtValue(); }
    case Instruction::Add: return evalConst(ce->getOperand(0)) + evalConst(ce->getOperand(1));
    case Instruction::Sub: return evalConst(ce->getOperand(0)) - evalConst(ce->getOperand(1));
    case Instruction::Trunc: return evalConst(ce->getOperand(0)) & maskw(ce->getType()->getIntegerBitWidth());
    default: break; } }
  std::string b; raw_string_ostream os(b); C->print(os); fatal("unsupported constant " + b); return 0;
}
static unsigned tyW(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) fatal("integer wider than 64 bits"); return w; } if (t->isVoidTy()) return 0; std::string b; raw_string_ostream os(b); t->print(os); fatal("unsupported type " + b); return 0; }
static int builtinId(StringRef n);
static FnInfo *decode(Function *F) {
  auto it = gFns.find(F); if (it != gFns.end()) return it->second;
  FnInfo *f = new FnInfo; f->F = F; f->name = F->getName().str(); gFns[F] = f;
  if (auto *sp = F->getSubprogram()) { std::string file = sp->getFilename().str(), dir = sp->getDirectory().str(); f->isHarness = file.find("/verif/") != std::string::npos || file.find("harness") != std::string::npos || file.find("/lift_") != std::string::npos || (file[0] != '/' && dir.find("/verif") != std::string::npos); } else f->isHarness = true;
  std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bbStart;
  for (auto &A : F->args()) slot[&A] = f->nregs++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = f->nregs++;
  auto opnd = [&](const Value *V) -> int { auto j = slot.find(V); if (j != slot.end()) return j->second; if (auto *C = dyn_cast<Constant>(V)) { u64 v = evalConst(C); f->consts.push_back(Val{v, nullptr}); return ~(int)(f->consts.size() - 1); } if (isa<MetadataAsValue>(V)) return 0; fatal("operand"); return 0; };
  struct Fix { int edge; const BasicBlock *from, *to; }; std::vector<Fix> fix;
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) { f->edges.push_back(Edge()); fix.push_back({(int)f->edges.size() - 1, from, to}); return (int)f->edges.size() - 1; };
  for (auto &B : *F) {
    bbStart[&B] = f->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Inst n; n.src = &I; if (!I.getType()->isVoidTy()) n.dst = slot[&I];
      switch (I.getOpcode()) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        n.op = I_BIN; n.w = tyW(I.getType()); n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1));
        switch (I.getOpcode()) { case Instruction::Add: n.sub = T_ADD; break; case Instruction::Sub: n.sub = T_SUB; break; case Instruction::Mul: n.sub = T_MUL; break; case Instruction::UDiv: n.sub = T_UDIV; break; case Instruction::URem: n.sub = T_UREM; break; case Instruction::SDiv: n.sub = T_SDIV; break; case Instruction::SRem: n.sub = T_SREM; break; case Instruction::And: n.sub = T_AND; break; case Instruction::Or: n.sub = T_OR; break; case Instruction::Xor: n.sub = T_XOR; break; case Instruction::Shl: n.sub = T_SHL; break; case Instruction::LShr: n.sub = T_LSHR; break; default: n.sub = T_ASHR; }
        break; }
      case Instruction::ICmp: { auto &C = cast<ICmpInst>(I); n.op = I_ICMP; n.sub = C.getPredicate(); n.w = tyW(C.getOperand(0)->getType()); n.a = opnd(C.getOperand(0)); n.b = opnd(C.getOperand(1)); break; }
      case Instruction::Select: n.op = I_SELECT; n.w = tyW(I.getType()); n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); n.c = opnd(I.getOperand(2)); break;
      case Instruction::Br: { auto &Br = cast<BranchInst>(I); if (Br.isConditional()) { n.op = I_CBR; n.a = opnd(Br.getCondition()); n.e0 = mkEdge(&B, Br.getSuccessor(0)); n.e1 = mkEdge(&B, Br.getSuccessor(1)); } else { n.op = I_BR; n.e0 = mkEdge(&B, Br.getSuccessor(0)); } break; }
      case Instruction::Switch: { auto &Sw = cast<SwitchInst>(I); n.op = I_SWITCH; n.w = tyW(Sw.getCondition()->getType()); n.a = opnd(Sw.getCondition()); n.e0 = mkEdge(&B, Sw.getDefaultDest()); for (auto &c : Sw.cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&B, c.getCaseSuccessor())}); break; }
      case Instruction::Ret: n.op = I_RET; if (I.getNumOperands()) { n.a = opnd(I.getOperand(0)); n.w = tyW(I.getOperand(0)->getType()); } break;
      case Instruction::Unreachable: n.op = I_UNREACH; break;
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); n.op = I_ALLOCA; n.imm = DL->getTypeAllocSize(A.getAllocatedType()); n.a = opnd(A.getArraySize()); break; }
      case Instruction::Load: n.op = I_LOAD; n.w = tyW(I.getType()); n.imm = DL->getTypeStoreSize(I.getType()); n.a = opnd(I.getOperand(0)); break;
      case Instruction::Store: n.op = I_STORE; n.w = tyW(I.getOperand(0)->getType()); n.imm = DL->getTypeStoreSize(I.getOperand(0)->getType()); n.a = opnd(I.getOperand(0)); n.b = opnd(I.getOperand(1)); break;
      case Instruction::GetElementPtr: { auto &G = cast<GetElementPtrInst>(I); n.op = I_GEP; n.a = opnd(G.getPointerOperand()); u64 off = 0;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) { Value *idx = gti.getOperand(); if (StructType *st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); else { u64 sz = DL->getTypeAllocSize(gti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sz; else { if (tyW(idx->getType()) != 64) fatal("gep idx"); n.scaled.push_back({opnd(idx), sz}); } } }
        n.imm = off; break; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze:
        n.op = I_CAST; n.sub = I.getOpcode(); n.w = tyW(I.getType()); n.sw = tyW(I.getOperand(0)->getType()); n.a = opnd(I.getOperand(0)); break;
      case Instruction::Call: {
        auto &C = cast<CallInst>(I); n.op = I_CALL; Function *cf = C.getCalledFunction(); if (!cf) cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts());
        n.w = tyW(C.getType());
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto id = II->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl) continue;
          n.op = I_INTR; n.sub = id; for (auto &a : II->args()) if (!isa<MetadataAsValue>(a)) n.args.push_back(opnd(a)); if (II->arg_size()) n.sw = II->getArgOperand(0)->getType()->isIntegerTy() || II->getArgOperand(0)->getType()->isPointerTy() ? tyW(II->getArgOperand(0)->getType()) : 0; if (id == Intrinsic::memset || id == Intrinsic::memcpy || id == Intrinsic::memmove) n.sw = tyW(II->getArgOperand(2)->getType());
          break; }
        if (cf) { n.callee = cf; if (cf->isDeclaration()) { n.builtin = builtinId(cf->getName()); if (n.builtin < 0) n.builtin = 9999; } } else n.a = opnd(C.getCalledOperand());
        for (auto &a : C.args()) n.args.push_back(opnd(a));
        break; }
      default: { std::string b; raw_string_ostream os(b); I.print(os); fatal("unsupported instruction " + b); }
      }
      f->code.push_back(std::move(n));
    }
  }
  for (auto &x : fix) { Edge &e = f->edges[x.edge]; e.target = bbStart[x.to]; for (auto &P : x.to->phis()) { e.phis.push_back({slot[&P], opnd(P.getIncomingValueForBlock(x.from))}); } }
  return f;
}
static void takeEdge(State &s, Frame &f, int e) {
  Edge &E = f.f->edges[e]; size_t n = E.phis.size();
  if (n == 1) f.regs[E.phis[0].first] = rd(s, f, E.phis[0].second);
  else if (n) { Val tmp[64]; if (n > 64) fatal("phis"); for (size_t i = 0; i < n; i++) tmp[i] = rd(s, f, E.phis[i].second); for (size_t i = 0; i < n; i++) f.regs[E.phis[i].first] = tmp[i]; }
  f.pc = E.target;
}
// decide a symbolic condition, forking if both ways are possible
static bool decide(State &s, T c, std::function<void(State &)> onOther = nullptr) {
  if (c->op == T_CONST) return c->imm;
  auto it = s.known.find(c); if (it != s.known.end()) return it->second;
  if (c->op == T_XOR && c->b->op == T_CONST) { it = s.known.find(c->a); if (it != s.known.end()) return !it->second; }
  bool v = evalIn(s, c); T cc = v ? c : mkNot(c), nc = v ? mkNot(c) : c; std::vector<u64> m;
  SatRes r = feasible(s, nc, &m);
  if (r == R_SAT) { State *o = new State(s); o->model = m; addC(*o, nc); o->depth++; gStack.push_back(o); nForks++; addC(s, cc); }
  else { s.known[cc] = 1; learn(s, cc); }
  return v;
}

// ------------------------------------------------------------------ builtins
enum { B_INT, B_BYTES, B_SHORTS, B_ASSUME, B_ASSERT, B_CONC, B_PARAM, B_RO, B_HW, B_HWRESET, B_LIVE, B_KNOWN, B_EQUAL, B_COVER, B_ALLOCFAIL, B_LIMIT, B_OBS, B_MALLOC, B_CALLOC, B_FREE, B_NOP0, B_MEMCMP, B_EXIT, B_OBJSIZE, B_ISSYM, B_ALLOC, B_CONC64, B_TRACE, B_HAVOC, B_MEMCPY, B_MEMSET, B_MEMMOVE, B_REALLOC, B_REACH, B_BYTESR, B_STRLEN, B_CUT, B_GMARK, B_GCHG, B_AALLOC, B_TERMEQ };
static int builtinId(StringRef n) {
  static std::map<std::string, int> m = {{"sym_int", B_INT}, {"sym_bytes", B_BYTES}, {"sym_bytes_range", B_BYTESR}, {"sym_shorts", B_SHORTS}, {"sym_assume", B_ASSUME}, {"sym_assert", B_ASSERT}, {"sym_concrete", B_CONC}, {"sym_param", B_PARAM}, {"sym_readonly", B_RO}, {"sym_high_water", B_HW}, {"sym_reset_high_water", B_HWRESET}, {"sym_live", B_LIVE}, {"sym_known", B_KNOWN}, {"sym_equal", B_EQUAL}, {"sym_cover", B_COVER}, {"sym_alloc_may_fail", B_ALLOCFAIL}, {"sym_limit", B_LIMIT}, {"sym_observe", B_OBS}, {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"free", B_FREE}, {"printf", B_NOP0}, {"puts", B_NOP0}, {"putchar", B_NOP0}, {"fprintf", B_NOP0}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"exit", B_EXIT}, {"abort", B_EXIT}, {"sym_is_symbolic", B_ISSYM}, {"sym_alloc", B_ALLOC}, {"sym_trace", B_TRACE}, {"sym_havoc", B_HAVOC}, {"memcpy", B_MEMCPY}, {"memset", B_MEMSET}, {"memmove", B_MEMMOVE}, {"realloc", B_REALLOC}, {"strlen", B_STRLEN}, {"sym_done", B_EXIT}, {"sym_globals_mark", B_GMARK}, {"sym_globals_changed", B_GCHG}, {"aligned_alloc", B_AALLOC}, {"sym_narrow_point", B_CUT}, {"sym_native", B_CUT}};
  auto it = m.find(n.str()); return it == m.end() ? -1 : it->second;
}
static T newInput(State &s, unsigned w, const std::string &name, i64 lo, i64 hi, bool sgn, bool full) {
  T v = full ? mkVarFull(w, name) : mkVar(w, name, lo, hi, sgn);
  s.model.resize(gVars.size(), 0); s.model[v->imm] = v->op == T_CONST ? v->imm : (full ? 0 : (u64)lo & maskw(w));
  s.inputs.push_back({(u32)v->imm, 0}); return v;
}
// sym_int: variable of the needed width, extended to 32 bits
static T symInt(State &s, const std::string &name, i64 lo, i64 hi) {
  if (lo == hi) { // still an input (replay order)
    T v = newInput(s, 32, name, lo, hi, lo < 0, false); return mkConst(32, (u64)lo); (void)v; }
  if (lo >= 0) { unsigned w = 64 - __builtin_clzll((u64)hi); bool full = lo == 0 && (u64)hi == maskw(w); T v = newInput(s, w, name, lo, hi, false, full); return w < 32 ? mkZExt(v, 32) : v; }
  unsigned w = 1; while (lo < -(1ll << (w - 1)) || hi > (1ll << (w - 1)) - 1) w++;
  bool full = lo == -(1ll << (w - 1)) && hi == (1ll << (w - 1)) - 1; T v = newInput(s, w, name, lo, hi, true, full); return w < 32 ? mkSExt(v, 32) : v;
}
static void collectCone(const std::vector<T> &roots, std::vector<T> &out) {
  std::unordered_set<T> seen; std::vector<T> st(roots);
  while (!st.empty()) { T t = st.back(); st.pop_back(); if (!seen.insert(t).second) continue; out.push_back(t); for (T o : {t->a, t->b, t->c}) if (o) st.push_back(o); }
  std::sort(out.begin(), out.end(), [](T a, T b) { return a->id < b->id; });
}
static void provePairs(State &s, std::vector<std::pair<T, T>> pr, const std::string &msg) {
  // 1. quick counterexample search by simulation
  std::mt19937_64 rng(12345);
  std::vector<T> ra, rb; for (auto &p : pr) { ra.push_back(p.first); rb.push_back(p.second); }
  std::vector<T> ca, cb; collectCone(ra, ca); collectCone(rb, cb);
  std::vector<u32> vs; { std::set<u32> q; for (T t : ca) if (t->op == T_VAR) q.insert(t->imm); for (T t : cb) if (t->op == T_VAR) q.insert(t->imm); vs.assign(q.begin(), q.end()); }
  const int NS = 24; std::unordered_map<T, u64> sig; u64 used = 0;
  for (int k = 0; k < NS; k++) {
    std::vector<u64> m = s.model; m.resize(gVars.size(), 0);
    if (k) for (u32 v : vs) { T t = gVars[v].term; u64 mm = maskw(t->w); bool us = t->umin != 0 || t->umax != mm; // sample inside the declared range
      u64 lo = us ? t->umin : (u64)t->smin & mm, span = us ? t->umax - t->umin : (u64)(t->smax - t->smin); u64 x = span == ~0ull ? rng() : (lo + rng() % (span + 1)) & mm;
      int mode = k % 4; if (mode == 1) x = rng() % 2 ? lo : (lo + span) & mm; if (mode == 2 && rng() % 4) x = m[v]; m[v] = x; }
    EV.begin(m.data(), m.size()); bool ok = true; for (T c : s.pc) if (!EV.eval(c)) { ok = false; break; }
    if (!ok) continue; used++;
    for (auto &p : pr) if (EV.eval(p.first) != EV.eval(p.second)) { report(s, "assert", msg, m); throw PathEnd(); }
    for (T t : ca) sig[t] = (sig[t] * 0x9E3779B97F4A7C15ull) ^ (EV.eval(t) + 0x1234567 + (sig[t] >> 29));
    for (T t : cb) if (!std::binary_search(ca.begin(), ca.end(), t, [](T a, T b) { return a->id < b->id; })) sig[t] = (sig[t] * 0x9E3779B97F4A7C15ull) ^ (EV.eval(t) + 0x1234567 + (sig[t] >> 29));
  }
  auto stamp = [&](const char *w) { if (getenv("RFX_DBG_T")) fprintf(stderr, "provePairs %zu pairs cones %zu %zu: %s at %.1f local %llu\n", pr.size(), ca.size(), cb.size(), w, elapsed(), (unsigned long long)nEqLocal); };
  stamp("simulated");
  // 2. bottom-up merging of implementation nodes with specification nodes, each by a local solver query
  std::unordered_set<T> spec(cb.begin(), cb.end()); std::unordered_map<u64, std::vector<T>> bySig;
  for (T t : cb) if (t->op != T_CONST && t->w > 1) bySig[sig[t] * 131 + t->w].push_back(t);
  std::unordered_map<T, T> mp; std::unordered_map<T, std::unordered_set<T>> coneC;
  auto cone = [&](T t, int lim, std::unordered_set<T> &out) { std::vector<T> st{t}; while (!st.empty() && (int)out.size() < lim) { T x = st.back(); st.pop_back(); if (!out.insert(x).second) continue; for (T o : {x->a, x->b, x->c}) if (o) st.push_back(o); } };
  auto bfs = [&](T t, int depth, std::unordered_set<T> &out) { std::vector<T> cur{t}, nx; for (int d = 0; d <= depth && !cur.empty(); d++) { nx.clear(); for (T x : cur) if (out.insert(x).second) for (T o : {x->a, x->b, x->c}) if (o) nx.push_back(o); cur.swap(nx); } };
  auto localEq = [&](T r, T q, int depth) -> bool {
    std::unordered_set<T> A, B, leaf; bfs(r, depth, A); bfs(q, depth, B); for (T x : A) if (x != r && x != q && B.count(x)) leaf.insert(x);
    return S->checkCutEq(r, q, leaf) == R_UNSAT; };
  u64 budget = 200000; (void)cone;
  for (T t : ca) {
    T r; if (spec.count(t)) r = t; else if (!t->nops) r = t; else {
      r = mkOp(t->op, t->w, mp[t->a], t->b ? mp[t->b] : nullptr, t->c ? mp[t->c] : nullptr, t->imm);
      if (r->op != T_CONST && !spec.count(r) && t->w > 1 && budget) {
        auto it = bySig.find(sig[t] * 131 + t->w);
        if (it != bySig.end()) { int tries = 0; for (T q : it->second) { if (++tries > 2) break; budget--; if (localEq(r, q, 8)) { r = q; nEqLocal++; break; } } }
      } }
    mp[t] = r;
    if (elapsed() > optTime) { gIncomplete = true; gWhy = "time budget in equivalence proof"; return; }
  }
  stamp("merged");
  std::vector<std::pair<T, T>> left; std::vector<size_t> who;
  for (size_t i = 0; i < pr.size(); i++) { T r = mp[pr[i].first]; if (r != pr[i].second) { left.push_back({r, pr[i].second}); who.push_back(i); } }
  if (left.empty()) return;
  // 3. more simulation for what is left: a difference is a counterexample
  for (int k = 0; k < 600 && elapsed() < optTime * 0.4; k++) {
    std::vector<u64> m = s.model; m.resize(gVars.size(), 0);
    for (u32 v : vs) { T t = gVars[v].term; u64 mm = maskw(t->w); bool us = t->umin != 0 || t->umax != mm; u64 lo = us ? t->umin : (u64)t->smin & mm, span = us ? t->umax - t->umin : (u64)(t->smax - t->smin); u64 x = span == ~0ull ? rng() : (lo + rng() % (span + 1)) & mm;
      int mode = k % 4; if (mode == 1) x = rng() % 2 ? lo : (lo + span) & mm; if (mode == 2 && rng() % 4) x = m[v]; if (mode == 3 && vs.size() > 40 && span < 16 && rng() % 8) x = lo; m[v] = x; }
    EV.begin(m.data(), m.size()); bool ok = true; for (T c : s.pc) if (!EV.eval(c)) { ok = false; break; }
    if (!ok) continue;
    for (size_t i : who) if (EV.eval(pr[i].first) != EV.eval(pr[i].second)) { report(s, "assert", msg, m); throw PathEnd(); }
  }
  stamp("simulated again");
  // 4. the solver: short local and full queries first, then long ones
  std::vector<char> doneP(left.size(), 0);
  for (int pass = 0; pass < 3; pass++) {
    S->setTimeout(pass == 0 ? 2000 : pass == 1 ? 10000 : 120000);
    for (size_t i = 0; i < left.size(); i++) if (!doneP[i]) {
      T r = left[i].first, q = left[i].second;
      if (localEq(r, q, 12 + 8 * pass)) { nEqLocal++; doneP[i] = 1; continue; }
      T c = mkEq(r, q); nEqFull++; std::vector<u64> m; SatRes z = feasible(s, mkNot(c), &m, true);
      if (z == R_SAT) { report(s, "assert", msg, m); S->setTimeout(60000); throw PathEnd(); }
      if (z == R_UNSAT) doneP[i] = 1;
      if (elapsed() > optTime) { gIncomplete = true; gWhy = "time budget in equivalence proof"; S->setTimeout(60000); return; }
    }
    stamp("pass");
  }
  S->setTimeout(60000);
  for (char d : doneP) if (!d) { gIncomplete = true; gWhy = "equality not decided"; }
}
static T undefVar(State &s, unsigned w) { T v = mkVarFull(w, "undef"); if (s.model.size() < gVars.size()) s.model.resize(gVars.size(), 0); return v; }
static void popStackObjs(State &s) { while (!s.objs.empty() && s.objs.back()->stack && s.objs.back()->dead) { relObj(s.objs.back()); s.objs.pop_back(); } }
static void retFrom(State &s, Val v, bool hasVal) {
  Frame &f = s.fr.back(); for (u32 i : f.allocas) { Obj *o = wobj(s, ((u64)(i + 1) << 32)); o->dead = true; } int dst = f.dst; s.fr.pop_back(); popStackObjs(s);
  if (!s.fr.empty() && dst >= 0 && hasVal) s.fr.back().regs[dst] = v;
}
static Val doBuiltin(State &s, Frame &f, Inst &I) {
  auto A = [&](int i) { return rd(s, f, I.args[i]); };
  auto AC = [&](int i) { return cv(s, A(i)); };
  auto str = [&](int i) { return cstr(s, AC(i)); };
  switch (I.builtin) {
  case B_INT: { std::string nm = str(0); i64 lo = sx(AC(1), 32), hi = sx(AC(2), 32); return mv(symInt(s, nm, lo, hi)); }
  case B_BYTES: { u64 p = AC(0), n = AC(1); std::string nm = str(2); for (u64 i = 0; i < n; i++) { T v = newInput(s, 8, nm + "[" + std::to_string(i) + "]", 0, 0, false, true); store(s, p + i, 1, Val{0, v}); } return Val{0, 0}; }
  case B_BYTESR: { u64 p = AC(0), n = AC(1); std::string nm = str(2); i64 lo = sx(AC(3), 32), hi = sx(AC(4), 32); for (u64 i = 0; i < n; i++) { T v = newInput(s, 8, nm + "[" + std::to_string(i) + "]", lo, hi, false, false); store(s, p + i, 1, mv(v)); } return Val{0, 0}; }
  case B_SHORTS: { u64 p = AC(0), n = AC(1); std::string nm = str(2); i64 lo = sx(AC(3), 32), hi = sx(AC(4), 32); for (u64 i = 0; i < n; i++) { T t = symInt(s, nm + "[" + std::to_string(i) + "]", lo, hi); store(s, p + 2 * i, 2, mv(mkExtract(t, 0, 16))); } return Val{0, 0}; }
  case B_ASSUME: { T c = tm(A(0), 32); T z = mkNot(mkEq(c, mkConst(32, 0))); if (z->op == T_CONST) { if (!z->imm) { nKilled++; throw PathEnd(); } return Val{0, 0}; } std::vector<u64> m; SatRes r = feasible(s, z, &m); if (r != R_SAT) { nKilled++; throw PathEnd(); } s.model = m; addC(s, z); return Val{0, 0}; }
  case B_ASSERT: { nAsserts++; Val v = A(0); std::string msg = str(1); T z = mkNot(mkEq(tm(v, 32), mkConst(32, 0))); require(s, z, "assert", msg); return Val{0, 0}; }
  case B_KNOWN: { nAsserts++; Val v = A(0); std::string id = str(1), msg = str(2); T z = mkNot(mkEq(tm(v, 32), mkConst(32, 0))); require(s, z, "assert", msg, id); return Val{0, 0}; }
  case B_CONC: return Val{AC(0) & maskw(32), nullptr};
  case B_PARAM: { std::string n = str(0); auto it = gParams.find(n); if (it != gParams.end()) return Val{(u64)strtoll(it->second.c_str(), 0, 0) & maskw(32), nullptr}; return A(1); }
  case B_RO: { u64 p = AC(0); wobj(s, p)->ro = AC(1); return Val{0, 0}; }
  case B_HW: return Val{(u64)(findObj(s, AC(0))->hw), nullptr};
  case B_HWRESET: wobj(s, AC(0))->hw = 0; return Val{0, 0};
  case B_LIVE: { u64 n = 0; for (auto o : s.objs) if (o && o->heap && !o->freed) n++; return Val{n, nullptr}; }
  // mutable globals of the library (not the harness's own)
  case B_GMARK: { for (auto &g : s.gsnap) relObj(g.second); s.gsnap.clear(); for (u32 i : gLibGlobals) { s.objs[i]->rc++; s.gsnap.push_back({i, s.objs[i]}); } return Val{gLibGlobals.size(), nullptr}; }
  case B_GCHG: { u64 n = 0; for (auto &g : s.gsnap) { Obj *a = g.second, *b = s.objs[g.first]; if (a == b) continue;
      for (u64 o = 0; o < a->size; o++) { Page *x = a->pages[o >> 8], *y = b->pages[o >> 8]; if (x == y) { o |= 255; continue; } u64 k = o & 255; T tx = x && x->s ? x->s[k] : nullptr, ty = y && y->s ? y->s[k] : nullptr; if (tx != ty || (tx && x->si[k] != y->si[k]) || (!tx && (x ? x->d[k] : 0) != (y ? y->d[k] : 0))) n++; } } return Val{n > 1000000 ? 1000000 : n, nullptr}; }
  case B_EQUAL: {
    u64 a = AC(0), b = AC(1), n = AC(2), e = AC(3); std::string msg = str(4); std::vector<std::pair<T, T>> pr;
    for (u64 i = 0; i < n; i++) { Val x = load(s, a + i * e, e), y = load(s, b + i * e, e); nEqPairs++; T tx = tm(x, e * 8), ty = tm(y, e * 8); if (tx == ty) { nEqTrivial++; continue; } if (getenv("RFX_DBG_EQ") && (int)pr.size() < atoi(getenv("RFX_DBG_EQ"))) fprintf(stderr, "EQ %llu\n  %s [%lld,%lld]\n  %s [%lld,%lld]\n", (unsigned long long)i, termStr(tx, getenv("TD") ? atoi(getenv("TD")) : 9).c_str(), (long long)tx->smin, (long long)tx->smax, termStr(ty, 9).c_str(), (long long)ty->smin, (long long)ty->smax); pr.push_back({tx, ty}); }
    nAsserts++;
    if (!pr.empty()) provePairs(s, pr, msg);
    return Val{0, 0}; }
  case B_COVER: { std::string n = str(0); gCoverHits[n]++; return Val{0, 0}; }
  case B_ALLOCFAIL: s.allocFail = AC(0); return Val{0, 0};
  case B_LIMIT: case B_TRACE: { if (I.builtin == B_TRACE) { Val v = A(1); fprintf(stderr, "TRACE %s %s\n", str(0).c_str(), v.t ? termStr(v.t, getenv("TD") ? atoi(getenv("TD")) : 6).c_str() : std::to_string((long long)sx(v.c, 32)).c_str()); } return Val{0, 0}; }
  case B_OBS: { Val v = A(0); s.obs.push_back(v.t ? (i64)evalIn(s, v.t) : (i64)v.c); return Val{0, 0}; }
  case B_MALLOC: case B_CALLOC: case B_AALLOC: case B_ALLOC: {
    u64 n = AC(I.builtin == B_AALLOC ? 1 : 0); if (I.builtin == B_CALLOC) n *= AC(1);
    if (s.allocFail && I.builtin != B_ALLOC) { T v = nullptr; // one input per allocation attempt
      // re-execution safe: the input is created before the fork decision and recorded in the register of this frame
      v = newInput(s, 1, "alloc_fails", 0, 1, false, true); bool fail = evalIn(s, v);
      // fork explicitly: other side continues after this instruction
      State *o = new State(s); o->model[v->imm] = !fail; addC(*o, fail ? mkNot(v) : v); addC(s, fail ? v : mkNot(v)); nForks++;
      State *failing = fail ? &s : o, *okst = fail ? o : &s;
      { Frame &ff = failing->fr.back(); if (I.dst >= 0) ff.regs[I.dst] = Val{0, nullptr}; }
      { u64 a = newObj(*okst, n, "heap", I.builtin == B_CALLOC); okst->objs.back()->heap = true; if (I.builtin != B_CALLOC && gParams.count("HEAPFILL")) heapFill(*okst); Frame &ff = okst->fr.back(); if (I.dst >= 0) ff.regs[I.dst] = Val{a, nullptr}; }
      o->fr.back().pc++; gStack.push_back(o);
      return s.fr.back().regs[I.dst];
    }
    u64 a = newObj(s, n, "heap", I.builtin == B_CALLOC); s.objs.back()->heap = I.builtin != B_ALLOC;
    if ((I.builtin == B_MALLOC || I.builtin == B_AALLOC) && gParams.count("HEAPFILL")) heapFill(s);
    if (I.builtin == B_ALLOC) s.objs.back()->name = strdup(str(1).c_str());
    return Val{a, nullptr}; }
  case B_FREE: { u64 p = AC(0); if (!p) return Val{0, 0}; Obj *o = findObj(s, p); if (!o || !o->heap || o->base != p) { report(s, "memory", "free of a pointer that is not a heap block", s.model); throw PathEnd(); } if (o->freed) { report(s, "memory", "double free", s.model); throw PathEnd(); } wobj(s, p)->freed = true; return Val{0, 0}; }
  case B_NOP0: return Val{0, 0};
  case B_MEMCMP: { u64 a = AC(0), b = AC(1), n = AC(2); T eq = mkConst(1, 1); for (u64 i = 0; i < n; i++) { Val x = load(s, a + i, 1), y = load(s, b + i, 1); eq = mkAnd(eq, mkEq(tm(x, 8), tm(y, 8))); } return mv(mkZExt(mkNot(eq), 32)); }
  case B_EXIT: throw PathEnd();
  case B_ISSYM: return Val{A(0).t != nullptr, nullptr};
  case B_HAVOC: { u64 p = AC(0), n = AC(1); for (u64 i = 0; i < n; i++) { T v = mkVarFull(8, "havoc"); s.model.resize(gVars.size(), 0); store(s, p + i, 1, Val{0, v}); } return Val{0, 0}; }
  case B_MEMCPY: case B_MEMMOVE: { u64 d = AC(0), a = AC(1), n = AC(2); copyMem(s, d, a, n, I.builtin == B_MEMMOVE); return Val{d, nullptr}; }
  case B_MEMSET: { u64 d = AC(0); Val v = A(1); u64 n = AC(2); Val b = v.t ? mv(mkExtract(v.t, 0, 8)) : Val{v.c & 255, nullptr}; for (u64 i = 0; i < n; i++) store(s, d + i, 1, b); return Val{d, nullptr}; }
  case B_STRLEN: return Val{cstr(s, AC(0)).size(), nullptr};
  case B_CUT: return Val{0, 0};
  default: fatal("call to unsupported external function " + (I.callee ? I.callee->getName().str() : std::string("?")));
  }
  return Val{0, 0};
}
static Val loadSym(State &s, T addr, unsigned n) {
  u64 lo = addr->umin, hi = addr->umax; Obj *o = findObj(s, lo);
  if (o && findObj(s, hi) == o && lo >= o->base && hi + n <= o->base + o->size) {
    T ax = addr; while (ax->op == T_SEXT || ax->op == T_ZEXT || (ax->op == T_ADD && ax->b->op == T_CONST)) ax = ax->a; // base + multiple: the stride is that of the multiple
    unsigned tz = ~ax->kz ? __builtin_ctzll(~ax->kz) : 0; u64 step = 1ull << std::min(tz, 12u);
    // try to discover a larger stride: addr = base + c*x
    T x = addr; u64 mul = 1, add = 0; if (x->op == T_ADD && x->b->op == T_CONST) { add = x->b->imm; x = x->a; } if (x->op == T_MUL && x->b->op == T_CONST) { mul = x->b->imm; u64 cnt = x->a->umax - x->a->umin; if (cnt <= 64 && (unsigned __int128)x->a->umax * mul < ((unsigned __int128)1 << 62)) { T r = nullptr; for (u64 v = x->a->umin; v <= x->a->umax; v++) { Val q = load(s, add + v * mul, n); T qt = tm(q, n * 8); r = r ? mkIte(mkEq(x->a, mkConst(x->w, v)), qt, r) : qt; } return mv(r); } }
    if ((hi - lo) / step <= 64) { T r = nullptr; u64 first = lo; for (u64 a = first; a <= hi; a += step) { if ((a & addr->kz) || (~a & addr->ko)) continue; Val q = load(s, a, n); T qt = tm(q, n * 8); r = r ? mkIte(mkEq(addr, mkConst(64, a)), qt, r) : qt; } if (r) return mv(r); }
  }
  return load(s, concretise(s, addr), n);
}

// ------------------------------------------------------------------ interpreter
static void pushFrame(State &s, Function *F, const std::vector<Val> &args, int dst) {
  FnInfo *fi = decode(F); if (!fi->hits++ && !fi->isHarness) gFuncsHit.insert(fi->name);
  if (s.fr.size() > 200) fatal("call depth");
  Frame nf; nf.f = fi; nf.regs.resize(fi->nregs, Val{0, nullptr}); for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) nf.regs[i] = args[i]; nf.dst = dst; s.fr.push_back(std::move(nf));
}
static void step(State &s) {
  Frame &f = s.fr.back(); Inst &I = f.f->code[f.pc]; nInstr++;
  switch (I.op) {
  case I_BIN: {
    Val a = rd(s, f, I.a), b = rd(s, f, I.b); unsigned w = I.w; u64 m = maskw(w);
    if (!a.t && !b.t) {
      u64 x = a.c, y = b.c, r = 0;
      switch (I.sub) {
      case T_ADD: r = x + y; break; case T_SUB: r = x - y; break; case T_MUL: r = x * y; break; case T_AND: r = x & y; break; case T_OR: r = x | y; break; case T_XOR: r = x ^ y; break;
      case T_SHL: case T_LSHR: case T_ASHR: if (y >= w) { f.regs[I.dst] = Val{0, undefVar(s, w)}; f.pc++; return; } r = I.sub == T_SHL ? x << y : I.sub == T_LSHR ? x >> y : (u64)(sx(x, w) >> y); break;
      default: if (y == 0) { report(s, "undefined", "division by zero", s.model); throw PathEnd(); } { Term t{}; t.op = (Op)I.sub; t.w = w; r = evalOp(&t, x, y, 0); } }
      f.regs[I.dst] = Val{r & m, nullptr};
    } else {
      T x = tm(a, w), y = tm(b, w);
      if (I.sub == T_SHL || I.sub == T_LSHR || I.sub == T_ASHR) {
        // an exponent out of range gives an arbitrary value (it may be the unused side of a select)
        if (b.t && optForkShift) { u64 v = concretise(s, y); y = mkConst(w, v); if (v >= w) { f.regs[I.dst] = Val{0, undefVar(s, w)}; f.pc++; return; } }
        else if (b.t && y->umax >= w && feasible(s, mkNot(mkUlt(y, mkConst(w, w))), nullptr) != R_UNSAT) { T ok = mkUlt(y, mkConst(w, w)), u = undefVar(s, w); f.regs[I.dst] = mv(mkIte(ok, mkOp((Op)I.sub, w, x, y, nullptr, 0), u)); f.pc++; return; }
        else if (!b.t && b.c >= w) { f.regs[I.dst] = Val{0, undefVar(s, w)}; f.pc++; return; }
      } else if (I.sub >= T_UDIV && I.sub <= T_SREM && b.t) require(s, mkNot(mkEq(y, mkConst(w, 0))), "undefined", "division by zero");
      f.regs[I.dst] = mv(mkOp((Op)I.sub, w, x, y, nullptr, 0));
    }
    f.pc++; break; }
  case I_ICMP: {
    Val a = rd(s, f, I.a), b = rd(s, f, I.b); unsigned w = I.w;
    if (!a.t && !b.t) { u64 x = a.c, y = b.c; i64 p = sx(x, w), q = sx(y, w); bool r = false;
      switch (I.sub) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; }
      f.regs[I.dst] = Val{r, nullptr};
    } else { T x = tm(a, w), y = tm(b, w), r;
      switch (I.sub) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_UGT: r = mkUlt(y, x); break; case CmpInst::ICMP_UGE: r = mkUle(y, x); break; case CmpInst::ICMP_ULT: r = mkUlt(x, y); break; case CmpInst::ICMP_ULE: r = mkUle(x, y); break; case CmpInst::ICMP_SGT: r = mkSlt(y, x); break; case CmpInst::ICMP_SGE: r = mkSle(y, x); break; case CmpInst::ICMP_SLT: r = mkSlt(x, y); break; default: r = mkSle(x, y); }
      f.regs[I.dst] = mv(r); }
    f.pc++; break; }
  case I_SELECT: { Val c = rd(s, f, I.a); if (!c.t) f.regs[I.dst] = rd(s, f, c.c ? I.b : I.c); else { Val a = rd(s, f, I.b), b = rd(s, f, I.c); f.regs[I.dst] = mv(mkIte(c.t, tm(a, I.w), tm(b, I.w))); } f.pc++; break; }
  case I_BR: takeEdge(s, f, I.e0); break;
  case I_CBR: { Val c = rd(s, f, I.a); bool v = c.t ? decide(s, c.t) : c.c; takeEdge(s, f, v ? I.e0 : I.e1); break; }
  case I_SWITCH: { Val sv = rd(s, f, I.a); int e = I.e0;
    if (sv.t) { for (auto &p : I.cases) if (decide(s, mkEq(sv.t, mkConst(I.w, p.first)))) { e = p.second; break; } takeEdge(s, f, e); break; }
    u64 v = sv.c; for (auto &p : I.cases) if (p.first == v) { e = p.second; break; } takeEdge(s, f, e); break; }
  case I_RET: { Val v{0, nullptr}; if (I.w) v = rd(s, f, I.a); bool h = I.w; retFrom(s, v, h); if (!s.fr.empty()) s.fr.back().pc++; break; }
  case I_UNREACH: report(s, "undefined", "unreachable executed", s.model); throw PathEnd();
  case I_ALLOCA: { u64 n = I.imm * cv(s, rd(s, f, I.a)); u64 a = newObj(s, n, "stack", 0); s.objs.back()->stack = true; f.allocas.push_back(s.objs.size() - 1); f.regs[I.dst] = Val{a, nullptr}; f.pc++; break; }
  case I_LOAD: { Val a = rd(s, f, I.a); Val v = a.t ? loadSym(s, a.t, I.imm) : load(s, a.c, I.imm); if (I.w != I.imm * 8) v = v.t ? mv(mkExtract(v.t, 0, I.w)) : Val{v.c & maskw(I.w), nullptr}; f.regs[I.dst] = v; f.pc++; break; }
  case I_STORE: { u64 a = cv(s, rd(s, f, I.b)); store(s, a, I.imm, rd(s, f, I.a)); f.pc++; break; }
  case I_GEP: { Val b = rd(s, f, I.a); u64 c = I.imm; T t = nullptr; if (b.t) t = b.t; else c += b.c;
    for (auto &p : I.scaled) { Val x = rd(s, f, p.first); if (!x.t) c += x.c * p.second; else { T y = mkMul(x.t, mkConst(64, p.second)); t = t ? mkAdd(t, y) : y; } }
    f.regs[I.dst] = t ? mv(mkAdd(t, mkConst(64, c))) : Val{c, nullptr}; f.pc++; break; }
  case I_CAST: { Val v = rd(s, f, I.a);
    if (!v.t) { u64 r = v.c; switch (I.sub) { case Instruction::SExt: r = (u64)sx(v.c, I.sw) & maskw(I.w); break; case Instruction::Trunc: case Instruction::PtrToInt: r = v.c & maskw(I.w); break; } f.regs[I.dst] = Val{r, nullptr}; }
    else { T t = v.t; switch (I.sub) { case Instruction::SExt: t = mkSExt(t, I.w); break; case Instruction::Trunc: t = mkExtract(t, 0, I.w); break; case Instruction::ZExt: t = mkZExt(t, I.w); break; default: if (I.w < t->w) t = mkExtract(t, 0, I.w); else if (I.w > t->w) t = mkZExt(t, I.w); } f.regs[I.dst] = mv(t); }
    f.pc++; break; }
  case I_CALL: {
    Function *cf = I.callee; if (!cf) { u64 a = cv(s, rd(s, f, I.a)); auto it = gFnAt.find(a); if (it == gFnAt.end()) { report(s, "memory", "call through invalid function pointer", s.model); throw PathEnd(); } cf = it->second; }
    if (cf->isDeclaration()) { if (I.builtin < 0 || !I.callee) I.builtin = builtinId(cf->getName()); if (I.builtin < 0) I.builtin = 9999; Val v = doBuiltin(s, f, I); Frame &g = s.fr.back(); if (I.dst >= 0) g.regs[I.dst] = I.w && !v.t ? Val{v.c & maskw(I.w), nullptr} : v; g.pc++; break; }
    std::vector<Val> args; for (int o : I.args) args.push_back(rd(s, f, o)); pushFrame(s, cf, args, I.dst); break; }
  case I_INTR: {
    auto A = [&](int i) { return rd(s, f, I.args[i]); }; unsigned w = I.w; Val r{0, nullptr};
    auto TT = [&](int i) { return tm(A(i), w); };
    switch (I.sub) {
    case Intrinsic::memcpy: case Intrinsic::memmove: { u64 d = cv(s, A(0)), a = cv(s, A(1)), n = cv(s, A(2)); copyMem(s, d, a, n, I.sub == Intrinsic::memmove); break; }
    case Intrinsic::memset: { u64 d = cv(s, A(0)); Val v = A(1); u64 n = cv(s, A(2)); if (n) { checkAcc(s, d, n, true); for (u64 i = 0; i < n; i++) store(s, d + i, 1, v); } break; }
    case Intrinsic::smin: r = mv(mkIte(mkSlt(TT(0), TT(1)), TT(0), TT(1))); break;
    case Intrinsic::smax: r = mv(mkIte(mkSlt(TT(1), TT(0)), TT(0), TT(1))); break;
    case Intrinsic::umin: r = mv(mkIte(mkUlt(TT(0), TT(1)), TT(0), TT(1))); break;
    case Intrinsic::umax: r = mv(mkIte(mkUlt(TT(1), TT(0)), TT(0), TT(1))); break;
    case Intrinsic::abs: r = mv(mkIte(mkSlt(TT(0), mkConst(w, 0)), mkSub(mkConst(w, 0), TT(0)), TT(0))); break;
    case Intrinsic::ctlz: { T t = TT(0); if (t->op == T_CONST) { u64 v = t->imm; r = Val{v ? (u64)__builtin_clzll(v) - (64 - w) : w, nullptr}; } else { T x = mkConst(w, w); for (unsigned i = 0; i < w; i++) { if (t->kz >> i & 1) continue; x = mkIte(mkExtract(t, i, 1), mkConst(w, w - 1 - i), x); } r = mv(x); if (optForkShift && r.t) r = Val{concretise(s, r.t), nullptr}; } break; }
    case Intrinsic::ctpop: { T t = TT(0), x = mkConst(w, 0); for (unsigned i = 0; i < w; i++) x = mkAdd(x, mkZExt(mkExtract(t, i, 1), w)); r = mv(x); break; }
    case Intrinsic::bswap: { T t = TT(0), x = mkExtract(t, 0, 8); for (unsigned i = 1; i < w / 8; i++) x = mkConcat(x, mkExtract(t, i * 8, 8)); r = mv(x); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 n = cv(s, A(2)) % w; T a = TT(0), b = TT(1); if (I.sub == Intrinsic::fshr) n = w - n; n %= w; if (I.sub == Intrinsic::fshr && n == 0) { r = mv(b); break; } if (n == 0) r = mv(a); else r = mv(mkConcat(mkExtract(a, 0, w - n), mkExtract(b, w - n, n))); break; }
    case Intrinsic::cttz: { T t = TT(0), x = mkConst(w, w); for (int i = (int)w - 1; i >= 0; i--) x = mkIte(mkExtract(t, i, 1), mkConst(w, i), x); r = mv(x); if (optForkShift && r.t) r = Val{concretise(s, r.t), nullptr}; break; }
    case Intrinsic::bitreverse: { T t = TT(0), x = mkExtract(t, 0, 1); for (unsigned i = 1; i < w; i++) x = mkConcat(x, mkExtract(t, i, 1)); r = mv(x); break; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: { if (w > 62) fatal("wide saturating arithmetic"); T a = mkSExt(TT(0), w + 1), b = mkSExt(TT(1), w + 1), x = I.sub == Intrinsic::sadd_sat ? mkAdd(a, b) : mkSub(a, b); T hi = mkConst(w + 1, maskw(w - 1)), lo = mkConst(w + 1, maskw(w + 1) & ~maskw(w - 1)); r = mv(mkExtract(mkIte(mkSlt(hi, x), hi, mkIte(mkSlt(x, lo), lo, x)), 0, w)); break; }
    case Intrinsic::usub_sat: r = mv(mkIte(mkUlt(TT(0), TT(1)), mkConst(w, 0), mkSub(TT(0), TT(1)))); break;
    case Intrinsic::uadd_sat: { T x = mkAdd(TT(0), TT(1)); r = mv(mkIte(mkUlt(x, TT(0)), mkConst(w, maskw(w)), x)); break; }
    case Intrinsic::expect: r = A(0); break;
    case Intrinsic::trap: report(s, "undefined", "trap", s.model); throw PathEnd();
    case Intrinsic::objectsize: r = Val{maskw(w), nullptr}; break;
    default: { std::string b; raw_string_ostream os(b); I.src->print(os); fatal("unsupported intrinsic " + b); } }
    if (I.dst >= 0) f.regs[I.dst] = r; f.pc++; break; }
  default: fatal("bad op");
  }
}
static void initGlobals(State &s) {
  for (auto &F : *M) { u64 a = newObj(s, 1, "function", 1); s.objs.back()->ro = true; gAddr[&F] = a; gFnAt[a] = &F; }
  for (auto &G : M->globals()) { u64 n = DL->getTypeAllocSize(G.getValueType()); gAddr[&G] = newObj(s, std::max<u64>(n, 1), strdup(("global " + G.getName().str()).c_str()), 1);
    SmallVector<DIGlobalVariableExpression *, 1> dv; G.getDebugInfo(dv); if (G.isConstant() || dv.empty()) continue;
    std::string file = dv[0]->getVariable()->getFilename().str(), dir = dv[0]->getVariable()->getDirectory().str();
    if (!(file.find("/verif/") != std::string::npos || file.find("/lift_") != std::string::npos || (file[0] != '/' && dir.find("/verif") != std::string::npos))) gLibGlobals.push_back((u32)((gAddr[&G] >> 32) - 1)); }
  std::function<void(u64, const Constant *)> init = [&](u64 a, const Constant *C) {
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(C)) { u64 es = d->getElementByteSize(); for (unsigned i = 0; i < d->getNumElements(); i++) store(s, a + i * es, es, Val{d->getElementAsInteger(i), nullptr}); return; }
    if (auto *ar = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(ar->getType()->getElementType()); for (unsigned i = 0; i < ar->getNumOperands(); i++) init(a + i * es, ar->getOperand(i)); return; }
    if (auto *st = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) init(a + L->getElementOffset(i), st->getOperand(i)); return; }
    store(s, a, DL->getTypeStoreSize(C->getType()), Val{evalConst(C), nullptr});
  };
  for (auto &G : M->globals()) { if (!G.hasInitializer()) continue; if (G.getName().starts_with("llvm.")) continue; init(gAddr[&G], G.getInitializer()); if (G.isConstant()) wobj(s, gAddr[&G])->ro = true; wobj(s, gAddr[&G])->hw = 0; }
}
static std::string jstr(const std::string &x) { std::string r = "\""; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void writeOut(const std::string &status) {
  FILE *o = optOut.empty() ? stdout : fopen(optOut.c_str(), "w"); if (!o) exit(4);
  fprintf(o, "{\"status\":%s,\"why\":%s,\"paths\":%llu,\"forks\":%llu,\"assumed_away\":%llu,\"instructions\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"eq_pairs\":%llu,\"eq_structural\":%llu,\"eq_local_proofs\":%llu,\"eq_full_queries\":%llu,\"narrowing_lemmas\":%llu,", jstr(status).c_str(), jstr(gWhy).c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nKilled, (unsigned long long)nInstr, (unsigned long long)nAsserts, (unsigned long long)nAssertQ, (unsigned long long)nEqPairs, (unsigned long long)nEqTrivial, (unsigned long long)nEqLocal, (unsigned long long)nEqFull, (unsigned long long)nLemmas);
  fprintf(o, "\"interval_decided\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_ms\":%.1f,\"max_query_ms\":%.1f,\"terms\":%zu,\"vars\":%zu,\"wall_s\":%.2f,", (unsigned long long)nIv, (unsigned long long)S->st.queries, (unsigned long long)S->st.sat, (unsigned long long)S->st.unsat, (unsigned long long)S->st.unknown, (unsigned long long)S->st.cacheHits, S->st.ms, S->st.maxMs, gTerms.size(), gVars.size(), elapsed());
  fprintf(o, "\"functions\":["); bool c = false; for (auto &x : gFuncsHit) { fprintf(o, "%s%s", c ? "," : "", jstr(x).c_str()); c = true; }
  fprintf(o, "],\"covers\":{"); c = false; for (auto &x : gCoverHits) { fprintf(o, "%s%s:%llu", c ? "," : "", jstr(x.first).c_str(), (unsigned long long)x.second); c = true; }
  fprintf(o, "},\"violations\":["); c = false;
  for (auto &v : gViol) { fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"known\":%s,\"inputs\":[", c ? "," : "", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), jstr(v.known).c_str()); bool d = false; for (auto &p : v.in) { fprintf(o, "%s[%s,%d,%llu]", d ? "," : "", jstr(p.first).c_str(), p.second.first, (unsigned long long)p.second.second); d = true; } fprintf(o, "]}"); c = true; }
  fprintf(o, "],\"samples\":["); c = false; for (auto &v : gSamples) { fprintf(o, "%s[", c ? "," : ""); bool d = false; for (auto &p : v) { fprintf(o, "%s[%s,%d,%llu]", d ? "," : "", jstr(p.first).c_str(), p.second.first, (unsigned long long)p.second.second); d = true; } fprintf(o, "]"); c = true; }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o);
}
int main(int argc, char **argv) {
  gStart = std::chrono::steady_clock::now(); std::string file, entry = "harness";
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "--fork-shift") optForkShift = true; else if (a == "--narrow") gNarrow = true; else if (a == "-v") optVerbose = true;
    else if (a == "--time") optTime = atof(argv[++i]); else if (a == "--out") optOut = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--qtimeout") {} else if (a == "--samples") optSamples = atoi(argv[++i]); else if (a == "--max-viol") optMaxViol = atoi(argv[++i]);
    else if (a == "-p") { std::string kv = argv[++i]; auto e = kv.find('='); gParams[kv.substr(0, e)] = kv.substr(e + 1); } else file = a; }
  LLVMContext ctx; SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("rfxsym", errs()); return 4; }
  DL = &M->getDataLayout(); Solver solver; S = &solver; S->timeoutMs = 60000;
  std::string status = "ok";
  try {
    State *s0 = new State; initGlobals(*s0); Function *F = M->getFunction(entry); if (!F) fatal("no entry " + entry);
    pushFrame(*s0, F, {}, -1); gStack.push_back(s0);
    while (!gStack.empty()) {
      State *s = gStack.back(); gStack.pop_back();
      try { u64 k = 0; while (!s->fr.empty()) { step(*s); if ((++k & 0xfff) == 0 && elapsed() > optTime) { gIncomplete = true; gWhy = "time budget"; throw Stop(); } } nPaths++; sample(*s); }
      catch (PathEnd &) { nPaths++; }
      delete s;
      if (elapsed() > optTime) { gIncomplete = true; gWhy = "time budget"; break; }
    }
    if (gNarrow && gViol.empty()) for (auto &l : gLemmas) { nLemmas++; if (solver.proveLemma(l.first) != R_UNSAT) { gIncomplete = true; gWhy = "narrowing lemma not proved"; } }
  } catch (Stop &) { } catch (int) { status = "error"; }
  bool viol = false; for (auto &v : gViol) if (v.known.empty()) viol = true;
  if (status != "error") status = viol ? "violation" : gIncomplete ? "incomplete" : "ok"; else if (viol) status = "violation";
  writeOut(status); fflush(nullptr);
  _exit(status == "ok" ? 0 : status == "violation" ? 1 : 2);
}
