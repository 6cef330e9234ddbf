// awlai: abstract interpreter over LLVM IR for the Awl properties.
//
//  * abstract store: regions (globals, stack slots, heap sites, lazily
//    materialised unknown objects) mapping offsets to terms;
//  * facts: value ranges (ConstantRange) and truth of atomic comparisons;
//  * disjunctive states, joined (facts intersected) at merge points whenever
//    store and typestate agree, widened at loop heads -> terminates;
//  * C++ exceptions (landing pads, catch matching over typeinfo), vtables,
//    dynamic_cast, coroutine frames (after CoroSplit) are resolved.
// The environment (system calls, user callbacks) is given by model code which
// uses the vf_* primitives.  Nothing is executed and no solver is involved.
#include "expr.h"
#include <llvm/ADT/BitVector.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <memory>
#include <set>
#include <fstream>
#include <iostream>
#include <functional>
#include <optional>

using namespace llvm;
typedef std::vector<EP> Vals;
template <class T> using SP = std::shared_ptr<T>;

static Module* M; static const DataLayout* DL;
static std::string gRepo = "/repo";
static long gMaxSteps = 40000000, gMaxStates = 4000000; static int gUnroll = 2; static int gMaxDepth = 300; static bool gVerbose = false; static int gConcLimit = 600;

// ---------------------------------------------------------------- regions
enum RK { R_GLOBAL, R_FUNC, R_STACK, R_HEAP, R_SYM, R_EXC };
struct RegionInfo { RK kind; std::string name; uint64_t key; GlobalVariable* gv = nullptr; Function* fn = nullptr; int64_t size = -1; bool ghost = false; EP sym = nullptr; std::string site; };
static std::vector<RegionInfo> RI; static std::unordered_map<uint64_t, int> RIKey;
static int regionFor(RK k, uint64_t key, const std::string& nm) {
  key = hmix(key, k + 77); auto it = RIKey.find(key); if (it != RIKey.end()) return it->second;
  RegionInfo r; r.kind = k; r.key = key; r.name = nm; RI.push_back(r); RIKey[key] = RI.size() - 1; return RI.size() - 1;
}
enum DK : uint8_t { D_UNINIT, D_ZERO, D_SYMB };
struct Cell { unsigned size; EP v; };
struct SCell { EP off; unsigned size; EP v; };
struct Region { bool freed = false, summary = false; DK def = D_UNINIT; uint64_t epoch = 0; std::map<int64_t, Cell> cells; std::vector<SCell> sc; };

// ---------------------------------------------------------------- function info
struct FnInfo {
  Function* F; uint64_t id; std::vector<Instruction*> ins; DenseMap<const Value*, int> num; DenseMap<const Instruction*, int> idx; DenseMap<const BasicBlock*, int> bidx;
  std::vector<BasicBlock*> bbs; std::vector<BitVector> liveIn; std::vector<BitVector> liveOut; BitVector header, multi; std::vector<std::vector<int>> innerHeaders; int nvals = 0;
  std::map<int, BitVector> liveAfter; bool inRepo = false; std::string dem, file; unsigned line = 0;
  bool opaque = false;
};
static std::map<Function*, std::unique_ptr<FnInfo>> FI; static uint64_t gFnId = 1;
static std::vector<std::string> gOpaque, gTransparent;  static uint64_t gMaxAlloc = 1ull << 47;
static std::string demName(StringRef n) { ItaniumPartialDemangler d; std::string m = n.str(); if (!d.partialDemangle(m.c_str()) && d.isFunction()) { size_t z = 0; char* b = d.getFunctionName(nullptr, &z); if (b) { std::string r = b; free(b); return r; } } return demangle(m); }
static bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }

static FnInfo* info(Function* F) {
  auto& p = FI[F]; if (p) return p.get(); p = std::make_unique<FnInfo>(); FnInfo& f = *p; f.F = F; f.id = hstr(F->getName().str()); f.dem = demName(F->getName());
  if (auto* sp = F->getSubprogram()) { f.file = (sp->getFilename().startswith("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str(); f.line = sp->getLine(); f.inRepo = startsWith(f.file, gRepo + "/"); }
  if (F->isDeclaration()) return &f;
  ReversePostOrderTraversal<Function*> rpo(F); for (auto* b : rpo) { f.bidx[b] = f.bbs.size(); f.bbs.push_back(b); }
  for (auto& a : F->args()) f.num[&a] = f.nvals++;
  for (auto* b : f.bbs) for (auto& i : *b) { f.idx[&i] = f.ins.size(); f.ins.push_back(&i); f.num[&i] = f.nvals++; }
  DominatorTree DT(*F); LoopInfo LI(DT); int n = f.bbs.size(); f.header.resize(n); f.multi.resize(n); f.innerHeaders.resize(n);
  for (int i = 0; i < n; i++) { if (LI.isLoopHeader(f.bbs[i])) f.header.set(i); int np = 0; for (auto* q : predecessors(f.bbs[i])) if (f.bidx.count(q)) np++; if (np > 1) f.multi.set(i); }
  for (int i = 0; i < n; i++) if (f.header[i]) { Loop* L = LI.getLoopFor(f.bbs[i]); for (auto* b : L->blocks()) { int j = f.bidx.lookup(b); if (j != i && f.header[j]) f.innerHeaders[i].push_back(j); } }
  // irreducible back edges
  for (int i = 0; i < n; i++) for (auto* s : successors(f.bbs[i])) if (f.bidx.lookup(s) <= i) f.header.set(f.bidx.lookup(s));
  f.liveIn.assign(n, BitVector(f.nvals)); f.liveOut.assign(n, BitVector(f.nvals));
  bool ch = true; while (ch) { ch = false; for (int i = n - 1; i >= 0; i--) {
    BitVector out(f.nvals); for (auto* s : successors(f.bbs[i])) { int j = f.bidx.lookup(s); out |= f.liveIn[j]; for (auto& ph : s->phis()) { Value* v = ph.getIncomingValueForBlock(f.bbs[i]); auto it = f.num.find(v); if (it != f.num.end()) out.set(it->second); } }
    f.liveOut[i] = out; BitVector in = out;
    for (auto it = f.bbs[i]->rbegin(); it != f.bbs[i]->rend(); ++it) { in.reset(f.num[&*it]); if (!isa<PHINode>(*it)) for (auto& o : it->operands()) { auto q = f.num.find(o.get()); if (q != f.num.end()) in.set(q->second); } }
    if (in != f.liveIn[i]) { f.liveIn[i] = in; ch = true; } } }
  return &f;
}
static const BitVector& liveAfter(FnInfo* f, int ip) {
  auto it = f->liveAfter.find(ip); if (it != f->liveAfter.end()) return it->second;
  Instruction* I = f->ins[ip]; BasicBlock* b = I->getParent(); BitVector l = f->liveOut[f->bidx[b]];
  for (auto r = b->rbegin(); r != b->rend() && &*r != I; ++r) { l.reset(f->num[&*r]); if (!isa<PHINode>(*r)) for (auto& o : r->operands()) { auto q = f->num.find(o.get()); if (q != f->num.end()) l.set(q->second); } }
  return f->liveAfter[ip] = l;
}

// ---------------------------------------------------------------- state
struct Snapshot;
struct LoopRec { int visits = 0; long conc = 0; SP<const Snapshot> snap; };
struct Frame { FnInfo* f; int bb = 0, prev = -1; int ip = 0; CallBase* call = nullptr; uint64_t ctx = 1; bool sat = false; Vals regs; std::vector<int> allocas; std::map<int, uint8_t> counts; std::map<int, LoopRec> loops; uint64_t entryForks = 0; };
struct Trace { SP<Trace> up; std::string text; };
struct ExcInfo { GlobalVariable* ti; int64_t adj = 0; Instruction* from = nullptr; };
struct Facts { std::map<EP, ConstantRange> rng; std::map<EP, bool> truth; std::map<EP, EP> subst; };
typedef std::map<int, SP<Region>> Mem;
struct Snapshot { Vals regs; Mem mem; std::map<EP, ConstantRange> rng; uint64_t forks; };
struct State {
  std::vector<SP<Frame>> st, parked; /* parked: frames of the other thread while vf_park suspends it */ Mem mem; Facts fx; std::vector<int> caught; std::map<int, ExcInfo> exc; int curExc = -1; int curSel = 0; uint64_t forks = 0; SP<Trace> tr; int trn = 0; bool dead = false; int node = -1; /* in NODES: the queued state this one continues */
  Frame& top() { auto& p = st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
  const Frame& ctop() const { return *st.back(); }
};
typedef SP<State> SS;

// ---------------------------------------------------------------- results
struct Finding { std::string rule, msg, func, file; unsigned line; std::vector<std::string> stack, path; };
static std::map<std::string, Finding> findings; // dedup by rule+site
static std::map<std::string, std::set<uint64_t>> obligations; static std::map<std::string, long> obEval;
static bool overBudget() { // 4 GB or 200 s: the findings made so far are still reported
  static time_t t0 = time(nullptr); static long lim = getenv("AWLAI_SECONDS") ? atol(getenv("AWLAI_SECONDS")) : 200; if (time(nullptr) - t0 > lim) return true;
  long a = 0, b = 0; if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b > (3L << 30) / 4096;
}
static std::set<std::string> covers, unmodelled, cuts, repoFns, havocked; static long nSteps = 0, nStates = 0, nMerges = 0, nWiden = 0, nPaths = 0, nUncaught = 0, nUnkStore = 0, nUnkLoad = 0; static bool budget = false; static std::set<std::string> uncaughtTypes;

static std::string locOf(const Instruction* I) { if (I) if (auto& d = I->getDebugLoc()) { auto* s = cast<DIScope>(d.getScope()); std::string fn = s->getFilename().str(); if (!startsWith(fn, "/")) fn = s->getDirectory().str() + "/" + fn; return fn + ":" + std::to_string(d.getLine()); } return ""; }
static std::string shortFn(const std::string& d) { if (d.size() < 160) return d; return d.substr(0, 157) + "..."; }
static void note(State& s, const std::string& t) { if (s.tr && s.tr->text == t) return; auto n = std::make_shared<Trace>(); n->up = s.tr; n->text = t; s.tr = n; }
static void report(State& s, const std::string& rule, const std::string& msg) {
  Finding f; f.rule = rule; f.msg = msg; f.line = 0;
  for (int i = s.st.size() - 1; i >= 0; i--) {
    auto& fr = *s.st[i]; std::string l = fr.ip < (int)fr.f->ins.size() ? locOf(fr.f->ins[fr.ip]) : ""; f.stack.push_back(shortFn(fr.f->dem) + " at " + l);
    if (f.file.empty() && startsWith(l, gRepo + "/")) { auto c = l.rfind(':'); f.file = l.substr(0, c); f.line = atoi(l.c_str() + c + 1); f.func = shortFn(fr.f->dem); }
  }
  std::vector<std::string> p; for (auto t = s.tr; t && p.size() < 60; t = t->up) p.push_back(t->text); std::reverse(p.begin(), p.end()); f.path = p;
  std::string k = rule + "|" + msg + "|" + f.func + "|" + f.file + std::to_string(f.line); if (!findings.count(k)) findings[k] = f;
}

// ---------------------------------------------------------------- facts
static ConstantRange full(unsigned w) { return ConstantRange::getFull(w); }
static APInt ap(u128 v, unsigned w) { uint64_t p[2] = {(uint64_t)v, (uint64_t)(v >> 64)}; return APInt(w, ArrayRef<uint64_t>(p, w > 64 ? 2 : 1)); }
static u128 un(const APInt& a) { u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64; return v; }
static bool exactRange(const Facts& fx, EP e, APInt& lo, APInt& hi); static int evalTruth(const Facts& fx, EP e, int d = 0);
static ConstantRange range(const Facts& fx, EP e, int d = 0) {
  if (e->w == 0 || e->w > 128) return full(1);
  if (isC(e)) return ConstantRange(ap(e->c, e->w));
  ConstantRange r = full(e->w); auto it = fx.rng.find(e); if (it != fx.rng.end()) r = it->second;
  if (d > 6) return r;
  if (e->w == 1 && (e->kind == E_CMP || e->kind == E_NOT) && r.isFullSet()) { int t = evalTruth(fx, e); return t < 0 ? r : ConstantRange(APInt(1, (uint64_t)t)); }
  ConstantRange s = full(e->w);
  if (e->kind == E_LIN) { s = ConstantRange(ap(e->c, e->w)); for (size_t i = 0; i < e->a.size(); i++) s = s.add(range(fx, e->a[i], d + 1).multiply(ConstantRange(ap((u128)e->k[i], e->w)))); if (e->a.size() > 1 && !fx.rng.empty()) { auto ng = fx.rng.find(mkMulC(e, -1)); if (ng != fx.rng.end()) s = s.intersectWith(ConstantRange(APInt(e->w, 0)).sub(ng->second)); }
    APInt lo(e->w, 0), hi(e->w, 0); if (d <= 2 && e->a.size() > 1 && e->w <= 128 && exactRange(fx, e, lo, hi)) s = s.intersectWith(ConstantRange::getNonEmpty(lo, hi + 1)); }
  else if (e->kind == E_OP && !e->a.empty() && e->a[0]->w && e->a[0]->kind != E_AGG) {
    auto A = [&](int i) { return range(fx, e->a[i], d + 1); };
    switch (e->op) {
    case O_ZEXT: s = A(0).zeroExtend(e->w); break; case O_SEXT: s = A(0).signExtend(e->w); break; case O_TRUNC: s = A(0).truncate(e->w); break;
    case Instruction::And: s = A(0).binaryAnd(A(1)); break; case Instruction::Or: s = A(0).binaryOr(A(1)); break; case Instruction::UDiv: s = A(0).udiv(A(1)); break; case Instruction::URem: s = A(0).urem(A(1)); break;
    case Instruction::SDiv: s = A(0).sdiv(A(1)); break; case Instruction::SRem: s = A(0).srem(A(1)); break; case Instruction::LShr: s = A(0).lshr(A(1)); break; case Instruction::AShr: s = A(0).ashr(A(1)); break; case Instruction::Mul: s = A(0).multiply(A(1));
      for (auto& t : fx.truth) if (!t.second && t.first->kind == E_CMP && t.first->op == C_ULT) { EP dv = t.first->a[0]; if (dv->kind != E_OP || dv->op != Instruction::UDiv || !isC(dv->a[0])) continue; // !(C / x < y)  =>  x * y <= C
        if ((dv->a[1] == e->a[0] && t.first->a[1] == e->a[1]) || (dv->a[1] == e->a[1] && t.first->a[1] == e->a[0])) s = s.intersectWith(ConstantRange::getNonEmpty(APInt(e->w, 0), ap(dv->a[0]->c, e->w) + 1)); }
      break;
    default: break;
    }
  }
  return r.intersectWith(s);
}
// exact integer value of a linear term as an interval over the unsigned ranges of its parts (no modular wrap-around)
enum { XW = 320 };
typedef std::map<EP, APInt> XLin; // nullptr: constant
static void exactParts(EP e, XLin& m, int sign) { // the terms' coefficients are read as signed numbers
  auto add = [&](EP t, i128 k) { APInt v = ap((u128)k, 128).sext(XW); if (sign < 0) v.negate(); auto it = m.find(t); if (it == m.end()) m.emplace(t, v); else it->second += v; };
  if (isC(e)) return add(nullptr, 0), (void)(m.find(nullptr)->second += sign < 0 ? -ap(e->c, e->w).zext(XW) : ap(e->c, e->w).zext(XW));
  if (e->kind == E_LIN) { add(nullptr, sextw(e->c, e->w)); for (size_t i = 0; i < e->a.size(); i++) add(e->a[i], e->k[i]); return; }
  add(e, 1);
}
static bool exactNoWrap(const Facts& fx, EP e, bool sg);
static bool exactInterval(const Facts& fx, const XLin& m, APInt& lo, APInt& hi) {
  lo = hi = APInt(XW, 0);
  for (auto& p : m) { if (!p.first) { lo += p.second; hi += p.second; continue; } if (p.first->w == 0 || p.first->w > 128 || p.first->kind == E_AGG) return false; auto r = range(fx, p.first, 1); if (r.isEmptySet()) return false; APInt a = r.getUnsignedMin().zext(XW), b = r.getUnsignedMax().zext(XW); if (p.second.isNegative()) std::swap(a, b); lo += a * p.second; hi += b * p.second; }
  static int depth = 0; if (depth || m.size() < 2) return true;
  for (auto& f : fx.rng) { EP K = f.first; if (K->kind != E_LIN || K->a.size() < 2 || K->w > 128 || f.second.isWrappedSet()) continue; // the known range of a sum of some of the parts
    APInt c(XW, 0); bool ok = true;
    for (size_t i = 0; i < K->a.size() && ok; i++) { auto it = m.find(K->a[i]); if (it == m.end() || K->k[i] == 0) { ok = false; break; } APInt k = ap((u128)K->k[i], 128).sext(XW); if (!it->second.srem(k).isZero()) { ok = false; break; } APInt q = it->second.sdiv(k); if (i && q != c) ok = false; c = q; }
    if (!ok || c.isZero()) continue; depth++; bool nw = exactNoWrap(fx, K, false); APInt l2(XW, 0), h2(XW, 0);
    if (nw) { XLin kp, rest = m; exactParts(K, kp, 1); for (auto& t : kp) { auto it = rest.find(t.first); if (it == rest.end()) it = rest.emplace(t.first, APInt(XW, 0)).first; it->second -= t.second * c; if (t.first && it->second.isZero()) rest.erase(it); } nw = exactInterval(fx, rest, l2, h2); }
    depth--; if (!nw) continue; APInt a = f.second.getUnsignedMin().zext(XW) * c, b = f.second.getUnsignedMax().zext(XW) * c; if (c.isNegative()) std::swap(a, b); l2 += a; h2 += b; if (l2.sgt(lo)) lo = l2; if (h2.slt(hi)) hi = h2; }
  return true;
}
// the exact integer is the unsigned (signed) value of the term
static bool exactNoWrap(const Facts& fx, EP e, bool sg) {
  if (e->w == 0 || e->w > 128 || e->kind == E_AGG) return false; if (e->kind != E_LIN) return !sg || range(fx, e, 1).getUnsignedMax().isNonNegative();
  XLin m; exactParts(e, m, 1); APInt lo(XW, 0), hi(XW, 0); if (!exactInterval(fx, m, lo, hi)) return false;
  APInt W = APInt::getOneBitSet(XW, e->w); auto sr = fx.rng.find(e); if (!sg && sr != fx.rng.end() && !sr->second.isWrappedSet()) { APInt a = sr->second.getUnsignedMin().zext(XW), b = sr->second.getUnsignedMax().zext(XW); if (lo.sgt(b - W) && hi.slt(a + W)) return true; } // the value is congruent to a number in [a, b]; only one is in [lo, hi]
  APInt L = sg ? -APInt::getOneBitSet(XW, e->w - 1) : APInt(XW, 0), H = APInt::getOneBitSet(XW, sg ? e->w - 1 : e->w); return lo.sge(L) && hi.slt(H);
}
static bool exactRange(const Facts& fx, EP e, APInt& lo, APInt& hi) { // unsigned value of a sum that does not wrap around
  if (fx.rng.empty()) return false; for (auto t : e->a) if (!t->w || t->w > 128 || t->kind == E_AGG || t->kind == E_ADDR) return false;
  XLin m; exactParts(e, m, 1); APInt l(XW, 0), h(XW, 0); if (!exactInterval(fx, m, l, h) || l.isNegative() || h.getActiveBits() > e->w) return false; lo = l.trunc(e->w); hi = h.trunc(e->w); return true;
}
// -1 unknown, 0 a >= b, 1 a < b
static int exactLess(const Facts& fx, EP a, EP b, bool sg) {
  if (a->kind != E_LIN && b->kind != E_LIN) return -1; if (!exactNoWrap(fx, a, sg) || !exactNoWrap(fx, b, sg)) return -1;
  XLin m; exactParts(b, m, 1); exactParts(a, m, -1); if (sg) for (EP c : {a, b}) if (isC(c) && sextw(c->c, c->w) < 0) return -1;
  APInt lo(XW, 0), hi(XW, 0); if (!exactInterval(fx, m, lo, hi)) return -1; if (lo.isStrictlyPositive()) return 1; if (!hi.isStrictlyPositive()) return 0; return -1;
}
// a == b as S == 0 where S is the sum of the parts, none negative: k1 * t1 + k2 * t2 == 0 iff t1 + t2 == 0
static EP zeroSum(const Facts& fx, EP a, EP b) {
  for (int k = 0; k < 2; k++) {
    EP df = k ? mkSub(b, a) : mkSub(a, b);
    if (df->kind == E_OP && df->op == O_TRUNC && df->a[0]->kind == E_LIN) { APInt lo(1, 0), hi(1, 0); EP x = df->a[0]; if (x->w > 128 || !exactRange(fx, x, lo = APInt(x->w, 0), hi = APInt(x->w, 0)) || hi.getActiveBits() > df->w) continue; df = x; }
    if (df->kind != E_LIN || df->c || df->a.size() < 2 || df->w > 128) continue; bool pos = true; for (auto c : df->k) pos &= c > 0; if (!pos) continue;
    APInt lo(df->w, 0), hi(df->w, 0); if (!exactRange(fx, df, lo, hi)) continue; LinB l; l.w = df->w; for (auto t : df->a) addTo(l, t, 1); return finLin(l);
  }
  return nullptr;
}
static EP simp(const Facts& fx, EP e) {
  if (e->kind == E_LIN) { bool any = false; for (auto t : e->a) any |= t->kind == E_OP && t->op == O_ZEXT && t->a[0]->kind == E_OP && t->a[0]->op == O_TRUNC; if (!any) return e; LinB l; l.w = e->w; l.c0 = e->c; for (size_t i = 0; i < e->a.size(); i++) addTo(l, simp(fx, e->a[i]), e->k[i]); return finLin(l); }
  if (e->kind != E_OP) return e;
  if (e->op == O_ZEXT && e->a[0]->kind == E_LIN && exactNoWrap(fx, e->a[0], false)) { EP x = e->a[0]; LinB l; l.w = e->w; l.c0 = (u128)sextw(x->c, x->w); for (size_t i = 0; i < x->a.size(); i++) addTo(l, simp(fx, mkCast(O_ZEXT, x->a[i], e->w)), x->k[i]); return finLin(l); }
  if (e->op == O_ZEXT && e->a[0]->kind == E_OP && e->a[0]->op == O_TRUNC && e->a[0]->a[0]->w == e->w) { EP x = e->a[0]->a[0]; bool bits = x->kind == E_OP && (x->op == Instruction::LShr || x->op == Instruction::And || x->op == Instruction::Or || x->op == Instruction::Xor); if (!bits && range(fx, x).getUnsignedMax().getActiveBits() <= e->a[0]->w) return x; }
  if ((e->op == Instruction::UDiv || e->op == Instruction::URem) && e->a.size() == 2 && isC(e->a[1]) && e->a[1]->c && e->w <= 128) {
    EP x = e->a[0]; u128 c = e->a[1]->c; bool q = e->op == Instruction::UDiv;
    if (un(range(fx, x).getUnsignedMax()) < c) return q ? mkConst(0, e->w) : x;
    if (x->kind == E_LIN && exactNoWrap(fx, x, false) && (i128)c > 0) { // x == c * Q + R with 0 <= R < c
      LinB Q, R; Q.w = R.w = e->w; auto split = [&](i128 k, i128& d, i128& r) { d = k / (i128)c; r = k % (i128)c; }; i128 d, r; split(sextw(x->c, x->w), d, r); Q.c0 = (u128)d; R.c0 = (u128)r;
      for (size_t i = 0; i < x->a.size(); i++) { split(x->k[i], d, r); addTo(Q, x->a[i], d); addTo(R, x->a[i], r); }
      EP eq = finLin(Q), er = finLin(R); XLin rm; exactParts(er, rm, 1); APInt lo(XW, 0), hi(XW, 0); if (exactNoWrap(fx, er, false) && exactNoWrap(fx, eq, false) && exactInterval(fx, rm, lo, hi) && hi.slt(ap(c, 128).zext(XW))) return q ? eq : er;
    }
  }
  return e;
}
static ICmpInst::Predicate pred(uint32_t p) { return p == C_EQ ? ICmpInst::ICMP_EQ : p == C_ULT ? ICmpInst::ICMP_ULT : ICmpInst::ICMP_SLT; }
static int evalTruth(const Facts& fx, EP e, int d) { // 1 true, 0 false, -1 unknown
  if (isC(e)) return e->c ? 1 : 0;
  auto it = fx.truth.find(e); if (it != fx.truth.end()) return it->second;
  if (d > 6) return -1;
  if (e->kind == E_NOT) { int r = evalTruth(fx, e->a[0], d + 1); return r < 0 ? r : !r; }
  if (e->kind == E_OP && e->w == 1) {
    if (e->op == Instruction::And) { int a = evalTruth(fx, e->a[0], d + 1), b = evalTruth(fx, e->a[1], d + 1); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; return -1; }
    if (e->op == Instruction::Or) { int a = evalTruth(fx, e->a[0], d + 1), b = evalTruth(fx, e->a[1], d + 1); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; return -1; }
    if (e->op == Instruction::Xor) { int a = evalTruth(fx, e->a[0], d + 1), b = evalTruth(fx, e->a[1], d + 1); if (a >= 0 && b >= 0) return a ^ b; return -1; }
  }
  if (e->kind == E_CMP && e->a[0]->kind != E_AGG && e->a[1]->kind != E_AGG && e->a[0]->w) {
    EP a = e->a[0], b = e->a[1]; auto ra = range(fx, a), rb = range(fx, b); auto p = pred(e->op);
    if (!ra.isEmptySet() && !rb.isEmptySet()) { if (ra.icmp(p, rb)) return 1; if (ra.icmp(CmpInst::getInversePredicate(p), rb)) return 0; }
    if (e->op == C_EQ) { // difference form
      if (EP z = zeroSum(fx, a, b)) { auto r = range(fx, z); if (!r.contains(APInt(z->w, 0))) return 0; if (r.isSingleElement()) return 1; }
      EP df = mkSub(a, b); if (df->kind == E_LIN) { auto r = range(fx, df); if (!r.contains(APInt(a->w, 0))) return 0; if (r.isSingleElement() && r.getSingleElement()->isZero()) return 1; if (exactLess(fx, a, b, false) == 1 || exactLess(fx, b, a, false) == 1) return 0; }
      EP l1 = mkCmpC(C_ULT, a, b), l2 = mkCmpC(C_ULT, b, a), l3 = mkCmpC(C_SLT, a, b), l4 = mkCmpC(C_SLT, b, a);
      auto T = [&](EP x) { auto i = fx.truth.find(x); return i == fx.truth.end() ? -1 : (int)i->second; };
      if (T(l1) == 1 || T(l2) == 1 || T(l3) == 1 || T(l4) == 1) return 0; if ((T(l1) == 0 && T(l2) == 0) || (T(l3) == 0 && T(l4) == 0)) return 1;
    } else {
      auto T = [&](EP x) { if (isC(x)) return (int)(x->c != 0); auto i = fx.truth.find(x); return i == fx.truth.end() ? -1 : (int)i->second; };
      if (e->op == C_ULT && a->kind == E_OP && a->op == Instruction::UDiv && isC(a->a[0]) && !isC(a->a[1])) { // C / x < y  <=>  x * y > C  <=>  C / y < x
        EP x = a->a[1], C = a->a[0]; if (!range(fx, b).contains(APInt(b->w, 0)) && !range(fx, x).contains(APInt(b->w, 0))) { int ts = T(mkCmpC(C_ULT, mkBin(Instruction::UDiv, C, b), x)); if (ts >= 0) return ts; }
        EP mul = mkBin(Instruction::Mul, x, b); int ov = -1; for (auto& q : {mkOp(8000 + Intrinsic::umul_with_overflow, {x, b}, 1), mkOp(8000 + Intrinsic::umul_with_overflow, {b, x}, 1)}) { int z = T(q); if (z >= 0) ov = z; } if (ov == 1) return 1; if (ov == 0) { auto mr = range(fx, mul); APInt c = ap(C->c, C->w); if (mr.getUnsignedMax().ule(c)) return 0; if (mr.getUnsignedMin().ugt(c)) return 1; } }
      EP rev = mkCmpC((CP)e->op, b, a), eq = mkCmpC(C_EQ, a, b); int tr = T(rev), te = T(eq); if (tr == 1 || te == 1) return 0; if (tr == 0 && te == 0) return 1;
      int xl = exactLess(fx, a, b, e->op == C_SLT); if (xl >= 0) return xl;
    }
  }
  return -1;
}
static bool setRange(Facts& fx, EP e, ConstantRange r) {
  if (isC(e)) return r.contains(ap(e->c, e->w));
  if (e->w == 0 || e->w > 128) return true;
  ConstantRange n = range(fx, e).intersectWith(r); if (n.isEmptySet()) return false;
  if (e->kind == E_LIN) { if (e->a.size() == 1 && e->k[0] == 1) return setRange(fx, e->a[0], n.subtract(ap(e->c, e->w))); if (e->a.size() == 1 && e->k[0] == -1) return setRange(fx, e->a[0], ConstantRange(ap(e->c, e->w)).sub(n)); }
  if (e->kind == E_LIN && e->w <= 128 && e->a.size() <= 4 && !n.isWrappedSet() && !(e->a.size() == 1 && (e->k[0] == 1 || e->k[0] == -1))) { // bounds of the parts of a sum that does not wrap around
    bool ok = true; for (auto t : e->a) if (!t->w || t->w > 128 || t->kind == E_AGG || t->kind == E_ADDR) ok = false;
    XLin m; APInt l(XW, 0), h(XW, 0); if (ok) { exactParts(e, m, 1); ok = exactInterval(fx, m, l, h) && !l.isNegative() && h.getActiveBits() <= e->w; }
    if (ok) for (size_t i = 0; i < e->a.size(); i++) { auto r = range(fx, e->a[i], 1); if (r.isEmptySet()) return false; APInt k = ap((u128)e->k[i], 128).sext(XW), a = r.getUnsignedMin().zext(XW), b = r.getUnsignedMax().zext(XW), nl = n.getUnsignedMin().zext(XW), nh = n.getUnsignedMax().zext(XW); if (!k.isStrictlyPositive()) continue;
      APInt rl(XW, 0), rh(XW, 0); XLin rest; for (size_t j = 0; j < e->a.size(); j++) if (j != i) rest.emplace(e->a[j], ap((u128)e->k[j], 128).sext(XW)); rest.emplace(nullptr, ap(e->c, e->w).sext(XW)); if (!exactInterval(fx, rest, rl, rh)) continue; APInt x = nh - rl, y = nl - rh;
      if (x.isNegative()) return false; APInt ub = x.udiv(k), lb = y.isStrictlyPositive() ? (y + k - 1).udiv(k) : APInt(XW, 0); if (ub.sge(b) && lb.sle(a)) continue; if (ub.sgt(b)) ub = b; if (lb.slt(a)) lb = a; if (lb.sgt(ub)) return false;
      if (!setRange(fx, e->a[i], ConstantRange::getNonEmpty(lb.trunc(e->a[i]->w), ub.trunc(e->a[i]->w) + 1))) return false; } }
  if (e->kind == E_OP && e->op == O_TRUNC && e->a[0]->w <= 128 && range(fx, e->a[0]).getUnsignedMax().getActiveBits() <= e->w && !setRange(fx, e->a[0], n.zeroExtend(e->a[0]->w))) return false;
  if (e->kind == E_OP && e->op == O_ZEXT) { unsigned iw = e->a[0]->w; auto cut = n.intersectWith(ConstantRange::getFull(iw).zeroExtend(e->w)); if (cut.isEmptySet()) return false; if (!setRange(fx, e->a[0], cut.truncate(iw))) return false; }
  if (e->kind == E_OP && e->op == O_SEXT) { unsigned iw = e->a[0]->w; auto cut = n.intersectWith(ConstantRange::getFull(iw).signExtend(e->w)); if (cut.isEmptySet()) return false; if (!setRange(fx, e->a[0], cut.truncate(iw))) return false; }
  if (e->kind == E_OP && e->op == Instruction::UDiv && e->a.size() == 2) {
    APInt lo = n.getUnsignedMin(), hi = n.getUnsignedMax(); bool ov;
    if (isC(e->a[0]) && !lo.isZero()) { APInt C = ap(e->a[0]->c, e->w); if (!setRange(fx, e->a[1], ConstantRange::getNonEmpty(APInt(e->w, 1), C.udiv(lo) + 1))) return false; } // C / x >= lo
    if (isC(e->a[0]) && !hi.isMaxValue()) { APInt C = ap(e->a[0]->c, e->w); if (!setRange(fx, e->a[1], ConstantRange::getNonEmpty(C.udiv(hi + 1) + 1, APInt(e->w, 0)))) return false; } // C / x <= hi
    if (isC(e->a[1]) && e->a[1]->c) { APInt c = ap(e->a[1]->c, e->w), t = hi.umul_ov(c, ov); if (!ov) { t = t.uadd_ov(c, ov); if (!ov && !setRange(fx, e->a[0], ConstantRange::getNonEmpty(lo * c, t))) return false; } } // x / c in [lo, hi]
  }
  if (!n.isFullSet()) { fx.rng.erase(e); fx.rng.emplace(e, n); }
  return true;
}
static void renameIf(State& s, const std::function<EP(EP)>& f);
static void doSubst(State& s, EP sym, EP by);
static EP lone(EP e) { return e->kind == E_SYM ? e : nullptr; }
static EP singleton(const Facts& fx, EP e) { if (isC(e) || e->w == 0 || e->w > 128) return nullptr; auto r = range(fx, e); if (auto* c = r.getSingleElement()) return mkConst(un(*c), e->w); return nullptr; }
static bool assumeT(State& s, EP e, bool v, int d = 0) {
  int t = evalTruth(s.fx, e); if (t >= 0) return t == (int)v;
  if (e->kind == E_NOT) return assumeT(s, e->a[0], !v, d + 1);
  if (e->kind == E_OP && e->w == 1 && d < 8) {
    if ((e->op == Instruction::And && v) || (e->op == Instruction::Or && !v)) { for (auto x : e->a) if (!assumeT(s, x, v, d + 1)) return false; return true; }
    if (e->op == Instruction::And && !v) { int a = evalTruth(s.fx, e->a[0]), b = evalTruth(s.fx, e->a[1]); if (a == 1) return assumeT(s, e->a[1], false, d + 1); if (b == 1) return assumeT(s, e->a[0], false, d + 1); }
    if (e->op == Instruction::Or && v) { int a = evalTruth(s.fx, e->a[0]), b = evalTruth(s.fx, e->a[1]); if (a == 0) return assumeT(s, e->a[1], true, d + 1); if (b == 0) return assumeT(s, e->a[0], true, d + 1); }
  }
  if (e->kind == E_SYM) { doSubst(s, e, mkConst(v, 1)); return true; }
  s.fx.truth[e] = v;
  if (e->kind == E_CMP && e->a[0]->kind != E_AGG && e->a[0]->w && e->a[0]->w <= 128) {
    EP a = e->a[0], b = e->a[1]; auto p = pred(e->op); if (!v) p = CmpInst::getInversePredicate(p);
    auto ra = range(s.fx, a), rb = range(s.fx, b);
    if (!setRange(s.fx, a, ConstantRange::makeAllowedICmpRegion(p, rb))) return false;
    if (!setRange(s.fx, b, ConstantRange::makeAllowedICmpRegion(CmpInst::getSwappedPredicate(p), range(s.fx, a)))) return false;
    if (e->op == C_EQ) if (EP z = zeroSum(s.fx, a, b)) if (!setRange(s.fx, z, v ? ConstantRange(APInt(z->w, 0)) : ConstantRange::getNonEmpty(APInt(z->w, 1), APInt(z->w, 0)))) return false;
    if (e->op == C_EQ && v) {
      for (int k = 0; k < 2; k++) { EP x = k ? b : a, y = k ? a : b; if (lone(x) && !containsSym(y, x)) { doSubst(s, x, y); return true; } }
    }
    for (EP x : {a, b}) if (x->kind == E_SYM) if (EP c = singleton(s.fx, x)) doSubst(s, x, c);
  }
  return true;
}

// ---------------------------------------------------------------- memory
static Region& wr(State& s, int r) { auto& p = s.mem[r]; if (!p) p = std::make_shared<Region>(); else if (p.use_count() > 1) p = std::make_shared<Region>(*p); return *p; }
static EP applySubst(State& s, EP e) { for (int i = 0; i < 20; i++) { auto it = s.fx.subst.find(e); if (it == s.fx.subst.end()) { if (e->a.empty()) return e; break; } e = it->second; } return e; }
static unsigned tyBits(Type* t) { return t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t); }
static EP zeroOf(Type* t) { if (auto* st = dyn_cast<StructType>(t)) { Vals v; for (auto* e : st->elements()) v.push_back(zeroOf(e)); return mkAgg(v); } if (auto* at = dyn_cast<ArrayType>(t)) { Vals v; for (unsigned i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType())); return mkAgg(v); } return mkConst(0, tyBits(t)); }
static int globalRegion(GlobalVariable* g) {
  int r = regionFor(R_GLOBAL, hstr(g->getName().str()), g->getName().str()); if (!RI[r].gv) { RI[r].gv = g; if (g->getValueType()->isSized()) RI[r].size = DL->getTypeAllocSize(g->getValueType()); RI[r].ghost = g->getName().contains("vfg_"); if (!g->hasInitializer() && !g->isDeclaration()) {} if (g->isDeclaration()) RI[r].size = -1; } return r;
}
static int funcRegion(Function* f) { int r = regionFor(R_FUNC, hstr(f->getName().str()), f->getName().str()); RI[r].fn = f; gFnRegions.insert(r); return r; }
static EP evalConst(const Constant* c);
static EP addOff(EP p, int64_t o) { return o ? mkAdd(p, mkConst((u128)(i128)o, 64)) : p; }
static EP evalConst(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 128) return mkSym(hstr("bigint"), 64, false, "big"); return mkConst(un(i->getValue()), i->getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
  if (auto* f = dyn_cast<Function>(c)) return mkAddr(funcRegion(const_cast<Function*>(f)));
  if (auto* g = dyn_cast<GlobalVariable>(c)) return mkAddr(globalRegion(const_cast<GlobalVariable*>(g)));
  if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
  if (auto* f = dyn_cast<ConstantFP>(c)) { auto b = f->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 128) return mkSym(hstr("bigfp"), 64, false, "fp"); return mkConst(un(b), b.getBitWidth()); }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    if (c->getType()->isAggregateType()) return zeroOf(c->getType());
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType()); return mkSym(hmix(hstr("undef"), tyBits(c->getType())), tyBits(c->getType()), c->getType()->isPointerTy(), "undef");
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { Vals v; for (unsigned i = 0; i < d->getNumElements(); i++) v.push_back(evalConst(d->getElementAsConstant(i))); return mkAgg(v); }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) { Vals v; for (auto& o : a->operands()) v.push_back(evalConst(cast<Constant>(o))); return mkAgg(v); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) return addOff(evalConst(cast<Constant>(g->getPointerOperand())), off.getSExtValue()); }
    switch (ce->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { EP x = evalConst(ce->getOperand(0)); unsigned w = tyBits(ce->getType()); return x->w == w ? x : mkCast(x->w > w ? O_TRUNC : O_ZEXT, x, w); }
    case Instruction::Sub: return mkSub(evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1))); case Instruction::Add: return mkAdd(evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
    case Instruction::Trunc: return mkCast(O_TRUNC, evalConst(ce->getOperand(0)), tyBits(ce->getType()));
    case Instruction::ICmp: return mkCmp((CmpInst::Predicate)ce->getPredicate(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
    default: break;
    }
  }
  return mkSym(hmix(hstr("const"), (uint64_t)(uintptr_t)0), tyBits(c->getType()), c->getType()->isPointerTy(), "const?");
}
static void initCells(Region& r, const Constant* c, int64_t off) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initCells(r, c->getAggregateElement(i), off + sl->getElementOffset(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { int64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initCells(r, c->getAggregateElement(i), off + es * i); return; }
  if (t->isVectorTy()) return;
  EP v = evalConst(c); r.cells[off] = {(unsigned)DL->getTypeStoreSize(t).getFixedValue(), v};
}
static bool ensureRegion(State& s, int r) { // lazily create globals
  auto it = s.mem.find(r); if (it != s.mem.end()) return true;
  auto& ri = RI[r];
  if (ri.kind == R_GLOBAL) {
    static std::map<int, SP<Region>> init; auto& p = init[r];
    if (!p) { p = std::make_shared<Region>(); if (ri.gv && ri.gv->hasInitializer()) { p->def = D_ZERO; initCells(*p, ri.gv->getInitializer(), 0); } else { p->def = D_SYMB; p->epoch = ri.key; if (ri.name == "__libc_single_threaded") p->cells[0] = {1, mkConst(1, 8)}; } }
    s.mem[r] = p; return true;
  }
  if (ri.kind == R_SYM) { auto p = std::make_shared<Region>(); p->def = D_SYMB; p->epoch = ri.key; s.mem[r] = p; return true; }
  if (ri.kind == R_FUNC) { s.mem[r] = std::make_shared<Region>(); return true; }
  return false;
}
static EP defSym(State& s, int r, const Region& R, EP off, unsigned size, bool ptr) {
  unsigned w = size * 8;
  if (R.def == D_ZERO) return mkConst(0, w);
  uint64_t k = hmix(hmix(RI[r].key, R.epoch), off->kind == E_CONST ? (uint64_t)off->c : hmix(off->id, 991)); k = hmix(k, size); k = hmix(k, R.def);
  Expr e; e.kind = E_SYM; e.w = w; e.key = k; e.c = R.epoch; e.ptr = ptr; e.uninit = R.def == D_UNINIT; e.name = RI[r].name + (off->kind == E_CONST ? "+" + std::to_string((int64_t)off->c) : "+?"); EP x = P.get(e); if (ptr) const_cast<Expr*>(x)->ptr = true;
  return applySubst(s, x);
}
// split pointer into region + offset. 0 ok, 1 null/small constant, 2 unknown
static int resolve(State& s, EP p, int& r, EP& off) {
  if (isC(p)) return 1;
  auto find = [&](EP e) -> EP { if (e->kind == E_ADDR) return e; if (e->kind == E_LIN) for (size_t i = 0; i < e->a.size(); i++) if (e->a[i]->kind == E_ADDR && e->k[i] == 1) return e->a[i]; return nullptr; };
  EP b = find(p);
  if (!b) { // materialise an unknown object
    EP sy = nullptr; if (p->kind == E_SYM || p->kind == E_OP) sy = p; else if (p->kind == E_LIN) for (size_t i = 0; i < p->a.size(); i++) if (p->k[i] == 1 && p->a[i]->kind == E_SYM && (p->a[i]->ptr || p->a.size() == 1)) { sy = p->a[i]; break; }
    if (!sy) return 2;
    if (sy->kind == E_SYM) {
      int q = -1; for (int n = 0; n < 4; n++) { q = regionFor(R_SYM, hmix(hmix(sy->key, sy->id), n), "*" + sy->name); if (s.mem.find(q) == s.mem.end()) { ensureRegion(s, q); break; } if (n == 3) { Region& R = wr(s, q); R.summary = true; R.cells.clear(); R.sc.clear(); R.epoch = hmix(R.epoch, 888); } }
      if (!RI[q].sym) RI[q].sym = sy;
      std::unordered_map<EP, EP> memo; EP np = substitute(p, sy, mkAddr(q), memo); doSubst(s, sy, mkAddr(q)); p = np; b = mkAddr(q);
    } else return 2;
  }
  r = (int)b->key; off = mkSub(p, b); return 0;
}
static bool gInGuard = false;
// lockset rule for a watched object: two threads may use the same bytes, one of them writing, only if both hold the lock
struct Guard { int r; int64_t lo, hi; int tr; int64_t to; int lr; int64_t lo2; std::string rule, msg; std::map<int64_t, std::set<std::tuple<int, bool, bool>>> seen; }; static std::vector<Guard> guards; static EP loadBytes(State&, int, EP, unsigned, bool);
static void guarded(State& s, int r, EP off, unsigned size, bool write) {
  for (auto& g : guards) if (g.r == r && (!isC(off) || ((int64_t)off->c < g.hi && (int64_t)off->c + (int64_t)size > g.lo)) && s.mem.count(g.lr) && s.mem.count(g.tr)) {
    auto& st = *s.st.back(); Instruction* I = st.f->ins[st.ip]; bool atomic = I->isAtomic(); EP t = loadBytes(s, g.tr, mkConst((u128)g.to, 64), 4, false), l = loadBytes(s, g.lr, mkConst((u128)g.lo2, 64), 4, false);
    if (!isC(t) || t->c == 0) continue; bool held = atomic || evalTruth(s.fx, mkCmpC(C_EQ, l, mkConst(0, 32))) == 0; obligations[g.rule].insert((uint64_t)(uintptr_t)I); obEval[g.rule]++;
    int64_t b = isC(off) ? std::max((int64_t)off->c, g.lo) : g.lo, e = isC(off) ? std::min((int64_t)off->c + (int64_t)size, g.hi) : g.hi; bool bad = false;
    for (int64_t x = b; x < e; x++) { auto& q = g.seen[x]; for (auto& a : q) if (std::get<0>(a) != (int)t->c && (std::get<2>(a) || write) && (!std::get<1>(a) || !held)) bad = true; q.insert({(int)t->c, held, write}); }
    if (bad) report(s, g.rule, g.msg); } }
static bool checkAccess(State& s, int r, EP off, unsigned size, bool write, const char* what) {
  if (!guards.empty() && !gInGuard) { gInGuard = true; guarded(s, r, off, size, write); gInGuard = false; }
  auto it = s.mem.find(r);
  if (it == s.mem.end()) { if (!ensureRegion(s, r)) { report(s, "mem.uaf", std::string(what) + " of an object whose lifetime has ended (" + RI[r].name + ")"); s.dead = true; return false; } it = s.mem.find(r); }
  if (it->second->freed && !it->second->summary) { report(s, "mem.uaf", std::string(what) + " after free (" + RI[r].name + ")"); s.dead = true; return false; }
  int64_t sz = RI[r].size; if (sz >= 0 && isC(off) && size) { int64_t o = (int64_t)off->c; if (o < 0 || o + (int64_t)size > sz) { report(s, "mem.oob", std::string(what) + " outside object " + RI[r].name + " (object size " + std::to_string(sz) + ")"); s.dead = true; return false; } }
  return true;
}
static EP extractBytes(State& s, EP v, unsigned vsize, unsigned delta, unsigned size, bool ptr) {
  unsigned w = size * 8;
  if (v->kind == E_BLOB) { // copy of default content of a region
    Region tmp; tmp.def = (DK)v->op; tmp.epoch = (uint64_t)v->c; return defSym(s, (int)v->key, tmp, mkConst((u128)(v->k[0] + delta), 64), size, ptr);
  }
  if (v->kind == E_AGG) return mkOp(9001, {v}, w, delta);
  if (isC(v)) return mkConst(delta < 16 ? v->c >> (delta * 8) : 0, w);
  if (v->w < w) { if (v->w == 1 || v->w + 7 >= w) return mkCast(O_ZEXT, v, w); return mkOp(9002, {v}, w, delta); }
  if (delta == 0 && v->w == w) return v;
  return mkExtract(v, delta * 8, w);
}
static EP asWidth(EP v, unsigned w) { if (v->kind == E_AGG || v->w == w || v->w == 0) return v; return v->w < w ? mkCast(O_ZEXT, v, w) : mkCast(O_TRUNC, v, w); }
static EP loadBytes(State& s, int r, EP off, unsigned size, bool ptr) {
  const Region& R = *s.mem[r];
  for (auto& c : R.sc) if (c.off == off && c.size == size) return asWidth(c.v, size * 8);
  if (!isC(off)) {
    // symbolic position: value unknown, but the same position reads the same value until a write
    uint64_t h = 7; for (auto& c : R.sc) h = hmix(h, hmix(c.off->id, c.v->id)); bool any = false; for (auto& c : R.cells) { h = hmix(h, hmix((uint64_t)c.first, c.second.v->id)); any = true; }
    if (!any && R.sc.empty()) return defSym(s, r, R, off, size, ptr);
    EP e = mkSym(hmix(hmix(hmix(RI[r].key, R.epoch), off->id), hmix(h, size)), size * 8, ptr, RI[r].name + "[?]"); return applySubst(s, e);
  }
  int64_t o = (int64_t)off->c;
  // a symbolic write may cover this cell
  for (auto& c : R.sc) { EP d = mkSub(c.off, off); auto rg = range(s.fx, d); APInt lo(64, (uint64_t)-(int64_t)c.size + 1, true), hi(64, size, true); ConstantRange ov = ConstantRange::getNonEmpty(lo, hi); if (!rg.intersectWith(ov).isEmptySet()) { EP e = mkSym(hmix(hmix(hmix(RI[r].key, R.epoch), off->id), hmix(c.v->id, size + c.off->id)), size * 8, ptr, RI[r].name + "[~]"); return applySubst(s, e); } }
  auto it = R.cells.upper_bound(o);
  if (it != R.cells.begin()) { --it; if (it->first == o && it->second.size == size && it->second.v->kind != E_BLOB) return asWidth(it->second.v, size * 8); if (it->first + (int64_t)it->second.size >= o + (int64_t)size && it->first <= o) return extractBytes(s, it->second.v, it->second.size, o - it->first, size, ptr); if (it->first + (int64_t)it->second.size <= o) ++it; }
  // any overlap ?
  bool ov = false; uint64_t h = 3; bool allC = true; u128 acc = 0; int64_t cov = o; for (auto q = it; q != R.cells.end() && q->first < o + (int64_t)size; ++q) { ov = true; h = hmix(h, hmix((uint64_t)q->first, q->second.v->id)); if (!isC(q->second.v) || q->first != cov || q->first + (int64_t)q->second.size > o + (int64_t)size) allC = false; else { acc |= (q->second.v->c & maskw(q->second.size * 8)) << ((q->first - o) * 8); cov += q->second.size; } }
  if (!ov) return defSym(s, r, R, off, size, ptr);
  if (allC && cov == o + (int64_t)size) return mkConst(acc, size * 8);
  if (R.def == D_ZERO) { bool z = true; u128 a2 = 0; for (auto q = it; q != R.cells.end() && q->first < o + (int64_t)size; ++q) { if (!isC(q->second.v) || q->first < o || q->first + (int64_t)q->second.size > o + (int64_t)size) z = false; else a2 |= (q->second.v->c & maskw(q->second.size * 8)) << ((q->first - o) * 8); } if (z) return mkConst(a2, size * 8); }
  { // piecewise: cells, and what the region held before in the gaps
    std::vector<EP> pc; int64_t x = o; bool ok = true; auto gap = [&](int64_t y) { pc.push_back(defSym(s, r, R, mkConst((u128)x, 64), y - x, false)); x = y; };
    for (auto q = it; ok && q != R.cells.end() && x < o + (int64_t)size && q->first < o + (int64_t)size; ++q) { int64_t b = q->first, e2 = b + q->second.size, y = std::min<int64_t>(e2, o + size); if (b > x) gap(b); if (q->second.v->kind == E_BLOB || q->second.v->kind == E_AGG) { ok = false; break; } EP v = q->second.v; if (!(b == x && y == e2 && v->w == q->second.size * 8)) v = extractBytes(s, v, q->second.size, x - b, y - x, false); if (v->ptr || v->kind == E_ADDR || v->w != (y - x) * 8) ok = false; pc.push_back(v); x = y; }
    if (ok && x < o + (int64_t)size) gap(o + size);
    if (ok && !ptr && size <= 16) return mkConcat(pc, size * 8);
  }
  return applySubst(s, mkSym(hmix(hmix(hmix(RI[r].key, R.epoch), off->id), hmix(h, size)), size * 8, ptr, RI[r].name + "[mix]"));
}
static void clearRange(State& s, int r, Region& R, int64_t o, int64_t size) { // kill cells overlapping [o,o+size)
  auto it = R.cells.lower_bound(o); if (it != R.cells.begin()) { auto p = std::prev(it); if (p->first + (int64_t)p->second.size > o) it = p; }
  std::vector<std::pair<int64_t, Cell>> add;
  while (it != R.cells.end() && it->first < o + size) {
    int64_t b = it->first, e = b + it->second.size; EP v = it->second.v;
    auto piece = [&](int64_t x, int64_t y) { if (x >= y) return; Cell c; c.size = y - x; if (v->kind == E_BLOB) { Expr q = *v; q.k = {v->k[0] + (x - b)}; q.w = 0; c.v = P.get(q); } else if (c.size <= 16 && v->kind != E_AGG) c.v = extractBytes(s, v, it->second.size, x - b, c.size, false); else c.v = mkSym(hmix(v->id, hmix(x, y)), c.size * 8, false, "part"); add.push_back({x, c}); };
    piece(b, std::min(e, o)); piece(std::max(b, o + size), e); it = R.cells.erase(it);
  }
  for (auto& p : add) R.cells[p.first] = p.second;
}
static uint64_t gHavoc = 1;
static void havocRegion(State& s, int r, uint64_t ep) { if (RI[r].ghost) return; Region& R = wr(s, r); R.cells.clear(); R.sc.clear(); R.def = D_SYMB; R.epoch = hmix(ep, RI[r].key); }
static void havocRange(State& s, int r, int64_t o, int64_t size, uint64_t ep) { // contents of [o,o+size) become unknown
  if (RI[r].ghost) return; Region& R = wr(s, r); clearRange(s, r, R, o, size);
  R.sc.clear(); Expr b; b.kind = E_BLOB; b.op = D_SYMB; b.c = hmix(ep, o + 17); b.key = r; b.k = {(i128)o}; R.cells[o] = {(unsigned)size, P.get(b)};
}
static void storeBytes(State& s, int r, EP off, unsigned size, EP v) {
  Region& R = wr(s, r);
  if (R.summary) { // weak update
    if (isC(off)) { EP old = loadBytes(s, r, off, size, false); if (old != v) { clearRange(s, r, R, (int64_t)off->c, size); R.cells[(int64_t)off->c] = {size, mkSym(hmix(RI[r].key, hmix((uint64_t)off->c, 4242)), size * 8, v->ptr, "weak")}; } } else havocRegion(s, r, hmix(RI[r].key, 555));
    return;
  }
  if (!isC(off)) {
    std::vector<SCell> keep; for (auto& c : R.sc) { if (c.off == off) continue; auto rg = range(s.fx, mkSub(c.off, off)); ConstantRange ov = ConstantRange::getNonEmpty(APInt(64, (uint64_t)-(int64_t)c.size + 1, true), APInt(64, size, true)); if (rg.intersectWith(ov).isEmptySet()) keep.push_back(c); }
    R.sc = keep; R.sc.push_back({off, size, v}); return;
  }
  int64_t o = (int64_t)off->c; clearRange(s, r, R, o, size); R.cells[o] = {size, v};
  if (!R.sc.empty()) { std::vector<SCell> keep; for (auto& c : R.sc) { auto rg = range(s.fx, mkSub(c.off, off)); ConstantRange ov = ConstantRange::getNonEmpty(APInt(64, (uint64_t)-(int64_t)c.size + 1, true), APInt(64, size, true)); if (rg.intersectWith(ov).isEmptySet()) keep.push_back(c); } R.sc = keep; }
}
static EP loadTy(State& s, EP p, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); Vals v; for (unsigned i = 0; i < st->getNumElements(); i++) { v.push_back(loadTy(s, addOff(p, sl->getElementOffset(i)), st->getElementType(i))); if (s.dead) break; } return mkAgg(v); }
  if (auto* at = dyn_cast<ArrayType>(t)) { Vals v; for (unsigned i = 0; i < at->getNumElements(); i++) { v.push_back(loadTy(s, addOff(p, i * DL->getTypeAllocSize(at->getElementType())), at->getElementType())); if (s.dead) break; } return mkAgg(v); }
  int r; EP off; int k = resolve(s, p, r, off); unsigned size = DL->getTypeStoreSize(t).getFixedValue(); unsigned w = tyBits(t);
  if (k == 1) { report(s, "mem.null", "null pointer read"); s.dead = true; return mkConst(0, w); }
  if (k == 2) { nUnkLoad++; return mkOp(9003, {p}, w, size); }
  if (!checkAccess(s, r, off, size, false, "read")) return mkConst(0, w);
  EP v = loadBytes(s, r, off, size, t->isPointerTy()); v = asWidth(v, w); if (t->isPointerTy() && v->kind == E_SYM) const_cast<Expr*>(v)->ptr = true; return v;
}
static void storeTy(State& s, EP p, EP v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements() && !s.dead; i++) storeTy(s, addOff(p, sl->getElementOffset(i)), v->kind == E_AGG ? v->a[i] : mkOp(9004, {v}, tyBits(st->getElementType(i)), i), st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < at->getNumElements() && !s.dead; i++) storeTy(s, addOff(p, i * DL->getTypeAllocSize(at->getElementType())), v->kind == E_AGG ? v->a[i] : mkOp(9004, {v}, tyBits(at->getElementType()), i), at->getElementType()); return; }
  int r; EP off; int k = resolve(s, p, r, off); unsigned size = DL->getTypeStoreSize(t).getFixedValue();
  if (k == 1) { report(s, "mem.null", "null pointer write"); s.dead = true; return; }
  if (k == 2) { nUnkStore++; return; }
  if (!checkAccess(s, r, off, size, true, "write")) return; storeBytes(s, r, off, size, asWidth(v, size * 8));
}

// rename terms everywhere in the state
static void renameIf(State& s, const std::function<EP(EP)>& f) {
  for (auto* stk : {&s.st, &s.parked}) for (auto& fp : *stk) { bool ch = false; for (auto v : fp->regs) if (v && f(v) != v) { ch = true; break; } if (ch) { if (fp.use_count() > 1) fp = std::make_shared<Frame>(*fp); for (auto& v : fp->regs) if (v) v = f(v); } }
  for (auto& m : s.mem) { bool ch = false; for (auto& c : m.second->cells) if (f(c.second.v) != c.second.v) { ch = true; break; } if (!ch) for (auto& c : m.second->sc) if (f(c.v) != c.v || f(c.off) != c.off) { ch = true; break; } if (ch) { Region& R = wr(s, m.first); for (auto& c : R.cells) c.second.v = f(c.second.v); auto sc = R.sc; R.sc.clear(); for (auto& c : sc) { c.off = f(c.off); c.v = f(c.v); if (isC(c.off)) { clearRange(s, m.first, R, (int64_t)c.off->c, c.size); R.cells[(int64_t)c.off->c] = {c.size, c.v}; } else R.sc.push_back(c); } } }
}
static void doSubst(State& s, EP sym, EP by) {
  std::unordered_map<EP, EP> memo; auto f = [&](EP e) { return substitute(e, sym, by, memo); };
  renameIf(s, f);
  Facts n; n.subst = s.fx.subst; for (auto& p : n.subst) p.second = f(p.second); n.subst[sym] = by;
  auto oldr = s.fx.rng; auto oldt = s.fx.truth; s.fx.rng.clear(); s.fx.truth.clear(); s.fx.subst = n.subst;
  for (auto& p : oldr) { EP e = f(p.first); if (!isC(e)) { if (e == p.first) s.fx.rng.emplace(e, p.second); else if (!setRange(s.fx, e, p.second)) s.dead = true; } else if (!p.second.contains(ap(e->c, e->w))) s.dead = true; }
  for (auto& p : oldt) { EP e = f(p.first); if (isC(e)) { if ((e->c != 0) != p.second) s.dead = true; continue; } if (e == p.first) s.fx.truth[e] = p.second; else { int t = evalTruth(s.fx, e); if (t >= 0 && t != (int)p.second) s.dead = true; bool v = p.second; while (e->kind == E_NOT) { e = e->a[0]; v = !v; } s.fx.truth[e] = v; } }
}
static void dropFactsAbout(State& s, const std::function<bool(EP)>& mentions) {
  for (auto it = s.fx.rng.begin(); it != s.fx.rng.end();) if (mentions(it->first)) it = s.fx.rng.erase(it); else ++it;
  for (auto it = s.fx.truth.begin(); it != s.fx.truth.end();) if (mentions(it->first)) it = s.fx.truth.erase(it); else ++it;
  for (auto it = s.fx.subst.begin(); it != s.fx.subst.end();) if (mentions(it->first) || mentions(it->second)) it = s.fx.subst.erase(it); else ++it;
}
static void retire(State& s, EP sym) { // the symbol is about to denote a new value
  EP st = mkSym(hmix(sym->key, 0x57a1e), sym->w, sym->ptr, sym->name + "'"); std::unordered_map<EP, EP> memo;
  auto f = [&](EP e) { return substitute(e, sym, st, memo); }; renameIf(s, f); dropFactsAbout(s, [&](EP e) { return containsSym(e, sym) || containsSym(e, st); });
}
static uint64_t siteKey(State& s, bool& sat) { Frame& f = s.top(); auto& c = f.counts[f.ip]; sat = f.sat || c >= 24; uint64_t k = hmix(hmix(f.ctx, f.f->id), hmix(f.ip, c)); if (c < 24) c++; return k; }
static EP fresh(State& s, unsigned w, bool ptr, const std::string& nm) { bool sat; uint64_t k = siteKey(s, sat); EP e = mkSym(hmix(k, hstr(nm)), w, ptr, nm); if (sat) retire(s, e); return e; }
static EP freshTy(State& s, Type* t, const std::string& nm) {
  if (t->isVoidTy()) return mkConst(0, 1);
  if (auto* st = dyn_cast<StructType>(t)) { Vals v; int i = 0; for (auto* e : st->elements()) v.push_back(freshTy(s, e, nm + "." + std::to_string(i++))); return mkAgg(v); }
  return fresh(s, tyBits(t), t->isPointerTy(), nm);
}
static int allocRegion(State& s, RK kind, int64_t size, const std::string& nm, bool uninit = true) {
  bool sat; uint64_t k = siteKey(s, sat); if (kind == R_HEAP) k = hmix(k, (uint64_t)size); int r = regionFor(kind, k, nm); RI[r].size = size; auto it = s.mem.find(r);
  if (it != s.mem.end() && !it->second->freed && kind == R_HEAP && sat) {
    // still referenced ?
    bool refd = false; std::vector<EP> sy; std::vector<int> rg; for (auto* stk : {&s.st, &s.parked}) for (auto& fp : *stk) for (auto v : fp->regs) if (v) collect(v, sy, rg); for (auto& m : s.mem) for (auto& c : m.second->cells) { if (c.second.v->kind != E_BLOB) collect(c.second.v, sy, rg); }
    for (int x : rg) if (x == r) refd = true;
    if (refd) { Region& R = wr(s, r); R.summary = true; R.cells.clear(); R.sc.clear(); R.def = D_SYMB; R.epoch = hmix(k, 888); return r; }
  }
  auto p = std::make_shared<Region>(); p->def = uninit ? D_UNINIT : D_ZERO; p->epoch = hmix(k, 31); s.mem[r] = p; return r;
}

// ---------------------------------------------------------------- typeinfo
static std::string gvName(EP e) { if (e->kind == E_ADDR && RI[e->key].gv) return RI[e->key].gv->getName().str(); return ""; }
static GlobalVariable* tiOf(const Value* v) { v = v->stripPointerCasts(); if (auto* a = dyn_cast<GlobalAlias>(v)) v = a->getAliasee()->stripPointerCasts(); return const_cast<GlobalVariable*>(dyn_cast<GlobalVariable>(v)); }
static std::string stdBase(const std::string& n) {
  static const std::map<std::string, std::string> m = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
  auto it = m.find(n); return it == m.end() ? "" : it->second;
}
// all base subobjects: (typeinfo, offset, virtual?)
struct Base { GlobalVariable* ti; int64_t off; bool virt; };
static std::vector<Base> basesOf(GlobalVariable* ti) {
  std::vector<Base> r; if (!ti->hasInitializer()) { auto b = stdBase(ti->getName().str()); if (!b.empty()) if (auto* g = M->getGlobalVariable(b, true)) r.push_back({g, 0, false}); return r; }
  auto* cs = dyn_cast<ConstantStruct>(ti->getInitializer()); if (!cs) return r; unsigned n = cs->getNumOperands();
  if (n == 3) { if (auto* g = tiOf(cs->getOperand(2))) r.push_back({g, 0, false}); }
  else if (n > 4) for (unsigned i = 4; i + 1 < n; i += 2) { auto* g = tiOf(cs->getOperand(i)); auto* o = dyn_cast<ConstantInt>(cs->getOperand(i + 1)); if (g && o) { int64_t f = o->getSExtValue(); r.push_back({g, f >> 8, (bool)(f & 1)}); } }
  return r;
}
static EP vptrOf(State& s, EP obj) { int r; EP off; if (resolve(s, obj, r, off)) return nullptr; if (!s.mem.count(r) && !ensureRegion(s, r)) return nullptr; return loadBytes(s, r, off, 8, true); }
static bool findBase(State& s, EP obj, GlobalVariable* from, GlobalVariable* to, EP& out, int d = 0) {
  if (from == to || from->getName() == to->getName()) { out = obj; return true; } if (d > 12) return false;
  for (auto& b : basesOf(from)) {
    EP sub = obj ? addOff(obj, b.virt ? 0 : b.off) : nullptr;
    if (b.virt && obj) { EP vp = vptrOf(s, obj); int r; EP off; if (vp && resolve(s, vp, r, off) == 0 && s.mem.count(r)) { EP vb = loadBytes(s, r, addOff(off, b.off), 8, false); sub = mkAdd(obj, vb); } }
    if (findBase(s, sub, b.ti, to, out, d + 1)) return true;
  }
  return false;
}
static std::map<GlobalVariable*, int> TID; static int tid(GlobalVariable* g) { auto it = TID.find(g); if (it != TID.end()) return it->second; int n = TID.size() + 1; return TID[g] = n; }

#include "interp.inc"
