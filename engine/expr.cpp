#include "expr.h"
#include <llvm/IR/Instruction.h>
using namespace llvm;
Pool P;

// bit fields: value = sum of zero-extended pieces at disjoint bit positions (and a constant in the gaps)
struct Field { unsigned sh, bits; EP e; };
static bool fields(EP e, std::vector<Field>& f, u128* C = nullptr) {
  if (e->kind == E_OP && e->op == O_ZEXT) { f.push_back({0, e->a[0]->w, e->a[0]}); if (C) *C = 0; return true; }
  if (e->kind != E_LIN || (e->c && !C)) return false; u128 cov = 0;
  for (size_t i = 0; i < e->a.size(); i++) { EP t = e->a[i]; u128 k = (u128)e->k[i] & maskw(e->w); if (!k || (k & (k - 1))) return false; unsigned sh = 0; while (!((k >> sh) & 1)) sh++; unsigned n = t->kind == E_OP && t->op == O_ZEXT ? t->a[0]->w : t->w; if (n == t->w && (!C || (t->w < 128 && (e->a.size() > 1 || e->c)))) return false; if (n == t->w && t->ptr) return false; if (n == t->w) n = e->w - sh; f.push_back({sh, n, n == t->w || t->op != O_ZEXT || t->kind != E_OP ? t : t->a[0]}); if (sh + n > e->w) return false; cov |= maskw(n) << sh; }
  if (e->c & cov) return false; if (C) *C = e->c;
  std::sort(f.begin(), f.end(), [](const Field& x, const Field& y) { return x.sh < y.sh; });
  for (size_t i = 1; i < f.size(); i++) if (f[i - 1].sh + f[i - 1].bits > f[i].sh) return false;
  return true;
}
// per-bit view: every bit is a constant or bit i of some opaque term
struct Bit { EP base; unsigned i; }; // base null: constant i
static void bitsOf(EP e, std::vector<Bit>& o, int depth) {
  unsigned w = e->w; o.assign(w, Bit{nullptr, 0}); auto opaque = [&] { for (unsigned i = 0; i < w; i++) o[i] = {e, i}; };
  if (e->kind == E_CONST) { for (unsigned i = 0; i < w; i++) o[i] = {nullptr, (unsigned)((e->c >> i) & 1)}; return; }
  if (depth > 6) return opaque();
  if (e->kind == E_OP && (e->op == O_ZEXT || e->op == O_TRUNC)) { std::vector<Bit> q; bitsOf(e->a[0], q, depth + 1); for (unsigned i = 0; i < w && i < q.size(); i++) o[i] = q[i]; return; }
  if (e->kind == E_OP && e->a.size() == 2 && (e->op == Instruction::And || e->op == Instruction::Or || e->op == Instruction::Xor)) {
    std::vector<Bit> x, y; bitsOf(e->a[0], x, depth + 1); bitsOf(e->a[1], y, depth + 1);
    for (unsigned i = 0; i < w; i++) { Bit p = x[i], q = y[i]; if (!p.base) std::swap(p, q);
      if (!p.base) { unsigned v = e->op == Instruction::And ? p.i & q.i : e->op == Instruction::Or ? p.i | q.i : p.i ^ q.i; o[i] = {nullptr, v}; }
      else if (!q.base && e->op == Instruction::And) o[i] = q.i ? p : Bit{nullptr, 0}; else if (!q.base && e->op == Instruction::Or) o[i] = q.i ? Bit{nullptr, 1} : p; else if (!q.base && !q.i) o[i] = p;
      else if (p.base == q.base && p.i == q.i && e->op != Instruction::Xor) o[i] = p; else o[i] = {e, i}; }
    return;
  }
  if (e->kind == E_OP && e->op == O_SEXT) { std::vector<Bit> q; bitsOf(e->a[0], q, depth + 1); for (unsigned i = 0; i < w; i++) o[i] = i < q.size() ? q[i] : Bit{e, i}; return; } // the copies of the sign stay opaque
  if (e->kind == E_OP && e->op == Instruction::AShr && isC(e->a[1]) && e->a[1]->c < w) { std::vector<Bit> x; bitsOf(e->a[0], x, depth + 1); unsigned n = (unsigned)e->a[1]->c; for (unsigned i = 0; i < w; i++) o[i] = i + n < w ? x[i + n] : Bit{e, i}; return; }
  if (e->kind == E_OP && e->op == Instruction::LShr && isC(e->a[1])) { std::vector<Bit> x; bitsOf(e->a[0], x, depth + 1); for (unsigned i = 0; i < w; i++) o[i] = i + e->a[1]->c < w ? x[i + (unsigned)e->a[1]->c] : Bit{nullptr, 0}; return; }
  if (e->kind == E_LIN) { std::vector<Field> f; u128 C = 0; if (fields(e, f, &C)) { for (unsigned i = 0; i < w; i++) o[i] = {nullptr, (unsigned)((C >> i) & 1)}; for (auto& x : f) { std::vector<Bit> q; bitsOf(x.e, q, depth + 1); for (unsigned i = 0; i < x.bits && x.sh + i < w; i++) o[x.sh + i] = q[i]; } return; }
    unsigned sh = w; for (size_t i = 0; i < e->a.size(); i++) { u128 k = (u128)e->k[i]; unsigned z = 0; while (z < sh && !((k >> z) & 1)) z++; sh = std::min(sh, z); }
    bool ptr = false; for (auto t : e->a) ptr |= t->ptr || t->kind == E_ADDR;
    if (sh && sh < w && !ptr) { LinB l; l.w = w; l.c0 = e->c >> sh; for (size_t i = 0; i < e->a.size(); i++) addTo(l, e->a[i], e->k[i] >> sh); EP T = finLin(l); for (unsigned i = 0; i < w; i++) o[i] = i < sh ? Bit{nullptr, (unsigned)((e->c >> i) & 1)} : Bit{T, i - sh}; return; } } // (T << sh) + c
  opaque();
}
static EP rawLShr(EP x, unsigned n) { return n ? mkOp(Instruction::LShr, {x, mkConst(n, x->w)}, x->w) : x; }
static EP extractRaw(EP base, unsigned lo, unsigned len) { if (lo == 0 && len == base->w) return base; EP x = rawLShr(base, lo); return len < base->w ? mkOp(O_TRUNC, {x}, len) : x; }
// normal form of bit manipulation: a sum of zero-extended runs of bits of opaque terms, plus a constant
struct Run { unsigned sh, lo, len; EP base; };
static bool runsOf(const std::vector<Bit>& v, std::vector<Run>& r, u128& C) {
  C = 0; r.clear();
  for (unsigned i = 0; i < v.size(); i++) { if (!v[i].base) { if (v[i].i) C |= (u128)1 << i; continue; } if (!r.empty() && r.back().base == v[i].base && r.back().sh + r.back().len == i && r.back().lo + r.back().len == v[i].i) r.back().len++; else r.push_back({i, v[i].i, 1, v[i].base}); }
  return r.size() <= 20;
}
static EP buildRuns(const std::vector<Run>& r, u128 C, unsigned w) {
  if (r.empty()) return mkConst(C, w);
  if (r.size() == 1 && C == 0 && r[0].sh == 0) { auto& x = r[0]; if (x.len == w) return extractRaw(x.base, x.lo, x.len); if (x.base->w == w && x.lo && x.lo + x.len == w) return rawLShr(x.base, x.lo); }
  LinB l; l.w = w; l.c0 = C; for (auto& x : r) { if (w == 128 && x.lo == 0 && x.base->w == w && x.sh + x.len == w && !x.base->ptr) { addTo(l, x.base, (i128)((u128)1 << x.sh)); continue; } EP q = extractRaw(x.base, x.lo, x.len); addTo(l, q->w == w ? q : mkOp(O_ZEXT, {q}, w), (i128)((u128)1 << x.sh)); } return finLin(l);
}
static EP bitNorm(EP e) {
  unsigned w = e->w; if (w <= 1 || w > 128) return nullptr; std::vector<Bit> v; bitsOf(e, v, 0); for (auto& b : v) if (b.base == e) return nullptr;
  std::vector<Run> r; u128 C; if (!runsOf(v, r, C)) return nullptr; return buildRuns(r, C, w);
}
EP mkExtract(EP e, unsigned lo, unsigned len) {
  if (lo == 0 && len == e->w) return e; std::vector<Bit> v; bitsOf(e, v, 0); std::vector<Bit> q(v.begin() + lo, v.begin() + lo + len); std::vector<Run> r; u128 C; if (!runsOf(q, r, C)) return extractRaw(e, lo, len); return buildRuns(r, C, len);
}
EP mkCast(uint32_t op, EP a, unsigned w) {
  if (a->w == w && op != O_FN) return a;
  if (a->kind == E_AGG) return a;
  if (isC(a)) { if (op == O_SEXT) return mkConst((u128)sextw(a->c, a->w), w); return mkConst(a->c, w); }
  if (op == O_TRUNC && a->kind == E_OP && (a->op == O_ZEXT || a->op == O_SEXT)) {
    EP x = a->a[0]; if (x->w == w) return x; if (x->w > w) return mkCast(O_TRUNC, x, w); return mkCast(a->op, x, w);
  }
  if (op == O_TRUNC && a->kind == E_OP && a->op == O_TRUNC) return mkCast(O_TRUNC, a->a[0], w);
  if (op == O_ZEXT && a->kind == E_OP && a->op == O_ZEXT) return mkCast(O_ZEXT, a->a[0], w);
  if (op == O_SEXT && a->kind == E_OP && a->op == O_SEXT) return mkCast(O_SEXT, a->a[0], w);
  if (op == O_SEXT && a->kind == E_OP && a->op == O_ZEXT) return mkCast(O_ZEXT, a->a[0], w);
  if (op == O_TRUNC && a->kind != E_SYM && a->kind != E_ADDR && a->kind != E_AGG) { EP raw = mkOp(op, {a}, w); if (EP r = bitNorm(raw)) { std::vector<Bit> v; bitsOf(a, v, 0); bool own = false; for (auto& b : v) if (b.base == a) own = true; if (!own) return r; } }
  if (op == O_TRUNC && a->kind == E_LIN && !(a->w == 128 && w > 32)) { // truncation distributes over modular arithmetic
    LinB l; l.w = w; l.c0 = a->c; bool ok = true; for (auto t : a->a) if (t->kind == E_ADDR) ok = false;
    if (ok) { for (size_t i = 0; i < a->a.size(); i++) addTo(l, mkCast(O_TRUNC, a->a[i], w), a->k[i]); return finLin(l); }
  }
  return mkOp(op, {a}, w);
}

EP mkConcat(const std::vector<EP>& p, unsigned w) { std::vector<Bit> v, q; for (auto x : p) { bitsOf(x, q, 0); v.insert(v.end(), q.begin(), q.end()); } v.resize(w, Bit{nullptr, 0}); std::vector<Run> r; u128 C; runsOf(v, r, C); return buildRuns(r, C, w); }

EP mkBin(unsigned oc, EP a, EP b) {
  unsigned w = a->w;
  if (a->kind == E_AGG || b->kind == E_AGG) return mkOp(oc, {a, b}, w);
  switch (oc) {
  case Instruction::Add: return mkAdd(a, b);
  case Instruction::Sub: return mkSub(a, b);
  case Instruction::Mul: if (isC(b)) return mkMulC(a, (i128)b->c); if (isC(a)) return mkMulC(b, (i128)a->c);
    for (int i = 0; i < 2; i++) { EP x = i ? b : a, y = i ? a : b; if (x->kind == E_LIN && x->a.size() == 1 && x->c == 0 && x->a[0]->kind != E_ADDR) return mkMulC(mkBin(oc, x->a[0], y), x->k[0]); }
    break;
  case Instruction::Shl: if (isC(b) && b->c < w) return mkMulC(a, (i128)((u128)1 << (unsigned)b->c)); break;
  default: break;
  }
  if (isC(a) && isC(b)) {
    u128 x = a->c, y = b->c; i128 sx = sextw(x, w), sy = sextw(y, w);
    switch (oc) {
    case Instruction::And: return mkConst(x & y, w); case Instruction::Or: return mkConst(x | y, w); case Instruction::Xor: return mkConst(x ^ y, w);
    case Instruction::LShr: return mkConst(y < w ? x >> (unsigned)y : 0, w); case Instruction::AShr: return mkConst((u128)(sx >> (unsigned)(y < w ? y : w - 1)), w);
    case Instruction::UDiv: if (y) return mkConst(x / y, w); break; case Instruction::URem: if (y) return mkConst(x % y, w); break;
    case Instruction::SDiv: if (sy) return mkConst((u128)(sx / sy), w); break; case Instruction::SRem: if (sy) return mkConst((u128)(sx % sy), w); break;
    default: break;
    }
  }
  if ((oc == Instruction::Or || oc == Instruction::And || oc == Instruction::Xor || oc == Instruction::LShr) && w > 1 && w <= 128 && !a->ptr && !b->ptr && a->kind != E_ADDR && b->kind != E_ADDR && !(isC(b, 0) && oc == Instruction::LShr)) { EP x = a, y = b; if (oc != Instruction::LShr && x->id > y->id) std::swap(x, y); if (EP r = bitNorm(mkOp(oc, {x, y}, w))) return r; }
  if (oc == Instruction::Xor && w == 1) { if (isC(b, 1)) return mkNot(a); if (isC(a, 1)) return mkNot(b); }
  if (oc == Instruction::And) { if (isC(b, 1) && a->kind == E_ADDR && gFnRegions.count(a->key)) return mkConst(0, w); if (isC(a, 0) || isC(b, 0)) return mkConst(0, w); if (isC(a, maskw(w))) return b; if (isC(b, maskw(w))) return a; if (a == b) return a; }
  if (oc == Instruction::Or) { if (isC(a, 0)) return b; if (isC(b, 0)) return a; if (a == b) return a; if (isC(a, maskw(w))) return a; if (isC(b, maskw(w))) return b; }
  if (oc == Instruction::Xor) { if (isC(a, 0)) return b; if (isC(b, 0)) return a; if (a == b) return mkConst(0, w); }
  if ((oc == Instruction::UDiv || oc == Instruction::SDiv) && isC(b, 1)) return a;
  if ((oc == Instruction::LShr || oc == Instruction::AShr) && isC(b, 0)) return a;
  // exact division of a scaled difference:  (k*x + k*y) / k
  if ((oc == Instruction::SDiv || oc == Instruction::AShr) && isC(b) && (a->kind == E_LIN)) {
    i128 d = oc == Instruction::AShr ? ((i128)1 << (unsigned)b->c) : sextw(b->c, w);
    bool ok = d > 0 && sextw(a->c, w) % d == 0; for (size_t i = 0; ok && i < a->k.size(); i++) ok = a->k[i] % d == 0;
    if (ok) { LinB l; l.w = w; l.c0 = (u128)(sextw(a->c, w) / d); for (size_t i = 0; i < a->k.size(); i++) addTo(l, a->a[i], a->k[i] / d); return finLin(l); }
  }
  if (oc == Instruction::And || oc == Instruction::Or || oc == Instruction::Xor || oc == Instruction::Mul) if (a->id > b->id) std::swap(a, b);
  return mkOp(oc, {a, b}, w);
}

EP mkCmpC(CP p, EP a, EP b) {
  unsigned w = a->w;
  if (a == b) return mkConst(p == C_EQ, 1);
  if (isC(a) && isC(b)) {
    if (p == C_EQ) return mkConst(a->c == b->c, 1); if (p == C_ULT) return mkConst(a->c < b->c, 1); return mkConst(sextw(a->c, w) < sextw(b->c, w), 1);
  }
  if (a->kind != E_AGG && b->kind != E_AGG) {
    // pointer comparisons: cancel a common base
    bool hasA = false; auto addr = [&](EP e) -> EP { if (e->kind == E_ADDR) return e; if (e->kind == E_LIN) for (size_t i = 0; i < e->a.size(); i++) if (e->a[i]->kind == E_ADDR && e->k[i] == 1) return e->a[i]; return nullptr; };
    EP aa = addr(a), bb = addr(b); hasA = aa && bb;
    if (hasA && aa == bb) { EP d = mkSub(a, aa), f = mkSub(b, bb); return mkCmpC(p == C_ULT ? C_SLT : p, d, f); }
    if (p == C_EQ) {
      if (hasA && aa != bb) return mkConst(0, 1);
      if ((aa && isC(b)) || (bb && isC(a))) return mkConst(0, 1);
      if (a->kind == E_OP && b->kind == E_OP && a->op == b->op && (a->op == O_ZEXT || a->op == O_SEXT) && a->a[0]->w == b->a[0]->w) return mkCmpC(C_EQ, a->a[0], b->a[0]);
      if (w > 1 && w <= 128 && !aa && !bb) { // compare piecewise
        auto structured = [](EP e) { std::vector<Field> f; u128 C = 0; return ((e->kind == E_LIN && fields(e, f, &C)) || (e->kind == E_OP && (e->op == O_ZEXT || e->op == Instruction::LShr))); };
        if (structured(a) || structured(b)) {
          std::vector<Bit> x, y; bitsOf(a, x, 0); bitsOf(b, y, 0); struct Seg { unsigned at, len; }; std::vector<Seg> sg; bool diff = false;
          for (unsigned i = 0; i < w; i++) { if (!x[i].base && !y[i].base) { if (x[i].i != y[i].i) diff = true; continue; } if (x[i].base == y[i].base && x[i].i == y[i].i) continue;
            bool cont = !sg.empty() && sg.back().at + sg.back().len == i && ((!x[i].base && !x[i - 1].base) || (x[i].base && x[i].base == x[i - 1].base && x[i].i == x[i - 1].i + 1)) && ((!y[i].base && !y[i - 1].base) || (y[i].base && y[i].base == y[i - 1].base && y[i].i == y[i - 1].i + 1));
            if (cont) sg.back().len++; else sg.push_back({i, 1}); }
          if (diff) return mkConst(0, 1);
          if (sg.empty()) return mkConst(1, 1);
          if (sg.size() > 1 || sg[0].len < w) { EP r = mkConst(1, 1); for (auto& q : sg) { auto part = [&](std::vector<Bit>& z) { std::vector<Bit> t(z.begin() + q.at, z.begin() + q.at + q.len); std::vector<Run> rr; u128 C; runsOf(t, rr, C); return buildRuns(rr, C, q.len); }; r = mkBin(Instruction::And, r, mkCmpC(C_EQ, part(x), part(y))); } return r; }
        } }
      EP d = mkSub(a, b); if (isC(d)) return mkConst(d->c == 0, 1);
      // zext(x) == const
      for (int s = 0; s < 2; s++) { EP x = s ? b : a, y = s ? a : b; if (isC(y) && x->kind == E_OP && x->op == O_ZEXT) { EP z = x->a[0]; if (y->c > maskw(z->w)) return mkConst(0, 1); return mkCmpC(C_EQ, z, mkConst(y->c, z->w)); } }
      for (int s = 0; s < 2; s++) { EP x = s ? b : a, y = s ? a : b; if (isC(y) && x->w == 1) return y->c ? x : mkNot(x); }
      if (d->kind == E_LIN && d->a.size() <= 2) { // canonical form   t == rest
        EP t = nullptr; i128 k = 0; for (size_t i = 0; i < d->a.size(); i++) if (d->k[i] == 1 || d->k[i] == -1) { t = d->a[i]; k = d->k[i]; break; }
        if (t) { LinB l; l.w = w; l.c0 = 0; addTo(l, d, -k); addTo(l, t, 1); EP rest = finLin(l); a = t; b = rest; }
      }
      if (a->id > b->id) std::swap(a, b);
    } else if (p == C_ULT) {
      if (isC(b, 0)) return mkConst(0, 1);
      if (isC(b, 1)) return mkCmpC(C_EQ, a, mkConst(0, w));
      if (isC(a, 0)) return mkNot(mkCmpC(C_EQ, b, mkConst(0, w)));
      if (a->kind == E_OP && b->kind == E_OP && a->op == O_ZEXT && b->op == O_ZEXT && a->a[0]->w == b->a[0]->w) return mkCmpC(C_ULT, a->a[0], b->a[0]);
    } else {
      if (a->kind == E_OP && b->kind == E_OP && a->op == b->op && a->a[0]->w == b->a[0]->w) { if (a->op == O_SEXT) return mkCmpC(C_SLT, a->a[0], b->a[0]); if (a->op == O_ZEXT) return mkCmpC(C_ULT, a->a[0], b->a[0]); }
      // distances (x - y < 0 on cancelled pointers) stay as they are
    }
  }
  Expr e; e.kind = E_CMP; e.w = 1; e.op = p; e.a = {a, b}; return P.get(e);
}

EP mkCmp(CmpInst::Predicate p, EP a, EP b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkCmpC(C_EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkCmpC(C_EQ, a, b));
  case CmpInst::ICMP_ULT: return mkCmpC(C_ULT, a, b); case CmpInst::ICMP_UGT: return mkCmpC(C_ULT, b, a);
  case CmpInst::ICMP_ULE: return mkNot(mkCmpC(C_ULT, b, a)); case CmpInst::ICMP_UGE: return mkNot(mkCmpC(C_ULT, a, b));
  case CmpInst::ICMP_SLT: return mkCmpC(C_SLT, a, b); case CmpInst::ICMP_SGT: return mkCmpC(C_SLT, b, a);
  case CmpInst::ICMP_SLE: return mkNot(mkCmpC(C_SLT, b, a)); case CmpInst::ICMP_SGE: return mkNot(mkCmpC(C_SLT, a, b));
  default: return mkOp(5000 + p, {a, b}, 1);
  }
}

static std::string s128(i128 v) { if (v < 0) return "-" + s128(-v); std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; }
std::string str(EP e, int d) {
  if (!e) return "_"; if (d > 4) return "..";
  switch (e->kind) {
  case E_CONST: return s128(sextw(e->c, e->w)); case E_SYM: return (e->name.empty() ? "s" : e->name) + "#" + std::to_string(e->id); case E_ADDR: return "&R" + std::to_string(e->key);
  case E_LIN: { std::string s = "("; for (size_t i = 0; i < e->a.size(); i++) s += (i ? "+" : "") + (e->k[i] == 1 ? "" : s128(e->k[i]) + "*") + str(e->a[i], d + 1); if (e->c) s += "+" + s128(sextw(e->c, e->w)); return s + ")"; }
  case E_NOT: return "!" + str(e->a[0], d + 1);
  case E_CMP: return "(" + str(e->a[0], d + 1) + (e->op == C_EQ ? "==" : e->op == C_ULT ? "<u" : "<s") + str(e->a[1], d + 1) + ")";
  default: { std::string s = e->kind == E_OP ? (e->op == O_ZEXT ? "zext" : e->op == O_SEXT ? "sext" : e->op == O_TRUNC ? "trunc" : std::string("op") + std::to_string(e->op)) : e->kind == E_AGG ? "agg" : "blob"; s += "["; for (auto x : e->a) s += str(x, d + 1) + ","; return s + "]"; }
  }
}
void collect(EP e, std::vector<EP>& syms, std::vector<int>& regions) {
  if (!e) return; if (e->kind == E_SYM) syms.push_back(e); else if (e->kind == E_ADDR) regions.push_back((int)e->key);
  for (auto x : e->a) collect(x, syms, regions);
}
bool containsSym(EP e, EP s) { if (e == s) return true; for (auto x : e->a) if (containsSym(x, s)) return true; return false; }
EP substitute(EP e, EP s, EP by, std::unordered_map<EP, EP>& memo) {
  if (!e) return e; if (e == s) return by; if (e->a.empty()) return e;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool ch = false; std::vector<EP> n; for (auto x : e->a) { auto y = substitute(x, s, by, memo); ch |= y != x; n.push_back(y); }
  EP r = e;
  if (ch) switch (e->kind) {
  case E_LIN: { LinB l; l.w = e->w; l.c0 = e->c; for (size_t i = 0; i < n.size(); i++) addTo(l, n[i], e->k[i]); r = finLin(l); break; }
  case E_NOT: r = mkNot(n[0]); break;
  case E_CMP: r = mkCmpC((CP)e->op, n[0], n[1]); break;
  case E_AGG: r = mkAgg(n); break;
  case E_OP: if (e->op == O_ZEXT || e->op == O_SEXT || e->op == O_TRUNC) r = mkCast(e->op, n[0], e->w); else if (n.size() == 2 && e->op < 1000 && e->key == 0) r = mkBin(e->op, n[0], n[1]); else r = mkOp(e->op, n, e->w, e->key); break;
  default: break;
  }
  memo[e] = r; return r;
}
