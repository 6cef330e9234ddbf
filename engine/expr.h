// Hash-consed terms of the abstract domain: constants, symbols, region
// addresses, linear combinations and uninterpreted operations.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/IR/ConstantRange.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instruction.h>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <cstdint>
#include <algorithm>

typedef __int128 i128;
typedef unsigned __int128 u128;

enum EK : uint8_t { E_CONST, E_SYM, E_ADDR, E_LIN, E_OP, E_CMP, E_NOT, E_AGG, E_BLOB };
enum CP : uint8_t { C_EQ, C_ULT, C_SLT };
enum OPK : uint32_t { O_ZEXT = 1000, O_SEXT, O_TRUNC, O_FN, O_SELECT };

struct Expr {
  EK kind; uint16_t w = 0; u128 c = 0; uint32_t op = 0;
  std::vector<const Expr*> a; std::vector<i128> k;
  uint64_t key = 0; uint32_t id = 0; std::string name; bool ptr = false, uninit = false;
};
typedef const Expr* EP;

inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ m)) - (i128)m; }

struct Pool {
  std::unordered_map<uint64_t, std::vector<Expr*>> tab; uint32_t next = 1;
  static bool same(const Expr& x, const Expr& y) { return x.kind == y.kind && x.w == y.w && x.c == y.c && x.op == y.op && x.key == y.key && x.a == y.a && x.k == y.k && x.uninit == y.uninit; }
  EP get(Expr e) {
    uint64_t h = hmix(e.kind * 131 + e.w, (uint64_t)e.c); h = hmix(h, (uint64_t)(e.c >> 64)); h = hmix(h, e.op); h = hmix(h, e.key);
    for (auto x : e.a) h = hmix(h, x->id); for (auto x : e.k) h = hmix(h, (uint64_t)x);
    auto& v = tab[h]; for (auto p : v) if (same(*p, e)) { return p; }
    e.id = next++; auto p = new Expr(std::move(e)); v.push_back(p); return p;
  }
};
extern Pool P;

inline EP mkConst(u128 v, unsigned w) { Expr e; e.kind = E_CONST; e.w = w; e.c = v & maskw(w); return P.get(e); }
inline EP mkSym(uint64_t key, unsigned w, bool ptr, const std::string& nm, bool uninit = false) { Expr e; e.kind = E_SYM; e.w = w; e.key = key; e.ptr = ptr; e.name = nm; e.uninit = uninit; auto r = P.get(e); if (ptr) const_cast<Expr*>(r)->ptr = true; return r; }
inline EP mkAddr(int region) { Expr e; e.kind = E_ADDR; e.w = 64; e.key = region; e.ptr = true; return P.get(e); }
inline EP mkAgg(std::vector<EP> v) { Expr e; e.kind = E_AGG; e.a = std::move(v); return P.get(e); }
inline bool isC(EP e) { return e->kind == E_CONST; }
inline bool isC(EP e, u128 v) { return e->kind == E_CONST && e->c == v; }
inline EP mkOp(uint32_t op, std::vector<EP> a, unsigned w, uint64_t key = 0) { Expr e; e.kind = E_OP; e.op = op; e.a = std::move(a); e.w = w; e.key = key; return P.get(e); }

struct LinB { u128 c0 = 0; unsigned w; std::map<uint32_t, std::pair<EP, i128>> t; };
inline void addTo(LinB& l, EP e, i128 k) {
  k = sextw((u128)k, l.w); if (k == 0) return;
  if (e->kind == E_CONST) { l.c0 += e->c * (u128)k; return; }
  if (e->kind == E_LIN) { l.c0 += e->c * (u128)k; for (size_t i = 0; i < e->a.size(); i++) addTo(l, e->a[i], e->k[i] * k); return; }
  auto& p = l.t[e->id]; p.first = e; p.second = sextw((u128)(p.second + k), l.w); if (p.second == 0) l.t.erase(e->id);
}
inline EP finLin(LinB& l) {
  l.c0 &= maskw(l.w);
  if (l.t.empty()) return mkConst(l.c0, l.w);
  if (l.t.size() == 1 && l.c0 == 0 && l.t.begin()->second.second == 1) return l.t.begin()->second.first;
  Expr e; e.kind = E_LIN; e.w = l.w; e.c = l.c0; for (auto& p : l.t) { e.a.push_back(p.second.first); e.k.push_back(p.second.second); }
  return P.get(e);
}
inline EP mkAdd(EP a, EP b) { LinB l; l.w = a->w; addTo(l, a, 1); addTo(l, b, 1); return finLin(l); }
inline EP mkSub(EP a, EP b) { LinB l; l.w = a->w; addTo(l, a, 1); addTo(l, b, -1); return finLin(l); }
inline EP mkMulC(EP a, i128 k) { LinB l; l.w = a->w; addTo(l, a, k); return finLin(l); }
inline EP mkNot(EP a) { if (isC(a)) return mkConst(!a->c, 1); if (a->kind == E_NOT) return a->a[0]; Expr e; e.kind = E_NOT; e.w = 1; e.a = {a}; return P.get(e); }

#include <set>
inline std::set<uint64_t> gFnRegions; // addresses of functions are even
EP mkCast(uint32_t op, EP a, unsigned w);
EP mkBin(unsigned opcode, EP a, EP b);
EP mkConcat(const std::vector<EP>& pieces, unsigned w); // lowest piece first
EP mkExtract(EP e, unsigned lo, unsigned len);
EP mkCmp(llvm::CmpInst::Predicate p, EP a, EP b);
EP mkCmpC(CP p, EP a, EP b);
std::string str(EP e, int depth = 0);
void collect(EP e, std::vector<EP>& syms, std::vector<int>& regions);
bool containsSym(EP e, EP s);
EP substitute(EP e, EP s, EP by, std::unordered_map<EP, EP>& memo);
