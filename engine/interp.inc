// ---------------------------------------------------------------- worklist
typedef std::vector<int> Pos;
static std::map<Pos, std::vector<SS>> WQ;
struct Visited { Facts fx; };
static std::unordered_map<uint64_t, std::vector<std::pair<uint64_t, SP<Facts>>>> VIS;
static bool gLeakOn = true;
// exploded graph of the queued states: a state from which no end of a path can be reached is in a loop that nothing leaves
struct Node { Instruction* at; std::vector<int> pred; bool end = false; };
static std::vector<Node> NODES; static long nPushed = 0;
static void setEnd(const State& s) { if (s.node >= 0) NODES[s.node].end = true; }


static Pos posOf(const State& s) { Pos p; for (auto& f : s.st) { p.push_back((int)(f->f->id & 0x7fffffff)); p.push_back(f->ip); } return p; }
// order: compare instruction positions; function ids only break ties
static void gc(State& s, bool atEnd = false) {
  std::vector<char> mark(RI.size(), 0); std::vector<int> wl; std::vector<EP> sy; std::vector<int> rg; std::set<EP> seen;
  std::function<void(EP)> root = [&](EP e) { if (!e || e->kind == E_CONST || e->kind == E_SYM || e->kind == E_BLOB) return; if (e->kind == E_ADDR) { int r = (int)e->key; if (!mark[r]) { mark[r] = 1; wl.push_back(r); } return; } for (auto x : e->a) root(x); };
  for (auto* stk : {&s.st, &s.parked}) for (auto& f : *stk) { for (auto v : f->regs) root(v); for (int a : f->allocas) if (!mark[a]) { mark[a] = 1; wl.push_back(a); } }
  for (auto& p : s.fx.subst) root(p.second);
  for (int c : s.caught) if (!mark[c]) { mark[c] = 1; wl.push_back(c); } if (s.curExc >= 0 && !mark[s.curExc]) { mark[s.curExc] = 1; wl.push_back(s.curExc); }
  for (auto& m : s.mem) if ((RI[m.first].kind == R_GLOBAL || RI[m.first].kind == R_SYM) && !mark[m.first]) { mark[m.first] = 1; wl.push_back(m.first); }
  while (!wl.empty()) { int r = wl.back(); wl.pop_back(); auto it = s.mem.find(r); if (it == s.mem.end()) continue; for (auto& c : it->second->cells) root(c.second.v); for (auto& c : it->second->sc) { root(c.v); root(c.off); } }
  for (auto it = s.mem.begin(); it != s.mem.end();) { int r = it->first; if (!mark[r]) {
      if (gLeakOn && RI[r].kind == R_HEAP && !it->second->freed && !it->second->summary) report(s, "mem.leak", "heap object allocated at " + RI[r].site + " becomes unreachable without being freed");
      it = s.mem.erase(it); } else ++it; }
}
static std::pair<uint64_t, uint64_t> keyOf(const State& s) {
  uint64_t a = 11, b = 1234567; auto add = [&](uint64_t v) { a = hmix(a, v); b = hmix(b ^ 0x1234, v * 3 + 1); };
  for (auto* stk : {&s.st, &s.parked}) { add(stk->size()); for (auto& f : *stk) { add(f->f->id); add(f->ip); add((uint64_t)(uintptr_t)f->call); for (size_t i = 0; i < f->regs.size(); i++) if (f->regs[i]) { add(i); add(f->regs[i]->id); } add(0xfffff); } }
  for (auto& m : s.mem) { auto& R = *m.second; if (RI[m.first].kind == R_FUNC) continue; add(m.first); add(R.freed * 2 + R.summary * 4 + R.def * 8); add(R.epoch); for (auto& c : R.cells) { add(c.first); add(c.second.size); add(c.second.v->id); } for (auto& c : R.sc) { add(c.off->id); add(c.v->id); } }
  for (int c : s.caught) add(c); add(s.curExc + 1); return {a, b};
}
static bool implies(const Facts& strong, const Facts& weak) { // every fact of weak holds in strong
  for (auto& p : weak.rng) { auto it = strong.rng.find(p.first); if (it == strong.rng.end()) return false; if (!p.second.contains(it->second)) return false; }
  for (auto& p : weak.truth) { auto it = strong.truth.find(p.first); if (it == strong.truth.end() || it->second != p.second) return false; }
  for (auto& p : weak.subst) { auto it = strong.subst.find(p.first); if (it == strong.subst.end() || it->second != p.second) return false; }
  return true;
}
static Facts joinF(const Facts& x, const Facts& y) {
  Facts r; for (auto& p : x.rng) { auto it = y.rng.find(p.first); if (it != y.rng.end()) { auto u = p.second.unionWith(it->second); if (!u.isFullSet()) r.rng.emplace(p.first, u); } }
  for (auto& p : x.truth) { auto it = y.truth.find(p.first); if (it != y.truth.end() && it->second == p.second) r.truth.insert(p); }
  for (auto& p : x.subst) { auto it = y.subst.find(p.first); if (it != y.subst.end() && it->second == p.second) r.subst.insert(p); }
  return r;
}
static void push(SS s) { if (s->dead) { setEnd(*s); return; } nPushed++; WQ[posOf(*s)].push_back(s); }
static SS forkS(State& s) { s.forks++; nStates++; auto n = std::make_shared<State>(s); return n; }

static EP eval(State& s, Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return evalConst(c);
  const Frame& f = s.ctop(); auto it = f.f->num.find(v); if (it == f.f->num.end()) return mkSym(hstr("meta"), 64, true, "meta");
  EP e = f.regs[it->second]; if (!e) { return mkSym(hstr("unset"), v->getType()->isSized() ? tyBits(v->getType()) : 64, false, "unset"); } return e;
}
static void setReg(State& s, Instruction* I, EP e) { if (I->getType()->isVoidTy()) return; Frame& f = s.top(); f.regs[f.f->num[I]] = e; }
static void setRegAt(State& s, EP e) { Frame& f = s.top(); Instruction* I = f.f->ins[f.ip]; if (!I->getType()->isVoidTy()) f.regs[f.f->num[I]] = e; }
static std::string cstr(State& s, EP p) { int r; EP off; std::string o; if (resolve(s, p, r, off) || !isC(off)) return "?"; if (!s.mem.count(r) && !ensureRegion(s, r)) return "?"; for (int64_t i = (int64_t)off->c; i < (int64_t)off->c + 400; i++) { EP c = loadBytes(s, r, mkConst((u128)i, 64), 1, false); if (!isC(c)) return o.empty() ? "?" : o; if (!c->c) break; o += (char)c->c; } return o; }

// widening -------------------------------------------------------------
static ConstantRange widenRange(const ConstantRange& o, const ConstantRange& n) {
  unsigned w = o.getBitWidth(); if (o.isEmptySet() || n.isEmptySet()) return ConstantRange::getFull(w);
  if (!o.isSignWrappedSet() && !n.isSignWrappedSet()) {
    APInt lo = o.getSignedMin(), hi = o.getSignedMax(), nl = n.getSignedMin(), nh = n.getSignedMax();
    if (nl.slt(lo)) lo = (lo.sge(0) && nl.sge(0)) ? APInt(w, 0) : APInt::getSignedMinValue(w); if (nh.sgt(hi)) hi = APInt::getSignedMaxValue(w);
    return ConstantRange::getNonEmpty(lo, hi + 1);
  }
  return ConstantRange::getFull(w);
}
static EP widenVal(State& s, uint64_t k, EP o, EP n, const std::map<EP, ConstantRange>& orng, std::vector<EP>& newSyms, std::vector<std::pair<EP, ConstantRange>>& newR) {
  if (o == n) return n; if (!o || !n) return n;
  if (o->kind == E_AGG && n->kind == E_AGG && o->a.size() == n->a.size()) { Vals v; for (size_t i = 0; i < o->a.size(); i++) v.push_back(widenVal(s, hmix(k, i + 1), o->a[i], n->a[i], orng, newSyms, newR)); return mkAgg(v); }
  if (o->w != n->w || o->kind == E_AGG || n->kind == E_AGG || o->kind == E_BLOB || n->kind == E_BLOB) { EP x = mkSym(hmix(k, 5), n->w ? n->w : 64, n->ptr, "wid"); newSyms.push_back(x); return x; }
  auto base = [&](EP e) -> EP { if (e->kind == E_ADDR) return e; if (e->kind == E_LIN) for (size_t i = 0; i < e->a.size(); i++) if (e->a[i]->kind == E_ADDR && e->k[i] == 1) return e->a[i]; return nullptr; };
  EP bo = base(o), bn = base(n); EP x = mkSym(k, n->w, n->ptr && !bn, "w"); newSyms.push_back(x);
  if (bo && bo == bn) { Facts fo; fo.rng = orng; EP d1 = mkSub(o, bo), d2 = mkSub(n, bn); newR.push_back({x, widenRange(range(fo, d1), range(s.fx, d2))}); return mkAdd(bn, x); }
  if (n->w && n->w <= 128 && !bo && !bn) { Facts fo; fo.rng = orng; newR.push_back({x, widenRange(range(fo, o), range(s.fx, n))}); }
  return x;
}
static void widen(State& s, int bb, const Snapshot& sn) {
  nWiden++; Frame& f = s.top(); uint64_t base = hmix(hmix(f.ctx, f.f->id), bb + 0x1000); std::vector<EP> ns; std::vector<std::pair<EP, ConstantRange>> nr;
  Vals regs = f.regs; std::vector<std::pair<int, SP<Region>>> upd;
  for (size_t i = 0; i < regs.size(); i++) if (regs[i] && i < sn.regs.size() && sn.regs[i] && regs[i] != sn.regs[i]) regs[i] = widenVal(s, hmix(base, i), sn.regs[i], regs[i], sn.rng, ns, nr);
  for (auto& m : s.mem) {
    if (RI[m.first].ghost) continue; auto it = sn.mem.find(m.first); if (it == sn.mem.end() || it->second == m.second) continue; const Region &O = *it->second, &N = *m.second; auto R = std::make_shared<Region>(N); uint64_t rk = hmix(base, RI[m.first].key); bool ch = false;
    if (O.freed != N.freed) { R->freed = false; R->summary = true; ch = true; }
    if (O.epoch != N.epoch || O.def != N.def) { if (!(N.def == D_UNINIT && O.def == D_UNINIT)) { R->def = D_SYMB; R->epoch = hmix(rk, 3); ch = true; } }
    bool scd = O.sc.size() != N.sc.size(); if (!scd) for (size_t i = 0; i < O.sc.size(); i++) if (O.sc[i].off != N.sc[i].off || O.sc[i].v != N.sc[i].v) scd = true;
    if (scd) { R->sc.clear(); R->def = D_SYMB; R->epoch = hmix(rk, 4); R->cells.clear(); s.mem[m.first] = m.second; ch = true; upd.push_back({m.first, R}); continue; }
    std::set<int64_t> offs; for (auto& c : O.cells) offs.insert(c.first); for (auto& c : N.cells) offs.insert(c.first);
    for (int64_t o : offs) {
      auto a = O.cells.find(o), b = N.cells.find(o); unsigned size = b != N.cells.end() ? b->second.size : a->second.size; EP vo, vn;
      if (a != O.cells.end() && b != N.cells.end() && a->second.size == b->second.size) { vo = a->second.v; vn = b->second.v; if (vo == vn) continue; }
      else { // one side holds default content
        bool dflt = false; if (size > 16) dflt = true; else { auto rd = [&](const Region& X) { SP<Region> keep = s.mem[m.first]; s.mem[m.first] = std::make_shared<Region>(X); EP e = loadBytes(s, m.first, mkConst((u128)(i128)o, 64), size, false); s.mem[m.first] = keep; return e; }; vo = rd(O); vn = rd(N); }
        if (dflt) { R->def = D_SYMB; R->epoch = hmix(rk, 6); R->cells.erase(o); ch = true; continue; } if (vo == vn) continue;
      }
      // uninitialised before: value established in the loop, keep unknown
      EP wv = (vo->uninit || vn->uninit) ? mkSym(hmix(rk, (uint64_t)o + 99), size * 8, vn->ptr, "w") : widenVal(s, hmix(rk, (uint64_t)o + 100), vo, vn, sn.rng, ns, nr);
      for (auto q = R->cells.begin(); q != R->cells.end();) if (q->first < o + (int64_t)size && q->first + (int64_t)q->second.size > o) q = R->cells.erase(q); else ++q;
      R->cells[o] = {size, wv}; ch = true;
    }
    if (ch) upd.push_back({m.first, R});
  }
  std::set<EP> nset(ns.begin(), ns.end());
  if (!nset.empty()) { // old occurrences of the widening symbols denote previous iterations
    for (EP x : nset) { EP st = mkSym(hmix(x->key, 0x57a1e), x->w, x->ptr, x->name + "'"); std::unordered_map<EP, EP> memo; bool isNew = false; (void)isNew;
      for (auto* stk : {&s.st, &s.parked}) for (auto& fp : *stk) { bool is = fp == s.st.back(); Vals& rv = is ? regs : fp->regs; (void)rv; for (size_t i = 0; i < fp->regs.size(); i++) { EP v = is ? regs[i] : fp->regs[i]; if (!v || !containsSym(v, x)) continue; if (is && (i >= sn.regs.size() || !sn.regs[i] || fp->regs[i] == sn.regs[i])) { regs[i] = substitute(v, x, st, memo); } else if (!is) { auto c = std::make_shared<Frame>(*fp); c->regs[i] = substitute(v, x, st, memo); fp = c; } } }
    }
    dropFactsAbout(s, [&](EP e) { std::vector<EP> sy; std::vector<int> rg; collect(e, sy, rg); for (EP y : sy) if (nset.count(y)) return true; return false; });
  }
  s.top().regs = regs; for (auto& u : upd) s.mem[u.first] = u.second;
  for (auto& p : nr) if (!p.second.isFullSet()) setRange(s.fx, p.first, p.second);
}

// control transfer -------------------------------------------------------
static bool enterBlock(State& s, BasicBlock* to) { // false: state was queued or dropped
  Frame& f = s.top(); FnInfo* fi = f.f; int t = fi->bidx[to]; BasicBlock* from = fi->bbs[f.bb]; int p = f.bb;
  std::vector<std::pair<int, EP>> ph; for (auto& x : to->phis()) ph.push_back({fi->num[&x], eval(s, x.getIncomingValueForBlock(from))});
  Frame& g = s.top(); const BitVector& li = fi->liveIn[t]; for (int i = 0; i < (int)g.regs.size(); i++) if (g.regs[i] && !li.test(i)) g.regs[i] = nullptr;
  for (auto& x : ph) g.regs[x.first] = x.second;
  g.prev = p; g.bb = t; Instruction* I = &to->front(); while (isa<PHINode>(I)) I = I->getNextNode(); g.ip = fi->idx[I];
  if (fi->header.test(t)) {
    bool back = p >= t; auto& rec = g.loops[t]; if (!back) rec = LoopRec(); for (int q : fi->innerHeaders[t]) g.loops.erase(q);
    rec.visits++; bool wide = false; auto prevSnap = rec.snap;
    if (back && prevSnap) { if (s.forks == prevSnap->forks && rec.conc < gConcLimit) rec.conc++; else if (rec.visits > gUnroll) wide = true; }
    if (wide) { gc(s); widen(s, t, *prevSnap); }
    auto sn = std::make_shared<Snapshot>(); Frame& h = s.top(); sn->regs = h.regs; sn->mem = s.mem; sn->rng = s.fx.rng; sn->forks = s.forks; h.loops[t].snap = sn;
    push(std::make_shared<State>(s)); return false;
  }
  if (fi->multi.test(t) && s.forks != g.entryForks) { push(std::make_shared<State>(s)); return false; }
  return true;
}
static void popFrame(State& s) { for (int a : s.top().allocas) s.mem.erase(a); s.st.pop_back(); }
static void describeExc(State& s, int exc, std::string& n) { auto it = s.exc.find(exc); n = it != s.exc.end() && it->second.ti ? demangle(it->second.ti->getName().str()) : "unknown exception"; if (startsWith(n, "typeinfo for ")) n = n.substr(13); }
static void reportAt(State& s, Instruction* I, const std::string& rule, const std::string& msg) {
  Finding f; f.rule = rule; f.msg = msg; f.line = 0;
  if (I) { std::string l = locOf(I); auto c = l.rfind(':'); f.stack.push_back(shortFn(demangle(I->getFunction()->getName().str())) + " at " + l); if (startsWith(l, gRepo + "/") && c != std::string::npos) { f.file = l.substr(0, c); f.line = atoi(l.c_str() + c + 1); f.func = shortFn(demangle(I->getFunction()->getName().str())); } }
  for (auto t = s.tr; t && f.path.size() < 60; t = t->up) f.path.push_back(t->text); std::reverse(f.path.begin(), f.path.end());
  std::string k = rule + "|" + msg + "|" + f.func + "|" + f.file + std::to_string(f.line); if (!findings.count(k)) findings[k] = f;
}
static void uncaught(State& s, int exc) { std::string en; describeExc(s, exc, en); nUncaught++; uncaughtTypes.insert(en); nPaths++; setEnd(s); if (en == "std::bad_alloc" || en == "std::length_error" || en == "std::bad_array_new_length") return; auto x = s.exc.find(exc); reportAt(s, x == s.exc.end() ? nullptr : x->second.from, "uncaught", "an exception (" + en + ") leaves the operation although nothing has failed"); }
// exception leaves the call instruction at the top frame's ip. true: continue at landing pad (block entered)
static bool unwind(State& s, int exc) {
  std::string en; describeExc(s, exc, en);
  if (auto x = s.exc.find(exc); x != s.exc.end() && !x->second.from) for (int i = (int)s.st.size() - 1; i >= 0 && !x->second.from; i--) { Instruction* I = s.st[i]->f->ins[s.st[i]->ip]; if (startsWith(locOf(I), gRepo + "/")) x->second.from = I; }
  while (!s.st.empty()) {
    Frame& f = s.top(); Instruction* I = f.f->ins[f.ip];
    if (auto* inv = dyn_cast<InvokeInst>(I)) {
      auto* lp = inv->getLandingPadInst(); int sel = -1; int64_t adj = 0; GlobalVariable* ti = s.exc.count(exc) ? s.exc[exc].ti : nullptr;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
        if (!lp->isCatch(i)) { if (auto* ca = dyn_cast<Constant>(lp->getClause(i))) if (ca->getType()->isArrayTy() && cast<ArrayType>(ca->getType())->getNumElements() == 0) sel = 0x7fff; continue; }
        Constant* c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) { sel = tid(nullptr); break; }
        auto* want = tiOf(c); if (!want) continue; EP out = mkConst(0, 64); EP o0 = mkAddr(exc); if (!ti) { sel = tid(want); break; }
        if (findBase(s, o0, ti, want, out)) { sel = tid(want); EP d = mkSub(out, o0); if (isC(d)) adj = (int64_t)d->c; }
      }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) { s.curExc = exc; s.curSel = sel; if (s.exc.count(exc)) s.exc[exc].adj = adj; if (f.f->inRepo) note(s, "  unwinding (" + en + ") into " + locOf(I)); return enterBlock(s, inv->getUnwindDest()); }
    }
    popFrame(s);
  }
  uncaught(s, exc); s.dead = true; return false;
}
static int throwNew(State& s, const std::string& tiName) { int r = allocRegion(s, R_EXC, -1, "exception"); auto* g = M->getGlobalVariable(tiName, true); s.exc[r] = {g, 0}; return r; }

enum CR { CR_DONE, CR_PUSHED, CR_DEAD, CR_MOVED };
typedef std::function<CR(State&, CallBase*, Vals&, EP&)> Model;
static std::unordered_map<std::string, Model> MODELS;
static void finishCall(SS& sp, bool& cont);
static CR doThrow(State& s, int exc) { if (unwind(s, exc)) return CR_MOVED; return CR_DEAD; }

static void markFree(State& s, EP p, const char* what) {
  int r; EP off; if (isC(p, 0)) return; int k = resolve(s, p, r, off); if (k) return;
  auto it = s.mem.find(r); if (it == s.mem.end() && !ensureRegion(s, r)) { report(s, "mem.doublefree", "freeing an object whose lifetime has ended"); s.dead = true; return; }
  if (RI[r].kind == R_STACK || RI[r].kind == R_GLOBAL) { report(s, "mem.badfree", "freeing an object that is not on the heap (" + RI[r].name + ")"); s.dead = true; return; }
  if (s.mem[r]->freed && !s.mem[r]->summary) { report(s, "mem.doublefree", "heap object allocated at " + RI[r].site + " is freed twice"); s.dead = true; return; }
  if (RI[r].kind == R_HEAP && isC(off) && off->c != 0) { report(s, "mem.badfree", "freeing an interior pointer"); s.dead = true; return; }
  Region& R = wr(s, r); if (!R.summary) { R.freed = true; R.cells.clear(); R.sc.clear(); }
}
static void copyMem(State& s, EP d, EP sr, EP len) {
  int rd, rs; EP od, os; if (isC(len, 0)) return;
  if (EP c = singleton(s.fx, len)) len = c;
  int k1 = resolve(s, d, rd, od), k2 = resolve(s, sr, rs, os);
  if (k1 == 0 && !isC(len)) { // unknown length: bytes from the start on are unknown
    if (!checkAccess(s, rd, od, 0, true, "write")) return; if (k2 == 0 && !checkAccess(s, rs, os, 0, false, "read")) return;
    if (RI[rd].ghost) return; bool sat; uint64_t k = siteKey(s, sat); Region& R = wr(s, rd);
    if (isC(od)) { std::vector<int64_t> del; for (auto& c : R.cells) if (c.first + (int64_t)c.second.size > (int64_t)od->c) del.push_back(c.first); for (auto o : del) R.cells.erase(o); } else R.cells.clear();
    R.sc.clear(); R.def = D_SYMB; R.epoch = hmix(R.epoch, k); return;
  }
  if (k1 || k2 || !isC(len)) { if (k1 == 1 || k2 == 1) { report(s, "mem.null", "copy through a null pointer"); s.dead = true; } else { nUnkStore++; if (k1 == 0 && isC(od) && isC(len)) havocRange(s, rd, (int64_t)od->c, (int64_t)len->c, 77); } return; }
  unsigned n = (unsigned)len->c; if (!checkAccess(s, rs, os, n, false, "read")) return; if (!checkAccess(s, rd, od, n, true, "write")) return;
  if (!isC(od)) { if (isC(len) && n <= 16) { EP v = loadBytes(s, rs, os, n, false); storeBytes(s, rd, od, n, v); } else { Region& R = wr(s, rd); R.cells.clear(); R.sc.clear(); R.def = D_SYMB; bool sat; R.epoch = siteKey(s, sat); } return; }
  if (!isC(os)) { if (n <= 16) storeBytes(s, rd, od, n, loadBytes(s, rs, os, n, false)); else havocRange(s, rd, (int64_t)od->c, n, hmix(os->id, s.mem[rs]->epoch)); return; }
  // exact copy
  int64_t so = (int64_t)os->c, dO = (int64_t)od->c; SP<Region> src = s.mem[rs]; if (!src->sc.empty()) { havocRange(s, rd, dO, n, hmix(os->id, src->epoch)); return; }
  std::vector<std::pair<int64_t, Cell>> out; int64_t cur = so;
  auto gap = [&](int64_t a, int64_t b) { if (a >= b) return; if (src->def == D_ZERO) { int64_t x = a; while (x < b) { int64_t z = std::min<int64_t>(8, b - x); out.push_back({x, {(unsigned)z, mkConst(0, z * 8)}}); x += z; } return; } Expr e; e.kind = E_BLOB; e.op = src->def; e.c = src->epoch; e.key = rs; e.k = {(i128)a}; out.push_back({a, {(unsigned)(b - a), P.get(e)}}); };
  auto it = src->cells.lower_bound(so); if (it != src->cells.begin()) { auto q = std::prev(it); if (q->first + (int64_t)q->second.size > so) it = q; }
  for (; it != src->cells.end() && it->first < so + (int64_t)n; ++it) {
    int64_t b = it->first, e = b + it->second.size, x = std::max(b, so), y = std::min<int64_t>(e, so + n); gap(cur, x);
    if (x == b && y == e) out.push_back({x, it->second}); else { unsigned z = y - x; EP v = it->second.v; if (v->kind == E_BLOB) { Expr q = *v; q.k = {v->k[0] + (x - b)}; out.push_back({x, {z, P.get(q)}}); } else if (z <= 16) out.push_back({x, {z, extractBytes(s, v, it->second.size, x - b, z, false)}}); else out.push_back({x, {z, mkSym(hmix(v->id, x - b), z * 8, false, "part")}}); }
    cur = y;
  }
  gap(cur, so + n); Region& R = wr(s, rd); if (R.summary) { havocRegion(s, rd, hmix(RI[rd].key, 556)); return; } clearRange(s, rd, R, dO, n); R.sc.clear(); for (auto& p : out) R.cells[p.first - so + dO] = p.second;
}
static void opaqueEffects(State& s, CallBase* cb, Vals& a, Function* callee) {
  bool sat; uint64_t k = siteKey(s, sat); bool constM = callee && callee->getName().startswith("_ZNK");
  for (unsigned i = 0; i < cb->arg_size(); i++) {
    if (!cb->getArgOperand(i)->getType()->isPointerTy()) continue; if (i == 0 && constM && !cb->paramHasAttr(0, Attribute::StructRet)) continue;
    if (cb->paramHasAttr(i, Attribute::ReadOnly) || cb->paramHasAttr(i, Attribute::ReadNone)) continue;
    uint64_t n = cb->getParamDereferenceableBytes(i); if (!n && callee && i < callee->arg_size()) n = callee->getArg(i)->getDereferenceableBytes(); if (auto* t = cb->getParamStructRetType(i)) n = DL->getTypeAllocSize(t);
    if (!n) continue; int r; EP off; if (a[i]->kind == E_CONST || resolve(s, a[i], r, off)) continue; if (!s.mem.count(r) && !ensureRegion(s, r)) continue; if (RI[r].kind == R_GLOBAL && RI[r].gv && RI[r].gv->isConstant()) continue; if (RI[r].kind == R_FUNC) continue;
    if (!checkAccess(s, r, off, 0, true, "use")) return;
    // parameters that are references to const keep their value (no way to see constness in IR: use the mangled name)
    if (i > 0 && callee && callee->getName().contains("RK")) continue;
    if (isC(off)) havocRange(s, r, (int64_t)off->c, n, hmix(k, i)); else havocRegion(s, r, hmix(k, i));
  }
}
static bool isOpaque(FnInfo* f) {
  static std::map<FnInfo*, bool> c; auto it = c.find(f); if (it != c.end()) return it->second; bool r = false;
  for (auto& p : gOpaque) if (startsWith(f->dem, p)) r = true; for (auto& p : gTransparent) if (startsWith(f->dem, p)) r = false; return c[f] = r;
}
static bool isThreadCall(CallBase* cb) { auto* f = cb ? cb->getCalledFunction() : nullptr; return f && (f->getName() == "vf_spawn" || f->getName() == "vf_resume"); }
static void enterFunction(State& s, CallBase* cb, Function* F, Vals& args) {
  FnInfo* fi = info(F); Frame& cf = s.top(); auto& cnt = cf.counts[cf.ip]; auto nf = std::make_shared<Frame>(); nf->f = fi; nf->call = cb; nf->sat = cf.sat || cnt >= 24; nf->ctx = hmix(hmix(hmix(cf.ctx, cf.f->id), cf.ip), cnt); if (cnt < 24) cnt++;
  nf->regs.assign(fi->nvals, nullptr); for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++) { nf->regs[fi->num[F->getArg(i)]] = args[i]; if (F->getArg(i)->getType()->isPointerTy() && args[i]->kind == E_SYM) const_cast<Expr*>(args[i])->ptr = true; }
  // byval copies
  for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++) if (Type* t = F->getArg(i)->getParamByValType()) { s.st.back(); int r = allocRegion(s, R_STACK, DL->getTypeAllocSize(t), "byval"); copyMem(s, mkAddr(r), args[i], mkConst(DL->getTypeAllocSize(t), 64)); nf->regs[fi->num[F->getArg(i)]] = mkAddr(r); nf->allocas.push_back(r); }
  nf->bb = 0; nf->ip = 0; nf->entryForks = s.forks; s.st.push_back(nf);
  if (fi->inRepo) { repoFns.insert(fi->dem + " (" + fi->file.substr(gRepo.size() + 1) + ":" + std::to_string(fi->line) + ")"); }
  if (fi->header.test(0)) { /* entry block is never a loop header in practice */ }
}
static CR handleCall(State& s, CallBase* cb, EP& ret) {
  Vals a; for (auto& x : cb->args()) a.push_back(x->getType()->isMetadataTy() ? mkConst(0, 64) : eval(s, x));
  Value* cv = cb->getCalledOperand()->stripPointerCasts(); Function* F = dyn_cast<Function>(cv); if (auto* ga = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
  if (!F) {
    if (isa<InlineAsm>(cv)) { ret = freshTy(s, cb->getType(), "asm"); return CR_DONE; }
    EP t = eval(s, cv); if (isC(t)) { report(s, "mem.null", "call through a null function pointer"); return CR_DEAD; }
    if (t->kind == E_ADDR && RI[t->key].fn) F = RI[t->key].fn; else { unmodelled.insert("indirect call at " + locOf(cb)); opaqueEffects(s, cb, a, nullptr); if (s.dead) return CR_DEAD; ret = freshTy(s, cb->getType(), "icall"); return CR_DONE; }
  }
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::pseudoprobe: return CR_DONE;
    case Intrinsic::invariant_start: ret = mkConst(0, 64); return CR_DONE; case Intrinsic::invariant_end: return CR_DONE;
    case Intrinsic::stacksave: ret = mkConst(0, 64); return CR_DONE;
    case Intrinsic::lifetime_start: { int r; EP off; if (resolve(s, a[1], r, off) == 0 && RI[r].kind == R_STACK) { bool live = s.mem.count(r); if (!live || isC(off, 0)) { auto p = std::make_shared<Region>(); p->epoch = hmix(RI[r].key, 5); s.mem[r] = p; } } return CR_DONE; }
    case Intrinsic::lifetime_end: { int r; EP off; if (resolve(s, a[1], r, off) == 0 && RI[r].kind == R_STACK) { s.mem.erase(r); } return CR_DONE; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(s, a[0], a[1], a[2]); return s.dead ? CR_DEAD : CR_DONE;
    case Intrinsic::memset: { int r; EP off; if (isC(a[2], 0)) return CR_DONE; int k = resolve(s, a[0], r, off); if (k) { nUnkStore++; return CR_DONE; } if (EP c = singleton(s.fx, a[2])) a[2] = c; if (!checkAccess(s, r, off, isC(a[2]) ? (unsigned)a[2]->c : 0, true, "write")) return CR_DEAD; if (RI[r].ghost && !(isC(a[2]) && isC(off))) return CR_DONE; if (isC(a[2]) && isC(off) && isC(a[1])) { int64_t o = (int64_t)off->c, n = (int64_t)a[2]->c; Region& R = wr(s, r); clearRange(s, r, R, o, n); R.sc.clear(); if (n > 4096 && isC(a[1], 0) && R.cells.empty() && o == 0) { R.def = D_ZERO; } else if (n <= 65536) { int64_t x = o; while (x < o + n) { int64_t z = std::min<int64_t>(8, o + n - x); u128 v = 0; for (int i = 0; i < z; i++) v |= (a[1]->c & 255) << (i * 8); R.cells[x] = {(unsigned)z, mkConst(v, z * 8)}; x += z; } } else havocRange(s, r, o, n, 3); } else { bool sat; uint64_t k2 = siteKey(s, sat); Region& R = wr(s, r); std::vector<int64_t> del; for (auto& c : R.cells) if (!isC(off) || c.first + (int64_t)c.second.size > (int64_t)off->c) del.push_back(c.first); for (auto o : del) R.cells.erase(o); R.sc.clear(); R.def = D_SYMB; R.epoch = hmix(R.epoch, k2); } return CR_DONE; }
    case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: ret = a[0]; return CR_DONE;
    case Intrinsic::assume: if (!assumeT(s, a[0], true) || s.dead) return CR_DEAD; return CR_DONE;
    case Intrinsic::eh_typeid_for: { auto* c = dyn_cast<Constant>(cb->getArgOperand(0)); ret = mkConst(isa<ConstantPointerNull>(c) ? tid(nullptr) : tid(tiOf(c)), 32); return CR_DONE; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: return CR_DEAD;
    case Intrinsic::is_constant: ret = mkConst(0, 1); return CR_DONE; case Intrinsic::objectsize: ret = mkConst(~(u128)0, tyBits(cb->getType())); return CR_DONE;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: break;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w = a[0]->w; EP v, o; auto id = F->getIntrinsicID(); bool add = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow, sub = id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow, sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      v = add ? mkAdd(a[0], a[1]) : sub ? mkSub(a[0], a[1]) : mkBin(Instruction::Mul, a[0], a[1]); auto x = range(s.fx, a[0]), y = range(s.fx, a[1]);
      ConstantRange::OverflowResult orr = ConstantRange::OverflowResult::MayOverflow; if (add) orr = sg ? x.signedAddMayOverflow(y) : x.unsignedAddMayOverflow(y); else if (sub) orr = sg ? x.signedSubMayOverflow(y) : x.unsignedSubMayOverflow(y); else if (!sg) orr = x.unsignedMulMayOverflow(y);
      if (orr == ConstantRange::OverflowResult::NeverOverflows) o = mkConst(0, 1); else if (orr != ConstantRange::OverflowResult::MayOverflow) o = mkConst(1, 1); else if (add && !sg) o = mkCmpC(C_ULT, v, a[0]); else if (sub && !sg) o = mkCmpC(C_ULT, a[0], a[1]); else o = mkOp(8000 + id, {a[0], a[1]}, 1);
      (void)w; ret = mkAgg({v, o}); return CR_DONE; }
    default: break;
    }
    Vals k = a; ret = cb->getType()->isVoidTy() ? nullptr : cb->getType()->isStructTy() ? freshTy(s, cb->getType(), "intr") : mkOp(7000 + F->getIntrinsicID(), k, tyBits(cb->getType())); return CR_DONE;
  }
  std::string nm = F->getName().str(); FnInfo* fi = info(F); auto mi = MODELS.find(nm); if (mi != MODELS.end() && !(!F->isDeclaration() && fi->file.find("/harness/") != std::string::npos)) return mi->second(s, cb, a, ret);
  if (!F->isDeclaration() && !isOpaque(fi)) {
    int rec = 0; for (auto& f : s.st) if (f->f == fi) rec++; if (rec < 6 && (int)s.st.size() < gMaxDepth) { enterFunction(s, cb, F, a); return CR_PUSHED; } cuts.insert(fi->dem);
  } else if (F->isDeclaration()) unmodelled.insert(fi->dem); else havocked.insert(fi->dem);
  if (F->doesNotReturn() ) { if (startsWith(fi->dem, "std::__throw_")) { static const std::map<std::string, std::string> m = {{"std::__throw_length_error", "_ZTISt12length_error"}, {"std::__throw_bad_alloc", "_ZTISt9bad_alloc"}, {"std::__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"std::__throw_out_of_range_fmt", "_ZTISt12out_of_range"}, {"std::__throw_out_of_range", "_ZTISt12out_of_range"}, {"std::__throw_logic_error", "_ZTISt11logic_error"}, {"std::__throw_bad_function_call", "_ZTISt17bad_function_call"}}; auto it = m.find(fi->dem); return doThrow(s, throwNew(s, it == m.end() ? "_ZTISt9exception" : it->second)); } return CR_DEAD; }
  opaqueEffects(s, cb, a, F); if (s.dead) return CR_DEAD;
  if (cb->getType()->isPointerTy() && a.size() && a[0]->kind != E_CONST) { auto e = fi->dem; for (const char* k : {"operator<<", "operator=", "operator+=", "append", "assign"}) if (e.find(k) != std::string::npos) { ret = a[0]; return CR_DONE; } }
  ret = freshTy(s, cb->getType(), fi->dem.substr(0, 40)); return CR_DONE;
}

// after a call completed normally with value ret (top frame's ip is at the call)
static bool completeCall(State& s, CallBase* cb, EP ret) { if (ret && !cb->getType()->isVoidTy()) { unsigned w = cb->getType()->isStructTy() ? 0 : tyBits(cb->getType()); if (w && ret->kind != E_AGG && ret->w != w) ret = asWidth(ret, w); setReg(s, cb, ret); } if (auto* inv = dyn_cast<InvokeInst>(cb)) { Frame& f = s.top(); f.bb = f.f->bidx[cb->getParent()]; return enterBlock(s, inv->getNormalDest()); } s.top().ip++; return true; }

static void run(SS sp) {
  while (true) {
    State& s = *sp; if (s.dead) return; if (nSteps++ > gMaxSteps || nStates > gMaxStates || ((nSteps & 2047) == 0 && overBudget())) { budget = true; return; }
    Frame& f = s.top(); Instruction* I = f.f->ins[f.ip]; f.bb = f.f->bidx[I->getParent()];
    switch (I->getOpcode()) {
    case Instruction::Alloca: { auto* ai = cast<AllocaInst>(I); EP n = eval(s, ai->getArraySize()); int64_t sz = isC(n) ? (int64_t)(DL->getTypeAllocSize(ai->getAllocatedType()) * (uint64_t)n->c) : -1; int r = allocRegion(s, R_STACK, sz, ai->getName().str()); s.top().allocas.push_back(r); setReg(s, I, mkAddr(r)); s.top().ip++; break; }
    case Instruction::Load: { EP v = loadTy(s, eval(s, I->getOperand(0)), I->getType()); if (s.dead) return; setReg(s, I, v); s.top().ip++; break; }
    case Instruction::Store: { auto* st = cast<StoreInst>(I); EP v = eval(s, st->getValueOperand()), p = eval(s, st->getPointerOperand()); storeTy(s, p, v, st->getValueOperand()->getType()); if (s.dead) return; s.top().ip++; break; }
    case Instruction::GetElementPtr: {
      auto* g = cast<GEPOperator>(I); EP p = eval(s, g->getPointerOperand()); Type* t = g->getSourceElementType(); bool first = true; EP r = p;
      for (auto it = g->idx_begin(); it != g->idx_end(); ++it) { EP ix = eval(s, *it); if (ix->w < 64) ix = mkCast(O_SEXT, ix, 64);
        if (first) { r = mkAdd(r, mkMulC(ix, (i128)DL->getTypeAllocSize(t).getFixedValue())); first = false; continue; }
        if (auto* st = dyn_cast<StructType>(t)) { unsigned k = (unsigned)ix->c; r = addOff(r, DL->getStructLayout(st)->getElementOffset(k)); t = st->getElementType(k); } else { t = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); r = mkAdd(r, mkMulC(ix, (i128)DL->getTypeAllocSize(t).getFixedValue())); } }
      setReg(s, I, r); s.top().ip++; break; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze: { EP v = eval(s, I->getOperand(0)); if (v->kind != E_AGG) v = asWidth(v, tyBits(I->getType())); setReg(s, I, v); s.top().ip++; break; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { EP v = eval(s, I->getOperand(0)); setReg(s, I, I->getType()->isVectorTy() ? fresh(s, tyBits(I->getType()), false, "vec") : simp(s.fx, mkCast(I->getOpcode() == Instruction::ZExt ? O_ZEXT : I->getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC, v, tyBits(I->getType())))); s.top().ip++; break; }
    case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); EP v = mkCmp(c->getPredicate(), eval(s, c->getOperand(0)), eval(s, c->getOperand(1))); setReg(s, I, v); s.top().ip++; break; }
    case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); setReg(s, I, mkOp(6000 + c->getPredicate(), {eval(s, c->getOperand(0)), eval(s, c->getOperand(1))}, 1)); s.top().ip++; break; }
    case Instruction::Select: {
      EP c = eval(s, I->getOperand(0)); int t = c->w == 1 ? evalTruth(s.fx, c) : -1; EP x = eval(s, I->getOperand(1)), y = eval(s, I->getOperand(2)); if (x == y) t = 1;
      if (t < 0) { if (I->getType()->isIntegerTy(1)) { // boolean select stays symbolic where possible
          if (isC(x, 1)) { setReg(s, I, mkBin(Instruction::Or, c, y)); s.top().ip++; break; } if (isC(y, 0)) { setReg(s, I, mkBin(Instruction::And, c, x)); s.top().ip++; break; } }
        auto o = forkS(s); if (assumeT(*o, c, false) && !o->dead) { EP y2 = eval(*o, I->getOperand(2)); setReg(*o, I, y2); o->top().ip++; push(o); } if (!assumeT(s, c, true) || s.dead) return; x = eval(s, I->getOperand(1)); setReg(s, I, x); s.top().ip++; push(sp); return; }
      setReg(s, I, t ? x : y); s.top().ip++; break; }
    case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(I); EP v = eval(s, e->getAggregateOperand()); for (unsigned i : e->indices()) v = v->kind == E_AGG && i < v->a.size() ? v->a[i] : mkOp(9004, {v}, I->getType()->isAggregateType() ? 64 : tyBits(I->getType()), i); setReg(s, I, v); s.top().ip++; break; }
    case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(I); EP v = eval(s, e->getAggregateOperand()); if (v->kind != E_AGG) v = zeroOf(I->getType()); std::function<EP(EP, unsigned)> ins = [&](EP g, unsigned d) -> EP { if (d == e->getNumIndices()) return eval(s, e->getInsertedValueOperand()); Vals q = g->a; unsigned i = e->getIndices()[d]; if (i < q.size()) q[i] = ins(q[i], d + 1); return mkAgg(q); }; setReg(s, I, ins(v, 0)); s.top().ip++; break; }
    case Instruction::LandingPad: setReg(s, I, mkAgg({mkAddr(s.curExc), mkConst(s.curSel, 32)})); s.top().ip++; break;
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I); EP p = eval(s, r->getPointerOperand()), v = eval(s, r->getValOperand()); EP o = loadTy(s, p, r->getType()); if (s.dead) return; EP n;
      switch (r->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = mkAdd(o, v); break; case AtomicRMWInst::Sub: n = mkSub(o, v); break; case AtomicRMWInst::And: n = mkBin(Instruction::And, o, v); break; case AtomicRMWInst::Or: n = mkBin(Instruction::Or, o, v); break; case AtomicRMWInst::Xor: n = mkBin(Instruction::Xor, o, v); break; default: n = fresh(s, o->w, false, "rmw"); }
      storeTy(s, p, n, r->getType()); if (s.dead) return; setReg(s, I, o); s.top().ip++; break; }
    case Instruction::AtomicCmpXchg: {
      auto* c = cast<AtomicCmpXchgInst>(I); EP p = eval(s, c->getPointerOperand()), ex = eval(s, c->getCompareOperand()), nv = eval(s, c->getNewValOperand()); EP o = loadTy(s, p, c->getCompareOperand()->getType()); if (s.dead) return; EP q = mkCmpC(C_EQ, o, ex); int t = evalTruth(s.fx, q);
      if (t < 0) { auto n = forkS(s); if (assumeT(*n, q, false) && !n->dead) { EP o2 = loadTy(*n, eval(*n, c->getPointerOperand()), c->getCompareOperand()->getType()); setReg(*n, I, mkAgg({o2, mkConst(0, 1)})); n->top().ip++; push(n); } if (!assumeT(s, q, true) || s.dead) return; t = 1; p = eval(s, c->getPointerOperand()); nv = eval(s, c->getNewValOperand()); o = loadTy(s, p, c->getCompareOperand()->getType()); }
      if (t) storeTy(s, p, nv, c->getNewValOperand()->getType()); if (s.dead) return; setReg(s, I, mkAgg({o, mkConst(t, 1)})); s.top().ip++; break; }
    case Instruction::Fence: s.top().ip++; break;
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I); if (b->isUnconditional()) { if (!enterBlock(s, b->getSuccessor(0))) return; break; }
      EP c = eval(s, b->getCondition()); int t = evalTruth(s.fx, c); if (t >= 0) { if (!enterBlock(s, b->getSuccessor(t ? 0 : 1))) return; break; }
      std::vector<EP> sy; std::vector<int> rg; collect(c, sy, rg); for (EP x : sy) if (x->uninit) { report(s, "mem.uninit", "branch depends on uninitialised memory (" + x->name + ")"); break; }
      auto o = forkS(s); if (f.f->inRepo) { note(s, "  " + locOf(I) + " taken"); note(*o, "  " + locOf(I) + " not taken"); }
      if (assumeT(*o, c, false) && !o->dead) { if (enterBlock(*o, b->getSuccessor(1))) push(o); } if (!assumeT(s, c, true) || s.dead) return; if (enterBlock(s, b->getSuccessor(0))) push(sp); return; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); EP c = eval(s, sw->getCondition()); if (EP k = singleton(s.fx, c)) c = k;
      if (isC(c)) { BasicBlock* d = sw->getDefaultDest(); for (auto& k : sw->cases()) if (un(k.getCaseValue()->getValue()) == c->c) d = k.getCaseSuccessor(); if (!enterBlock(s, d)) return; break; }
      std::vector<EP> sy; std::vector<int> rg; collect(c, sy, rg); for (EP x : sy) if (x->uninit) { report(s, "mem.uninit", "switch depends on uninitialised memory (" + x->name + ")"); break; }
      auto rem = std::make_shared<State>(s); rem->forks++; bool alive = true;
      for (auto& k : sw->cases()) { EP q = mkCmpC(C_EQ, c, mkConst(un(k.getCaseValue()->getValue()), c->w)); auto o = forkS(*rem); if (f.f->inRepo) note(*o, "  " + locOf(I) + " case"); if (assumeT(*o, q, true) && !o->dead) if (enterBlock(*o, k.getCaseSuccessor())) push(o); if (alive && (!assumeT(*rem, q, false) || rem->dead)) { alive = false; break; } }
      if (alive && enterBlock(*rem, sw->getDefaultDest())) push(rem); return; }
    case Instruction::Ret: {
      EP v = I->getNumOperands() ? eval(s, I->getOperand(0)) : nullptr; CallBase* cb = f.call; uint64_t ef = f.entryForks; popFrame(s);
      if (s.st.empty() || !cb) { nPaths++; setEnd(s); gc(s, true); return; }
      if (!v && isThreadCall(cb)) v = mkConst(0, 32);
      bool forked = s.forks != ef; if (!completeCall(s, cb, v)) return;
      if (forked) { Frame& g = s.top(); if (!isa<InvokeInst>(cb)) { const BitVector& la = liveAfter(g.f, g.f->idx[cb]); for (int i = 0; i < (int)g.regs.size(); i++) if (g.regs[i] && !la.test(i)) g.regs[i] = nullptr; } push(sp); return; }
      break; }
    case Instruction::Resume: { EP v = eval(s, I->getOperand(0)); int exc = v->kind == E_AGG && v->a[0]->kind == E_ADDR ? (int)v->a[0]->key : s.curExc; popFrame(s); if (s.st.empty()) { uncaught(s, exc); return; } if (!unwind(s, exc)) return; break; }
    case Instruction::Unreachable: setEnd(s); return;
    case Instruction::Call: case Instruction::Invoke: {
      auto* cb = cast<CallBase>(I); EP ret = nullptr; uint64_t fk = s.forks; long pu = nPushed; CR c = handleCall(s, cb, ret); if (s.dead) { setEnd(s); return; }
      if (c == CR_DEAD) { if (pu == nPushed) setEnd(s); return; } if (c == CR_DONE) { if (!completeCall(s, cb, ret)) return; if (s.forks != fk) { push(sp); return; } } break; }
    default: {
      if (auto* bo = dyn_cast<BinaryOperator>(I)) { EP x = eval(s, bo->getOperand(0)), y = eval(s, bo->getOperand(1)); if (I->getType()->isIntegerTy() && tyBits(I->getType()) <= 128) setReg(s, I, simp(s.fx, mkBin(bo->getOpcode(), x, y))); else setReg(s, I, mkOp(bo->getOpcode(), {x, y}, tyBits(I->getType()), 1)); s.top().ip++; break; }
      if (isa<CastInst>(I)) { setReg(s, I, mkOp(3000 + I->getOpcode(), {eval(s, I->getOperand(0))}, tyBits(I->getType()))); s.top().ip++; break; }
      if (!I->getType()->isVoidTy()) setReg(s, I, freshTy(s, I->getType(), "op")); s.top().ip++; break; }
    }
  }
}

// ---------------------------------------------------------------- models
static int64_t cint(EP e, int64_t d) { return isC(e) ? (int64_t)sextw(e->c, e->w) : d; }
static void setupModels() {
  auto& m = MODELS;
  auto nw = [](State& s, CallBase* cb, Vals& a, EP& ret) { EP n = a[0]; if (EP c = singleton(s.fx, n)) n = c; if (isC(n) && n->c > gMaxAlloc) return doThrow(s, throwNew(s, "_ZTISt9bad_alloc")); int r = allocRegion(s, R_HEAP, isC(n) ? (int64_t)n->c : -1, "heap"); if (RI[r].site.empty()) { for (int i = s.st.size() - 1; i >= 0 && RI[r].site.empty(); i--) { auto l = locOf(s.st[i]->f->ins[s.st[i]->ip]); if (startsWith(l, gRepo + "/") || startsWith(l, "/verif")) RI[r].site = l; } } ret = mkAddr(r); return CR_DONE; };
  for (const char* n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc"}) m[n] = nw;
  m["calloc"] = [nw](State& s, CallBase* cb, Vals& a, EP& ret) { Vals b = {mkBin(Instruction::Mul, a[0], a[1])}; nw(s, cb, b, ret); s.mem[(int)ret->key]->def = D_ZERO; return CR_DONE; };
  auto del = [](State& s, CallBase*, Vals& a, EP&) { markFree(s, a[0], "free"); return s.dead ? CR_DEAD : CR_DONE; };
  for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "free", "_ZdlPvRKSt9nothrow_t"}) m[n] = del;
  m["__cxa_allocate_exception"] = [](State& s, CallBase*, Vals& a, EP& ret) { int r = allocRegion(s, R_EXC, cint(a[0], -1), "exception"); ret = mkAddr(r); return CR_DONE; };
  m["__cxa_free_exception"] = [](State& s, CallBase*, Vals& a, EP& ret) { return CR_DONE; };
  m["__cxa_throw"] = [](State& s, CallBase* cb, Vals& a, EP&) { int r = a[0]->kind == E_ADDR ? (int)a[0]->key : -1; auto* ti = a[1]->kind == E_ADDR ? RI[a[1]->key].gv : nullptr; s.exc[r] = {ti, 0}; std::string n; describeExc(s, r, n); note(s, "throw " + n + " at " + locOf(cb)); return doThrow(s, r); };
  m["__cxa_rethrow"] = [](State& s, CallBase* cb, Vals& a, EP&) { if (s.caught.empty()) { report(s, "terminate", "rethrow without an active exception"); return CR_DEAD; } return doThrow(s, s.caught.back()); };
  m["__cxa_begin_catch"] = [](State& s, CallBase*, Vals& a, EP& ret) { int r = a[0]->kind == E_ADDR ? (int)a[0]->key : s.curExc; s.caught.push_back(r); s.curExc = -1; s.curSel = 0; ret = addOff(mkAddr(r), s.exc.count(r) ? s.exc[r].adj : 0); return CR_DONE; };
  m["__cxa_get_exception_ptr"] = [](State& s, CallBase*, Vals& a, EP& ret) { int r = a[0]->kind == E_ADDR ? (int)a[0]->key : s.curExc; ret = addOff(mkAddr(r), s.exc.count(r) ? s.exc[r].adj : 0); return CR_DONE; };
  m["__cxa_end_catch"] = [](State& s, CallBase*, Vals& a, EP&) { if (!s.caught.empty()) s.caught.pop_back(); return CR_DONE; };
  auto term = [](const char* why) { return [why](State& s, CallBase*, Vals& a, EP&) { report(s, "terminate", why); return CR_DEAD; }; };
  m["__clang_call_terminate"] = term("an exception escapes a destructor or a non-throwing function: std::terminate"); m["_ZSt9terminatev"] = term("std::terminate is called"); m["abort"] = term("abort is called");
  m["__cxa_pure_virtual"] = term("pure virtual call");
  m["__cxa_guard_acquire"] = [](State& s, CallBase*, Vals& a, EP& ret) { EP v = loadTy(s, a[0], Type::getInt8Ty(M->getContext())); if (isC(v)) ret = mkConst(v->c == 0, 32); else ret = mkConst(1, 32); return CR_DONE; };
  m["__cxa_guard_release"] = [](State& s, CallBase*, Vals& a, EP& ret) { storeTy(s, a[0], mkConst(1, 8), Type::getInt8Ty(M->getContext())); return CR_DONE; };
  m["__cxa_guard_abort"] = m["__cxa_atexit"] = m["__cxa_thread_atexit"] = [](State& s, CallBase*, Vals& a, EP& ret) { ret = mkConst(0, 32); return CR_DONE; };
  m["__errno_location"] = [](State& s, CallBase*, Vals& a, EP& ret) { static int r = -1; r = regionFor(R_SYM, hstr("errno"), "errno"); RI[r].size = 4; ensureRegion(s, r); ret = mkAddr(r); return CR_DONE; };
  m["memcpy"] = m["memmove"] = [](State& s, CallBase*, Vals& a, EP& ret) { copyMem(s, a[0], a[1], a[2]); ret = a[0]; return s.dead ? CR_DEAD : CR_DONE; };
  auto fr = [](const char* n) { return [n](State& s, CallBase* cb, Vals& a, EP& ret) { ret = freshTy(s, cb->getType(), n); return CR_DONE; }; };
  m["memcmp"] = m["bcmp"] = [](State& s, CallBase* cb, Vals& a, EP& ret) {
    EP n = a[2]; if (EP c = singleton(s.fx, n)) n = c; if (!isC(n) || n->c > 64) { ret = freshTy(s, cb->getType(), "memcmp"); return CR_DONE; }
    Type* i8 = Type::getInt8Ty(M->getContext());
    for (uint64_t i = 0; i < (uint64_t)n->c; i++) {
      EP p = eval(s, cb->getArgOperand(0)), q = eval(s, cb->getArgOperand(1)); EP x = loadTy(s, addOff(p, i), i8); if (s.dead) return CR_DEAD; EP y = loadTy(s, addOff(q, i), i8); if (s.dead) return CR_DEAD;
      EP e = mkCmpC(C_EQ, x, y), l = mkCmpC(C_ULT, x, y), g = mkCmpC(C_ULT, y, x); int t = evalTruth(s.fx, e); if (t == 1) continue;
      int tl = evalTruth(s.fx, l); if (t == 0 && tl >= 0) { ret = mkConst(tl ? (u128)-1 : 1, 32); return CR_DONE; }
      { auto o = forkS(s); if (assumeT(*o, l, true) && !o->dead && completeCall(*o, cb, mkConst((u128)-1, 32))) push(o); }
      { auto o = forkS(s); if (assumeT(*o, g, true) && !o->dead && completeCall(*o, cb, mkConst(1, 32))) push(o); }
      if (t == 0 || !assumeT(s, e, true) || s.dead) return CR_DEAD; }
    ret = mkConst(0, 32); return CR_DONE; };
  m["memchr"] = fr("memchr"); m["strncmp"] = fr("strncmp");
  m["strcmp"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { std::string x = cstr(s, a[0]), y = cstr(s, a[1]); if (x != "?" && y != "?") ret = mkConst(x == y ? 0 : x < y ? (u128)-1 : 1, 32); else ret = freshTy(s, cb->getType(), "strcmp"); return CR_DONE; };
  m["strlen"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { std::string t = cstr(s, a[0]); if (t != "?") ret = mkConst(t.size(), 64); else { ret = fresh(s, 64, false, "strlen"); } return CR_DONE; };
  m["__dynamic_cast"] = [](State& s, CallBase* cb, Vals& a, EP& ret) {
    if (isC(a[0], 0)) { ret = a[0]; return CR_DONE; } EP vp = vptrOf(s, a[0]); int r; EP off; auto* dst = a[2]->kind == E_ADDR ? RI[a[2]->key].gv : nullptr;
    if (vp && dst && vp->kind != E_SYM && resolve(s, vp, r, off) == 0 && RI[r].gv && RI[r].gv->hasInitializer()) { ensureRegion(s, r); EP ott = loadBytes(s, r, addOff(off, -16), 8, false), ti = loadBytes(s, r, addOff(off, -8), 8, true); if (ti->kind == E_ADDR && RI[ti->key].gv) { EP full = mkAdd(a[0], ott), out; ret = findBase(s, full, RI[ti->key].gv, dst, out) ? out : mkConst(0, 64); return CR_DONE; } }
    ret = fresh(s, 64, true, "dyncast"); return CR_DONE; };
  m["__cxa_bad_cast"] = [](State& s, CallBase* cb, Vals& a, EP&) { return doThrow(s, throwNew(s, "_ZTISt8bad_cast")); };
  m["__cxa_throw_bad_array_new_length"] = [](State& s, CallBase* cb, Vals& a, EP&) { return doThrow(s, throwNew(s, "_ZTISt20bad_array_new_length")); };
  // exception_ptr: first word holds the exception object
  auto P64 = [] { return PointerType::getUnqual(M->getContext()); };
  m["_ZSt17current_exceptionv"] = [P64](State& s, CallBase* cb, Vals& a, EP& ret) { EP v = s.caught.empty() ? mkConst(0, 64) : mkAddr(s.caught.back()); if (a.size()) storeTy(s, a[0], v, P64()); else ret = v; return CR_DONE; };
  m["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = [P64](State& s, CallBase* cb, Vals& a, EP&) { EP v = loadTy(s, a[0], P64()); if (s.dead) return CR_DEAD; if (v->kind == E_ADDR) { std::string n; describeExc(s, (int)v->key, n); note(s, "rethrow " + n + " at " + locOf(cb)); return doThrow(s, (int)v->key); } if (isC(v, 0)) { report(s, "terminate", "rethrow_exception of an empty exception_ptr"); return CR_DEAD; } return doThrow(s, throwNew(s, "_ZTISt9exception")); };
  for (const char* c : {"C1", "C2"}) m[std::string("_ZNSt15__exception_ptr13exception_ptr") + c + "ERKS0_"] = [P64](State& s, CallBase* cb, Vals& a, EP&) { storeTy(s, a[0], loadTy(s, a[1], P64()), P64()); return CR_DONE; };
  m["_ZNSt15__exception_ptr13exception_ptraSERKS0_"] = [P64](State& s, CallBase* cb, Vals& a, EP& ret) { storeTy(s, a[0], loadTy(s, a[1], P64()), P64()); ret = a[0]; return CR_DONE; };
  for (const char* c : {"_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev", "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}) m[c] = [](State& s, CallBase*, Vals& a, EP&) { return CR_DONE; };
  m["_ZNSt15__exception_ptr13exception_ptr4swapERS0_"] = [P64](State& s, CallBase*, Vals& a, EP&) { EP x = loadTy(s, a[0], P64()), y = loadTy(s, a[1], P64()); storeTy(s, a[0], y, P64()); storeTy(s, a[1], x, P64()); return CR_DONE; };
  m["_ZSt19uncaught_exceptionsv"] = [](State& s, CallBase*, Vals& a, EP& ret) { ret = fresh(s, 32, false, "uncaught"); return CR_DONE; };
  // vf_* primitives of the environment models
  m["vf_choice"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { int n = (int)cint(a[0], 2); std::string l = cstr(s, a[1]); for (int i = 1; i < n; i++) { auto o = forkS(s); note(*o, l + " = " + std::to_string(i)); EP v = mkConst(i, 32); if (completeCall(*o, cb, v)) push(o); } s.forks++; note(s, l + " = 0"); ret = mkConst(0, 32); return CR_DONE; };
  m["vf_nondet"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { ret = fresh(s, 64, false, "nd:" + cstr(s, a[0])); return CR_DONE; };
  m["vf_nondet_ptr"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { ret = fresh(s, 64, true, "ndp:" + cstr(s, a[0])); return CR_DONE; };
  m["vf_assume"] = [](State& s, CallBase* cb, Vals& a, EP&) { EP c = a[0]; if (c->w != 1) c = mkNot(mkCmpC(C_EQ, c, mkConst(0, c->w))); if (!assumeT(s, c, true) || s.dead) return CR_DEAD; return CR_DONE; };
  m["vf_assert"] = [](State& s, CallBase* cb, Vals& a, EP&) {
    EP c = a[0]; if (c->w != 1) c = mkNot(mkCmpC(C_EQ, c, mkConst(0, c->w))); std::string rule = cstr(s, a[1]), msg = cstr(s, a[2]); uint64_t site = (uint64_t)(uintptr_t)cb; for (auto& f : s.st) site = hmix(site, (uint64_t)(uintptr_t)f->call); obligations[rule].insert(site); obEval[rule]++;
    int t = evalTruth(s.fx, c); if (gVerbose && t < 0) errs() << "unknown assert " << rule << " " << msg << " cond " << str(c) << "\n"; if (t != 1) { report(s, rule, msg); if (t == 0) return CR_DEAD; if (!assumeT(s, c, true) || s.dead) return CR_DEAD; } return CR_DONE; };
  m["__assert_fail"] = [](State& s, CallBase* cb, Vals& a, EP&) { report(s, "assert", "an assertion of the library fails: " + cstr(s, a[0])); return CR_DEAD; };
  m["vf_lockset"] = [](State& s, CallBase* cb, Vals& a, EP&) { int r, lr, tr; EP off, lo, to; if (resolve(s, a[0], r, off) || resolve(s, a[2], tr, to) || resolve(s, a[3], lr, lo) || !isC(off) || !isC(lo) || !isC(to) || !isC(a[1])) { unmodelled.insert("vf_lockset of an unknown object"); return CR_DONE; } Guard g{r, (int64_t)off->c, (int64_t)off->c + (int64_t)a[1]->c, tr, (int64_t)to->c, lr, (int64_t)lo->c, cstr(s, a[4]), cstr(s, a[5])}; for (auto& x : guards) if (x.r == g.r && x.lo == g.lo && x.hi == g.hi && x.rule == g.rule) return CR_DONE; guards.push_back(g); return CR_DONE; };
  // a second stack: vf_spawn runs a function of the other thread, vf_park suspends it (vf_spawn or vf_resume returns 1), vf_resume continues it
  m["vf_spawn"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { Function* F = nullptr; if (a[0]->kind == E_ADDR && RI[a[0]->key].kind == R_FUNC) F = RI[a[0]->key].fn; if (!F || F->isDeclaration()) { unmodelled.insert("vf_spawn of an unknown function"); return CR_DEAD; } Vals none; enterFunction(s, cb, F, none); return CR_PUSHED; };
  m["vf_park"] = [](State& s, CallBase* cb, Vals& a, EP&) { int k = -1; for (int i = (int)s.st.size() - 1; i >= 0; i--) if (isThreadCall(s.st[i]->call)) { k = i; break; } if (k < 0 || !s.parked.empty()) { unmodelled.insert("vf_park outside a spawned function"); return CR_DEAD; } s.top().ip++; s.parked.assign(s.st.begin() + k, s.st.end()); s.st.resize(k); if (!completeCall(s, s.parked[0]->call, mkConst(1, 32))) return CR_DEAD; note(s, "other thread suspended"); return CR_PUSHED; };
  m["vf_resume"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { if (s.parked.empty()) { ret = mkConst(0, 32); return CR_DONE; } auto b = std::make_shared<Frame>(*s.parked[0]); b->call = cb; s.parked[0] = b; s.st.insert(s.st.end(), s.parked.begin(), s.parked.end()); s.parked.clear(); note(s, "other thread continues"); return CR_PUSHED; };
  m["vf_parked"] = [](State& s, CallBase*, Vals& a, EP& ret) { ret = mkConst(!s.parked.empty(), 32); return CR_DONE; };
  m["vf_cover"] = [](State& s, CallBase* cb, Vals& a, EP&) { covers.insert(cstr(s, a[0])); return CR_DONE; };
  m["vf_event"] = [](State& s, CallBase* cb, Vals& a, EP&) { std::string l; for (int i = s.st.size() - 1; i >= 0; i--) { auto x = locOf(s.st[i]->f->ins[s.st[i]->ip]); if (startsWith(x, gRepo + "/")) { l = x; break; } } note(s, cstr(s, a[0]) + (l.empty() ? "" : " from " + l)); return CR_DONE; };
  m["vf_symbolic"] = [](State& s, CallBase* cb, Vals& a, EP&) { int r; EP off; if (resolve(s, a[0], r, off) == 0) { bool sat; uint64_t k = siteKey(s, sat); std::string nm = cstr(s, a[2]); if (!nm.empty() && nm != "?") RI[r].name = nm; if (isC(off) && isC(a[1])) havocRange(s, r, (int64_t)off->c, (int64_t)a[1]->c, k); } return CR_DONE; };
  m["vf_is_freed"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { int r; EP off; bool fr = false; if (!isC(a[0]) && resolve(s, a[0], r, off) == 0) { auto it = s.mem.find(r); fr = it == s.mem.end() ? !ensureRegion(s, r) : it->second->freed; } ret = mkConst(fr, 32); return CR_DONE; };
  m["vf_is_const"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { EP e = a[0]; if (EP c = singleton(s.fx, e)) e = c; ret = mkConst(isC(e), 32); return CR_DONE; };
  m["vf_debug"] = [](State& s, CallBase* cb, Vals& a, EP&) { errs() << "DEBUG " << cstr(s, a[0]) << " = " << str(a[1]) << " range "; if (a[1]->kind != E_AGG) { range(s.fx, a[1]).print(errs()); } errs() << "\n"; return CR_DONE; };
  // must the value be bounded on every path?  (taint rule) true if the range of x is within [0, n)
  m["vf_known_ult"] = [](State& s, CallBase* cb, Vals& a, EP& ret) { ret = mkConst(evalTruth(s.fx, mkCmpC(C_ULT, a[0], a[1])) == 1, 32); return CR_DONE; };
}

static void analyse(Function* F, std::vector<Function*> ctors) {
  auto s = std::make_shared<State>();
  auto start = [&](Function* f, uint64_t ctx) { auto fr = std::make_shared<Frame>(); fr->f = info(f); fr->regs.assign(fr->f->nvals, nullptr); fr->ctx = ctx; fr->entryForks = s->forks; for (auto& a : f->args()) fr->regs[fr->f->num[&a]] = mkSym(hmix(hstr(f->getName().str()), a.getArgNo()), tyBits(a.getType()), a.getType()->isPointerTy(), "arg"); s->st.push_back(fr); };
  // static initialisers of the library run first; they are straight-line here
  for (auto* c : ctors) { start(c, hstr(c->getName().str())); auto keep = s; 
    // run to completion without merging (bounded); the last surviving state continues
    WQ.clear(); SS last; 
    struct Stop {}; 
    auto saved = nPaths; (void)saved; 
    // emulate: interpret until the frame stack is empty
    extern SS runCtor(SS); last = runCtor(s); if (last) { s = last; } else { s = std::make_shared<State>(); } s->st.clear(); }
  WQ.clear(); VIS.clear(); NODES.clear(); s->node = -1; start(F, 1); push(s); static std::unordered_map<const Facts*, int> ids; ids.clear();
  while (!WQ.empty() && !budget) {
    auto it = WQ.begin();
    // deepest position first: compare only instruction indices (even entries are function ids)
    std::vector<SS> b = std::move(it->second); WQ.erase(it); std::map<State*, std::vector<int>> preds; for (auto& x : b) preds[x.get()].push_back(x->node);
    if (b.size() > 1) { std::map<std::pair<uint64_t, uint64_t>, SS> g; std::vector<SS> order; for (auto& x : b) { gc(*x); auto k = keyOf(*x); auto q = g.find(k); if (q == g.end()) { g[k] = x; order.push_back(x); } else { nMerges++; auto& y = q->second; { auto& py = preds[y.get()]; py.push_back(x->node); } if (!implies(x->fx, y->fx)) { y->fx = joinF(y->fx, x->fx); } y->forks = std::max(y->forks, x->forks) + 1; } } b = order; }
    else gc(*b[0]);
    for (auto& x : b) {
      auto k = keyOf(*x); auto& v = VIS[k.first]; bool skip = false; for (auto& e : v) if (e.first == k.second && implies(x->fx, *e.second)) { skip = true; if (auto q = ids.find(e.second.get()); q != ids.end()) for (int p : preds[x.get()]) NODES[q->second].pred.push_back(p); break; } if (skip) { nMerges++; continue; }
      auto fp = std::make_shared<Facts>(x->fx); int same = 0; for (auto& e : v) if (e.first == k.second) same++;
      if (same > 6) { Facts j = x->fx; for (auto& e : v) if (e.first == k.second) j = joinF(j, *e.second); x->fx = j; fp = std::make_shared<Facts>(j); }
      v.push_back({k.second, fp}); { int id = (int)NODES.size(); Instruction* at = x->st.back()->f->ins[x->st.back()->ip]; for (int i = (int)x->st.size() - 1; i >= 0; i--) if (x->st[i]->f->inRepo) { at = x->st[i]->f->ins[x->st[i]->ip]; break; } NODES.push_back({at, preds[x.get()], false}); x->node = id; ids[fp.get()] = id; } if (getenv("AWLAI_TRACE")) { errs() << x->st.size() << " " << x->st.back()->f->dem << " bb" << x->st.back()->bb << " " << locOf(x->st.back()->f->ins[x->st.back()->ip]) << " mem=" << x->mem.size() << " forks=" << x->forks << "\n"; }
      long pu = nPushed; run(x); if (pu == nPushed) setEnd(*x);
    }
  }
  if (!budget) {
    std::vector<int> wl; std::vector<char> ok(NODES.size(), 0); for (size_t i = 0; i < NODES.size(); i++) if (NODES[i].end) { ok[i] = 1; wl.push_back((int)i); }
    while (!wl.empty()) { int n = wl.back(); wl.pop_back(); for (int p : NODES[n].pred) if (p >= 0 && !ok[p]) { ok[p] = 1; wl.push_back(p); } }
    std::vector<char> pre(NODES.size(), 0); for (size_t i = 0; i < NODES.size(); i++) if (!ok[i]) for (int p : NODES[i].pred) if (p >= 0 && (size_t)p >= i) pre[i] = 1;
    State none; for (size_t i = 0; i < NODES.size(); i++) if (!ok[i] && pre[i]) { reportAt(none, NODES[i].at, "hang", "a loop is never left"); break; }
    obligations["hang"].insert(1);
  }
}
SS runCtor(SS s) { // static initialiser: follow one representative path (library initialisers do not branch on unknowns)
  State& st = *s; long lim = 2000000; size_t base = 1; (void)base;
  while (!st.st.empty() && lim-- > 0) {
    WQ.clear(); auto before = st.st.size(); (void)before; run(s); if (budget) return nullptr; if (s->st.empty()) return s;
    if (WQ.empty()) return s->st.empty() ? s : nullptr; s = WQ.begin()->second.front(); return runCtor(s);
  }
  return s;
}

// a harness that defines vfx_atomic() is called before every atomic operation of the analysed code (other threads may act there)
static std::vector<std::string> gGapFiles;
static void insertGaps() {
  if (Function* h = M->getFunction("vfx_spin"); h && !h->isDeclaration()) { std::vector<Instruction*> at; for (Function& F : *M) for (BasicBlock& B : F) for (Instruction& I : B) if (auto* c = dyn_cast<CallBase>(&I)) if (auto* f = c->getCalledFunction()) if (f->getName() == "llvm.x86.sse2.pause") at.push_back(&I); for (Instruction* I : at) { auto* c = CallInst::Create(h->getFunctionType(), h, {}, "", I); c->setDebugLoc(I->getDebugLoc()); } }
  Function* h = M->getFunction("vfx_atomic"); if (!h || h->isDeclaration()) return; std::vector<Instruction*> at;
  for (Function& F : *M) { auto* sp = F.getSubprogram(); if (sp && sp->getFilename().contains("harness/")) continue; std::string n = demangle(F.getName().str()); if (n.find("__gnu_cxx::") == 0 || n.find("_Sp_counted") != std::string::npos) continue; for (BasicBlock& B : F) for (Instruction& I : B) if (I.isAtomic() && !isa<FenceInst>(I)) at.push_back(&I); }
  // --gaps FILE: also before every plain access of that file's functions to memory that is not their own
  for (Function& F : *M) { auto* sp = F.getSubprogram(); bool in = false; if (sp) for (auto& g : gGapFiles) if (sp->getFilename().ends_with(g)) in = true; if (in) for (BasicBlock& B : F) for (Instruction& I : B) if (!I.isAtomic()) if (auto* p = getLoadStorePointerOperand(&I)) if (auto* o = getUnderlyingObject(p); !isa<AllocaInst>(o) && !isa<GlobalVariable>(o)) at.push_back(&I); }
  for (Instruction* I : at) { auto* c = CallInst::Create(h->getFunctionType(), h, {}, "", I); c->setDebugLoc(I->getDebugLoc()); }
}

int main(int argc, char** argv) {
  std::string in, out; std::vector<std::string> entries; bool ctors = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entries.push_back(nx()); else if (a == "--out") out = nx(); else if (a == "--repo") gRepo = nx(); else if (a == "--opaque") gOpaque.push_back(nx()); else if (a == "--transparent") gTransparent.push_back(nx()); else if (a == "--max-alloc") gMaxAlloc = strtoull(nx().c_str(), nullptr, 0); else if (a == "--max-steps") gMaxSteps = atol(nx().c_str()); else if (a == "--unroll") gUnroll = atoi(nx().c_str()); else if (a == "--gaps") gGapFiles.push_back(nx()); else if (a == "--verbose") gVerbose = true; else if (a == "--ctors") ctors = true; else if (a == "--no-leak") gLeakOn = false; else in = a; }
  for (const char* p : {"std::__cxx11::basic_string<", "std::basic_ostream", "std::basic_istream", "std::__cxx11::basic_ostringstream", "std::operator<<", "std::locale", "std::ios_base", "std::basic_ios", "awl::basic_format<", "std::__cxx11::to_string", "std::operator+<", "std::__cxx11::operator+", "std::_Hash_bytes", "std::basic_string_view"}) gOpaque.push_back(p);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(in, err, ctx); if (!mod) { err.print("awlai", errs()); return 2; } M = mod.get(); DL = &M->getDataLayout(); insertGaps(); setupModels();
  std::vector<Function*> cs; if (ctors) if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) { std::vector<std::pair<uint64_t, Function*>> v; for (auto& o : ca->operands()) if (auto* f = dyn_cast<Function>(cast<Constant>(o)->getAggregateElement(1u))) v.push_back({cast<ConstantInt>(cast<Constant>(o)->getAggregateElement(0u))->getZExtValue(), f}); std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& e : v) cs.push_back(e.second); }
  int missing = 0; json::Array ents;
  for (auto& e : entries) { Function* F = M->getFunction(e); if (!F || F->isDeclaration()) { errs() << "no entry " << e << "\n"; missing++; continue; } analyse(F, cs); ents.push_back(e); }
  json::Array fa; for (auto& p : findings) { auto& f = p.second; json::Array st, pa; for (auto& x : f.stack) st.push_back(x); for (auto& x : f.path) pa.push_back(x); fa.push_back(json::Object{{"rule", f.rule}, {"msg", f.msg}, {"function", f.func}, {"file", f.file}, {"line", (int64_t)f.line}, {"stack", std::move(st)}, {"path", std::move(pa)}}); }
  json::Object ob; for (auto& p : obligations) ob[p.first] = json::Object{{"sites", (int64_t)p.second.size()}, {"evaluations", (int64_t)obEval[p.first]}};
  auto arr = [](std::set<std::string>& x) { json::Array a; for (auto& s : x) a.push_back(s); return a; };
  json::Object res{{"entries", std::move(ents)}, {"findings", std::move(fa)}, {"obligations", std::move(ob)}, {"covers", arr(covers)}, {"unmodelled", arr(unmodelled)}, {"havocked", arr(havocked)}, {"recursion_cuts", arr(cuts)}, {"functions", arr(repoFns)}, {"uncaught", arr(uncaughtTypes)}, {"steps", nSteps}, {"states", nStates}, {"merges", nMerges}, {"widenings", nWiden}, {"paths", nPaths}, {"uncaught_paths", nUncaught}, {"unknown_stores", nUnkStore}, {"unknown_loads", nUnkLoad}, {"budget_exceeded", budget}, {"missing_entries", missing}};
  std::string js; raw_string_ostream os(js); os << formatv("{0:2}", json::Value(std::move(res))); os.flush(); if (out.empty()) outs() << js << "\n"; else { std::ofstream o(out); o << js; }
  return missing ? 2 : 0;
}
