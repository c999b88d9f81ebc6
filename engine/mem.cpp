// Abstract interpreter: memory.
#include <numeric>
#include "absint.h"
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/BinaryFormat/Dwarf.h>
using namespace llvm;
extern ElemType ET_rdp, ET_rdn;

void Interp::renameRegion(State &S, int from, int to) {
  for (auto &p : S.env) if (p.second.k == AV::Ptr && p.second.reg == from) p.second.reg = to;
  std::vector<int> ids; for (auto &r : S.regs) ids.push_back(r.first);
  for (int id : ids) {
    bool any = false;
    for (auto &c : S.R(id).cells) if (c.second.v.k == AV::Ptr && c.second.v.reg == from) any = true;
    for (auto &c : S.R(id).fcells) if (c.second.v.k == AV::Ptr && c.second.v.reg == from) any = true;
    if (!any) continue;
    auto &W = S.W(id);
    for (auto &c : W.cells) if (c.second.v.k == AV::Ptr && c.second.v.reg == from) c.second.v.reg = to;
    for (auto &c : W.fcells) if (c.second.v.k == AV::Ptr && c.second.v.reg == from) c.second.v.reg = to;
  }
  for (auto &g : S.ghosts) if (g.second.first == from) g.second.first = to;
  for (auto &f : S.facts) if (f.kind == 0 && f.reg == from) f.reg = to;
  auto n = std::make_shared<Region>(S.R(from)); n->id = to; S.regs[to] = n; S.regs.erase(from);
}
static std::string siteName(const void *site, const char *dflt) {
  auto *v = (const Value *)site; std::string s;
  if (auto *I = dyn_cast_or_null<Instruction>(v)) { s = I->hasName() ? I->getName().str() : ""; std::string f = fileLine(I); size_t sl = f.rfind('/'); if (sl != std::string::npos) f = f.substr(sl + 1); return s + "@" + f; }
  if (v && v->hasName()) return v->getName().str();
  return dflt;
}
int Interp::newRegion(State &S, const void *site, int idx, Lin size) {
  int id = regionId(site, idx, siteName(site, "mem"));
  if (S.has(id)) {
    int j = idx; while (j < idx + 4 && S.has(regionId(site, j, siteName(site, "mem") + "'"))) j++;
    if (j >= idx + 4) { broken = true; brokenWhy = "too many live blocks of one allocation site " + siteName(site, "?"); }
    for (; j > idx; j--) renameRegion(S, regionId(site, j - 1, siteName(site, "mem")), regionId(site, j, siteName(site, "mem") + "'"));
  }
  auto n = std::make_shared<Region>(); n->id = id; n->size = size; n->ilo = n->ihi = Lin(0);
  S.regs[id] = n; return id;
}
int Interp::summaryString(State &S, const void *site, long idx, const char *nm) {
  int id = regionId(site, idx, nm);
  if (!S.has(id)) {
    auto n = std::make_shared<Region>(); n->id = id; n->ro = true; n->isGlobal = true;
    n->Z = fresh(S, 0, (i64)1 << 40); n->size = n->Z + Lin(1); n->hasZ = true; n->zExact = true; n->ilo = Lin(0); n->ihi = n->size;
    S.regs[id] = n;
  }
  return id;
}
// a table whose rows are {integer, byte array}: rows that are populated end with a terminator
struct RowTab { bool is = false; long rs = 0, arr = 0, n = 0, rows = 0; long term = -1; long vmin = 255, vmax = 0; long maxZ = 0, minZ = 99; };
static std::map<const GlobalVariable *, RowTab> rowTabs;
static long enumConst(Module &M, const std::string &nm) {
  static std::map<std::string, long> tab; static bool done = false;
  if (!done) {
    done = true; DebugInfoFinder Fi; Fi.processModule(M);
    for (auto *T : Fi.types()) if (auto *C = dyn_cast<DICompositeType>(T)) if (C->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : C->getElements()) if (auto *E = dyn_cast<DIEnumerator>(e)) tab[E->getName().str()] = E->getValue().getSExtValue();
  }
  auto it = tab.find(nm); return it == tab.end() ? -1 : it->second;
}
static RowTab &rowTab(Module &M, const GlobalVariable *G, const DataLayout &DL) {
  auto it = rowTabs.find(G); if (it != rowTabs.end()) return it->second;
  RowTab &r = rowTabs[G];
  if (!G->hasInitializer()) return r;
  auto *AT = dyn_cast<ArrayType>(G->getValueType()); if (!AT) return r;
  auto *ST = dyn_cast<StructType>(AT->getElementType()); if (!ST || ST->getNumElements() < 2) return r;
  auto *BT = dyn_cast<ArrayType>(ST->getElementType(1)); if (!BT || !BT->getElementType()->isIntegerTy(8)) return r;
  r.rs = DL.getTypeAllocSize(ST); r.arr = DL.getStructLayout(ST)->getElementOffset(1); r.n = BT->getNumElements(); r.rows = AT->getNumElements();
  r.term = enumConst(M, "rdf_end");
  if (r.term < 0) return r;
  auto *I = G->getInitializer();
  bool any = false;
  for (long k = 0; k < r.rows; k++) {
    bool nz = false; long z = -1;
    for (long j = 0; j < r.n; j++) {
      auto *c = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(const_cast<Constant *>(I), Type::getInt8Ty(M.getContext()), APInt(64, k * r.rs + r.arr + j), DL));
      if (!c) return r;
      long v = c->getZExtValue(); if (v) nz = true; if (v == r.term && z < 0) z = j;
    }
    if (!nz) continue;
    any = true;
    if (z < 0) return r; // an unterminated row: no row model, reads are checked against the whole table
    for (long j = 0; j <= z; j++) { long v = cast<ConstantInt>(ConstantFoldLoadFromConst(const_cast<Constant *>(I), Type::getInt8Ty(M.getContext()), APInt(64, k * r.rs + r.arr + j), DL))->getZExtValue(); r.vmin = std::min(r.vmin, v); r.vmax = std::max(r.vmax, v); }
    r.maxZ = std::max(r.maxZ, z); r.minZ = std::min(r.minZ, z);
  }
  r.is = any;
  return r;
}
int Interp::regionOfGlobal(State &S, const GlobalVariable *G) {
  int id = regionId(G, 0, "@" + G->getName().str());
  if (S.has(id)) return id;
  auto n = std::make_shared<Region>(); n->id = id; n->isGlobal = true;
  i64 sz = DL.getTypeAllocSize(G->getValueType());
  n->size = Lin(sz); n->ilo = Lin(0); n->ihi = Lin(sz);
  bool ro = G->isConstant();
  if (!ro && G->hasInitializer()) { // effectively constant: only loads
    ro = true; std::vector<const Value *> st{G};
    std::set<const Value *> seen;
    while (!st.empty() && ro) { auto *v = st.back(); st.pop_back(); if (!seen.insert(v).second) continue;
      for (auto *u : v->users()) { if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue; if (isa<GEPOperator>(u) || isa<PHINode>(u) || isa<SelectInst>(u)) { st.push_back(u); continue; }
        if (auto *c = dyn_cast<CallInst>(u)) if (c->getCalledFunction() && (c->getCalledFunction()->getName() == "bsearch" || c->getCalledFunction()->getName() == "strcasecmp")) continue;
        ro = false; break; } }
  }
  n->ro = G->isConstant();
  if (!G->hasInitializer()) { n->size = fresh(S, 0, (i64)1 << 20); n->ihi = n->size; }
  else if (ro) n->init = G->getInitializer();
  if (n->init) if (auto *CD = dyn_cast<ConstantDataSequential>(n->init)) if (CD->getElementType()->isIntegerTy(8)) {
    long z = -1; long mn = 255, mx = 0; for (unsigned i = 0; i < CD->getNumElements(); i++) { long v = CD->getElementAsInteger(i); if (v == 0 && z < 0) z = i; mn = std::min(mn, v); mx = std::max(mx, v); }
    if (z >= 0) { n->hasZ = true; n->zExact = true; n->Z = Lin(z); }
    n->hasV = true; n->vmin = mn; n->vmax = mx;
  }
  if (n->init && n->init->isNullValue() && G->getValueType()->isArrayTy() && cast<ArrayType>(G->getValueType())->getElementType()->isIntegerTy(8)) { n->hasZ = true; n->zExact = true; n->Z = Lin(0); }
  S.regs[id] = n; return id;
}
void Interp::rowFork(State S, const AV &p, const Instruction *site, const std::function<void(State, AV)> &k) {
  if (p.reg <= 0 || !S.has(p.reg) || !S.R(p.reg).isGlobal || !S.R(p.reg).init) { k(std::move(S), p); return; }
  const GlobalVariable *G = nullptr;
  for (auto &g : M.globals()) if (g.hasInitializer() && g.getInitializer() == S.R(p.reg).init && regionId(&g, 0, "") == p.reg) { G = &g; break; }
  if (!G) { k(std::move(S), p); return; }
  RowTab &r = rowTab(M, G, DL);
  Lin off = p.e; try { S.P.reduce(off); } catch (Ovf &) {}
  if (!r.is || p.e.isConst()) { k(std::move(S), p); return; }
  // row index and constant offset inside the row
  Lin idx; long rel = -1;
  Lin c = p.e; long m = ((c.c % r.rs) + r.rs) % r.rs; bool ok = true; for (auto &q : c.t) if (q.second % r.rs) ok = false;
  if (ok) { rel = m; idx = c - Lin(m); idx.c /= r.rs; for (auto &q : idx.t) q.second /= r.rs; }
  if (rel < 0) { k(std::move(S), p); return; }
  ob("bounds");
  if (!S.P.entGe(idx) || !S.P.entGe(Lin(r.rows - 1) - idx)) alarm("bounds", "row index outside the record descriptor table");
  const Instruction *sv = cur;
  for (int pop = 1; pop >= 0; pop--) {
    State T = S;
    int id = regionId(G, pop ? 1 : 2, pop ? "described-row" : "empty-row");
    if (T.has(id)) T.regs.erase(id);
    auto n = std::make_shared<Region>(); n->id = id; n->ro = true; n->isGlobal = true; n->size = Lin(r.rs); n->ilo = Lin(0); n->ihi = Lin(r.rs);
    if (pop) { n->Z = fresh(T, r.arr + r.minZ, r.arr + r.maxZ); n->hasZ = true; n->zExact = true; n->zfrom = r.arr; n->term = r.term; n->hasV = true; n->vmin = r.vmin; n->vmax = r.vmax; }
    else { n->zero = true; }
    T.regs[id] = n;
    T.flags.insert(pop ? "row" : "norow"); T.flags.erase(pop ? "norow" : "row");
    cur = sv;
    k(std::move(T), AV::mkPtr(id, Lin(rel)));
  }
}

bool Interp::access(State &S, const AV &p, const Lin &len, bool write, const char *what) {
  std::string w = what;
  ob("access");
  i64 hl; if (S.P.maxOf(len, hl) && hl <= 0) { // nothing is accessed
    if (S.P.entGe(len)) return p.k == AV::Ptr && p.reg > 0 && S.has(p.reg);
  }
  if (p.un) { if (record && getenv("ABS_DUMP")) { errs() << "UNADDR " << locOf(cur) << "\n"; dump(S); } alarm("uninit", w + ": the address was never set"); return false; }
  if (p.k != AV::Ptr || p.reg < 0) { alarm("bounds", w + (p.nullOff ? ": offset from a null pointer" : ": the address is not known to be inside any object")); return false; }
  if (p.reg == 0) { alarm("null", w + ": null pointer"); S.P.bot = true; return false; }
  if (!S.has(p.reg)) { alarm("bounds", w + ": object no longer tracked"); return false; }
  const Region &R0 = S.R(p.reg);
  if (R0.maybeNull) {
    if (!R0.alloc && !(R0.nullEmpty && S.P.entGe(R0.size - Lin(1)))) { alarm("null", w + ": pointer to " + regionName(p.reg) + " may be null"); }
    S.W(p.reg).maybeNull = false;
  }
  const Region &R = S.R(p.reg);
  if (R.freed) { alarm("uaf", w + ": " + regionName(p.reg) + " was released"); return false; }
  if (R.dead) { alarm("uaf", w + ": local object " + regionName(p.reg) + " is out of scope"); return false; }
  try {
    bool neg = !S.P.entGe(len);
    Lin lo = p.e, hi = R.size - p.e - len;
    bool a = S.P.entGe(lo), b = S.P.entGe(hi);
    if (neg && !len.isConst()) { alarm("bounds", w + ": length may be negative (wrapped)"); S.P.addIneq(len); }
    if (!a) { if (record && getenv("ABS_DUMP")) { errs() << "START " << locOf(cur) << "\n"; dump(S); } alarm("bounds", w + ": may be before the start of " + regionName(p.reg)); S.P.addIneq(lo); }
    if (!b) {
      if (record && getenv("ABS_DUMP")) { errs() << "ALARM at " << locOf(cur) << " reg " << regionName(p.reg) << "\n"; dump(S); }
      // where the labels of a name end is a matter of its octets: once they have been counted, a walk over them stays inside
      alarm(S.flags.count("lv" + std::to_string(p.reg)) ? "content" : "bounds", w + ": may be past the end of " + regionName(p.reg)); S.P.addIneq(hi); }
    if (write && R.ro) { alarm("ro", w + ": writes to " + regionName(p.reg) + ", which is only to be read"); return false; }
    if (write) ob("ro");
  } catch (Ovf &) { alarm("bounds", w + ": offset overflow"); return false; }
  return !S.P.bot;
}
static bool overlaps(State &S, const Lin &o1, const Lin &l1, const Lin &o2, const Lin &l2) {
  try { if (S.P.entGe(o2 - o1 - l1)) return false; if (S.P.entGe(o1 - o2 - l2)) return false; } catch (Ovf &) {}
  return true;
}
bool Interp::initialised(State &S, int reg, const Lin &off, const Lin &len) {
  const Region &R = S.R(reg);
  if (R.isGlobal || R.zero || R.init) return true;
  i64 h; if (S.P.maxOf(len, h) && h <= 0) return true;
  try {
    if (!R.hasHole && R.ilo == Lin(0) && !R.heap && !R.stack && S.P.entEq(R.ihi - R.size)) return true; // all of it is set: the bounds check decides
    if (S.P.entGe(off - R.ilo) && S.P.entGe(R.ihi - off - len) && (!R.hasHole || S.P.entGe(off - R.hole - Lin(1)) || S.P.entGe(R.hole - off - len))) return true;
    if (R.hasHole && S.P.entGe(off - R.ilo) && S.P.entGe(R.hole - off - len)) return true;
    if (R.hasZ && S.P.entGe(off) && S.P.entGe(R.Z + Lin(1) - off - len) && R.zfrom == 0 && R.zExact) return true;
    if (R.et && S.P.entGe(off - R.LO * R.et->size) && S.P.entGe(R.HI * R.et->size - off - len)) return true;
  } catch (Ovf &) {}
  i64 o, l;
  if (S.P.isConst(off, o) && S.P.isConst(len, l)) {
    // covered by cells and the interval
    i64 at = o; int g = 0;
    while (at < o + l && g++ < 100) {
      bool ok = false;
      for (auto &c : R.cells) if (c.first <= at && at < c.first + c.second.sz && !c.second.v.un) { at = c.first + c.second.sz; ok = true; break; }
      if (ok) continue;
      i64 il, ih; bool hl = S.P.maxOf(R.ilo, il), hh = S.P.minOf(R.ihi, ih); if (R.hasHole) { i64 q; if (S.P.minOf(R.hole, q) && q < ih) ih = q; }
      if (hl && hh && il <= at && at < ih) { at = ih; continue; }
      return false;
    }
    return at >= o + l;
  }
  return false;
}
void Interp::addInit(State &S, int reg, const Lin &off, const Lin &len) {
  if (S.R(reg).isGlobal || S.R(reg).zero) return;
  try {
    Lin end = off + len;
    if (S.R(reg).hasHole) { RegP keepAlive = S.regs[reg]; const Region &R = *keepAlive;
      if (S.P.entGe(R.hole - off) && S.P.entGe(end - R.hole - Lin(1))) S.W(reg).hasHole = false; // filled
      else if (S.P.entGe(R.hole - R.ihi)) { auto &W = S.W(reg); W.hasHole = false; }
      else if (S.P.entEq(R.hole + Lin(1) - R.ihi)) { auto &W = S.W(reg); W.hasHole = false; W.ihi = W.hole; }
    }
    RegP keepAlive = S.regs[reg]; const Region &R = *keepAlive;
    bool inLo = S.P.entGe(off - R.ilo), inHi = S.P.entGe(R.ihi - end);
    if (inLo && inHi && S.P.entGe(R.ihi - R.ilo)) return;
    bool empty = S.P.entGe(R.ilo - R.ihi);
    if (empty) { if (!S.P.entGe(len)) return; auto &W = S.W(reg); if (off == Lin(1) && S.P.entGe(len - Lin(1))) { W.ilo = Lin(0); W.ihi = end; W.hasHole = true; W.hole = Lin(0); return; } W.ilo = off; W.ihi = end; W.hasHole = false; return; }
    if (inLo && S.P.entGe(R.ihi - off)) { if (S.P.entGe(end - R.ihi)) S.W(reg).ihi = end; else if (!R.hasHole && S.P.entEq(off - R.ilo) && !S.P.entGe(R.ihi - end)) S.W(reg).ihi = end; return; }
    if (S.P.entGe(R.ilo - off) && S.P.entGe(end - R.ilo)) { // extends to the left (maybe both)
      auto &W = S.W(reg); W.ilo = off; if (S.P.entGe(end - W.ihi)) W.ihi = end; return;
    }
    if (!S.R(reg).hasHole && S.P.entEq(off - R.ihi - Lin(1)) && S.P.entGe(len)) { auto &W = S.W(reg); W.hasHole = true; W.hole = W.ihi; W.ihi = end; return; }
    // disjoint: keep the larger of the two if known, the newer one if only its size is known
    i64 a, b; if (S.P.isConst(len, a) && (S.P.isConst(R.ihi - R.ilo, b) ? a > b : R.stack && a > 1)) { auto &W = S.W(reg); W.ilo = off; W.ihi = end; W.hasHole = false; }
  } catch (Ovf &) {}
}
// A destination that must receive a well-formed name: ghost 2 is where the next length octet
// belongs, ghost 3 is the position of the last one written.
bool Interp::monitor(State &S, int reg, const Lin &off, const Lin &len, const AV *v) {
  auto g = S.ghosts.find(2); if (g == S.ghosts.end() || g->second.first != reg || !S.ghosts.count(3)) return false;
  Lin L = g->second.second, last = S.ghosts[3].second;
  i64 h; if (S.P.maxOf(len, h) && h <= 0) return true;
  try {
    if (S.P.entGe(off - last - Lin(1))) {
      if (S.P.entGe(off - L - Lin(1)) || S.P.entGe(L - off - len)) return true; // label contents
      if (v && S.P.entEq(off - L)) {
        ob("length-octet");
        i64 lo, hi; bool okv = v->k == AV::Int && S.P.minOf(v->e, lo) && lo >= 0 && S.P.maxOf(v->e, hi) && hi <= 63;
        auto pd = S.ghosts.find(4);
        if (pd != S.ghosts.end()) { okv = okv && S.P.entGe(Lin(63) - pd->second.second); if (okv) { S.ghosts.erase(4); S.flags.erase("pend"); } }
        else if (!okv && v->k == AV::Int && S.P.minOf(v->e, lo) && lo >= 0 && S.P.maxOf(v->e, hi) && hi <= 255) { okv = true; S.ghosts[4] = {reg, v->e}; S.flags.insert("pend"); } // must turn out to be at most 63
        if (!okv) { S.ghosts.erase(4); S.flags.erase("pend"); if (record && getenv("ABS_DUMP")) dump(S); alarm("name", "a label length octet that may exceed 63 is written to the name"); S.ghosts.erase(2); S.ghosts.erase(3); return true; }
        S.ghosts[3].second = off; S.ghosts[2].second = L + v->e + Lin(1); if (v->e == Lin(0)) S.flags.insert("root"); else S.flags.erase("root"); return true;
      }
    }
  } catch (Ovf &) {}
  if (getenv("ABS_MON")) { errs() << "MONITOR LOST at " << locOf(cur) << "\n"; dump(S); }
  if (record) undecided.insert("structure of the written name not followed at " + locOf(cur));
  S.ghosts.erase(2); S.ghosts.erase(3); return true;
}
void Interp::clobber(State &S, int reg, const Lin &off, const Lin &len, bool keepInit) {
  monitor(S, reg, off, len, nullptr);
  auto &W = S.W(reg);
  for (auto it = W.cells.begin(); it != W.cells.end();) {
    if (overlaps(S, Lin(it->first), Lin(it->second.sz), off, len)) {
      // a partial overwrite keeps the rest initialised only through the interval
      it = W.cells.erase(it);
    } else ++it;
  }
  i64 o, l; bool co = S.P.isConst(off, o) && S.P.isConst(len, l);
  (void)co;
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == reg && overlaps(S, f.off, Lin(f.sz), off, len); }), S.facts.end());
  if (W.hasZ) {
    bool before = false, after = false;
    try { before = S.P.entGe(W.Z - off - len); after = S.P.entGe(off - W.Z - Lin(1)); } catch (Ovf &) {}
    if (!before && !after) W.hasZ = false;
    else if (before) W.zExact = false;
  }
  if (W.hasV) W.hasV = false;
  if (W.zero && !W.et) { // set, but no longer all zero
    W.zero = false; W.ilo = Lin(0); W.ihi = W.size; W.hasHole = false;
    try { if (!W.hasZ && S.P.entGe(W.size - off - len - Lin(1))) { W.hasZ = true; W.Z = W.size - Lin(1); W.zExact = false; W.term = 0; W.zfrom = 0; } } catch (Ovf &) {}
  }
}
void Interp::wipe(State &S, int reg) {
  auto &W = S.W(reg);
  W.cells.clear(); W.hasZ = false; W.zero = false; W.hasV = false; W.ilo = Lin(0); W.ihi = W.size; W.hasHole = false; W.hasF = false; W.fcells.clear();
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == reg; }), S.facts.end());
}
void Interp::dropRegion(State &S, int reg) {
  S.regs.erase(reg);
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == reg; }), S.facts.end());
}
void Interp::deadStack(State &S, int reg, bool end) {
  auto &W = S.W(reg);
  W.cells.clear(); W.hasZ = false; W.zero = false; W.hasV = false; W.ilo = Lin(0); W.ihi = Lin(0); W.hasHole = false; W.dead = end;
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == reg; }), S.facts.end());
}
static AV typedFresh(Interp &I, State &S, int sz, Type *T) {
  if (T && T->isPointerTy()) return AV::mkPtr(-1);
  return I.freshInt(S, sz * 8);
}
AV Interp::load(State &S, const AV &p, int sz, Type *T, const Value *site) {
  bool ok = access(S, p, Lin(sz), false, "read");
  if (S.P.bot) return AV();
  if (!ok) return typedFresh(*this, S, sz, T);
  const Region &R = S.R(p.reg);
  i64 o; bool ko = S.P.isConst(p.e, o);
  std::map<long, Cell> const *cells = &R.cells; long rel = 0; int base = 0;
  std::map<long, Cell> *fc = nullptr;
  if (R.et && !ko) { if (focus(S, p.reg, p.e, sz, fc, rel)) { cells = fc; o = rel; ko = true; base = 1; } }
  else if (R.et) { if (focus(S, p.reg, p.e, sz, fc, rel)) { cells = fc; o = rel; base = 1; } }
  const Region &R2 = S.R(p.reg);
  bool isPtr = T && T->isPointerTy();
  if (base && !ko) {}
  if (ko) {
    auto it = cells->find(o);
    if (it != cells->end() && it->second.sz == sz) {
      AV v = it->second.v;
      if (isPtr && v.k == AV::Int) { i64 z; bool u = v.un; if (S.P.isConst(v.e, z) && z == 0) v = AV::mkPtr(0); else v = AV::mkPtr(-1); v.un = u; }
      if (!isPtr && v.k == AV::Ptr) { if (v.reg == 0) { v = AV::mkInt(Lin(0), 3); } }
      if (v.k == AV::Top) { bool u = v.un; v = typedFresh(*this, S, sz, T); v.un = u; }
      return v;
    }
    if (R2.init && !base) {
      Type *LT = isPtr ? T : IntegerType::get(M.getContext(), sz * 8);
      if (auto *C = ConstantFoldLoadFromConst(const_cast<Constant *>(R2.init), LT, APInt(64, o), DL)) {
        if (!isa<UndefValue>(C)) return val(S, C);
      }
    }
    bool ov = false; for (auto &c : *cells) if (c.first < o + sz && o < c.first + c.second.sz) ov = true;
    if (R2.zero && !ov && !base) return isPtr ? AV::mkPtr(0) : AV::mkInt(Lin(0), 3);
  } else if (R2.zero && R2.cells.empty()) return isPtr ? AV::mkPtr(0) : AV::mkInt(Lin(0), 3);
  if (isPtr) {
    AV v = AV::mkPtr(-1);
    if (R2.isGlobal && R2.init) { v = AV::mkPtr(summaryString(S, R2.init, 7, "static string")); return v; }
    if (!base) v.un = !initialised(S, p.reg, p.e, Lin(sz));
    if (R2.et && !ko) { v.un = false; }
    return v;
  }
  if (R2.init && !base && !ko && !isPtr && sz <= 4) { // every entry of a constant table that this read can reach
    i64 lo, hi; Lin e = p.e; i64 g = 0; for (auto &t : e.t) g = std::gcd(g, (i64)(t.second < 0 ? -t.second : t.second));
    if (g > 0 && S.P.minOf(e, lo) && S.P.maxOf(e, hi) && lo >= 0 && (hi - lo) / g <= 4096) {
      i64 mn = 0, mx = -1; bool ok = true, first = true; i64 m = ((e.c - lo) % g + g) % g;
      for (i64 o2 = lo + m; ok && o2 <= hi; o2 += g) {
        auto *C = dyn_cast_or_null<ConstantInt>(ConstantFoldLoadFromConst(const_cast<Constant *>(R2.init), IntegerType::get(M.getContext(), sz * 8), APInt(64, o2), DL));
        if (!C) { ok = false; break; }
        i64 v = C->getZExtValue(); if (first) mn = mx = v; else { mn = std::min(mn, v); mx = std::max(mx, v); } first = false;
      }
      if (ok && !first && mn == mx) return AV::mkInt(Lin(mn), 1);
    }
  }
  if (!base && !ko && sz == 1 && !R2.hasV && !R2.isGlobal && !R2.init) { // any of a few known bytes
    i64 lo, hi; 
    if (S.P.minOf(p.e, lo) && S.P.maxOf(p.e, hi) && lo >= 0 && hi - lo < 64) {
      i64 mn = 256, mx = -1; bool ok = true;
      for (i64 x = lo; ok && x <= hi; x++) {
        auto it = cells->find(x); i64 a, b2;
        if (it == cells->end() || it->second.sz != 1 || it->second.v.k != AV::Int || it->second.v.un || !S.P.minOf(it->second.v.e, a) || !S.P.maxOf(it->second.v.e, b2) || a < 0 || b2 > 255) ok = false;
        else { mn = std::min(mn, a); mx = std::max(mx, b2); }
      }
      if (ok && mx >= 0) return AV::mkInt(fresh(S, mn, mx), 1);
    }
  }
  if (R2.ctab && sz == 2) {
    try { // class word of character (off/2 - 128)
      Lin c = p.e - Lin(256); bool ev = c.c % 2 == 0; for (auto &t : c.t) if (t.second % 2) ev = false;
      if (ev) { c.c /= 2; for (auto &t : c.t) t.second /= 2; AV v = freshInt(S, 16); v.ctIdx = 1; v.e2 = c; return v; }
    } catch (Ovf &) {}
  }
  // same place read before?
  for (auto &f : S.facts) if (f.kind == 0 && f.reg == p.reg && f.sz == sz) { try { Lin d = f.off - p.e; S.P.reduce(d); if (d.t.empty() && d.c == 0) { AV v = AV::mkInt(f.val, 1); return v; } } catch (Ovf &) {} }
  bool un = base ? S.R(p.reg).fFresh : !initialised(S, p.reg, p.e, Lin(sz));
  ob("init");
  const Region &R3 = S.R(p.reg);
  AV v = sz == 1 && R3.hasV ? AV::mkInt(fresh(S, R3.vmin, R3.vmax), 1) : freshInt(S, sz * 8);
  v.un = un;
  if (!un && !base) {
    // read of a known terminator?
    if (sz == 1 && R3.hasZ) { try { if (S.P.entEq(R3.Z - p.e)) return AV::mkInt(Lin(R3.term), 3);
        if (R3.zExact && S.P.entGe(R3.Z - p.e - Lin(1)) && S.P.entGe(p.e - Lin(R3.zfrom)) && R3.term == 0) S.P.addIneq(v.e - Lin(1)); } catch (Ovf &) {} }
    Fact f; f.kind = 0; f.site = site; f.reg = p.reg; f.sz = sz; f.d = 0; f.off = p.e; f.val = v.e; f.age = 0;
    for (auto it = S.facts.begin(); it != S.facts.end();) if (it->site == site && it->kind == 0) it = S.facts.erase(it); else ++it;
    S.facts.push_back(f);
    applyFacts(S);
    // structures: remember so that a second read gives the same value
    if (ko && sz > 1 && !R3.isGlobal && !R3.init) { Cell c; c.sz = sz; c.v = v; bool ov = false; for (auto &q : R3.cells) if (q.first < o + sz && o < q.first + q.second.sz) ov = true; if (!ov) S.W(p.reg).cells[o] = c; }
  }
  return v;
}
void Interp::loadK(State S, const AV &p, int sz, Type *T, const Value *site, const std::function<void(State, AV)> &k) {
  AV v = load(S, p, sz, T, site);
  if (S.P.bot) return;
  k(std::move(S), v);
}
void Interp::store(State &S, const AV &p, int sz, const AV &v0, Type *T) {
  AV v = v0;
  bool ok = access(S, p, Lin(sz), true, "write");
  if (!ok || S.P.bot) return;
  if (v.k == AV::Int && v.cond == nullptr && !v.ctIdx && sz < 8) {
    // keep an exact representative only
  }
  const Region *R = &S.R(p.reg);
  i64 o; bool ko = S.P.isConst(p.e, o);
  if (!R->et && R->heap && R->owned && sz == 8 && T && T->isPointerTy() && R->cells.empty()) {
    // an allocated block filled through an indexed pointer: a list of pointers to record data
    auto *St = dyn_cast_or_null<StoreInst>(cur);
    auto *G = St ? dyn_cast<GEPOperator>(St->getPointerOperand()) : nullptr;
    if (G && !G->hasAllConstantIndices() && G->getSourceElementType()->isPointerTy()) {
      auto &W = S.W(p.reg); W.et = &ET_rdp; W.LO = W.HI = Lin(0); W.zeroTail = W.zero; W.zero = W.hasZ = W.hasV = false; W.ilo = W.ihi = Lin(0); W.hasHole = false;
      R = &S.R(p.reg);
    }
  }
  if (R->et) {
    std::map<long, Cell> *fc = nullptr; long rel = 0;
    if (focus(S, p.reg, p.e, sz, fc, rel)) {
      for (auto it = fc->begin(); it != fc->end();) if (it->first < rel + sz && rel < it->first + it->second.sz) it = fc->erase(it); else ++it;
      Cell c; c.sz = sz; c.v = v; (*fc)[rel] = c;
      if (S.R(p.reg).rdNN) S.W(p.reg).rdNN = false;
      return;
    }
    alarm("bounds", "write at an unresolved element of " + regionName(p.reg)); return;
  }
  i64 cv; bool isz = v.k == AV::Int && !v.un && S.P.isConst(v.e, cv) && (cv & (sz >= 8 ? -1 : (((i64)1 << (sz * 8)) - 1))) == 0;
  bool hadZ = R->hasZ, exact = R->zExact; Lin Z = R->Z; long term = R->term; long zf = R->zfrom;
  bool nonterm = false, wasZero = R->zero;
  if (sz == 1 && v.k == AV::Int && hadZ) { i64 l, h; if ((S.P.minOf(v.e, l) && l > term && S.P.maxOf(v.e, h) && h < 256) ) nonterm = true; }
  { auto g2 = S.ghosts.find(2), g3 = S.ghosts.find(3); bool mon = sz == 1 && g2 != S.ghosts.end() && g2->second.first == p.reg && g3 != S.ghosts.end();
    std::pair<int, Lin> s2, s3; if (mon) { monitor(S, p.reg, p.e, Lin(1), &v); mon = S.ghosts.count(2); if (mon) { s2 = S.ghosts[2]; s3 = S.ghosts[3]; S.ghosts.erase(2); } }
    clobber(S, p.reg, p.e, Lin(sz), true);
    if (mon) { S.ghosts[2] = s2; S.ghosts[3] = s3; } }
  auto &W = S.W(p.reg);
  if (v.un) { // the bytes become undefined again: shrink what we know
    try { if (S.P.entGe(p.e - W.ilo) && S.P.entGe(W.ihi - p.e - Lin(1)) ) W.ihi = p.e; } catch (Ovf &) {}
  }
  if (sz == 1 && isz && term == 0) {
    if (hadZ) {
      try {
        if (S.P.entGe(Z - p.e)) { W.hasZ = true; W.Z = p.e; W.zExact = exact && S.P.entGe(p.e - Lin(zf)); W.term = 0; W.zfrom = zf; }
        else if (!W.hasZ) { W.hasZ = true; W.Z = p.e; W.zExact = false; W.term = 0; W.zfrom = 0; }
        // written after the known terminator: keep the earlier one
      } catch (Ovf &) {}
    } else { W.hasZ = true; W.Z = p.e; W.zExact = false; W.term = 0; W.zfrom = 0; try { if (S.P.entEq(p.e)) W.zExact = true; } catch (Ovf &) {} }
  } else if (hadZ && nonterm) {
    try { if (S.P.entGe(Z - p.e - Lin(1))) { W.hasZ = true; W.Z = Z; W.zExact = exact; W.term = term; W.zfrom = zf; } } catch (Ovf &) {}
  }
  i64 rsz; bool small = S.P.isConst(W.size, rsz) && rsz <= 64;
  if (ko && (sz > 1 || small || wasZero)) { Cell c; c.sz = sz; c.v = v; W.cells[o] = c; if (wasZero && !v.un) W.zero = true; }
  else if (v.k == AV::Ptr && !ko) { alarm("bounds", "pointer stored at an unresolved offset of " + regionName(p.reg)); }
  if (!v.un) addInit(S, p.reg, p.e, Lin(sz));
  if (!v.un && !ko && sz == 1 && v.k == AV::Int) {
    Fact f; f.kind = 0; f.site = cur; f.reg = p.reg; f.sz = sz; f.d = 0; f.off = p.e; f.age = 0;
    Lin x; i64 l, h; if ((v.canon & 1) || (S.P.minOf(v.e, l) && l >= 0 && S.P.maxOf(v.e, h) && h < 256)) { f.val = v.e; for (auto it = S.facts.begin(); it != S.facts.end();) if (it->site == cur && it->kind == 0) it = S.facts.erase(it); else ++it; S.facts.push_back(f); }
  }
}
void Interp::copyMem(State &S, const AV &d, const AV &s, const Lin &len) {
  i64 l; bool kl = S.P.isConst(len, l);
  if (kl && l <= 0) return;
  if (d.reg <= 0 || s.reg <= 0 || !S.has(d.reg) || !S.has(s.reg)) return;
  i64 so, dof; bool ks = S.P.isConst(s.e, so), kd = S.P.isConst(d.e, dof);
  std::vector<std::pair<long, Cell>> mv; bool srcZero = false;
  bool srcInit;
  { // source
    if (S.R(s.reg).et && kl) {
      std::map<long, Cell> *fc = nullptr; long rel = 0;
      if (focus(S, s.reg, s.e, 1, fc, rel) && rel + l <= S.R(s.reg).et->size) { for (auto &c : *fc) if (c.first >= rel && c.first + c.second.sz <= rel + l) mv.push_back({c.first - rel, c.second}); }
    } else if (ks && kl) for (auto &c : S.R(s.reg).cells) if (c.first >= so && c.first + c.second.sz <= so + l) mv.push_back({c.first - so, c.second});
    if (S.R(s.reg).init && ks && kl && l <= 256 && !S.R(s.reg).hasV) {
      // constant structure: take its words
      for (long k = 0; k + 1 <= l;) { long step = (l - k >= 8 && (so + k) % 8 == 0) ? 8 : (l - k >= 4 && (so + k) % 4 == 0) ? 4 : (l - k >= 2 && (so + k) % 2 == 0) ? 2 : 1;
        auto *C = ConstantFoldLoadFromConst(const_cast<Constant *>(S.R(s.reg).init), IntegerType::get(M.getContext(), step * 8), APInt(64, so + k), DL);
        if (auto *ci = dyn_cast_or_null<ConstantInt>(C)) { Cell c; c.sz = step; c.v = AV::mkInt(Lin(ci->getSExtValue()), ci->getSExtValue() >= 0 ? 3 : 2); mv.push_back({k, c}); }
        k += step; }
    }
    srcZero = S.R(s.reg).zero;
    srcInit = initialised(S, s.reg, s.e, len);
  }
  bool sZ = false, sEx = false; Lin zz; long term = 0;
  { const Region &R = S.R(s.reg); try { if (R.hasZ && S.P.entGe(R.Z - s.e) && S.P.entGe(s.e + len - R.Z - Lin(1))) { sZ = true; sEx = R.zExact; zz = d.e + R.Z - s.e; term = R.term; } } catch (Ovf &) {} }
  if (S.R(d.reg).et) {
    std::map<long, Cell> *fc = nullptr; long rel = 0;
    if (kl && focus(S, d.reg, d.e, 1, fc, rel) && rel + l <= S.R(d.reg).et->size) {
      for (auto it = fc->begin(); it != fc->end();) if (it->first < rel + l && rel < it->first + it->second.sz) it = fc->erase(it); else ++it;
      for (auto &c : mv) (*fc)[rel + c.first] = c.second;
    } else alarm("bounds", "copy to unresolved elements of " + regionName(d.reg));
    return;
  }
  bool wz = S.R(d.reg).zero && kd && kl && srcInit && d.reg != s.reg;
  clobber(S, d.reg, d.e, len, true);
  if (kd && kl && d.reg != s.reg) for (auto &c : mv) {
    S.W(d.reg).cells[dof + c.first] = c.second;
    if (c.second.sz == 1 && !wz) S.W(d.reg).cells.erase(dof + c.first);
  }
  if (wz) { // the rest is still zero
    long cov = 0; for (auto &c : mv) cov += c.second.sz;
    if (cov < l) { auto &W = S.W(d.reg); for (auto &c : mv) W.cells.erase(dof + c.first);
      if (l <= 64) for (long k = 0; k < l;) { long st = 1; for (long q : {8, 4, 2}) if (l - k >= q && (dof + k) % q == 0) { st = q; break; } Cell c; c.sz = st; c.v = AV::mkInt(fresh(S, 0, st == 8 ? INF : ((i64)1 << (8 * st)) - 1), st == 8 ? 0 : 1); if (st == 8) c.v = AV(); S.W(d.reg).cells[dof + k] = c; k += st; } else wz = false; }
    if (wz) S.W(d.reg).zero = true;
  }
  if (!(kd && kl && d.reg != s.reg)) for (auto &c : mv) if (c.second.v.k == AV::Ptr && c.second.v.reg > 0) { alarm("bounds", "pointer copied to an unresolved offset of " + regionName(d.reg)); break; }
  if (srcInit) addInit(S, d.reg, d.e, len);
  else { auto &W = S.W(d.reg); try { if (!W.zero && S.P.entGe(d.e - W.ilo) && S.P.entGe(W.ihi - d.e)) { if (!(kl && !mv.empty())) W.ihi = d.e; } } catch (Ovf &) {} if (W.zero) W.zero = false; }
  if (kd && kl && srcInit && mv.empty() && (l == 2 || l == 4) && !S.R(d.reg).isGlobal && !initialised(S, d.reg, d.e, len)) { // a field filled from octets: some value of its width
    Cell c; c.sz = l; c.v = AV::mkInt(fresh(S, 0, l == 2 ? 65535 : 4294967295LL), 1); S.W(d.reg).cells[dof] = c;
  }
  if (sZ) { auto &W = S.W(d.reg); bool d0 = false, s0 = false; try { d0 = S.P.entEq(d.e); s0 = true; } catch (Ovf &) {} W.hasZ = true; W.Z = zz; W.term = term; W.zExact = sEx && d0 && s0; W.zfrom = 0; }
  (void)srcZero;
}
bool Interp::owning(State &S, int reg) { return S.has(reg) && S.R(reg).owned && !S.R(reg).freed; }
void Interp::freePtr(State &S, const AV &p, const char *fn) {
  ob("free");
  if (p.un) { alarm("uninit", std::string(fn) + " of a pointer that was never set"); return; }
  if (p.k == AV::Ptr && p.reg == 0) return;
  i64 z; if (p.k == AV::Int && S.P.isConst(p.e, z) && z == 0) return;
  if (p.k != AV::Ptr || p.reg < 0 || !S.has(p.reg)) { alarm("free", std::string(fn) + " of an unknown pointer"); return; }
  if (S.R(p.reg).et) unfocus(S, p.reg);
  const Region &R = S.R(p.reg);
  if (R.freed) { alarm("uaf", std::string(fn) + ": " + regionName(p.reg) + " is released twice"); return; }
  if (!R.heap) { alarm("free", std::string(fn) + " of " + regionName(p.reg) + ", which is not an allocated block"); return; }
  if (!R.owned) { alarm("free", std::string(fn) + " of " + regionName(p.reg) + ", which belongs to somebody else"); return; }
  if (!S.P.entEq(p.e)) alarm("free", std::string(fn) + " of an address inside " + regionName(p.reg));
  if (R.et && !S.P.entGe(R.LO - R.HI)) { if (getenv("ABS_DUMP") && record) dump(S); alarm("leak", std::string("array ") + regionName(p.reg) + " is released while its elements still own memory"); }
  if (R.maybeNull) {
    // null: nothing happens. The block, if any, is released.
  }
  auto &W = S.W(p.reg); W.freed = true; W.owned = false; W.cells.clear(); W.hasF = false; W.fcells.clear(); W.hasZ = false; W.zero = false;
}
// ---- arrays of structures ---------------------------------------------------------
bool Interp::elemIndex(State &S, int reg, const Lin &off, Lin &idx, long &rel) {
  const Region &R = S.R(reg); long es = R.et->size;
  i64 c;
  try {
    if (R.hasF && S.P.isConst(off - R.F * es, c)) { long q = fdiv(c, es); rel = c - q * es; idx = R.F + Lin(q); return true; }
    auto tryLin = [&](const Lin &o) { for (auto &t : o.t) if (t.second % es) return false; rel = ((o.c % es) + es) % es; idx = o - Lin(rel); idx.c /= es; for (auto &t : idx.t) t.second /= es; return true; };
    if (tryLin(off)) return true;
    Lin o = off; i64 mul; S.P.reduce(o, &mul); if (mul == 1 && tryLin(o)) return true;
    auto tryVar = [&](const Lin &x) { i64 k; if (S.P.isConst(off - x * es, k)) { long q = fdiv(k, es); rel = k - q * es; idx = x + Lin(q); return true; } return false; };
    for (auto &p : S.env) if (p.second.k == AV::Int && !p.second.e.isConst() && tryVar(p.second.e)) return true;
    if (tryVar(R.HI) || tryVar(R.LO)) return true;
    for (auto &g : S.ghosts) if (tryVar(g.second.second)) return true;
    for (auto &r : S.regs) for (auto &q : r.second->cells) if (q.second.v.k == AV::Int && !q.second.v.e.isConst() && tryVar(q.second.v.e)) return true;
  } catch (Ovf &) {}
  return false;
}
struct Lay { long rr_name, rr_rdata, rr_size, rs_name, rs_rdatas, rs_n, rs_size, nm_len, nm_data, nm_size, rd_len, rd_data, rs_type, rr_type, rs_ttl, rr_ttl, rs_class, rr_class; };
const Lay &lay(Module &M) {
  static Lay l; static bool done = false;
  if (!done) { done = true;
    l.rr_name = fieldOff(M, "wdns_rr_t", "name"); l.rr_rdata = fieldOff(M, "wdns_rr_t", "rdata"); l.rr_size = typeSize(M, "wdns_rr_t");
    l.rs_name = fieldOff(M, "wdns_rrset_t", "name"); l.rs_rdatas = fieldOff(M, "wdns_rrset_t", "rdatas"); l.rs_n = fieldOff(M, "wdns_rrset_t", "n_rdatas"); l.rs_size = typeSize(M, "wdns_rrset_t");
    l.nm_len = fieldOff(M, "wdns_name_t", "len"); l.nm_data = fieldOff(M, "wdns_name_t", "data"); l.nm_size = typeSize(M, "wdns_name_t");
    l.rd_len = fieldOff(M, "wdns_rdata_t", "len"); l.rd_data = fieldOff(M, "wdns_rdata_t", "data");
    l.rr_type = fieldOff(M, "wdns_rr_t", "rrtype"); l.rs_type = fieldOff(M, "wdns_rrset_t", "rrtype"); l.rr_ttl = fieldOff(M, "wdns_rr_t", "rrttl"); l.rs_ttl = fieldOff(M, "wdns_rrset_t", "rrttl");
    l.rr_class = fieldOff(M, "wdns_rr_t", "rrclass"); l.rs_class = fieldOff(M, "wdns_rrset_t", "rrclass"); }
  return l;
}
// a new block holding a name of *len octets, described by cells at (base) of `cells`
void mkName(Interp &I, State &S, std::map<long, Cell> &cells, long base, const void *site, long idx, bool owned, bool ro, const char *nm) {
  const Lay &L = lay(I.M);
  Lin len = I.fresh(S, 0, 255);
  int id = regionId(site, idx, nm);
  auto n = std::make_shared<Region>(); n->id = id; n->size = I.fresh(S, 0, 65536); S.P.addIneq(n->size - len, false); n->ilo = Lin(0); n->ihi = len; n->heap = true; n->owned = owned; n->ro = ro;
  S.regs[id] = n;
  cells[base + L.nm_len] = Cell{1, AV::mkInt(len, 3)};
  cells[base + L.nm_data] = Cell{8, AV::mkPtr(id)};
}
int mkRdata(Interp &I, State &S, const void *site, long idx, bool owned, bool ro, const char *nm) {
  const Lay &L = lay(I.M);
  int id = regionId(site, idx, nm);
  Lin len = I.fresh(S, 0, 65535);
  auto n = std::make_shared<Region>(); n->id = id; n->size = I.fresh(S, 0, (i64)1 << 40); S.P.addIneq(n->size - len - Lin(L.rd_data), false); n->ilo = Lin(0); n->ihi = len + Lin(L.rd_data); n->heap = true; n->owned = owned; n->ro = ro;
  n->cells[L.rd_len] = Cell{2, AV::mkInt(len, 3)};
  S.regs[id] = n; return id;
}
ElemType ET_rr{"wdns_rr_t", 0, 1}, ET_rrset{"wdns_rrset_t", 0, 2}, ET_rdp{"wdns_rdata_t*", 8, 3}, ET_rdn{"wdns_rdata_t* or null", 8, 4};
// fresh contents of an object of one of the kinds
static void freshCells(Interp &I, State &S, int kind, std::map<long, Cell> &c, long base, const void *site, long idx, bool own, bool ro, const std::string &nm) {
  const Lay &L = lay(I.M);
  if (kind == 1) {
    c[base + L.rr_ttl] = Cell{4, I.freshInt(S, 32)}; c[base + L.rr_type] = Cell{2, I.freshInt(S, 16)}; c[base + L.rr_class] = Cell{2, I.freshInt(S, 16)};
    mkName(I, S, c, base + L.rr_name, site, idx, own, ro, (nm + ".name").c_str());
    int rd = mkRdata(I, S, site, idx + 1, own, ro, (nm + ".rdata").c_str()); S.W(rd).maybeNull = true;
    c[base + L.rr_rdata] = Cell{8, AV::mkPtr(rd)};
  } else if (kind == 2) {
    c[base + L.rs_ttl] = Cell{4, I.freshInt(S, 32)}; c[base + L.rs_type] = Cell{2, I.freshInt(S, 16)}; c[base + L.rs_class] = Cell{2, I.freshInt(S, 16)};
    mkName(I, S, c, base + L.rs_name, site, idx, own, ro, (nm + ".name").c_str());
    extern int mkRdatas(Interp &, State &, std::map<long, Cell> &, long, const void *, long, bool, bool, const std::string &);
    int r = mkRdatas(I, S, c, base + L.rs_rdatas, site, idx + 1, own, ro, nm + ".rdatas");
    c[base + L.rs_n] = Cell{2, AV::mkInt(S.R(r).HI, 3)};
    auto g = S.ghosts.find(5); if (g != S.ghosts.end()) S.P.addIneq(g->second.second - S.R(r).HI, false);
  }
}
void objCells(Interp &I, State &S, int kind, std::map<long, Cell> &c, long base, const void *site, long idx, bool own, bool ro, const std::string &nm) { freshCells(I, S, kind, c, base, site, idx, own, ro, nm); }

void Interp::materialise(State &S, int reg, const Lin &idx) {
  const ElemType *et = S.R(reg).et; bool own = S.R(reg).owned, ro = S.R(reg).ro;
  const void *site = (const void *)(intptr_t)(0x10000 + reg); // one set of blocks per array
  const Lay &L = lay(M);
  std::map<long, Cell> c;
  std::string nm = regionName(reg);
  auto clean = [&](long k, const char *s) { int id = regionId(site, k, nm + s); if (S.has(id)) { int j = 10; while (j < 14 && S.has(regionId(site, k + j, nm + s + "'"))) j++; if (j == 14) { broken = true; brokenWhy = "too many elements in use"; return; } renameRegion(S, id, regionId(site, k + j, nm + s + "'")); } };
  if (et->kind <= 2) {
    clean(1, ".name"); clean(2, et->kind == 1 ? ".rdata" : ".rdatas"); if (broken) return;
    freshCells(*this, S, et->kind, c, 0, site, 1, own, ro, nm);
    if (et->kind == 1 && S.R(reg).rdNN) { auto it = c.find(L.rr_rdata); if (it != c.end() && it->second.v.reg > 0) S.W(it->second.v.reg).maybeNull = false; }
  } else {
    clean(1, "[]"); int rd = mkRdata(*this, S, site, 1, own, ro, (nm + "[]").c_str()); if (et->kind == 4) S.W(rd).maybeNull = true;
    c[0] = Cell{8, AV::mkPtr(rd)};
    // ghosts 7, 8, 9: next index, octets of the entries before it (each with its two-octet length), octets of all
    auto g = S.ghosts.find(7);
    if (g != S.ghosts.end() && g->second.first == reg && S.ghosts.count(8) && S.ghosts.count(9) && S.P.entEq(g->second.second - idx)) {
      auto lc = S.R(rd).cells.find(L.rd_len);
      if (lc != S.R(rd).cells.end()) { try { Lin np = S.ghosts[8].second + Lin(2) + lc->second.v.e; S.P.addIneq(S.ghosts[9].second - np, false); S.ghosts[8].second = np; S.ghosts[7].second = idx + Lin(1); } catch (Ovf &) {} }
    }
  }
  auto &W = S.W(reg); W.hasF = true; W.F = idx; W.fcells = c; W.fFresh = false;
}
// an array of rdata pointers with n valid entries
int mkRdatas(Interp &I, State &S, std::map<long, Cell> &cells, long off, const void *site, long idx, bool owned, bool ro, const std::string &nm) {
  int id = regionId(site, idx, nm);
  auto n = std::make_shared<Region>(); n->id = id; n->heap = true; n->owned = owned; n->ro = ro; n->et = &ET_rdp; n->LO = Lin(0); n->HI = I.fresh(S, 0, 65535); n->size = n->HI * 8; n->ilo = n->ihi = Lin(0);
  n->maybeNull = true; n->nullEmpty = true;
  S.regs[id] = n; cells[off] = Cell{8, AV::mkPtr(id)}; return id;
}
// does an element satisfy what every stored element promises? collects the blocks it owns
bool Interp::elemValid(State &S, int reg, const std::map<long, Cell> &cells, std::set<int> &owned) { return objValid(S, S.R(reg).et->kind, S.R(reg).owned, cells, owned); }
bool Interp::objValid(State &S, int kind, bool own, const std::map<long, Cell> &cells, std::set<int> &owned) {
  const Lay &L = lay(M);
  auto ptrAt = [&](long o, AV &v) { auto it = cells.find(o); if (it == cells.end() || it->second.sz != 8) return false; v = it->second.v; if (v.un) return false; if (v.k == AV::Int) { i64 z; if (S.P.isConst(v.e, z) && z == 0) v = AV::mkPtr(0); else return false; } return v.k == AV::Ptr; };
  auto intAt = [&](long o, int sz, Lin &v) { auto it = cells.find(o); if (it == cells.end() || it->second.sz != sz || it->second.v.k != AV::Int || it->second.v.un) return false; v = it->second.v.e; i64 lo, hi; if (!(it->second.v.canon & 1)) { if (!S.P.minOf(v, lo) || lo < 0 || !S.P.maxOf(v, hi) || hi >= ((i64)1 << (8 * sz))) return false; } return true; };
  auto okBlock = [&](const AV &v) { return v.reg > 0 && S.has(v.reg) && !S.R(v.reg).freed && (!own || S.R(v.reg).owned) && S.P.entEq(v.e); };
  auto name = [&](long base) {
    AV p; Lin n; if (!ptrAt(base + L.nm_data, p) || !intAt(base + L.nm_len, 1, n)) return false;
    if (!okBlock(p)) return false;
    // a block of unknown success of allocation counts as present
    if (!S.P.entGe(S.R(p.reg).size - n) || !initialised(S, p.reg, Lin(0), n)) return false;
    owned.insert(p.reg); return true;
  };
  auto rdata = [&](const AV &p, bool nullable) {
    if (p.reg == 0) return nullable;
    if (!okBlock(p)) return false;
    State &T = S; AV q = p; Lin n;
    auto it = S.R(p.reg).cells.find(L.rd_len); if (it == S.R(p.reg).cells.end() || it->second.sz != 2 || it->second.v.k != AV::Int || it->second.v.un) return false;
    n = it->second.v.e; (void)T; (void)q;
    if (!S.P.entGe(S.R(p.reg).size - n - Lin(L.rd_data)) || !initialised(S, p.reg, Lin(L.rd_data), n)) return false;
    if (!nullable && S.R(p.reg).maybeNull && !S.R(p.reg).heap) return false;
    owned.insert(p.reg); return true;
  };
  if (kind >= 3) { AV p; return ptrAt(0, p) && rdata(p, kind == 4); }
  if (kind == 1) {
    AV p; Lin x;
    if (!intAt(L.rr_ttl, 4, x) || !intAt(L.rr_type, 2, x) || !intAt(L.rr_class, 2, x)) return false;
    return name(L.rr_name) && ptrAt(L.rr_rdata, p) && rdata(p, true);
  }
  AV p; Lin n, x;
  if (!intAt(L.rs_ttl, 4, x) || !intAt(L.rs_type, 2, x) || !intAt(L.rs_class, 2, x)) return false;
  if (!name(L.rs_name) || !ptrAt(L.rs_rdatas, p) || !intAt(L.rs_n, 2, n)) return false;
  if (p.reg == 0) return S.P.entEq(n);
  if (!okBlock(p)) return false;
  if (!S.R(p.reg).et) { // written entry by entry
    i64 k; if (!S.P.isConst(n, k) || k > 4 || !S.P.entGe(S.R(p.reg).size - n * 8)) return false;
    for (long q = 0; q < k; q++) { auto it = S.R(p.reg).cells.find(8 * q); if (it == S.R(p.reg).cells.end() || it->second.v.k != AV::Ptr || it->second.v.un || !rdata(it->second.v, false)) return false; }
    owned.insert(p.reg); return true;
  }
  if (S.R(p.reg).hasF) unfocus(S, p.reg);
  const Region &A = S.R(p.reg);
  if (A.et != &ET_rdp || !S.P.entEq(A.LO) || !S.P.entEq(A.HI - n)) return false;
  owned.insert(p.reg); return true;
}
void Interp::unfocus(State &S, int reg) {
  if (!S.R(reg).hasF) return;
  std::set<int> own; auto cells = S.R(reg).fcells; Lin F = S.R(reg).F;
  bool raw = S.R(reg).fFresh && cells.empty();
  bool valid = !raw && elemValid(S, reg, cells, own);
  if (S.P.bot) return;
  auto &W = S.W(reg); W.hasF = false; W.fcells.clear(); W.fFresh = false;
  bool inside = false; try { inside = S.P.entGe(F - W.LO) && S.P.entGe(W.HI - F - Lin(1)); } catch (Ovf &) {}
  if (inside) {
    bool empty = valid && own.empty() && W.et->kind == 4;
    if (valid && !(empty && (S.P.entEq(F - W.LO) || S.P.entEq(W.HI - F - Lin(1))))) { for (int r : own) dropRegion(S, r); return; }
    if (S.P.entEq(F - W.LO)) { W.LO = F + Lin(1); return; }
    if (S.P.entEq(W.HI - F - Lin(1))) { W.HI = F; return; }
    alarm("leak", "element of " + regionName(reg) + " left in an inconsistent state");
    return;
  }
  if (valid) {
    if (S.P.entEq(F - W.HI)) { W.HI = F + Lin(1); for (int r : own) dropRegion(S, r); return; }
    if (S.P.entGe(W.LO - W.HI)) { W.LO = F; W.HI = F + Lin(1); for (int r : own) dropRegion(S, r); return; }
  }
  // outside the valid part and not valid: unconstrained contents; blocks it owned are found by the leak check
}
bool Interp::focus(State &S, int reg, const Lin &off, int sz, std::map<long, Cell> *&cells, long &rel) {
  Lin idx; 
  if (!elemIndex(S, reg, off, idx, rel)) return false;
  if (S.R(reg).hasF && S.P.entEq(S.R(reg).F - idx)) { cells = &S.W(reg).fcells; return true; }
  unfocus(S, reg);
  if (S.P.bot) return false;
  const Region &R = S.R(reg);
  bool inside = false; try { inside = S.P.entGe(idx - R.LO) && S.P.entGe(R.HI - idx - Lin(1)); } catch (Ovf &) {}
  if (inside) materialise(S, reg, idx);
  else {
    auto &W = S.W(reg); W.hasF = true; W.F = idx; W.fcells.clear(); W.fFresh = true;
    if (W.zeroTail && S.P.entGe(idx - W.HI)) {
      const Lay &L = lay(M);
      auto z = [&](long o, int s) { W.fcells[o] = Cell{s, AV::mkInt(Lin(0), 3)}; }; auto zp = [&](long o) { W.fcells[o] = Cell{8, AV::mkPtr(0)}; };
      if (W.et->kind >= 3) zp(0);
      else if (W.et->kind == 1) { z(L.rr_ttl, 4); z(L.rr_type, 2); z(L.rr_class, 2); z(L.rr_name + L.nm_len, 1); zp(L.rr_name + L.nm_data); zp(L.rr_rdata); }
      else { z(L.rs_ttl, 4); z(L.rs_type, 2); z(L.rs_class, 2); z(L.rs_n, 2); z(L.rs_name + L.nm_len, 1); zp(L.rs_name + L.nm_data); zp(L.rs_rdatas); }
    } else {
      // not known to be set
      bool decided = false; try { decided = S.P.entGe(idx - W.HI) || S.P.entGe(W.LO - idx - Lin(1)); } catch (Ovf &) {}
      (void)decided;
    }
  }
  cells = &S.W(reg).fcells; return true;
}
