// Contracts of the operations on records, RRsets, sections and messages.
#include "contracts.h"
#include "objects.h"
using namespace llvm;
extern ElemType ET_rr, ET_rrset, ET_rdp, ET_rdn;
void objCells(Interp &, State &, int kind, std::map<long, Cell> &c, long base, const void *site, long idx, bool own, bool ro, const std::string &nm);
int mkRdata(Interp &I, State &S, const void *site, long idx, bool owned, bool ro, const char *nm);
static const long RESMAX = 1000;
static Ret FAIL() { return Ret::failure(Ret::range(Lin(1), Lin(RESMAX))); }
static auto nop = [](CT &) {};

struct F { long off; int sz; bool ptr; };
long fo(CT &c, const char *T, const char *f) { return fieldOff(c.I.M, T, f); }
static long nlen(CT &c) { return fo(c, "wdns_name_t", "len"); }
static long ndat(CT &c) { return fo(c, "wdns_name_t", "data"); }
static std::vector<F> fieldsOf(CT &c, int kind) {
  if (kind == 1) { long n = fo(c, "wdns_rr_t", "name"); return {{fo(c, "wdns_rr_t", "rrttl"), 4, false}, {fo(c, "wdns_rr_t", "rrtype"), 2, false}, {fo(c, "wdns_rr_t", "rrclass"), 2, false}, {n + nlen(c), 1, false}, {n + ndat(c), 8, true}, {fo(c, "wdns_rr_t", "rdata"), 8, true}}; }
  long n = fo(c, "wdns_rrset_t", "name");
  return {{fo(c, "wdns_rrset_t", "rrttl"), 4, false}, {fo(c, "wdns_rrset_t", "rrtype"), 2, false}, {fo(c, "wdns_rrset_t", "rrclass"), 2, false}, {fo(c, "wdns_rrset_t", "n_rdatas"), 2, false}, {n + nlen(c), 1, false}, {n + ndat(c), 8, true}, {fo(c, "wdns_rrset_t", "rdatas"), 8, true}};
}
static const char *tname(int k) { return k == 1 ? "wdns_rr_t" : "wdns_rrset_t"; }
AV plus(AV p, long o) { p.e = p.e + Lin(o); return p; }
AV ld(CT &c, const AV &p, int sz, bool ptr) {
  AV v = c.I.load(c.S, p, sz, ptr ? (Type *)PointerType::getUnqual(c.I.M.getContext()) : (Type *)IntegerType::get(c.I.M.getContext(), sz * 8), nullptr);
  if (v.k == AV::Int && !(v.canon & 1) && !v.un) { // the value as an unsigned number
    i64 lo, hi; if (!(c.S.P.minOf(v.e, lo) && lo >= 0 && c.S.P.maxOf(v.e, hi) && (sz >= 8 || hi < ((i64)1 << (8 * sz))))) v = c.I.freshInt(c.S, sz * 8); else v.canon |= 1;
  }
  return v;
}
void stv(CT &c, const AV &p, int sz, const AV &v) {
  c.I.store(c.S, p, sz, v, v.k == AV::Ptr ? (Type *)PointerType::getUnqual(c.I.M.getContext()) : (Type *)IntegerType::get(c.I.M.getContext(), sz * 8));
}
bool okp(CT &c, const AV &p) { return p.k == AV::Ptr && p.reg > 0 && c.S.has(p.reg); }
// the object at p is complete; collects the blocks it refers to
bool objReq(CT &c, const AV &p, int kind, bool own, const std::string &msg, std::set<int> &owned) {
  if (c.mode == CT::CALL && (!c.I.access(c.S, p, Lin(typeSize(c.I.M, tname(kind))), false, c.what(msg.c_str()).c_str()) || c.S.P.bot)) return false;
  if (!okp(c, p)) { if (c.mode != CT::CALL) c.bad("post", msg); return false; }
  std::map<long, Cell> m; bool un = false;
  for (auto &f : fieldsOf(c, kind)) { AV v = ld(c, plus(p, f.off), f.sz, f.ptr); if (c.S.P.bot) return false; if (v.un) un = true;
    if (v.k == AV::Ptr && v.reg > 0 && c.S.has(v.reg) && c.S.R(v.reg).alloc) c.S.W(v.reg).maybeNull = false;
    m[f.off] = Cell{f.sz, v}; }
  c.I.ob("object");
  if (un) { c.bad("uninit", msg + ": a field was never set"); return false; }
  if (!c.I.objValid(c.S, kind, own, m, owned)) { if (c.I.record && getenv("ABS_DUMP")) { errs() << "OBJ " << locOf(c.I.cur) << "\n"; c.I.dump(c.S); } c.bad(c.mode == CT::CALL ? "bounds" : "post", msg + " is incomplete or inconsistent"); return false; }
  return true;
}
static void objArg(CT &c, int i, int kind, bool own, bool ro) {
  int id = c.mk(i, "", Lin(typeSize(c.I.M, tname(kind)))); std::map<long, Cell> m;
  objCells(c.I, c.S, kind, m, 0, (const void *)c.I.F.getArg(i), 20, own, ro, regionName(id));
  auto &R = c.S.W(id); R.cells = m; R.ihi = R.size; R.ro = ro; c.setArg(i, AV::mkPtr(id));
}
// entry: an object; call: it must be complete
void objIn(CT &c, int i, int kind, bool own, bool ro) {
  if (c.mode == CT::ENTRY) { objArg(c, i, kind, own, ro); return; }
  if (c.mode == CT::EXIT) return;
  std::set<int> o; AV p = c.arg(i); objReq(c, p, kind, own, kind == 1 ? "record" : "RRset", o);
}
static void objNew(CT &c, const AV &p, int kind, long idx) {
  if (!okp(c, p)) return;
  const void *site = (const void *)(intptr_t)(0x40000 + p.reg); std::map<long, Cell> m; i64 o = 0; c.S.P.isConst(p.e, o);
  if (c.S.R(p.reg).et) o = 5000; // element of an array: one set of blocks
  for (int k = 0; k < 2; k++) { int id = regionId(site, idx + 40 * o + k, ""); if (!c.S.has(id)) continue;
    int j = 0; while (j < 4 && c.S.has(regionId((const void *)((intptr_t)site + 0x1000000), (idx + 40 * o + k) * 4 + j, regionName(id) + "'"))) j++; // an earlier one is still referred to
    if (j == 4) { c.I.broken = true; c.I.brokenWhy = "object built too often"; c.S.P.bot = true; return; }
    c.I.renameRegion(c.S, id, regionId((const void *)((intptr_t)site + 0x1000000), (idx + 40 * o + k) * 4 + j, "")); }
  objCells(c.I, c.S, kind, m, 0, site, idx + 40 * o, true, false, regionName(p.reg) + (kind == 1 ? "->rr" : "->rrset"));
  for (auto &f : fieldsOf(c, kind)) { stv(c, plus(p, f.off), f.sz, m[f.off].v); if (c.S.P.bot) return; }
}
static void relBlock(CT &c, int reg) {
  if (!c.S.has(reg)) return;
  if (c.S.R(reg).hasF) c.I.unfocus(c.S, reg);
  auto &W = c.S.W(reg); W.freed = true; W.owned = false; W.cells.clear(); W.hasF = false; W.fcells.clear(); W.hasZ = false; W.zero = false; W.et = nullptr;
}
// a block about to be released: null, or an allocated block of ours
static bool relPtr(CT &c, const AV &v, const char *what, std::set<int> &owned) {
  c.I.ob("free");
  if (v.un) { c.bad("uninit", std::string(what) + " was never set"); return false; }
  if (v.k == AV::Ptr && v.reg == 0) return true;
  i64 z; if (v.k == AV::Int && c.S.P.isConst(v.e, z) && z == 0) return true;
  if (!okp(c, v)) { c.bad("free", std::string(what) + " is not a pointer to an allocated block"); return false; }
  const Region &R = c.S.R(v.reg);
  if (R.freed || owned.count(v.reg)) { c.bad("uaf", std::string(what) + ": " + regionName(v.reg) + " is released twice"); return false; }
  if (!R.heap || !R.owned || !c.S.P.entEq(v.e)) { c.bad("free", std::string(what) + " is not an allocated block of the library"); return false; }
  owned.insert(v.reg); return true;
}
static void needNull(CT &c, const AV &p, const char *what) {
  AV v = ld(c, p, 8, true); if (c.S.P.bot) return; c.I.ob("postcondition");
  if (!(v.k == AV::Ptr && v.reg == 0)) { if (okp(c, v) && c.S.R(v.reg).owned && !c.S.R(v.reg).freed) c.bad("leak", std::string(what) + " is not released"); else c.bad("post", std::string(what) + " still refers to released memory"); }
}
// nothing allocated by the library may hang off the argument any more
static void ownsNothing(CT &c, int i, const char *msg) {
  if (c.mode != CT::EXIT) return; AV a = c.arg(i); if (!okp(c, a)) return;
  std::set<int> seen{a.reg}; std::vector<int> w{a.reg}; c.I.ob("leak");
  while (!w.empty()) { int r = w.back(); w.pop_back(); if (!c.S.has(r)) continue; const Region &R = c.S.R(r);
    if (r != a.reg && R.owned && !R.freed && !(R.alloc && R.maybeNull && false)) { c.bad("leak", std::string(msg) + ": " + regionName(r)); return; }
    for (auto &q : R.cells) if (q.second.v.k == AV::Ptr && q.second.v.reg > 0 && !R.freed && seen.insert(q.second.v.reg).second) w.push_back(q.second.v.reg); }
}
// ---- sections
static const char *ARR = "wdns_rrset_array_t";
static int mkArr(CT &c, const void *site, long idx, const ElemType *et, const Lin &n, bool own, bool ro, const std::string &nm) {
  int id = regionId(site, idx, nm); auto r = std::make_shared<Region>(); r->id = id; r->heap = true; r->owned = own; r->ro = ro; r->et = et; r->LO = Lin(0); r->HI = n;
  r->size = n * et->size; r->ilo = r->ihi = Lin(0); r->maybeNull = true; r->nullEmpty = true; c.S.regs[id] = r; return id;
}
static void secCells(CT &c, std::map<long, Cell> &m, long base, const void *site, long idx, bool own, bool ro, const std::string &nm, Lin *pn = nullptr) {
  ET_rr.size = typeSize(c.I.M, "wdns_rr_t"); ET_rrset.size = typeSize(c.I.M, "wdns_rrset_t");
  Lin nr = c.I.fresh(c.S, 0, 65535), ns = c.I.fresh(c.S, 0, 65535); c.S.P.addIneq(nr - ns);
  if (pn) *pn = nr;
  m[base + fo(c, ARR, "n_rrs")] = Cell{2, AV::mkInt(nr, 3)}; m[base + fo(c, ARR, "n_rrsets")] = Cell{2, AV::mkInt(ns, 3)};
  m[base + fo(c, ARR, "rrs")] = Cell{8, AV::mkPtr(mkArr(c, site, idx, &ET_rr, nr, own, ro, nm + ".rrs"))};
  m[base + fo(c, ARR, "rrsets")] = Cell{8, AV::mkPtr(mkArr(c, site, idx + 1, &ET_rrset, ns, own, ro, nm + ".rrsets"))};
}
Sec secLoad(CT &c, const AV &p, bool own, const std::string &what) {
  Sec s; s.p = p; const char *kind = c.mode == CT::CALL ? "bounds" : "post";
  if (c.mode == CT::CALL && (!c.I.access(c.S, p, Lin(typeSize(c.I.M, ARR)), false, c.what("section").c_str()) || c.S.P.bot)) return s;
  if (!okp(c, p)) return s;
  AV a = ld(c, plus(p, fo(c, ARR, "n_rrs")), 2, false), b = ld(c, plus(p, fo(c, ARR, "n_rrsets")), 2, false); s.rr = ld(c, plus(p, fo(c, ARR, "rrs")), 8, true); s.rs = ld(c, plus(p, fo(c, ARR, "rrsets")), 8, true);
  if (c.S.P.bot) return s; c.I.ob("object");
  if (a.un || b.un || s.rr.un || s.rs.un) { c.bad("uninit", what + ": a field was never set"); return s; }
  if (a.k != AV::Int || b.k != AV::Int) { c.bad(kind, what + " is inconsistent"); return s; }
  s.nr = a.e; s.ns = b.e; s.ok = true;
  auto arr = [&](AV &q, const Lin &n, const ElemType *et, const char *nm) {
    if (q.k == AV::Ptr && q.reg == 0) { if (!c.S.P.entEq(n)) { c.bad(kind, what + ": " + nm + " is null but its count is not 0"); s.ok = false; } return; }
    if (!okp(c, q)) { c.bad(kind, what + ": " + nm + " is not an array"); s.ok = false; return; }
    if (c.S.R(q.reg).freed) { c.bad("uaf", what + ": " + nm + " was released"); s.ok = false; return; }
    if (c.S.R(q.reg).hasF) c.I.unfocus(c.S, q.reg); if (c.S.P.bot) return;
    const Region &R = c.S.R(q.reg);
    if (R.et != et || (own && !R.owned) || !c.S.P.entEq(q.e) || !c.S.P.entEq(R.LO) || !c.S.P.entEq(R.HI - n) || !c.S.P.entGe(R.size - n * et->size)) { if (c.I.record && getenv("ABS_DUMP")) { errs() << "SEC " << locOf(c.I.cur) << "\n"; c.I.dump(c.S); } c.bad(kind, what + ": not every entry of " + nm + " is complete, or the count is wrong"); s.ok = false; }
  };
  arr(s.rr, s.nr, &ET_rr, "the record list"); if (!c.S.P.bot) arr(s.rs, s.ns, &ET_rrset, "the RRset list");
  return s;
}
static void secStoreFresh(CT &c, const AV &p, Lin *pn) {
  i64 o = 0; c.S.P.isConst(p.e, o); std::map<long, Cell> m; const void *site = (const void *)(intptr_t)(0x40000 + p.reg);
  secCells(c, m, 0, site, 40 * o + 10, true, false, regionName(p.reg) + "[" + std::to_string(o) + "]", pn);
  for (auto &q : m) { stv(c, plus(p, q.first), q.second.sz, q.second.v); if (c.S.P.bot) return; }
}
void secIn(CT &c, int i, bool own, bool ro) {
  if (c.mode == CT::ENTRY) {
    int id = c.mk(i, "", Lin(typeSize(c.I.M, ARR))); std::map<long, Cell> m; secCells(c, m, 0, (const void *)c.I.F.getArg(i), 20, own, ro, regionName(id));
    auto &R = c.S.W(id); R.cells = m; R.ihi = R.size; R.ro = ro; c.setArg(i, AV::mkPtr(id)); return;
  }
  if (c.mode == CT::CALL) secLoad(c, c.arg(i), own, "section");
}
static void secCleared(CT &c, const AV &p) {
  AV a = ld(c, plus(p, fo(c, ARR, "n_rrs")), 2, false), b = ld(c, plus(p, fo(c, ARR, "n_rrsets")), 2, false); if (c.S.P.bot) return;
  c.I.ob("postcondition"); if (!c.S.P.entEq(a.e) || !c.S.P.entEq(b.e)) c.bad("post", "counts are not reset");
  needNull(c, plus(p, fo(c, ARR, "rrs")), "the record list"); needNull(c, plus(p, fo(c, ARR, "rrsets")), "the RRset list");
}
static void secZero(CT &c, const AV &p) {
  stv(c, plus(p, fo(c, ARR, "n_rrs")), 2, AV::mkInt(Lin(0), 3)); stv(c, plus(p, fo(c, ARR, "n_rrsets")), 2, AV::mkInt(Lin(0), 3));
  stv(c, plus(p, fo(c, ARR, "rrs")), 8, AV::mkPtr(0)); stv(c, plus(p, fo(c, ARR, "rrsets")), 8, AV::mkPtr(0));
}
// the rdata list of an RRset under construction: entries complete, the rest null
static bool clearableList(CT &c, const AV &v, const Lin &n, std::set<int> &owned) {
  if (v.k == AV::Ptr && v.reg == 0) { if (!c.S.P.entEq(n)) { c.bad("null", "the rdata list is null but its count is not 0"); return false; } return true; }
  if (!relPtr(c, v, "the rdata list", owned)) return false;
  Region R = c.S.R(v.reg);
  if (!R.et) {
    i64 k; bool z = R.zero;
    if (!c.S.P.entGe(R.size - n * 8)) { c.bad("bounds", "the rdata count exceeds the rdata list"); return false; }
    for (auto &q : R.cells) if (!relPtr(c, q.second.v, "record data", owned)) return false;
    if (z) return true;
    if (!c.S.P.isConst(n, k)) { c.bad("uninit", "the rdata list has entries that were never set"); return false; }
    for (long q = 0; q < k; q++) if (!R.cells.count(8 * q)) { c.bad("uninit", "the rdata list has entries that were never set"); return false; }
    return true;
  }
  Lin HI = R.HI;
  if (R.hasF) {
    for (auto &q : R.fcells) if (!relPtr(c, q.second.v, "record data", owned)) return false;
    if (c.S.P.entEq(R.F - HI) && (R.fcells.size() || R.zeroTail)) HI = HI + Lin(1);
  }
  bool all = c.S.P.entEq(R.LO) && c.S.P.entGe(R.size - n * 8) && (c.S.P.entGe(HI - n) || R.zeroTail) && c.S.P.entGe(n - HI);
  if (!all) { if (c.I.record && getenv("ABS_DUMP")) { errs() << "LIST " << locOf(c.I.cur) << "\n"; c.I.dump(c.S); } c.bad("bounds", "the rdata list does not hold the number of entries counted"); return false; }
  return true;
}
// ---- messages
static const char *MSG = "wdns_message_t";
long secOff(CT &c, int k) { return fo(c, MSG, "sections") + k * typeSize(c.I.M, ARR); }
static long optOff(CT &c) { return fo(c, MSG, "edns") + fo(c, "wdns_edns_t", "options"); }
void msgArg(CT &c, int i, bool own, bool ro) {
  int id = c.mk(i, "", Lin(typeSize(c.I.M, MSG))); std::map<long, Cell> m; const void *site = (const void *)c.I.F.getArg(i);
  for (int k = 0; k < 4; k++) secCells(c, m, secOff(c, k), site, 20 + 10 * k, own, ro, regionName(id) + ".section" + std::to_string(k));
  int rd = mkRdata(c.I, c.S, site, 100, own, ro, (regionName(id) + ".options").c_str()); c.S.W(rd).maybeNull = true; m[optOff(c)] = Cell{8, AV::mkPtr(rd)};
  for (auto f : {"id", "flags", "rcode"}) m[fo(c, MSG, f)] = Cell{2, c.I.freshInt(c.S, 16)};
  m[fo(c, MSG, "edns") + fo(c, "wdns_edns_t", "present")] = Cell{1, AV::mkInt(c.I.fresh(c.S, 0, 1), 3)};
  auto &R = c.S.W(id); R.cells = m; R.ihi = R.size; R.ro = ro; c.setArg(i, AV::mkPtr(id));
}
bool msgReq(CT &c, const AV &p, bool own, std::set<int> &owned, std::vector<Sec> *ss) {
  const char *kind = c.mode == CT::CALL ? "bounds" : "post";
  if (c.mode == CT::CALL && (!c.I.access(c.S, p, Lin(typeSize(c.I.M, MSG)), false, c.what("message").c_str()) || c.S.P.bot)) return false;
  if (!okp(c, p)) return false;
  for (int k = 0; k < 4; k++) { Sec s = secLoad(c, plus(p, secOff(c, k)), own, "section " + std::to_string(k)); if (c.S.P.bot || !s.ok) return false; if (ss) ss->push_back(s); if (okp(c, s.rr)) owned.insert(s.rr.reg); if (okp(c, s.rs)) owned.insert(s.rs.reg); }
  AV o = ld(c, plus(p, optOff(c)), 8, true); if (c.S.P.bot) return false; c.I.ob("object");
  if (o.un) { c.bad("uninit", "the EDNS options were never set"); return false; }
  if (o.k == AV::Ptr && o.reg == 0) return true;
  if (!okp(c, o) || c.S.R(o.reg).freed) { c.bad(kind, "the EDNS options are not record data"); return false; }
  if (c.S.R(o.reg).alloc) c.S.W(o.reg).maybeNull = false;
  { bool mn = c.S.R(o.reg).maybeNull; if (mn) c.S.W(o.reg).maybeNull = false; std::map<long, Cell> m; m[0] = Cell{8, o}; std::set<int> q; bool ok = c.I.objValid(c.S, 3, own, m, q); if (mn) c.S.W(o.reg).maybeNull = true; if (!ok) { c.bad(kind, "the EDNS options are incomplete"); return false; } if (owned.count(o.reg)) { c.bad(kind, "a block is referred to twice"); return false; } owned.insert(o.reg); }
  return true;
}
void defineContracts2() {
  addSpec("wdns_clear_message", "v:p,", [](CT &c) {
    std::set<int> owned; if (c.mode == CT::ENTRY) msgArg(c, 0, true, false); else if (c.mode == CT::CALL) msgReq(c, c.arg(0), true, owned);
    c.out(Ret::any(), [owned](CT &c) {
      AV p = c.arg(0); if (!okp(c, p)) return;
      for (int k = 0; k < 4 && !c.S.P.bot; k++) { AV q = plus(p, secOff(c, k)); if (c.mode == CT::CALL) secZero(c, q); else secCleared(c, q); }
      if (c.S.P.bot) return;
      if (c.mode == CT::CALL) { for (int r : owned) relBlock(c, r); stv(c, plus(p, optOff(c)), 8, AV::mkPtr(0)); if (!c.S.P.bot) stv(c, plus(p, fo(c, MSG, "edns") + fo(c, "wdns_edns_t", "present")), 1, AV::mkInt(Lin(0), 3)); }
      else needNull(c, plus(p, optOff(c)), "the EDNS option data");
    });
  });
  addSpec("wdns_parse_message", "i32:p,p,i64,", [](CT &c) {
    long sz = typeSize(c.I.M, MSG); c.req(Lin((i64)1 << 41) - c.iv[2], "size of the order of the address space");
    c.bufW(0, Lin(sz)); c.bufR(1, c.iv[2]);
    if (c.mode == CT::ENTRY) { // an empty list is a list of length 0 wherever it is
      int reg = c.arg(0).reg; long offs[4]; for (int k = 0; k < 4; k++) offs[k] = secOff(c, k); Interp *I = &c.I; long nr = fo(c, ARR, "n_rrs"), ns = fo(c, ARR, "n_rrsets"), pr = fo(c, ARR, "rrs"), ps = fo(c, ARR, "rrsets");
      ET_rr.size = typeSize(c.I.M, "wdns_rr_t"); ET_rrset.size = typeSize(c.I.M, "wdns_rrset_t");
      c.I.onHead = [=](State &S) {
        if (!S.has(reg)) return; Type *PT = PointerType::getUnqual(I->M.getContext()), *I16 = IntegerType::get(I->M.getContext(), 16);
        for (int k = 0; k < 4; k++) for (int j = 0; j < 2; j++) {
          AV a = AV::mkPtr(reg, Lin(offs[k] + (j ? ps : pr))), n = AV::mkPtr(reg, Lin(offs[k] + (j ? ns : nr)));
          if (!I->initialised(S, reg, a.e, Lin(8)) || !I->initialised(S, reg, n.e, Lin(2))) continue;
          AV v = I->load(S, a, 8, PT, nullptr), m = I->load(S, n, 2, I16, nullptr); if (S.P.bot) return;
          if (v.k != AV::Ptr || v.reg != 0 || m.k != AV::Int || !S.P.entEq(m.e)) continue;
          int id = regionId((const void *)(intptr_t)(0x40000 + reg), 40 * offs[k] + 10 + j, regionName(reg) + "[" + std::to_string(offs[k]) + "]." + (j ? "rrsets" : "rrs")); if (S.has(id)) continue;
          auto r = std::make_shared<Region>(); r->id = id; r->heap = r->owned = true; r->et = j ? &ET_rrset : &ET_rr; r->LO = Lin(0); r->HI = m.e; r->size = m.e * r->et->size; r->ilo = r->ihi = Lin(0); r->maybeNull = r->nullEmpty = true; S.regs[id] = r;
          I->store(S, a, 8, AV::mkPtr(id), PT); if (S.P.bot) return; I->store(S, n, 2, AV::mkInt(m.e, 3), I16); if (S.P.bot) return;
        }
      };
    }
    c.out(Ret::eq(0), [](CT &c) {
      if (c.mode != CT::EXIT) return; AV p = c.arg(0); if (!okp(c, p)) return;
      std::set<int> o; msgReq(c, p, true, o); if (c.S.P.bot) return;
      for (auto f : {"id", "flags", "rcode"}) { AV v = ld(c, plus(p, fo(c, MSG, f)), 2, false); c.I.ob("postcondition"); if (v.un) c.bad("uninit", std::string("success without setting ") + f); }
      for (auto f : {"present", "version"}) { AV v = ld(c, plus(p, fo(c, MSG, "edns") + fo(c, "wdns_edns_t", f)), 1, false); c.I.ob("postcondition"); if (v.un) c.bad("uninit", std::string("success without setting edns.") + f); }
      for (auto f : {"flags", "size"}) { AV v = ld(c, plus(p, fo(c, MSG, "edns") + fo(c, "wdns_edns_t", f)), 2, false); c.I.ob("postcondition"); if (v.un) c.bad("uninit", std::string("success without setting edns.") + f); }
    });
    c.out(FAIL(), [](CT &c) { ownsNothing(c, 0, "fails but leaves memory in the message"); });
  });
  // ---- releasing
  addSpec("wdns_clear_rr", "v:p,", [](CT &c) {
    if (c.mode == CT::ENTRY) { objArg(c, 0, 1, true, false); AV p = c.arg(0); for (auto &q : c.S.R(p.reg).cells) if (q.second.v.k == AV::Ptr) c.S.W(q.second.v.reg).maybeNull = true; }
    std::set<int> owned;
    if (c.mode == CT::CALL) {
      AV p = c.arg(0); if (!c.I.access(c.S, p, Lin(typeSize(c.I.M, "wdns_rr_t")), true, c.what("record").c_str()) || c.S.P.bot) return;
      AV n = ld(c, plus(p, fo(c, "wdns_rr_t", "name") + ndat(c)), 8, true), d = ld(c, plus(p, fo(c, "wdns_rr_t", "rdata")), 8, true); if (c.S.P.bot) return;
      relPtr(c, n, "the owner name", owned); relPtr(c, d, "the record data", owned);
    }
    c.out(Ret::any(), [owned](CT &c) {
      AV p = c.arg(0); if (!okp(c, p)) return; long a = fo(c, "wdns_rr_t", "name") + ndat(c), b = fo(c, "wdns_rr_t", "rdata");
      if (c.mode == CT::CALL) { for (int r : owned) relBlock(c, r); stv(c, plus(p, a), 8, AV::mkPtr(0)); if (!c.S.P.bot) stv(c, plus(p, b), 8, AV::mkPtr(0)); return; }
      needNull(c, plus(p, a), "the owner name"); needNull(c, plus(p, b), "the record data");
    });
  });
  addSpec("wdns_clear_rrset", "v:p,", [](CT &c) {
    long nd = fo(c, "wdns_rrset_t", "name") + ndat(c), rd = fo(c, "wdns_rrset_t", "rdatas"), nn = fo(c, "wdns_rrset_t", "n_rdatas");
    if (c.mode == CT::ENTRY) { objArg(c, 0, 2, true, false); AV p = c.arg(0); auto cells = c.S.R(p.reg).cells; c.S.W(cells[nd].v.reg).maybeNull = true; c.S.W(cells[rd].v.reg).et = &ET_rdn; }
    std::set<int> owned;
    if (c.mode == CT::CALL) {
      AV p = c.arg(0); if (!c.I.access(c.S, p, Lin(typeSize(c.I.M, "wdns_rrset_t")), true, c.what("RRset").c_str()) || c.S.P.bot) return;
      AV n = ld(c, plus(p, nd), 8, true), d = ld(c, plus(p, rd), 8, true), k = ld(c, plus(p, nn), 2, false); if (c.S.P.bot) return;
      relPtr(c, n, "the owner name", owned);
      if (k.un) c.bad("uninit", "the rdata count was never set"); else if (k.k == AV::Int) clearableList(c, d, k.e, owned);
    }
    c.out(Ret::any(), [=](CT &c) {
      AV p = c.arg(0); if (!okp(c, p)) return;
      if (c.mode == CT::CALL) { for (int r : owned) { if (c.S.has(r)) c.S.W(r).hasF = false; relBlock(c, r); } stv(c, plus(p, nd), 8, AV::mkPtr(0)); if (!c.S.P.bot) stv(c, plus(p, rd), 8, AV::mkPtr(0)); if (!c.S.P.bot) stv(c, plus(p, nn), 2, AV::mkInt(Lin(0), 3)); return; }
      needNull(c, plus(p, nd), "the owner name"); needNull(c, plus(p, rd), "the rdata list");
      AV k = ld(c, plus(p, nn), 2, false); c.I.ob("postcondition"); if (k.k != AV::Int || !c.S.P.entEq(k.e)) c.bad("post", "the rdata count is not reset");
    });
  });
  addSpec("wdns_clear_rrset_array", "v:p,", [](CT &c) {
    Sec s; if (c.mode == CT::CALL) s = secLoad(c, c.arg(0), true, "section"); else secIn(c, 0, true, false);
    c.out(Ret::any(), [s](CT &c) {
      AV p = c.arg(0); if (!okp(c, p)) return;
      if (c.mode == CT::CALL) { if (okp(c, s.rr)) relBlock(c, s.rr.reg); if (okp(c, s.rs)) relBlock(c, s.rs.reg); secZero(c, p); return; }
      secCleared(c, p);
    });
  });
  // ---- comparing, sorting, downcasing
  addSpec("wdns_compare_rr_rrset", "i1:p,p,", [](CT &c) { objIn(c, 0, 1, false, true); objIn(c, 1, 2, false, true); c.out(Ret::range(Lin(0), Lin(1)), nop); });
  addSpec("wdns_sort_rrset", "i32:p,", [](CT &c) { objIn(c, 0, 2, false, false); if (c.mode == CT::ENTRY) {} c.out(Ret::eq(0), [](CT &c) { if (c.mode == CT::EXIT) { std::set<int> o; objReq(c, c.arg(0), 2, false, "the sorted RRset", o); } }); });

  // ---- parsing
  addSpec("_wdns_parse_rdata", "i32:p,p,p,p,i16,", [](CT &c) {
    long ty = fo(c, "wdns_rr_t", "rrtype"), cl = fo(c, "wdns_rr_t", "rrclass"), rd = fo(c, "wdns_rr_t", "rdata"), sz = typeSize(c.I.M, "wdns_rr_t");
    Lin n, at; c.span(1, 2, 3, n, at); c.req(n - at - c.iv[4], "the record data reaches past the end of the message");
    if (c.mode == CT::ENTRY) { int id = c.mk(0, "", Lin(sz)); c.setArg(0, AV::mkPtr(id)); auto t = c.I.freshInt(c.S, 16), k = c.I.freshInt(c.S, 16); c.typeParam(t.e); auto &R = c.S.W(id); R.cells[ty] = Cell{2, t}; R.cells[cl] = Cell{2, k}; }
    else if (c.mode == CT::CALL) {
      AV p = c.arg(0); if (!c.I.access(c.S, p, Lin(sz), true, c.what("record").c_str()) || c.S.P.bot) return;
      AV a = ld(c, plus(p, ty), 2, false), b = ld(c, plus(p, cl), 2, false); c.I.ob("init"); if (a.un || b.un) c.bad("uninit", "the record's type or class was never set");
    }
    c.out(Ret::eq(0), [=](CT &c) {
      AV p = c.arg(0); if (!okp(c, p)) return;
      if (c.mode == CT::CALL) {
        const void *site = (const void *)(intptr_t)(0x50000 + p.reg); int id = regionId(site, 0, "");
        if (c.S.has(id)) { int old = regionId(site, 1, ""); if (c.S.has(old)) { c.I.broken = true; c.I.brokenWhy = "record data built twice"; return; } c.I.renameRegion(c.S, id, old); }
        int r = mkRdata(c.I, c.S, site, 0, true, false, (regionName(p.reg) + "->rdata").c_str()); stv(c, plus(p, rd), 8, AV::mkPtr(r)); return;
      }
      AV v = ld(c, plus(p, rd), 8, true); c.I.ob("postcondition");
      if (v.un) { c.bad("uninit", "success without setting the record data"); return; }
      if (!okp(c, v) || c.S.R(v.reg).freed || !c.S.R(v.reg).owned) { c.bad("post", "success without allocated record data"); return; }
      std::map<long, Cell> m; m[0] = Cell{8, v}; std::set<int> o; if (!c.I.objValid(c.S, 3, true, m, o)) { if (c.I.record && getenv("ABS_DUMP")) c.I.dump(c.S); c.bad("post", "success with incomplete record data"); }
    });
    c.out(FAIL(), [=](CT &c) { ownsNothing(c, 0, "fails but leaves memory in the record"); });
  }).typed = true;
  addSpec("wdns_downcase_rdata", "i32:p,i16,i16,", [](CT &c) {
    c.typeParam(c.iv[1]);
    if (c.mode == CT::ENTRY) { int r = mkRdata(c.I, c.S, (const void *)c.I.F.getArg(0), 20, false, false, "rdata"); c.setArg(0, AV::mkPtr(r)); }
    else if (c.mode == CT::CALL) { std::map<long, Cell> m; m[0] = Cell{8, c.arg(0)}; std::set<int> o; c.I.ob("object"); AV p = c.arg(0); if (!c.I.access(c.S, p, Lin(2), false, c.what("record data").c_str()) || c.S.P.bot) return; if (!c.I.objValid(c.S, 3, false, m, o)) c.bad("bounds", "record data is incomplete"); }
    auto after = [](CT &c) { AV p = c.arg(0); if (c.mode == CT::CALL) { if (okp(c, p)) { auto &W = c.S.W(p.reg); W.hasV = W.hasZ = false; } return; } std::map<long, Cell> m; m[0] = Cell{8, p}; std::set<int> o; if (!c.I.objValid(c.S, 3, false, m, o)) c.bad("post", "the record data is inconsistent afterwards"); };
    c.out(Ret::eq(0), after); c.out(FAIL(), after);
  }).typed = true;
  addSpec("wdns_downcase_rrset", "i32:p,", [](CT &c) { objIn(c, 0, 2, false, false); auto after = [](CT &c) { if (c.mode == CT::EXIT) { std::set<int> o; objReq(c, c.arg(0), 2, false, "the RRset", o); } }; c.out(Ret::eq(0), after); c.out(FAIL(), after); });
  addSpec("wdns_serialize_rrset", "i32:p,p,p,", [](CT &c) {
    objIn(c, 0, 2, false, true);
    if (c.mode == CT::ENTRY) {
      AV r = c.arg(0); auto cells = c.S.R(r.reg).cells; Lin nl = cells.at(fo(c, "wdns_rrset_t", "name") + nlen(c)).v.e, n = cells.at(fo(c, "wdns_rrset_t", "n_rdatas")).v.e; int arr = cells.at(fo(c, "wdns_rrset_t", "rdatas")).v.reg;
      Lin T = c.I.fresh(c.S, 0, (i64)1 << 33); c.S.P.addIneq(T - n * 2);
      c.S.ghosts[7] = {arr, Lin(0)}; c.S.ghosts[8] = {0, Lin(0)}; c.S.ghosts[9] = {0, T};
      c.I.onHead = [arr](State &S) { auto g = S.ghosts.find(7); if (g == S.ghosts.end() || !S.has(arr)) return; if (S.P.entEq(g->second.second - S.R(arr).HI)) { g->second.second = Lin(0); S.ghosts[8].second = Lin(0); } };
      if (!c.isNull(1)) { int id = c.mk(1, "", nl + T + Lin(11)); c.setArg(1, AV::mkPtr(id)); }
    }
    c.outInt(2, 8, false, true);
    c.out(Ret::eq(0), [](CT &c) {
      AV z = c.arg(2), b = c.arg(1); Lin v; if (z.k != AV::Ptr || z.reg <= 0) return; if (!c.outVal(2, 8, v, "the size")) return;
      if (c.mode != CT::EXIT || b.reg != 0 || !c.S.ghosts.count(7)) return;
      AV r = c.arg(0); auto &R = c.S.R(r.reg); Lin nl = R.cells.at(fo(c, "wdns_rrset_t", "name") + nlen(c)).v.e, n = R.cells.at(fo(c, "wdns_rrset_t", "n_rdatas")).v.e;
      if (!c.S.P.entEq(c.S.ghosts[7].second - n)) { if (c.I.record) c.I.undecided.insert("wdns_serialize_rrset: the announced size is not followed"); return; }
      c.ensureEq(v, nl + c.S.ghosts[8].second + Lin(11), "the announced size is not the size of the serialized form");
    });
  });
  addSpec("wdns_deserialize_rrset", "i32:p,p,i64,", [](CT &c) {
    long sz = typeSize(c.I.M, "wdns_rrset_t"); c.req(Lin((i64)1 << 41) - c.iv[2], "size of the order of the address space");
    c.bufW(0, Lin(sz)); c.bufR(1, c.iv[2]);
    c.out(Ret::eq(0), [](CT &c) { AV p = c.arg(0); if (c.mode == CT::CALL) { objNew(c, p, 2, 10); return; } std::set<int> o; objReq(c, p, 2, true, "the RRset", o); });
    c.out(FAIL(), [=](CT &c) { if (c.mode == CT::CALL) c.havoc(0, Lin(sz)); ownsNothing(c, 0, "fails but leaves memory in the RRset"); });
  });
  addSpec("_wdns_parse_message_rr", "i32:i32,p,p,p,p,p,", [](CT &c) {
    long sz = typeSize(c.I.M, "wdns_rr_t"); Lin n, at; c.span(1, 2, 3, n, at); c.outInt(4, 8); c.bufW(5, Lin(sz));
    c.out(Ret::eq(0), [=](CT &c) {
      Lin v; if (!c.outVal(4, 8, v, "the number of octets read")) return;
      c.ensure(v - Lin(1), "success without reading anything"); c.ensure(n - at - v, "claims to have read past the end");
      AV p = c.arg(5); long rd = fo(c, "wdns_rr_t", "rdata");
      if (c.mode == CT::CALL) {
        objNew(c, p, 1, 10); if (c.S.P.bot) return; AV d = ld(c, plus(p, rd), 8, true);
        i64 lo, hi; if (c.S.P.minOf(c.iv[0], lo) && lo >= 1) c.S.W(d.reg).maybeNull = false; else if (c.S.P.maxOf(c.iv[0], hi) && hi <= 0) c.I.nullRegion(c.S, d.reg);
        return; }
      std::set<int> o; objReq(c, p, 1, true, "the record", o); if (c.S.P.bot) return;
      AV d = ld(c, plus(p, rd), 8, true); if (d.k == AV::Ptr && d.reg == 0) c.ensure(Lin(0) - c.iv[0], "a record outside the question section without data");
    });
    c.out(FAIL(), [=](CT &c) { if (c.mode == CT::CALL) c.havoc(5, Lin(sz)); ownsNothing(c, 5, "fails but leaves memory in the record"); });
  });
  addSpec("_wdns_insert_rr_rrset_array", "i32:p,p,i32,", [](CT &c) {
    Sec s; c.req(Lin(3) - c.iv[2], "section number"); std::set<int> owned;
    long nm = fo(c, "wdns_rr_t", "name"), rd = fo(c, "wdns_rr_t", "rdata");
    if (c.mode == CT::ENTRY) {
      secIn(c, 0, true, false); objIn(c, 1, 1, true, false); if (c.choice()) { c.req(Lin(0) - c.iv[2], ""); } else { c.req(c.iv[2] - Lin(1), ""); AV p = c.arg(1); c.S.W(c.S.R(p.reg).cells.at(rd).v.reg).maybeNull = false; } AV a = c.arg(0); s = secLoad(c, a, true, "section"); c.req(Lin(65534) - s.nr, "section full");
      c.S.ghosts[5] = {0, s.nr}; c.S.ghosts[6] = {0, s.ns};
      // outside the question section a record has data
    } else if (c.mode == CT::CALL) {
      s = secLoad(c, c.arg(0), true, "section"); if (c.S.P.bot || !s.ok) return; c.req(Lin(65534) - s.nr, "the section's record count would wrap"); c.req(s.nr - s.ns, "more RRsets than records");
      if (!objReq(c, c.arg(1), 1, true, "record", owned) || c.S.P.bot) return;
      AV d = ld(c, plus(c.arg(1), rd), 8, true); if (d.reg == 0 || (okp(c, d) && c.S.R(d.reg).maybeNull)) c.req(Lin(0) - c.iv[2], "a record without data outside the question section");
    }
    c.out(Ret::eq(0), [=](CT &c) {
      AV a = c.arg(0), p = c.arg(1); if (!okp(c, a) || !okp(c, p)) return;
      if (c.mode == CT::CALL) {
        Lin nr = s.nr + Lin(1), ns = c.I.fresh(c.S, 0, 65535); c.S.P.addIneq(ns - s.ns); c.S.P.addIneq(s.ns + Lin(1) - ns); c.S.P.addIneq(nr - ns);
        i64 o = 0; c.S.P.isConst(a.e, o); const void *site = (const void *)(intptr_t)(0x40000 + a.reg);
        auto arr = [&](const AV &q, long k, const ElemType *et, const Lin &n, const char *fld) {
          int id = regionId(site, 40 * o + 10 + k, regionName(a.reg) + "[" + std::to_string(o) + "]." + fld);
          if (okp(c, q)) { if (q.reg != id) { relBlock(c, q.reg); } }
          auto r = std::make_shared<Region>(); r->id = id; r->heap = r->owned = true; r->et = et; r->LO = Lin(0); r->HI = n; r->size = n * et->size; r->ilo = r->ihi = Lin(0); r->maybeNull = r->nullEmpty = true; c.S.regs[id] = r;
          stv(c, plus(a, fo(c, ARR, fld)), 8, AV::mkPtr(id));
        };
        ET_rr.size = typeSize(c.I.M, "wdns_rr_t"); ET_rrset.size = typeSize(c.I.M, "wdns_rrset_t");
        arr(s.rr, 0, &ET_rr, nr, "rrs"); arr(s.rs, 1, &ET_rrset, ns, "rrsets");
        stv(c, plus(a, fo(c, ARR, "n_rrs")), 2, AV::mkInt(nr, 3)); stv(c, plus(a, fo(c, ARR, "n_rrsets")), 2, AV::mkInt(ns, 3));
        for (int r : owned) relBlock(c, r);
        stv(c, plus(p, nm + ndat(c)), 8, AV::mkPtr(0)); stv(c, plus(p, rd), 8, AV::mkPtr(0)); return;
      }
      Sec t = secLoad(c, a, true, "the section"); if (!t.ok || c.S.P.bot) return;
      Lin n0 = c.S.ghosts.count(5) ? c.S.ghosts[5].second : Lin(0), m0 = c.S.ghosts.count(6) ? c.S.ghosts[6].second : Lin(0);
      c.ensureEq(t.nr, n0 + Lin(1), "the record count after inserting one record"); c.ensure(t.ns - m0, "an RRset was lost"); c.ensure(m0 + Lin(1) - t.ns, "more than one RRset was added"); c.ensure(t.nr - t.ns, "more RRsets than records");
      needNull(c, plus(p, nm + ndat(c)), "the inserted record's name"); needNull(c, plus(p, rd), "the inserted record's data");
    });
  });
}
