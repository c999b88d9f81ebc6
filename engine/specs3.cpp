// Contracts of rendering: records, sections and messages to text; mnemonics; encodings.
#include "contracts.h"
#include "ubuf.h"
#include "objects.h"
using namespace llvm;
static const long RESMAX = 1000;
static Ret FAIL() { return Ret::failure(Ret::range(Lin(1), Lin(RESMAX))); }
static auto nop = [](CT &) {};
// a buffer that grows by an unknown amount (and may lose a trailing octet it had before)
static void ubGrown(CT &c, UB &b) { if (c.mode != CT::CALL || !b.ok || c.S.P.bot) return; Lin n = c.I.fresh(c.S, 0, (i64)1 << 40); ubSet(c, b, "ubuf", 1, n, n); }
static std::function<void(CT &)> ubOut(int i, std::function<void(CT &)> args, std::vector<Ret> rets) {
  return [=](CT &c) {
    UB b = ubIn(c, i, "ubuf", 1); if (c.S.P.bot) return;
    args(c); if (c.S.P.bot) return;
    for (auto &r : rets) c.out(r, [=](CT &c) mutable { ubGrown(c, b); });
  };
}
static std::function<void(CT &)> ubRet(int i, std::function<void(CT &)> args, std::function<Ret(CT &)> r) {
  return [=](CT &c) {
    UB b = ubIn(c, i, "ubuf", 1); if (c.S.P.bot) return;
    args(c); if (c.S.P.bot) return;
    c.out(r(c), [=](CT &c) mutable { ubGrown(c, b); });
  };
}
// a string the caller must free
static void newString(CT &c) {
  if (c.mode == CT::CALL) {
    int id = c.I.newRegion(c.S, c.C, 0, Lin(0)); Lin z = c.I.fresh(c.S, 0, (i64)1 << 40); auto &W = c.S.W(id);
    W.size = z + Lin(1); W.heap = W.owned = true; W.ihi = W.size; W.hasZ = true; W.zExact = false; W.Z = z; c.rp = AV::mkPtr(id); return;
  }
  c.I.ob("postcondition");
  if (c.rp.k != AV::Ptr || c.rp.reg <= 0 || !c.S.has(c.rp.reg) || !c.S.R(c.rp.reg).heap || !c.S.R(c.rp.reg).owned || c.S.R(c.rp.reg).freed || !c.S.P.entEq(c.rp.e)) { c.bad("post", "does not return a block the caller can release"); return; }
  c.I.requireStr(c.S, c.rp, (c.fname + ": result").c_str());
}
static void fileArg(CT &c, int i) {
  if (c.mode == CT::ENTRY) { int id = c.mk(i, "", Lin(216)); auto &R = c.S.W(id); R.isFile = true; R.heap = true; R.ihi = R.size; c.setArg(i, AV::mkPtr(id)); }
}
// records: outside the question section there is record data
static void rrIn(CT &c, int i, int sec) {
  long rd = fo(c, "wdns_rr_t", "rdata");
  if (c.mode == CT::ENTRY) {
    objIn(c, i, 1, false, true);
    if (c.choice()) c.req(Lin(0) - c.iv[sec], ""); else { c.req(c.iv[sec] - Lin(1), ""); AV p = c.arg(i); c.S.W(c.S.R(p.reg).cells.at(rd).v.reg).maybeNull = false; }
    return;
  }
  if (c.mode != CT::CALL) return;
  AV p = c.arg(i); 
  if (!c.I.access(c.S, p, Lin(typeSize(c.I.M, "wdns_rr_t")), false, c.what("record").c_str()) || c.S.P.bot) return;
  std::set<int> o; if (!objReq(c, p, 1, false, "record", o) || c.S.P.bot) return;
  AV d = ld(c, plus(p, rd), 8, true); if (c.S.P.bot) return;
  if (d.reg == 0 || (okp(c, d) && c.S.R(d.reg).maybeNull)) c.req(Lin(0) - c.iv[sec], "a record without data outside the question section");
}
static void secIn2(CT &c, int i, int sec) {
  if (c.mode == CT::ENTRY) {
    secIn(c, i, false, true); AV a = c.arg(i); int rr = c.S.R(a.reg).cells.at(fo(c, "wdns_rrset_array_t", "rrs")).v.reg;
    if (c.choice()) c.req(Lin(0) - c.iv[sec], ""); else { c.req(c.iv[sec] - Lin(1), ""); c.S.W(rr).rdNN = true; }
    return;
  }
  if (c.mode != CT::CALL) return;
  Sec s = secLoad(c, c.arg(i), false, "section"); if (c.S.P.bot || !s.ok) return;
  if (okp(c, s.rr) && !c.S.R(s.rr.reg).rdNN) { if (!c.S.P.entEq(s.nr)) c.req(Lin(0) - c.iv[sec], "a section whose records have no data is not the question section"); }
}
static void msgIn(CT &c, int i) {
  if (c.mode == CT::ENTRY) { msgArg(c, i, false, true); AV p = c.arg(i); for (int k = 1; k < 4; k++) c.S.W(c.S.R(p.reg).cells.at(secOff(c, k) + fo(c, "wdns_rrset_array_t", "rrs")).v.reg).rdNN = true; }
  if (c.mode != CT::CALL) return;
  std::set<int> o; std::vector<Sec> ss; msgReq(c, c.arg(i), false, o, &ss); if (c.S.P.bot) return;
  for (size_t k = 1; k < ss.size(); k++) if (okp(c, ss[k].rr) && !c.S.R(ss[k].rr.reg).rdNN && !c.S.P.entEq(ss[k].nr)) c.bad("bounds", "a record without data outside the question section");
}
static std::function<void(CT &)> mnemonic() {
  return [](CT &c) {
    c.out(Ret::null(), nop);
    c.out(Ret::nonNull(), [](CT &c) {
      if (c.mode == CT::CALL) { c.rp = AV::mkPtr(c.I.summaryString(c.S, c.G, 3, "mnemonic")); return; }
      c.I.ob("postcondition"); if (c.rp.k != AV::Ptr || c.rp.reg <= 0 || !c.S.has(c.rp.reg) || !c.S.R(c.rp.reg).isGlobal || !c.S.R(c.rp.reg).ro) { c.bad("post", "does not return a static string"); return; }
      c.I.requireStr(c.S, c.rp, (c.fname + ": result").c_str());
    });
  };
}
void defineContracts3() {
  // ---- base64
  addSpec("base64_encode_block", "i32:p,i32,p,p,", [](CT &c) {
    c.req(c.iv[1], "negative length"); c.req(Lin((i64)1 << 30) - c.iv[1], "length too large"); Lin n = c.iv[1];
    long os = fieldOff(c.I.M, "base64_encodestate", "step"), orr = fieldOff(c.I.M, "base64_encodestate", "result"), sz = typeSize(c.I.M, "base64_encodestate");
    Type *I32 = IntegerType::get(c.I.M.getContext(), 32), *I8 = IntegerType::get(c.I.M.getContext(), 8);
    c.bufR(0, n); c.bufW(2, n * 2);
    if (c.mode == CT::ENTRY) { int id = c.mk(3, "", Lin(sz)); auto &R = c.S.W(id); R.cells[os] = Cell{4, AV::mkInt(Lin(0), 3)}; R.cells[orr] = Cell{1, AV::mkInt(Lin(0), 3)}; R.ihi = R.size; c.setArg(3, AV::mkPtr(id)); }
    if (c.mode == CT::CALL) {
      AV p = c.arg(3); if (!c.I.access(c.S, p, Lin(sz), true, c.what("state").c_str()) || c.S.P.bot) return;
      AV a = c.I.load(c.S, plus(p, os), 4, I32, nullptr), b = c.I.load(c.S, plus(p, orr), 1, I8, nullptr); c.I.ob("init");
      if (a.un || b.un) c.bad("uninit", "the state was never set"); else if (a.k != AV::Int || !c.S.P.entEq(a.e) || b.k != AV::Int || !c.S.P.entEq(b.e)) c.bad("bounds", "the state is not the initial one");
    }
    c.out(Ret::always(Lin(0), n * 2), [=](CT &c) {
      AV p = c.arg(3), d = c.arg(2); if (!okp(c, p)) return;
      if (c.mode == CT::CALL) { Lin s = c.I.fresh(c.S, 0, 2); c.S.P.addIneq(n - s); c.I.store(c.S, plus(p, os), 4, AV::mkInt(s, 3), I32); if (c.S.P.bot) return; c.I.store(c.S, plus(p, orr), 1, AV::mkInt(c.I.fresh(c.S, 0, 63), 3), I8); if (c.S.P.bot) return; c.wrote(2, c.rv, n * 2); return; }
      AV a = c.I.load(c.S, plus(p, os), 4, I32, nullptr), b = c.I.load(c.S, plus(p, orr), 1, I8, nullptr); if (c.S.P.bot) return; c.I.ob("postcondition");
      if (a.un || b.un) { c.bad("uninit", "the state is not set"); return; }
      if (a.k != AV::Int || b.k != AV::Int) { c.bad("post", "the state is not a number"); return; }
      c.ensure(a.e, "the state is not one of the steps"); c.ensure(Lin(2) - a.e, "the state is not one of the steps"); c.ensure(n - a.e, "the step does not match the octets encoded");
      c.ensure(b.e, "the pending bits are not six"); c.ensure(Lin(63) - b.e, "the pending bits are not six"); c.wrote(2, c.rv, n * 2); (void)d;
    });
  }).sgn = {1};
  addSpec("base64_encode_blockend", "i32:p,p,", [](CT &c) {
    long os = fieldOff(c.I.M, "base64_encodestate", "step"), orr = fieldOff(c.I.M, "base64_encodestate", "result"), sz = typeSize(c.I.M, "base64_encodestate");
    Type *I32 = IntegerType::get(c.I.M.getContext(), 32), *I8 = IntegerType::get(c.I.M.getContext(), 8); Lin s;
    if (c.mode == CT::ENTRY) { s = c.I.fresh(c.S, 0, 2); int id = c.mk(1, "", Lin(sz)); auto &R = c.S.W(id); R.cells[os] = Cell{4, AV::mkInt(s, 3)}; R.cells[orr] = Cell{1, AV::mkInt(c.I.fresh(c.S, 0, 63), 3)}; R.ihi = R.size; c.setArg(1, AV::mkPtr(id)); c.S.ghosts[50] = {0, s}; }
    else if (c.mode == CT::CALL) {
      AV p = c.arg(1); if (!c.I.access(c.S, p, Lin(sz), true, c.what("state").c_str()) || c.S.P.bot) return;
      AV a = c.I.load(c.S, plus(p, os), 4, I32, nullptr), b = c.I.load(c.S, plus(p, orr), 1, I8, nullptr); if (c.S.P.bot) return; c.I.ob("init");
      if (a.un || b.un || a.k != AV::Int || b.k != AV::Int) { c.bad("uninit", "the state was never set"); return; }
      s = a.e; c.req(s, "not one of the steps"); c.req(Lin(2) - s, "not one of the steps"); c.req(b.e, "pending bits"); c.req(Lin(63) - b.e, "pending bits");
    } else s = c.S.ghosts.count(50) ? c.S.ghosts[50].second : Lin(2);
    c.bufW(0, s * 2 + Lin(1));
    c.out(Ret::always(Lin(0), s * 2 + Lin(1)), [=](CT &c) { c.wrote(0, c.rv, s * 2 + Lin(1)); });
  });
  addSpec("bytes_to_ubuf_base64", "v:p,i16,p,", ubOut(2, [](CT &c) { c.bufR(0, c.iv[1]); }, {Ret::any()}));
  // ---- pieces of record data
  addSpec("rdata_to_str_string_unquoted", "i64:p,i64,p,", ubRet(2, [](CT &c) { c.req(Lin((i64)1 << 40) - c.iv[1], "size of the order of the address space"); c.bufR(0, c.iv[1]); }, [](CT &c) { return Ret::always(c.iv[1], c.iv[1]); }));
  addSpec("rdata_to_str_string", "i64:p,i64,p,", ubRet(2, [](CT &c) { c.req(Lin((i64)1 << 40) - c.iv[1], "size of the order of the address space"); c.bufR(0, c.iv[1]); }, [](CT &c) { return Ret::always(c.iv[1], c.iv[1]); }));
  addSpec("svcparam_to_str", "i32:i16,p,i16,p,", ubOut(3, [](CT &c) { c.req(Lin(65534) - c.iv[0], "the reserved key"); c.bufR(1, c.iv[2]); }, {Ret::eq(0), FAIL()}));
  addSpec("_wdns_svcparamkey_to_str", "p:i16,p,i64,", [](CT &c) {
    c.req(c.iv[2] - Lin(16), "no room for the longest key name"); c.req(Lin((i64)1 << 41) - c.iv[2], "size of the order of the address space"); Lin sz = c.iv[2]; c.bufW(1, sz);
    c.out(Ret::null(), [sz](CT &c) { c.havoc(1, sz); });
    c.out(Ret::nonNull(), [sz](CT &c) {
      AV d = c.arg(1); if (!okp(c, d)) return;
      if (c.mode == CT::CALL) { c.rp = d; c.I.clobber(c.S, d.reg, d.e, sz, false); Lin z = c.I.fresh(c.S, 0, 15); c.I.addInit(c.S, d.reg, d.e, z + Lin(1)); auto &W = c.S.W(d.reg); W.hasZ = true; W.Z = d.e + z; W.zExact = c.S.P.entEq(d.e); W.term = 0; W.zfrom = 0; W.zero = false; return; }
      if (c.rp.k != AV::Ptr || c.rp.reg != d.reg || !c.S.P.entEq(c.rp.e - d.e)) { c.bad("post", "does not return its destination"); return; }
      c.I.requireStr(c.S, c.rp, (c.fname + ": result").c_str());
    });
  });
  addSpec("_wdns_ednsoptcode_to_ubuf", "v:p,i16,", ubOut(0, nop, {Ret::any()}));
  addSpec("_wdns_ednsoptdata_to_ubuf", "i32:p,i16,p,i16,", ubOut(0, [](CT &c) { c.bufR(2, c.iv[3]); }, {Ret::eq(0), FAIL()}));
  // ---- record data, records, sections
  addSpec("_wdns_rdata_to_ubuf", "v:p,p,i16,i16,i16,", ubOut(0, [](CT &c) { c.bufR(1, c.iv[2], true, true); c.typeParam(c.iv[3]); }, {Ret::any()})).typed = true;
  addSpec("_wdns_rr_to_ubuf", "v:p,p,i32,", ubOut(0, [](CT &c) { rrIn(c, 1, 2); }, {Ret::any()}));
  addSpec("_wdns_rrset_to_ubuf", "v:p,p,i32,", ubOut(0, [](CT &c) { objIn(c, 1, 2, false, true); }, {Ret::any()}));
  addSpec("_wdns_rrset_array_to_ubuf", "v:p,p,i32,", ubOut(0, [](CT &c) { secIn2(c, 1, 2); }, {Ret::any()}));
  // ---- whole objects to text
  addSpec("wdns_rdata_to_str", "p:p,i16,i16,i16,", [](CT &c) { c.bufR(0, c.iv[1], true, true); c.out(Ret::nonNull(), newString); });
  addSpec("wdns_rr_to_str", "p:p,i32,", [](CT &c) { rrIn(c, 0, 1); c.out(Ret::nonNull(), newString); });
  addSpec("wdns_rrset_to_str", "p:p,i32,", [](CT &c) { objIn(c, 0, 2, false, true); c.out(Ret::nonNull(), newString); });
  addSpec("wdns_rrset_array_to_str", "p:p,i32,", [](CT &c) { secIn2(c, 0, 1); c.out(Ret::nonNull(), newString); });
  addSpec("wdns_message_to_str", "p:p,", [](CT &c) {
    msgIn(c, 0);
    c.out(Ret::nonNull(), newString);
  });
  addSpec("wdns_print_rr", "v:p,p,i32,", [](CT &c) { fileArg(c, 0); rrIn(c, 1, 2); c.out(Ret::any(), nop); });
  addSpec("wdns_print_rrset", "v:p,p,i32,", [](CT &c) { fileArg(c, 0); objIn(c, 1, 2, false, true); c.out(Ret::any(), nop); });
  addSpec("wdns_print_rrset_array", "v:p,p,i32,", [](CT &c) { fileArg(c, 0); secIn2(c, 1, 2); c.out(Ret::any(), nop); });
  addSpec("wdns_print_message", "v:p,p,", [](CT &c) {
    fileArg(c, 0);
    msgIn(c, 1);
    c.out(Ret::any(), nop);
  });
  // ---- mnemonics
  for (auto f : {"wdns_rrtype_to_str", "wdns_rrclass_to_str", "wdns_rcode_to_str", "wdns_opcode_to_str"}) addSpec(f, "p:i16,", mnemonic());
  addSpec("wdns_res_to_str", "p:i32,", mnemonic());
  addSpec("wdns_get_version", "p:", [](CT &c) { mnemonic()(c); });
  addSpec("wdns_get_version_number", "i32:", [](CT &c) { c.out(Ret::any(), nop); });
  for (auto f : {"wdns_str_to_rrtype", "wdns_str_to_rrclass"}) addSpec(f, "i16:p,", [](CT &c) { c.str(0); c.out(Ret::any(), nop); });
  addSpec("wdns_str_to_rcode", "i32:p,p,", [](CT &c) { c.str(0); c.outInt(1, 2); c.out(Ret::eq(0), [](CT &c) { Lin v; c.outVal(1, 2, v, "the code"); }); c.out(FAIL(), nop); });
}
