// Contracts of text parsing: record data from presentation format.
#include "contracts.h"
#include "ubuf.h"
#include "objects.h"
using namespace llvm;
static const long RESMAX = 1000;
static Ret FAIL() { return Ret::failure(Ret::range(Lin(1), Lin(RESMAX))); }
static auto nop = [](CT &) {};
static const i64 INTMAX = 0x7fffffff;
// a buffer that gains at least `more` octets (exactly, when `exact`)
static void gained(CT &c, UB &b, int i, const Lin &more, bool exact = false) {
  if (!b.ok || c.S.P.bot) return;
  if (c.mode == CT::CALL) { Lin n = b.n + more; if (!exact) { n = c.I.fresh(c.S, 0, (i64)1 << 41); c.S.P.addIneq(n - b.n - more); } ubSet(c, b, "ubuf", 1, n, n); return; }
  Lin n0 = c.S.ghosts.count(10 + i) ? c.S.ghosts[10 + i].second : Lin(0);
  if (exact) c.ensureEq(b.n, n0 + more, "the buffer's count after the call"); else c.ensure(b.n - n0 - more, "the buffer lost octets it held before");
}
static AV ldp(CT &c, const AV &p, int sz) { return c.I.load(c.S, p, sz, IntegerType::get(c.I.M.getContext(), sz * 8), nullptr); }
void defineContracts4() {
  { auto &s = addSpec("base64_decode_value", "i32:i8,", [](CT &c) { c.out(Ret::any(), nop); }); s.sgn = {0}; s.retSigned = true; }
  addSpec("base64_decode_block", "i32:p,i32,p,p,", [](CT &c) {
    c.req(c.iv[1], "negative length"); Lin n = c.iv[1];
    long os = fieldOff(c.I.M, "base64_decodestate", "step"), op = fieldOff(c.I.M, "base64_decodestate", "plainchar"), sz = typeSize(c.I.M, "base64_decodestate");
    Type *I32 = IntegerType::get(c.I.M.getContext(), 32), *I8 = IntegerType::get(c.I.M.getContext(), 8);
    c.bufR(0, n); c.bufW(2, n + Lin(1));
    if (c.mode == CT::ENTRY) { int id = c.mk(3, "", Lin(sz)); auto &R = c.S.W(id); R.cells[os] = Cell{4, AV::mkInt(Lin(0), 3)}; R.cells[op] = Cell{1, AV::mkInt(Lin(0), 3)}; R.ihi = R.size; c.setArg(3, AV::mkPtr(id)); }
    if (c.mode == CT::CALL) {
      AV p = c.arg(3); if (!c.I.access(c.S, p, Lin(sz), true, c.what("state").c_str()) || c.S.P.bot) return;
      AV a = ldp(c, plus(p, os), 4), b = ldp(c, plus(p, op), 1); if (c.S.P.bot) return; c.I.ob("init");
      if (a.un || b.un) c.bad("uninit", "the state was never set"); else if (a.k != AV::Int || !c.S.P.entEq(a.e)) c.bad("bounds", "the state is not the initial one");
    }
    c.out(Ret::always(Lin(0), n), [=](CT &c) {
      AV p = c.arg(3); if (!okp(c, p)) return;
      if (c.mode == CT::CALL) { c.I.store(c.S, plus(p, os), 4, AV::mkInt(c.I.fresh(c.S, 0, 3), 3), I32); if (c.S.P.bot) return; c.I.store(c.S, plus(p, op), 1, c.I.freshInt(c.S, 8), I8); if (c.S.P.bot) return; }
      c.wrote(2, c.rv, n + Lin(1));
    });
  }).sgn = {1};
  addSpec("base64_str_to_ubuf", "i64:p,i64,p,", [](CT &c) {
    UB b = ubIn(c, 2, "ubuf", 1); if (c.S.P.bot) return;
    c.req(Lin(INTMAX) - c.iv[1], "more characters than the decoder can count"); c.bufR(0, c.iv[1]);
    c.out(Ret::always(Lin(0), c.iv[1]), [=](CT &c) mutable { gained(c, b, 2, c.rv, true); });
  });
  addSpec("rdata_from_str_string", "i64:p,p,", [](CT &c) {
    c.str(0); if (c.S.P.bot) return; UB b = ubIn(c, 1, "ubuf", 1); if (c.S.P.bot) return;
    Lin n = c.strLenOf(0);
    c.out(Ret::failure(Ret::eq(0)), [=](CT &c) mutable { gained(c, b, 1, Lin(0)); });
    c.out(Ret::range(Lin(1), n), [=](CT &c) mutable { // at most one octet for every character
      if (!b.ok || c.S.P.bot) return;
      if (c.mode == CT::CALL) { Lin m = c.I.fresh(c.S, 0, (i64)1 << 40); c.S.P.addIneq(c.rv - m); if (c.S.P.bot) return; ubSet(c, b, "ubuf", 1, b.n + m, b.n + m); return; }
      gained(c, b, 1, Lin(0)); Lin n0 = c.S.ghosts.count(11) ? c.S.ghosts[11].second : Lin(0); c.ensure(n0 + c.rv - b.n, "more octets than characters");
    });
  });
  addSpec("str_to_ubuf", "i32:p,p,p,", [](CT &c) {
    c.str(0); if (c.S.P.bot) return; UB b = ubIn(c, 1, "ubuf", 1); if (c.S.P.bot) return;
    c.outInt(2, 8, true); Lin n = c.strLenOf(0);
    c.out(Ret::eq(0), [=](CT &c) mutable {
      gained(c, b, 1, Lin(1)); if (c.S.P.bot) return;
      AV q = c.arg(2), s = c.arg(0); if (!okp(c, q) || !okp(c, s)) return;
      if (c.mode == CT::CALL) { Lin k = c.I.fresh(c.S, 1, (i64)1 << 40); c.S.P.addIneq(n - k); if (c.S.P.bot) return; stv(c, q, 8, plus(s, 0)); AV r = s; r.e = r.e + k; stv(c, q, 8, r); return; }
      AV r = ld(c, q, 8, true); c.I.ob("postcondition");
      if (r.un || r.k != AV::Ptr || r.reg != s.reg) { c.bad("post", "the end of the text is not set"); return; }
      c.ensure(r.e - s.e - Lin(1), "success without consuming text"); c.ensure(s.e + n - r.e, "more text consumed than there is");
    });
    c.out(FAIL(), [=](CT &c) mutable { gained(c, b, 1, Lin(0)); });
  });
  addSpec("_wdns_str_to_svcparamkey", "i16:p,", [](CT &c) { c.str(0); c.out(Ret::range(Lin(0), Lin(65534)), nop); c.out(Ret::failure(Ret::eq(65535)), nop); });
  addSpec("str_to_svcparam", "i32:p,i16,p,i64,", [](CT &c) {
    c.req(Lin(65534) - c.iv[1], "the reserved key"); c.req(Lin((i64)1 << 40) - c.iv[3], "size of the order of the address space");
    UB b = ubIn(c, 0, "ubuf", 1); if (c.S.P.bot) return;
    if (c.mode == CT::ENTRY) {
      if (c.choice()) { c.setArg(2, AV::mkPtr(0)); c.req(c.iv[1] - Lin(2), ""); c.req(Lin(2) - c.iv[1], ""); c.req(Lin(0) - c.iv[3], ""); }
      else { int id = c.mk(2, "", c.iv[3] + Lin(1)); auto &R = c.S.W(id); R.ihi = R.size; R.hasZ = true; R.zExact = false; R.Z = c.iv[3]; c.setArg(2, AV::mkPtr(id)); }
    } else if (c.mode == CT::CALL) {
      AV v = c.arg(2);
      if (v.k == AV::Ptr && v.reg == 0) { c.req(Lin(2) - c.iv[1], "a parameter that needs a value has none"); c.req(c.iv[1] - Lin(2), "a parameter that needs a value has none"); }
      else { c.I.requireStr(c.S, v, c.what("value").c_str()); if (c.S.P.bot) return; if (!c.I.access(c.S, v, c.iv[3] + Lin(1), true, c.what("value").c_str()) || c.S.P.bot) return; c.I.ob("init"); if (!c.I.initialised(c.S, v.reg, v.e, c.iv[3])) c.bad("uninit", "octets of the value were never set"); }
    }
    Lin n = c.iv[3];
    auto eff = [=](CT &c) { AV v = c.arg(2); if (c.mode != CT::CALL || !okp(c, v)) return; c.I.clobber(c.S, v.reg, v.e, n, true); };
    c.out(Ret::eq(0), [=](CT &c) mutable { gained(c, b, 0, Lin(4)); eff(c); });
    c.out(FAIL(), [=](CT &c) mutable { gained(c, b, 0, Lin(0)); eff(c); });
  });
  addSpec("_wdns_str_to_rdata_ubuf", "i32:p,p,i16,i16,", [](CT &c) {
    UB b = ubIn(c, 0, "ubuf", 1); if (c.S.P.bot) return; c.str(1); if (c.S.P.bot) return; c.typeParam(c.iv[2]);
    c.out(Ret::eq(0), [=](CT &c) mutable { gained(c, b, 0, Lin(0)); });
    c.out(FAIL(), [=](CT &c) mutable { gained(c, b, 0, Lin(0)); });
  }).typed = true;
  addSpec("wdns_str_to_rdata", "i32:p,i16,i16,p,p,", [](CT &c) {
    c.str(0); c.outInt(3, 8); c.outInt(4, 8);
    c.out(Ret::eq(0), [](CT &c) {
      AV q = c.arg(3); Lin n; if (!okp(c, q)) return;
      if (c.mode == CT::CALL) {
        n = c.I.fresh(c.S, 0, (i64)1 << 40); AV z = c.arg(4); stv(c, z, 8, AV::mkInt(n, 3)); if (c.S.P.bot) return;
        int id = c.I.newRegion(c.S, c.C, 0, Lin(0)); auto &W = c.S.W(id); W.size = n; W.heap = W.owned = true; W.ihi = n; stv(c, q, 8, AV::mkPtr(id)); return;
      }
      if (!c.outVal(4, 8, n, "the length")) return;
      AV d = ld(c, q, 8, true); c.I.ob("postcondition");
      if (d.un) { c.bad("uninit", "success without setting the data"); return; }
      if (d.k != AV::Ptr || d.reg <= 0 || !c.S.has(d.reg) || c.S.R(d.reg).freed || !c.S.R(d.reg).heap || !c.S.R(d.reg).owned || !c.S.P.entEq(d.e)) { c.bad("post", "success without an allocated block"); return; }
      c.ensure(c.S.R(d.reg).size - n, "the length exceeds the block"); if (!c.I.initialised(c.S, d.reg, Lin(0), n)) c.bad("uninit", "reports more octets than it has set");
    });
    c.out(FAIL(), [](CT &c) { if (c.mode == CT::CALL) for (int i = 3; i < 5; i++) c.havoc(i, Lin(8)); });
  });
  addSpec("wdns_is_subdomain", "i32:p,p,p,", [](CT &c) {
    c.name(0, 1, true); c.name(1, 1, true); c.outInt(2, 1);
    c.out(Ret::eq(0), [](CT &c) { Lin v; c.outVal(2, 1, v, "the answer"); });
    c.out(FAIL(), [](CT &c) { if (c.mode == CT::CALL) c.havoc(2, Lin(1)); });
  });
  addSpec("my_uint16_to_hex_str", "i64:i16,i1,p,i64,", [](CT &c) {
    c.req(Lin((i64)1 << 41) - c.iv[3], "size of the order of the address space"); c.req(c.iv[3] - Lin(1), "no room for the terminator"); Lin sz = c.iv[3]; c.bufW(2, sz);
    c.out(Ret::always(Lin(0), sz - Lin(1)), [sz](CT &c) { c.wrote(2, c.rv + Lin(1), sz); });
  });
  addSpec("wdns_file_load_names", "i32:p,p,p,", [](CT &c) {
    c.str(0); c.out(Ret::eq(0), nop); c.out(FAIL(), nop);
  });
}
