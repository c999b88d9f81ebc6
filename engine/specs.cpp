// The contracts of the library's functions.
#include "contracts.h"
#include "ubuf.h"
using namespace llvm;
static Spec *last(const std::string &n);
static const long NAMEMAX = 255, RESMAX = 1000;
static void sane(CT &c, int i) { c.req(Lin((i64)1 << 41) - c.iv[i], "size of the order of the address space"); }
static auto nop = [](CT &) {};
static Ret FAIL() { return Ret::failure(Ret::range(Lin(1), Lin(RESMAX))); }

// ---- growing byte/word buffers (vector.h)

static long ubOff(CT &c, const char *T, const char *f) { return fieldOff(c.I.M, T, f); }
static int ubDataId(int reg, int k) { return regionId((const void *)(intptr_t)(0x20000 + reg), k, regionName(reg) + (k ? "->data(stale)" : "->data")); }
// entry: an arbitrary consistent buffer.  call: checks that it is one.
UB ubIn(CT &c, int i, const char *T, long es) {
  UB b; State &S = c.S; Type *PT = PointerType::getUnqual(c.I.M.getContext()); Type *I64 = IntegerType::get(c.I.M.getContext(), 64);
  long ov = ubOff(c, T, "_v"), op = ubOff(c, T, "_p"), on = ubOff(c, T, "_n"), oa = ubOff(c, T, "_n_alloced"), oh = ubOff(c, T, "_hint");
  if (c.mode == CT::ENTRY) {
    b.reg = c.mk(i, "", Lin(typeSize(c.I.M, T)));
    b.n = c.I.fresh(S, 0, (i64)1 << 40); b.na = c.I.fresh(S, 1, (i64)1 << 41); S.P.addIneq(b.na - b.n); b.hint = c.I.fresh(S, 1, (i64)1 << 31);
    b.D = ubDataId(b.reg, 0);
    auto d = std::make_shared<Region>(); d->id = b.D; d->size = b.na * es; d->heap = d->owned = true; d->ilo = Lin(0); d->ihi = b.n * es; S.regs[b.D] = d;
    auto &R = S.W(b.reg); R.heap = true; R.ihi = R.size;
    R.cells[ov] = Cell{8, AV::mkPtr(b.D)}; R.cells[op] = Cell{8, AV::mkPtr(b.D, b.n * es)}; R.cells[on] = Cell{8, AV::mkInt(b.n, 3)}; R.cells[oa] = Cell{8, AV::mkInt(b.na, 3)}; R.cells[oh] = Cell{8, AV::mkInt(b.hint, 3)};
    c.setArg(i, AV::mkPtr(b.reg)); S.ghosts[10 + i] = {b.reg, b.n};
    b.ok = true; return b;
  }
  b.u = c.arg(i);
  if (c.mode == CT::CALL) { if (!c.I.access(S, b.u, Lin(typeSize(c.I.M, T)), true, c.what("buffer").c_str()) || S.P.bot) return b; }
  if (b.u.k != AV::Ptr || b.u.reg <= 0 || !S.has(b.u.reg)) return b;
  b.reg = b.u.reg;
  auto at = [&](long o) { AV p = b.u; p.e = p.e + Lin(o); return p; };
  AV v = c.I.load(S, at(ov), 8, PT, nullptr), p = c.I.load(S, at(op), 8, PT, nullptr), n = c.I.load(S, at(on), 8, I64, nullptr), na = c.I.load(S, at(oa), 8, I64, nullptr);
  if (S.P.bot) return b;
  const char *kind = c.mode == CT::CALL ? "bounds" : "post";
  c.I.ob("buffer-invariant");
  if (v.un || p.un || n.un || na.un) { c.bad("uninit", "buffer fields were never set"); return b; }
  if (v.k != AV::Ptr || v.reg <= 0 || !S.has(v.reg) || n.k != AV::Int || na.k != AV::Int) { c.bad(kind, "the buffer has no storage"); return b; }
  if (S.R(v.reg).freed) { c.bad("uaf", "the buffer's storage was released"); return b; }
  if (S.R(v.reg).maybeNull) S.W(v.reg).maybeNull = false;
  b.D = v.reg; b.n = n.e; b.na = na.e;
  auto canon = [&](const AV &a) { i64 lo; return (a.canon & 1) || (S.P.minOf(a.e, lo) && lo >= 0); };
  auto chk = [&](bool ok, const char *m) { if (!ok) { if (c.I.record && getenv("ABS_DUMP")) { errs() << "UBUF " << locOf(c.I.cur) << "\n"; c.I.dump(S); } c.bad(kind, m); } };
  chk(canon(n) && canon(na) && S.P.entGe(b.na - b.n) && S.P.entGe(b.na - Lin(1)), "the buffer's count is not within its capacity");
  if (c.mode == CT::CALL) { S.P.addIneq(b.na - b.n); S.P.addIneq(Lin((i64)1 << 40) - b.n, false); S.P.addIneq(b.na - Lin(1)); if (S.P.bot) return b; }
  chk(S.R(b.D).heap && S.R(b.D).owned && S.P.entEq(v.e) && S.P.entGe(S.R(b.D).size - b.na * es), "the buffer's capacity exceeds its storage");
  chk(p.k == AV::Ptr && p.reg == v.reg && S.P.entEq(p.e - b.n * es), "the buffer's write position does not match its count");
  if (!c.I.initialised(S, b.D, Lin(0), b.n * es)) { if (c.I.record && getenv("ABS_DUMP")) c.I.dump(S); c.bad("uninit", "the buffer counts octets that were never set"); c.I.addInit(S, b.D, Lin(0), b.n * es); }
  b.ok = true; return b;
}
// call: the buffer may have moved; it now holds n octets and has room for cap
void ubSet(CT &c, UB &b, const char *T, long es, const Lin &n, const Lin &cap, int appended0) {
  State &S = c.S; if (!b.ok || S.P.bot) return;
  long ov = ubOff(c, T, "_v"), op = ubOff(c, T, "_p"), on = ubOff(c, T, "_n"), oa = ubOff(c, T, "_n_alloced");
  Type *PT = PointerType::getUnqual(c.I.M.getContext()); Type *I64 = IntegerType::get(c.I.M.getContext(), 64);
  auto at = [&](long o) { AV p = b.u; p.e = p.e + Lin(o); return p; };
  int nw = ubDataId(b.reg, 0), st = ubDataId(b.reg, 1), old = b.D;
  Lin osz = S.R(old).size;
  { auto &W = S.W(old); W.freed = true; W.owned = false; W.cells.clear(); W.hasZ = false; }
  S.facts.erase(std::remove_if(S.facts.begin(), S.facts.end(), [&](const Fact &f) { return f.kind == 0 && f.reg == old; }), S.facts.end());
  if (old == nw) { if (S.has(st)) c.I.dropRegion(S, st); c.I.renameRegion(S, old, st); }
  Lin na = c.I.fresh(S, 1, (i64)1 << 42); S.P.addIneq(na - cap); S.P.addIneq(na - b.na); S.P.addIneq(na - n);
  auto d = std::make_shared<Region>(); d->id = nw; d->size = na * es; d->heap = d->owned = true; d->ilo = Lin(0); d->ihi = n * es;
  if (appended0) { d->hasZ = true; d->zExact = false; d->Z = n - Lin(1); }
  S.regs[nw] = d;
  c.I.store(S, at(ov), 8, AV::mkPtr(nw), PT); if (S.P.bot) return;
  c.I.store(S, at(op), 8, AV::mkPtr(nw, n * es), PT); if (S.P.bot) return;
  c.I.store(S, at(on), 8, AV::mkInt(n, 3), I64); if (S.P.bot) return;
  c.I.store(S, at(oa), 8, AV::mkInt(na, 3), I64);
}
void errText(Interp &, State &, const AV &);
// a number put into a buffer is the whole number
static void whole(CT &c, const AV &v, int bits) {
  if (c.mode != CT::CALL) return;
  c.I.ob("narrow");
  if (!(v.lossy & 6)) return;
  i64 lo, hi; if (!(v.lossy & 4) && v.k == AV::Int && c.S.P.minOf(v.e, lo) && lo >= 0 && c.S.P.maxOf(v.e, hi) && hi < ((i64)1 << bits)) return;
  c.I.alarm("narrow", "a number that may not fit " + std::to_string(bits) + " bits is cut down and put into the buffer");
}
// `make(n0)` gives the new count and the room required, from the old count
static std::function<void(CT &)> ubGrow(int i, const char *T, long es, std::function<void(CT &, UB &)> args, std::function<void(CT &, UB &, Lin, Lin &, Lin &)> make) {
  return [=](CT &c) {
    UB b = ubIn(c, i, T, es);
    if (c.mode != CT::EXIT) args(c, b);
    if (c.S.P.bot) return;
    c.out(Ret::any(), [=](CT &c) mutable {
      Lin n, cap;
      if (c.mode == CT::CALL) { make(c, b, b.n, n, cap); int z = 0; if (c.fname == "ubuf_append") { AV s = c.arg(1); i64 l; if (s.k == AV::Ptr && s.reg > 0 && c.S.has(s.reg) && c.S.R(s.reg).init && c.S.R(s.reg).init->isNullValue() && c.S.P.isConst(c.iv[2], l) && l == 1) z = 1; } ubSet(c, b, T, es, n, cap, z); return; }
      if (!b.ok) return;
      Lin n0 = c.S.ghosts.count(10 + i) ? c.S.ghosts[10 + i].second : Lin(0);
      make(c, b, n0, n, cap);
      if (c.fname != "ubuf_add_fmt") c.ensureEq(b.n, n, "the buffer's count after the call");
      c.ensure(b.na - cap, "the buffer did not grow enough");
    });
  };
}

void defineContracts2(); void defineContracts3(); void defineContracts4();
void defineContracts() {
  defineContracts2(); defineContracts3(); defineContracts4();
  for (auto t : {std::make_pair("ubuf", 1L), std::make_pair("u16buf", 2L)}) {
    std::string T = t.first; const char *tn = t.first; long es = t.second;
    addSpec(T + "_reserve", "v:p,i64,", ubGrow(0, tn, es, [](CT &c, UB &) { c.req(Lin((i64)1 << 41) - c.iv[1], "size of the order of the address space"); }, [](CT &c, UB &, Lin n0, Lin &n, Lin &cap) { n = n0; cap = n0 + c.iv[1]; }));
    addSpec(T + "_add", es == 1 ? "v:p,i8," : "v:p,i16,", ubGrow(0, tn, es, [es](CT &c, UB &) { whole(c, c.arg(1), es * 8); }, [](CT &, UB &, Lin n0, Lin &n, Lin &cap) { n = n0 + Lin(1); cap = n; }));
    addSpec(T + "_append", "v:p,p,i64,", ubGrow(0, tn, es, [es](CT &c, UB &) { c.req(Lin((i64)1 << 41) - c.iv[2], "size of the order of the address space"); c.bufR(1, c.iv[2] * es); if (c.mode == CT::CALL) errText(c.I, c.S, c.arg(1));
      AV s = c.arg(1); i64 l, o; if (c.mode == CT::CALL && s.k == AV::Ptr && s.reg > 0 && c.S.has(s.reg) && c.S.R(s.reg).stack && c.S.P.isConst(c.iv[2], l) && l * es <= 4 && c.S.P.isConst(s.e, o)) { auto &cs = c.S.R(s.reg).cells; auto it = cs.find(o); if (it != cs.end() && it->second.sz == l * es) whole(c, it->second.v, 8 * l * es); } }, [](CT &c, UB &, Lin n0, Lin &n, Lin &cap) { n = n0 + c.iv[2]; cap = n; }));
  }
  addSpec("ubuf_add_fmt", "v:p,p,", ubGrow(0, "ubuf", 1,
    [](CT &c, UB &) {
      if (c.mode == CT::ENTRY) { c.str(1); return; }
      extern bool fmtCall(Interp &, State &, CallInst *, unsigned, Lin &, Lin &, bool &, const char *);
      errText(c.I, c.S, c.arg(1));
      Lin mx, mn; bool bd; if (!fmtCall(c.I, c.S, c.C, 1, mx, mn, bd, "ubuf_add_fmt")) { c.S.P.bot = true; return; }
      c.S.ghosts[60] = {0, bd ? mx : Lin(-1)}; c.S.ghosts[61] = {0, mn};
    },
    [](CT &c, UB &, Lin n0, Lin &n, Lin &cap) {
      if (c.mode == CT::CALL) {
        Lin l = c.I.fresh(c.S, 0, 0x7fffffff); auto mx = c.S.ghosts[60].second, mn = c.S.ghosts[61].second; c.S.ghosts.erase(60); c.S.ghosts.erase(61);
        if (!(mx == Lin(-1))) { c.S.P.addIneq(mx - l); c.S.P.addIneq(l - mn); }
        Lin t = c.I.fresh(c.S, 0, 1); c.S.P.addIneq(n0 - t); n = n0 - t + l; cap = n + Lin(1); }
      else { n = n0; cap = n0; }
    }));

  // ---- names in wire format
  auto nameOut = [](bool) {
    return [](CT &c) {
      Lin n, s; c.span(0, 1, 2, n, s, false);
      c.bufW(3, Lin(NAMEMAX)); c.nameMonitor(3);
      c.outInt(4, 8, false, true);
      c.out(Ret::eq(0), [](CT &c) {
        Lin v; 
        if (c.mode == CT::CALL) { AV z = c.arg(4); if (z.k == AV::Ptr && z.reg > 0) { if (!c.outVal(4, 8, v, "the length")) return; } else v = c.I.fresh(c.S, 0, NAMEMAX); }
        else if (!c.outVal(4, 8, v, "the length")) return;
        c.ensure(v - Lin(1), "success with an empty name"); c.ensure(Lin(NAMEMAX) - v, "success with a name longer than 255 octets");
        c.wrote(3, v, Lin(NAMEMAX));
        { AV d = c.arg(3), z = c.arg(4); Lin n = v; if (c.mode == CT::EXIT && z.reg == 0 && c.S.ghosts.count(2)) n = c.S.ghosts[2].second; c.nameWellFormed(d.reg, n); }
        if (c.mode == CT::CALL) { AV d = c.arg(3); if (d.reg > 0 && c.S.has(d.reg)) c.S.flags.insert("name" + std::to_string(d.reg)); }
      });
      c.out(FAIL(), [](CT &c) { c.havoc(3, Lin(NAMEMAX)); });
    };
  };
  addSpec("wdns_unpack_name", "i32:p,p,p,p,p,", nameOut(true)).nullable = {4};
  addSpec("wdns_copy_uname", "i32:p,p,p,p,p,", nameOut(false)).nullable = {4};
  addSpec("wdns_len_uname", "i32:p,p,p,", [](CT &c) {
    Lin n, s; c.span(0, 1, -1, n, s, false); c.outInt(2, 8);
    c.out(Ret::eq(0), [n](CT &c) { Lin v; if (!c.outVal(2, 8, v, "the length")) return; c.ensure(v - Lin(1), "success with an empty name"); c.ensure(Lin(NAMEMAX) - v, "success with a name longer than 255 octets"); c.ensure(n - v, "success with a name longer than the input"); });
    c.out(FAIL(), [](CT &c) { if (c.mode == CT::CALL) { AV p = c.arg(2); if (p.reg > 0 && c.S.has(p.reg)) c.I.clobber(c.S, p.reg, p.e, Lin(8), false); } });
  });
  addSpec("wdns_domain_to_str", "i64:p,i64,p,", [](CT &c) {
    c.req(Lin(NAMEMAX) - c.iv[1], "the name is longer than 255 octets");
    c.bufR(0, c.iv[1]); c.bufW(2, Lin(1025));
    c.out(Ret::always(Lin(1), Lin(1025)), [](CT &c) {
      AV d = c.arg(2); if (d.k != AV::Ptr || d.reg <= 0 || !c.S.has(d.reg)) return;
      if (c.mode == CT::CALL) {
        c.I.clobber(c.S, d.reg, d.e, Lin(1025), false); Lin z = c.I.fresh(c.S, 1, 1024); c.I.addInit(c.S, d.reg, d.e, z + Lin(1));
        auto &W = c.S.W(d.reg); W.hasZ = true; W.Z = d.e + z; W.zExact = c.S.P.entEq(d.e); W.term = 0; W.zfrom = 0; W.zero = false;
      } else { c.I.requireStr(c.S, d, "wdns_domain_to_str: result"); }
    });
  });
  addSpec("wdns_count_labels", "i32:p,p,", [](CT &c) {
    c.name(0, 1, true); c.outInt(1, 8);
    c.out(Ret::eq(0), [](CT &c) { Lin v; if (c.outVal(1, 8, v, "the label count")) c.ensure(Lin(128) - v, "more than 128 labels");
      AV p = c.arg(0); if (c.mode == CT::CALL && p.k == AV::Ptr && p.reg > 0 && c.S.has(p.reg) && c.S.R(p.reg).ro) { AV d = p; d.e = d.e + Lin(fieldOff(c.I.M, "wdns_name_t", "data")); d = c.I.load(c.S, d, 8, PointerType::getUnqual(c.I.M.getContext()), nullptr); if (d.k == AV::Ptr && d.reg > 0) c.S.flags.insert("lv" + std::to_string(d.reg)); } });
    c.out(FAIL(), [](CT &c) { Lin v; if (c.mode == CT::CALL) c.outVal(1, 8, v, ""); });
  });
  addSpec("wdns_reverse_name", "i32:p,i64,p,", [](CT &c) {
    c.req(c.iv[1] - Lin(1), "empty name"); c.req(Lin(NAMEMAX) - c.iv[1], "name longer than 255 octets");
    c.bufR(0, c.iv[1]); c.bufW(2, c.iv[1]);
    Lin n = c.iv[1];
    c.out(Ret::eq(0), [n](CT &c) { c.wrote(2, n, n); });
    c.out(FAIL(), [n](CT &c) { c.havoc(2, n); });
  });
  addSpec("wdns_downcase_name", "v:p,", [](CT &c) { c.name(0, 0, false, true); c.out(Ret::any(), [](CT &c) { c.nameContents(0); }); });
  addSpec("wdns_left_chop", "i32:p,p,", [](CT &c) {
    c.name(0, 1, true); c.bufW(1, Lin(typeSize(c.I.M, "wdns_name_t")));
    c.out(Ret::eq(0), [](CT &c) { c.choppedName(0, 1); });
    c.out(FAIL(), [](CT &c) { c.havoc(1, Lin(typeSize(c.I.M, "wdns_name_t"))); });
  });
  addSpec("wdns_skip_name", "i64:p,p,", [](CT &c) {
    Lin n, at; c.cursor(0, 1, n, at);
    c.out(Ret::always(Lin(0), n - at), [n, at](CT &c) {
      // *data advances by the returned number of octets
      AV p = c.arg(0); if (p.k != AV::Ptr || p.reg <= 0 || !c.S.has(p.reg)) return;
      Type *PT = PointerType::getUnqual(c.I.M.getContext());
      AV e = c.arg(1);
      if (c.mode == CT::CALL) { AV q = e; q.e = e.e - n + at + c.rv; c.I.store(c.S, p, 8, q, PT); }
      else { AV q = c.I.load(c.S, p, 8, PT, nullptr); if (q.k != AV::Ptr || q.reg != e.reg) { c.bad("post", "the cursor left the buffer"); return; }
        c.ensureEq(q.e, at + c.rv, "the cursor is not advanced by the value returned"); }
    });
  });
  addSpec("_wdns_parse_header", "i32:p,i64,p,p,p,p,p,p,", [](CT &c) {
    c.bufR(0, c.iv[1], true, false); for (int i = 2; i < 8; i++) c.outInt(i, 2);
    c.out(Ret::eq(0), [](CT &c) { Lin v; for (int i = 2; i < 8; i++) c.outVal(i, 2, v, "a header field"); });
    c.out(FAIL(), nop);
  });
  // ---- text to names
  for (auto fn : {"wdns_str_to_name", "wdns_str_to_name_case"})
    addSpec(fn, "i32:p,p,", [](CT &c) {
      long ol = fieldOff(c.I.M, "wdns_name_t", "len"), od = fieldOff(c.I.M, "wdns_name_t", "data"), sz = typeSize(c.I.M, "wdns_name_t");
      c.str(0); c.bufW(1, Lin(sz));
      c.out(Ret::eq(0), [=](CT &c) {
        Type *PT = PointerType::getUnqual(c.I.M.getContext()); Type *I8 = IntegerType::get(c.I.M.getContext(), 8);
        auto at = [&](long o) { AV p = c.arg(1); p.e = p.e + Lin(o); return p; };
        AV p = c.arg(1); if (p.k != AV::Ptr || p.reg <= 0 || !c.S.has(p.reg)) return;
        if (c.mode == CT::CALL) {
          int id = c.I.newRegion(c.S, c.C, 0, Lin(0)); Lin n = c.I.fresh(c.S, 1, NAMEMAX), cap = c.I.fresh(c.S, 1, NAMEMAX); c.S.P.addIneq(cap - n);
          auto &W = c.S.W(id); W.size = cap; W.heap = W.owned = true; W.ihi = n;
          c.I.clobber(c.S, p.reg, p.e, Lin(typeSize(c.I.M, "wdns_name_t")), false);
          c.I.store(c.S, at(ol), 1, AV::mkInt(n, 3), I8); if (!c.S.P.bot) c.I.store(c.S, at(od), 8, AV::mkPtr(id), PT);
          return;
        }
        AV n = c.I.load(c.S, at(ol), 1, I8, nullptr), d = c.I.load(c.S, at(od), 8, PT, nullptr); if (c.S.P.bot) return;
        c.I.ob("postcondition");
        if (n.un || d.un || n.k != AV::Int) { c.bad("uninit", "success without setting the name"); return; }
        if (d.k != AV::Ptr || d.reg <= 0 || !c.S.has(d.reg) || c.S.R(d.reg).freed || !c.S.R(d.reg).owned || !c.S.P.entEq(d.e)) { c.bad("post", "success without an allocated name"); return; }
        c.I.canon(c.S, n, 8, false, [&](State T, Lin l) { CT e = c; e.S = std::move(T);
          e.ensure(l - Lin(1), "success with an empty name"); e.ensure(e.S.R(d.reg).size - l, "the name's length exceeds its block");
          e.I.ob("postcondition"); if (!e.I.initialised(e.S, d.reg, Lin(0), l)) { if (e.I.record && getenv("ABS_DUMP")) e.I.dump(e.S); e.bad("uninit", "reports more octets than it has set"); } e.nameWellFormed(d.reg, l); });
      });
      c.out(FAIL(), [=](CT &c) { c.havoc(1, Lin(sz)); });
    }).monitorAlloc = true;
  // ---- digits and encodings
  addSpec("my_uint64_to_str", "i64:i64,p,i64,p,", [](CT &c) {
    Lin sz = c.iv[2]; sane(c, 2); c.req(sz - Lin(2), "no room for a digit and the terminator"); c.bufW(1, sz); c.outInt(3, 8, false, true);
    c.out(Ret::always(Lin(1), sz - Lin(1)), [sz](CT &c) {
      AV d = c.arg(1), st = c.arg(3); if (d.k != AV::Ptr || d.reg <= 0 || !c.S.has(d.reg)) return;
      Type *PT = PointerType::getUnqual(c.I.M.getContext()); AV at = d; at.e = d.e + sz - Lin(1) - c.rv;
      if (c.mode == CT::CALL) {
        c.I.clobber(c.S, d.reg, at.e, c.rv + Lin(1), true); c.I.addInit(c.S, d.reg, at.e, c.rv + Lin(1));
        auto &W = c.S.W(d.reg); W.hasZ = true; W.zExact = false; W.Z = d.e + sz - Lin(1); W.term = 0; W.zfrom = 0; W.zero = false;
        if (st.k == AV::Ptr && st.reg > 0) c.I.store(c.S, st, 8, at, PT);
        return;
      }
      c.I.ob("postcondition"); if (!c.I.initialised(c.S, d.reg, at.e, c.rv + Lin(1))) c.bad("uninit", "reports more digits than it has set");
      if (st.k == AV::Ptr && st.reg > 0) { AV q = c.I.load(c.S, st, 8, PT, nullptr); if (q.k != AV::Ptr || q.reg != d.reg || q.un) c.bad("post", "the start of the digits is not set"); else c.ensureEq(q.e, at.e, "the start of the digits does not match their number"); }
    });
  }).nullable = {3};
  addSpec("my_bytes_to_hex_str", "i64:p,i64,i1,p,i64,", [](CT &c) {
    sane(c, 1); sane(c, 4); c.bufR(0, c.iv[1]); c.req(c.iv[4] - Lin(1), "no room for the terminator"); c.bufW(3, c.iv[4]); Lin sz = c.iv[4];
    Lin n = c.iv[1]; bool fits = false;
    if (c.mode == CT::ENTRY) { if (c.choice()) { c.req(sz - n * 2 - Lin(1), ""); c.S.flags.insert("fits"); } else c.req(n * 2 - sz, ""); }
    else fits = c.mode == CT::CALL ? c.S.P.entGe(sz - n * 2 - Lin(1)) : c.S.flags.count("fits") > 0;
    Lin m = sz - Lin(1); c.out(fits ? Ret::always(n * 2, n * 2) : Ret::always(Lin(0), m), [sz](CT &c) { c.wrote(3, c.rv + Lin(1), sz); });
  });
  addSpec("base32_encode", "i64:p,i64,p,i64,", [](CT &c) {
    sane(c, 1); sane(c, 3); c.bufW(0, c.iv[1]); c.bufR(2, c.iv[3]); Lin sz = c.iv[1];
    c.out(Ret::always(Lin(0), sz), [sz](CT &c) { c.wrote(0, c.rv, sz); });
  });
  addSpec("base32_decode", "i64:p,i64,p,i64,", [](CT &c) {
    sane(c, 1); sane(c, 3); c.bufW(0, c.iv[1]); c.bufR(2, c.iv[3]); Lin sz = c.iv[1];
    c.out(Ret::failure(Ret::eq(-1)), [sz](CT &c) { c.havoc(0, sz); });
    c.out(Ret::range(Lin(0), sz), [sz](CT &c) { c.wrote(0, c.rv, sz); });
  }).retSigned = true;
  addSpec("print_hex_uint16_t", "p:i16,p,", [](CT &c) { // up to four digits
    c.bufW(1, Lin(4));
    c.out(Ret::nonNull(), [](CT &c) {
      AV d = c.arg(1); if (d.k != AV::Ptr || d.reg <= 0 || !c.S.has(d.reg)) return;
      if (c.mode == CT::CALL) { Lin k = c.I.fresh(c.S, 1, 4); c.I.clobber(c.S, d.reg, d.e, Lin(4), false); c.I.addInit(c.S, d.reg, d.e, k); d.e = d.e + k; c.rp = d; return; }
      if (c.rp.k != AV::Ptr || c.rp.reg != d.reg) { c.bad("post", "does not return a position in its destination"); return; }
      Lin k = c.rp.e - d.e; c.ensure(k - Lin(1), "no digit"); c.ensure(Lin(4) - k, "more than four digits"); c.wrote(1, k, Lin(4));
    });
  }).fine = true;
  for (int v6 = 0; v6 < 2; v6++) {
    long need = v6 ? 46 : 16, srcn = v6 ? 16 : 4;
    addSpec(v6 ? "fast_inet6_ntop" : "fast_inet4_ntop", "p:p,p,i32,", [=](CT &c) {
      c.bufR(0, Lin(srcn)); c.bufW(1, c.iv[2]); Lin sz = c.iv[2];
      c.out(Ret::null(), [=](CT &c) { c.ensure(Lin(need - 1) - sz, "fails although the buffer is large enough"); c.havoc(1, sz); });
      c.out(Ret::nonNull(), [=](CT &c) {
        AV d = c.arg(1); if (d.k != AV::Ptr || d.reg <= 0 || !c.S.has(d.reg)) return;
        if (c.mode == CT::CALL) {
          c.S.P.addIneq(sz - Lin(2)); if (c.S.P.bot) return;
          Lin z = c.I.fresh(c.S, 1, need - 1); c.S.P.addIneq(sz - Lin(1) - z); if (c.S.P.bot) return;
          c.I.clobber(c.S, d.reg, d.e, sz, false); c.I.addInit(c.S, d.reg, d.e, z + Lin(1));
          auto &W = c.S.W(d.reg); W.hasZ = true; W.Z = d.e + z; W.zExact = c.S.P.entEq(d.e); W.term = 0; W.zfrom = 0; W.zero = false; c.rp = d; return;
        }
        c.I.requireStr(c.S, c.rp, "address text"); if (c.rp.k != AV::Ptr || c.rp.reg != d.reg || !c.S.P.entEq(c.rp.e - d.e)) c.bad("post", "does not return its destination");
      });
    }).fine = v6;
  }
}
