// How the parser, the renderer, the downcaster and the text encoder divide record data into fields, per record type and field:
// octets taken by each turn of the loop over the type's field list; and which octets the downcaster changes, and to what.
#include "terms.h"
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
using namespace terms;
namespace {
enum Who { PARSE, RENDER, DOWN, TEXT, NAME, RRSET };
const char *whoName[] = {"_wdns_parse_rdata", "_wdns_rdata_to_ubuf", "wdns_downcase_rdata", "_wdns_str_to_rdata_ubuf", "wdns_downcase_name", "wdns_downcase_rrset"};
struct Turn { std::map<int, std::set<std::string>> at; const Instruction *loc = nullptr; std::set<std::pair<int, std::map<int, bool>>> seq; int base = -1; }; // seq: what one turn of a loop inside takes // first octet -> what is taken
struct Lay : Run {
  std::map<long, std::string> kinds; long kUnknown = -1, kEnd = -1; const GlobalVariable *tab = nullptr; long rowSz = 0, rows = 0, offTypes = 0, offClass = 0; int nTypes = 0;
  Who who = PARSE; int type = 0; std::vector<long> fields; std::set<int> data; std::vector<Turn> turns; std::set<std::string> visited; int U = -1;
  long getRow(int r, long off, int n) { auto *ty = IntegerType::get(M.getContext(), n * 8); auto *k = ConstantFoldLoadFromConst(const_cast<Constant *>(tab->getInitializer()), ty, APInt(64, r * rowSz + off), DL); return cast<ConstantInt>(k)->getZExtValue(); }
  Lay(Module &m) : Run(m) {
    DebugInfoFinder F; F.processModule(M);
    auto en = [&](const DICompositeType *t) { if (!t || t->getTag() != dwarf::DW_TAG_enumeration_type) return; for (auto *e : t->getElements()) if (auto *d = dyn_cast_or_null<DIEnumerator>(e)) if (d->getName().starts_with("rdf_")) { long v = d->getValue().getZExtValue(); kinds[v] = d->getName().str(); if (d->getName() == "rdf_unknown") kUnknown = v; if (d->getName() == "rdf_end") kEnd = v; } };
    for (auto *cu : F.compile_units()) for (auto *t : cu->getEnumTypes()) en(t);
    for (auto *t : F.types()) en(dyn_cast<DICompositeType>(t));
    tab = M.getGlobalVariable("record_descr_array", true); if (!tab || !tab->hasInitializer()) { tab = nullptr; return; }
    rowSz = typeSize(M, "record_descr"); offTypes = fieldOff(M, "record_descr", "types"); offClass = fieldOff(M, "record_descr", "record_class"); if (rowSz <= 0) return;
    nTypes = rowSz - offTypes; rows = DL.getTypeAllocSize(tab->getValueType()) / rowSz;
  }
  std::string cur() { std::string s = std::string(whoName[who]); return s + " (record type " + std::to_string(type) + ")"; }
  bool isName(size_t t) { return t < fields.size() && (kinds[fields[t]] == "rdf_name" || kinds[fields[t]] == "rdf_uname"); }
  // ---- one turn of the loop over the fields has ended
  std::string amount(St &S, int d, int base, int x, int v) {
    long c; std::map<int, long> as{{x, v}}; auto &t = T.t[d];
    if (t.k == KOp && (t.op == "uname" || t.op == "wname")) return T.isC(t.a[0], c) && c == 0 ? "the name" : "?";
    if (S.rem >= 0 && d == S.rem) return "the rest";
    if (eval(d, as, c)) return std::to_string(c) + (c == 1 ? " octet" : " octets");
    return "?";
  }
  bool endTurn(St &S, const BasicBlock *to, std::vector<std::pair<const PHINode *, int>> &ph) {
    auto tni = S.turnNo.find(to); int tn = tni == S.turnNo.end() ? 0 : tni->second; if ((int)turns.size() <= tn) turns.resize(tn + 1); auto &tr = turns[tn]; ob["turn"]++;
    for (auto *p : predecessors(to)) if (LI->getLoopFor(to)->contains(p)) tr.loc = p->getTerminator();
    int b = S.base, delta = -1;
    auto see = [&](int v) { int vb, vo; if (b >= 0 && split(v, vb, vo) && vb == b) delta = vo; };
    for (auto &p : ph) if (S.cp.count(p.first)) see(p.second);
    if (delta < 0) for (auto &c : S.cc) { auto it = S.mem.find(c); if (it != S.mem.end() && it->second.first == 8) see(it->second.second); }
    // turns made by inner loops that end when a counter reaches zero
    auto resolve = [&](int d) { if (d < 0) return d; for (auto &f : S.facts) { auto &t = T.t[f.first]; if (t.k != KOp || t.op != "EQ" || !f.second) continue; int df = T.add(t.a[0], t.a[1], -1); auto ld = T.lin(d), lf = T.lin(df); for (auto &q : lf.first) { auto it = ld.first.find(q.first); if (it == ld.first.end() || T.t[q.first].k != KFresh || (q.second != 1 && q.second != -1)) continue; d = T.add(d, df, -it->second * q.second); break; } } return d; };
    // what is left: set to nothing, or counted down
    int left = -1; bool gone = false; { auto lf = [&](int v) { long c; if (T.isC(v, c) && c == 0) gone = true; else left = v; }; for (auto &p : ph) if (S.rp.count(p.first)) lf(p.second); for (auto &c : S.rc) { auto it = S.mem.find(c); if (it != S.mem.end()) lf(it->second.second); } }
    int d0 = delta; delta = resolve(delta); int out = resolve(S.out); int counted = left >= 0 && S.rem >= 0 ? resolve(T.add(S.rem, left, -1)) : -1;
    if (getenv("LAYOUT_TRACE") && who == TEXT) { errs() << "TURN " << type << " " << tn << " out " << T.str(S.out) << "\n"; for (auto &f : S.facts) errs() << "    " << T.str(f.first) << " = " << f.second << "\n"; }
    // normalise what refers to the start of the field
    int x = b >= 0 ? T.mk(KLoad, "", {b, 1}, 8) : -1; auto key = [&](int q, int v) { return q < 0 ? std::string("?") : amount(S, q, b, x, v); };
    bool zeroScan = false; if (d0 >= 0) for (auto &f : S.facts) { auto &t = T.t[f.first]; if (t.k == KOp && t.op == "EQ" && f.second) for (int q = 0; q < 2; q++) { long z; auto oc = octet.find(t.a[q]); if (T.isC(t.a[1 - q], z) && z == 0 && oc != octet.end() && data.count(oc->second.first)) { auto l = T.lin(T.add(d0, oc->second.second, -1)); bool kIn = false; for (auto &lp : T.lin(d0).first) if (T.t[lp.first].k == KFresh) kIn = true; if (l.first.empty() && l.second == 1 && kIn) zeroScan = true; } } }
    if (zeroScan && isName(tn)) bad("layout", cur() + ": a name ends at the first zero octet, which may lie inside a label", tr.loc);
    for (int v = 0; v < 256; v++) {
      bool ok = true; long r; if (x >= 0) for (auto &f : S.facts) { if (!mentions(f.first, {x})) continue; if (eval(f.first, {{x, v}}, r) && (r != 0) != f.second) { ok = false; break; } }
      if (!ok) continue; std::string a = who == TEXT ? key(out, v) : gone ? "the rest" : key(delta, v);
      if (who != TEXT && counted >= 0) { std::string o = key(counted, v); ob["counted"]++; if (a != "?" && o != "?" && a != o) bad("layout", cur() + ", field " + kindOf(tn) + ": moves on by " + a + " but counts " + o, tr.loc); }
      tr.at[v].insert(a);
      if (who == PARSE) { std::string o = key(out, v); ob["copied"]++; if (a != "?" && o != "?" && a != o) bad("layout", cur() + ", field " + kindOf(tn) + ": takes " + a + " but stores " + o, tr.loc); }
    }
    if (who == DOWN && isName(tn) && delta >= 0 && T.t[delta].k == KOp && T.t[delta].op == "uname") later.push_back({S, delta, tr.loc});
    // the next turn starts where this one ended
    if (tn > 12) { und.insert("a field list does not end"); return false; }
    St N; N.turnNo = S.turnNo; N.turnNo[to] = tn + 1; N.lost = S.lost; N.parent = S.parent; N.ver = S.ver; N.smudged = S.smudged; auto *L = LI->getLoopFor(to); std::string vk = std::to_string(tn);
    for (auto &e : S.env) { auto *I = dyn_cast<Instruction>(e.first); if (!I || !L->contains(I->getParent())) N.env[e.first] = e.second; }
    std::string tag = std::to_string(tn + 1); N.base = arg("P" + tag); data.insert(N.base); if (who != DOWN) stable.insert(N.base); N.rem = T.mk(KArg, "R" + tag, {}, 64);
    int restv = S.rem >= 0 && delta >= 0 ? T.add(S.rem, delta, -1) : -1; int i = 0;
    for (auto &p : ph) {
      long c; int vb, vo; i++; int v = p.second;
      if (S.cp.count(p.first)) { N.cp.insert(p.first); N.env[p.first] = N.base; }
      else if (S.rp.count(p.first)) { N.rp.insert(p.first); N.env[p.first] = N.rem; (void)restv; }
      else if (T.isC(v, c) || (split(v, vb, vo) && globals.count(vb) && T.isC(vo, c))) { N.env[p.first] = v; vk += "," + T.str(v); }
      else { int f = fresh(64, "t" + tag + "." + std::to_string(i)); if (p.first->getType()->isPointerTy()) ptrs.insert(f); N.env[p.first] = f; }
    }
    for (auto &c : S.mem) {
      long k; if (S.cc.count(c.first)) continue; if (S.rc.count(c.first)) continue;
      if (T.t[c.first.first].k == KArg && T.isC(c.second.second, k)) { N.mem[c.first] = c.second; continue; }
      N.smudged.insert(c.first.first); N.ver[c.first.first] = T.mk(KFresh, "tv" + tag + "." + std::to_string(c.first.first), {}, 64, true);
    }
    for (auto &c : S.cc) { N.cc.insert(c); N.mem[c] = {8, N.base}; } for (auto &c : S.rc) { N.rc.insert(c); N.mem[c] = {8, N.rem}; }
    N.table.insert(to); if (!visited.insert(vk + (S.lost ? "L" : "")).second) return false;
    S = std::move(N); return true;
  }
  std::string kindOf(int tn) { return tn < (int)fields.size() ? kinds[fields[tn]] : "?"; }
  void complete(int r, const std::string &of, const Instruction *at) { ob["complete"]++; if (r > 1) bad("letters", cur() + ": a capital letter of " + of + " may be left as it is", at); else if (r <= 0) und.insert(cur() + ": whether every octet of " + of + " is looked at"); }
  // indices of the octets that were put in lower case, or seen not to be capital letters
  std::function<std::set<int>(const Facts &)> seenLower() {
    return [this](const Facts &fs) {
      std::set<int> out, xs; for (auto &f : fs) { auto &t = T.t[f.first]; if (t.k == KOp && t.op == "done" && f.second) out.insert(t.a[0]); collect(f.first, xs); }
      for (int x : xs) { bool letter = false; for (int v = 'A'; v <= 'Z'; v++) if (possible(fs, x, v)) letter = true; if (!letter) out.insert(octet[x].second); }
      return out;
    };
  }
  void collect(int t0, std::set<int> &xs) { std::vector<int> w{t0}; std::set<int> sn; while (!w.empty()) { int y = w.back(); w.pop_back(); if (!sn.insert(y).second) continue; auto oc = octet.find(y); if (oc != octet.end() && data.count(oc->second.first)) { xs.insert(y); continue; } auto &t = T.t[y]; if (t.k == KLin) for (size_t i = 1; i + 1 < t.a.size(); i += 2) w.push_back(t.a[i]); else if (t.k == KOp) for (long z : t.a) w.push_back(z); } }
  bool possible(const Facts &fs, int x, int v) { long r; for (auto &f : fs) if (mentions(f.first, {x}) && eval(f.first, {{x, v}}, r) && (r != 0) != f.second) return false; return true; }
  // ---- stores into the octets
  bool inRange(St &S, int o, int n) {
    int D = T.add(o, n, -1); long d0; if (T.isC(D, d0)) return d0 < 0; auto dl = T.lin(D);
    { bool neg = dl.second < 0; for (auto &q : dl.first) { bool k = false; for (auto &h : heads) if (h.second.k == q.first) k = true; if (!k || q.second > 0) neg = false; } if (neg) return true; }
    for (auto &f : S.facts) { auto &t = T.t[f.first]; if (t.k != KOp || t.a.size() != 2 || (t.op != "EQ" && t.op != "ULT" && t.op != "SLT")) continue; int df = T.add(t.a[0], t.a[1], -1); auto l = T.lin(df); auto v = *dl.first.begin(); auto ck = l.first.find(v.first); if (ck == l.first.end() || ck->second % v.second) continue; long c = ck->second / v.second; if (!T.isC(T.add(df, D, -c), d0)) continue;
      if (t.op == "EQ") { if (!f.second && d0 == 0) return true; } else if (f.second ? c == 1 && d0 >= 0 : c == -1 && d0 <= -1) return true; }
    return false;
  }
  void stored(St &S, int addr, int n, int v, const Instruction *I) {
    if (who != DOWN && who != NAME) return; int b, o; if (!split(addr, b, o)) { und.insert(cur() + ": where a store goes"); return; }
    if (blocks.count(b)) return; ob["store"]++;
    long neg; if (!data.count(b) || (T.isC(o, neg) && neg < 0)) { bad("letters", cur() + ": something other than the octets of a name is changed", I); return; }
    if (n != 1 || v < 0) { if (n > 0) bad("letters", cur() + ": " + std::to_string(n) + " octets are changed at once", I); else und.insert(cur() + ": what is copied over the octets"); return; }
    int x = load(S, addr, 1, false); std::set<int> xs; for (int q = 0; q < 256; q++) { if (!possible(S.facts, x, q)) continue; long r; if (!eval(v, {{x, q}}, r)) { und.insert(cur() + ": what is stored"); break; } r &= 255; if (r != q && !(q >= 'A' && q <= 'Z' && r == q + 32)) { bad("letters", cur() + ": an octet " + std::to_string(q) + " may become " + std::to_string(r), I); break; } }
    bool low = true; for (int q = 'A'; q <= 'Z'; q++) { long r; if (possible(S.facts, x, q) && !(eval(v, {{x, q}}, r) && (r & 255) == q + 32)) low = false; } if (low) S.facts[T.op("done", {o}, 1)] = true;
    if (who == DOWN) {
      int tn = S.turnNo.empty() ? 0 : S.turnNo.begin()->second;
      if (!isName(tn)) { bad("letters", cur() + ": octets of a field that is not a name are changed (" + kindOf(tn) + ")", I); return; }
      static const std::set<int> canon{2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 17, 18, 21, 24, 26, 30, 33, 35, 36, 38, 39, 46};
      if (!canon.count(type)) bad("letters", cur() + ": the names of this record type are not case-insensitive in the canonical form (RFC 4034 6.2, RFC 6840 5.1)", I);
      if (b != S.base) { und.insert(cur() + ": which field a store changes"); return; }
    }
    ob["range"]++; if (U < 0 || !inRange(S, o, U)) und.insert(cur() + ": whether a store stays inside the name");
  }
  bool hooks(St &S, CallInst *C, const std::string &n, int &r) {
    auto A = [&](unsigned i) { return val(S, C->getArgOperand(i)); };
    auto rel = [&](int a) { int b, o; return split(a, b, o) && b == S.base ? o : -1; };
    auto set = [&](int p, int v) { store(S, p, 8, v); };
    if (n == "ubuf_append") { S.out = T.add(S.out, A(2)); if (who == PARSE) { int o = rel(A(1)); if (o >= 0 && T.t[A(2)].k != KOp) { int was = T.add(S.out, A(2), -1); ob["copied-from"]++; if (!T.t[was].unk && !T.t[o].unk && o != was) { std::set<int> d; bad("layout", cur() + ": octets are not copied from where the field continues", C); } } } r = 0; return true; }
    if (n == "ubuf_add") { S.out = T.add(S.out, T.cst(1)); r = 0; return true; }
    if (n.compare(0, 5, "ubuf_") == 0 && n != "ubuf_new" && n != "ubuf_init" && n != "ubuf_destroy" && n != "ubuf_cstr" && n != "ubuf_cterm" && n != "ubuf_size" && n != "ubuf_data" && n != "ubuf_bytes" && n != "ubuf_value") { S.out = freshNew(64); return false; }
    if (n == "wdns_len_uname") { int o = rel(A(0)); int v = o >= 0 ? T.op("uname", {o}, 64) : freshNew(64); set(A(2), v); S.facts[cmp(CmpInst::ICMP_EQ, v, T.cst(0), 64).first] = false; /* a name has at least one octet; on failure there is none */ r = fresh(32, "len" + std::to_string((long)C)); r = freshNew(32); if (o >= 0) { long c; if (T.isC(o, c) && c == 0) U = v; } return true; }
    if (n == "wdns_unpack_name") { int o = rel(A(2)); kill(S, A(3)); set(A(4), o >= 0 ? T.op("uname", {o}, 64) : freshNew(64)); r = freshNew(32); return true; }
    if (n == "wdns_copy_uname") { int o = rel(A(2)); kill(S, A(3)); set(A(4), o >= 0 ? T.op("uname", {o}, 64) : freshNew(64)); r = freshNew(32); return true; }
    if (n == "wdns_skip_name") { int p = load(S, A(0), 8, true), o = rel(p); int w = o >= 0 ? T.op("wname", {o}, 64) : freshNew(64); set(A(0), T.add(p, w)); r = w; return true; }
    if (who == TEXT && n.compare(0, 5, "ubuf_") && C->getCalledFunction() && !C->getCalledFunction()->isIntrinsic()) for (unsigned i = 0; i < C->arg_size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy() && A(i) == arg("u")) S.out = freshNew(64);
    if (who == RENDER && (n == "rdata_to_str_string" || n == "rdata_to_str_string_unquoted")) { r = A(1); return true; } // the number of octets it was given
    return false;
  }
  void enter(St &S, const BasicBlock *to, std::vector<std::pair<const PHINode *, int>> &ph) {
    S.cp.clear(); S.rp.clear(); S.cc.clear(); S.rc.clear(); if (S.base < 0) return;
    for (auto &p : ph) { if (p.second == S.base) S.cp.insert(p.first); else if (p.second == S.rem) S.rp.insert(p.first); }
    for (auto &c : S.mem) if (blocks.count(c.first.first)) { if (c.second.second == S.base && c.second.first == 8) S.cc.insert(c.first); else if (c.second.second == S.rem) S.rc.insert(c.first); }
  }
  // the first turn of a loop inside a field: how far it moves
  void inner(St &S, const BasicBlock *to, std::vector<std::pair<const PHINode *, int>> &ph) {
    if (S.base < 0 || S.table.empty()) return; int tn = S.turnNo.empty() ? 0 : S.turnNo.begin()->second; if ((int)turns.size() <= tn) turns.resize(tn + 1); auto &tr = turns[tn]; tr.base = S.base;
    auto see = [&](int a, int v) { int b, o; long c; if (a == S.base && split(v, b, o) && b == S.base && !(T.isC(o, c) && c == 0)) tr.seq.insert({o, S.facts}); };
    for (auto &p : ph) { auto it = S.env.find(p.first); if (it != S.env.end()) see(it->second, p.second); }
    auto st = S.start.find(to); if (st != S.start.end()) for (auto &c : st->second) { auto it = S.mem.find(c.first); if (it != S.mem.end()) see(c.second, it->second.second); }
  }
  void leaves(int t0, int base, std::map<int, std::pair<long, int>> &ls, bool &ok) { // what a term reads at the start of the field
    auto &t = T.t[t0]; if (t.k == KConst) return; if (t.k == KLin) { for (size_t i = 1; i + 1 < t.a.size(); i += 2) leaves(t.a[i], base, ls, ok); return; }
    if (t.k == KOp) { for (long z : t.a) leaves(z, base, ls, ok); return; }
    int b, o; long c; if (t.k == KLoad && t.a[1] <= 4 && split(t.a[0], b, o) && b == base && T.isC(o, c) && c >= 0 && c < 8) ls[t0] = {c, (int)t.a[1]}; else ok = false;
  }
  // the amounts an element may take, for many contents: -1: not known, 1: the same terms, 0: different for some content, 2: no difference found
  typedef std::set<std::pair<int, Facts>> Seq;
  int sameAmount(const Seq &P, const Seq &Q, int base, std::string &how) {
    std::set<int> tp, tq; std::map<int, std::pair<long, int>> ls; bool ok = true; for (auto &x : P) { tp.insert(x.first); leaves(x.first, base, ls, ok); } for (auto &x : Q) { tq.insert(x.first); leaves(x.first, base, ls, ok); }
    if (tp == tq && tp.size() == 1) return 1; if (!ok) return -1;
    std::map<int, std::pair<bool, std::map<int, std::pair<long, int>>>> fl; for (auto *Z : {&P, &Q}) for (auto &x : *Z) for (auto &f : x.second) if (!fl.count(f.first)) { auto &e = fl[f.first]; e.first = true; leaves(f.first, base, e.second, e.first); }
    unsigned long x = 88172645463325252ul;
    for (int i = 0; i < 3000; i++) {
      unsigned char oc[12]; for (int j = 0; j < 12; j++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; oc[j] = i % 3 == 0 ? x >> 20 : i % 3 == 1 ? (x >> 20) % 34 : (x >> 20) % 3; }
      auto at = [&](const std::map<int, std::pair<long, int>> &m) { std::map<int, long> as; for (auto &l : m) { long v = 0; for (int j = l.second.second; j-- > 0;) v = v << 8 | oc[l.second.first + j]; as[l.first] = v; } return as; };
      auto as = at(ls); bool kn = true; auto amounts = [&](const Seq &Z) { std::set<long> r; for (auto &e : Z) { bool fits = true; long q; for (auto &f : e.second) { auto &l = fl[f.first]; if (l.first && !l.second.empty() && eval(f.first, at(l.second), q) && (q != 0) != f.second) { fits = false; break; } } if (!fits) continue; if (!eval(e.first, as, q)) kn = false; else r.insert(q); } return r; };
      auto a = amounts(P), b = amounts(Q); if (!kn) return -1; if (a.empty() || b.empty()) continue; bool meet = false; for (long q : a) if (b.count(q)) meet = true;
      if (!meet) { how = std::to_string(*b.begin()) + " octets where " + whoName[PARSE] + " takes " + std::to_string(*a.begin()) + " (element starting " + std::to_string(oc[0]) + " " + std::to_string(oc[1]) + " " + std::to_string(oc[2]) + " " + std::to_string(oc[3]) + ")"; return 0; }
    }
    return 2;
  }
  bool follow(Who w, int ty, long cls, bool turnless = false) {
    who = w; type = ty; auto *F = M.getFunction(whoName[w]); if (!F || F->isDeclaration()) return false;
    turns.clear(); visited.clear(); data.clear(); stable.clear(); U = -1; fields.clear();
    if (ty >= 0 && ty < rows) for (int i = 0; i < nTypes; i++) { long k = getRow(ty, offTypes + i, 1); if (k == kEnd) break; fields.push_back(k); }
    turn = [&](St &S, const BasicBlock *to, std::vector<std::pair<const PHINode *, int>> &ph) { return endTurn(S, to, ph); };
    onEnter = [&](St &S, const BasicBlock *to, std::vector<std::pair<const PHINode *, int>> &ph) { enter(S, to, ph); };
    onStore = [&](St &S, int a, int n, int v, const Instruction *I) { stored(S, a, n, v, I); };
    onBack = [&](St &S, const BasicBlock *to, std::vector<std::pair<const PHINode *, int>> &ph) { inner(S, to, ph); };
    Hook h = [&](St &S, CallInst *C, const std::string &n, int &r) { return hooks(S, C, n, r); };
    St S0; std::vector<int> av; int d = arg("data"), len = T.mk(KArg, "rdlen", {}, 16); S0.base = -1;
    if (w == PARSE) { int rr = arg("rr"); av = {rr, arg("p"), arg("eop"), d, len}; S0.mem[{rr, T.cst(rType)}] = {2, T.cst(ty)}; S0.mem[{rr, T.cst(rClass)}] = {2, T.cst(cls)}; S0.base = d; S0.rem = len; }
    if (w == RENDER) { av = {arg("u"), d, len, T.cst(ty), T.cst(cls)}; S0.base = d; S0.rem = len; }
    if (w == DOWN) { av = {T.add(d, T.cst(-dData)), T.cst(ty), T.cst(cls)}; S0.base = d; S0.rem = initial(S0, d, T.cst(dLen - dData), 2, false); }
    if (w == TEXT) av = {arg("u"), arg("str"), T.cst(ty), T.cst(cls)};
    if (S0.base >= 0) { data.insert(d); if (w != DOWN) stable.insert(d); }
    bool whole = w == PARSE && turnless; startS(*F, S0, av, h, !whole ? Ret() : Ret([&](St &S, int v, const Instruction *at) { // data without a layout are kept as they are
      long c; if (T.isC(v, c) && c != 0) return; ob["generic"]++; if (!turns.empty()) return; if (T.t[S.out].unk || T.t[S.out].k == KFresh) { und.insert(cur() + ": what is stored"); return; }
      if (S.out != S0.rem) { long z; auto q = S.facts.find(cmp(CmpInst::ICMP_EQ, S0.rem, T.cst(0), 16).first); if (q != S.facts.end() && q->second && T.isC(S.out, z) && z == 0) return; bad("layout", cur() + ": data that have no layout are not kept as they are", at); }
    }));
    // judged once every way round the loops over the octets is known
    for (auto &l : later) complete(scan(std::get<0>(l), std::get<1>(l), seenLower()), "an embedded name", std::get<2>(l)); later.clear();
    if (over) for (auto &t : turns) for (int v = 0; v < 256; v++) t.at[v].insert("?");
    return true;
  }
  void startS(Function &F, St S, std::vector<int> args, Hook h, Ret ret = nullptr) {
    heads.clear(); over = false; unkCall = false; DT = std::make_unique<DominatorTree>(F); LI = std::make_unique<LoopInfo>(*DT); hook = h; onRet = ret ? ret : [](St &, int, const Instruction *) {};
    unsigned i = 0; for (auto &a : F.args()) if (i < args.size()) S.env[&a] = args[i++]; exec(std::move(S), F.getEntryBlock().begin(), 0);
  }

  // ---- a name on its own
  void name() {
    who = NAME; type = -1; auto *F = M.getFunction(whoName[NAME]); turns.clear(); data.clear(); stable.clear(); turn = nullptr; onEnter = nullptr; onBack = nullptr;
    int nm = arg("name"), d = init(nm, nData, 8); U = init(nm, nLen, 1); data.insert(d);
    onStore = [&](St &S, int a, int n, int v, const Instruction *I) { stored(S, a, n, v, I); };
    std::vector<std::pair<St, const Instruction *>> rets; startS(*F, St(), {nm}, [](St &, CallInst *, const std::string &, int &) { return false; }, [&](St &S, int, const Instruction *at) { rets.push_back({S, at}); });
    for (auto &x : rets) { auto q = cmp(CmpInst::ICMP_EQ, U, T.cst(0), 8); auto it = x.first.facts.find(q.first); if (it != x.first.facts.end() && it->second != q.second) continue; if (x.first.lost) und.insert(cur() + ": the state at return"); complete(scan(x.first, U, seenLower()), "a name", x.second); }
  }
  // ---- an RRset: its name and every data it has
  void rrset() {
    who = RRSET; type = -1; auto *F = M.getFunction(whoName[RRSET]); turns.clear(); data.clear(); stable.clear(); turn = nullptr; onEnter = nullptr; onBack = nullptr;
    int rs = arg("rrset"), n = init(rs, sN, 2), rds = init(rs, sRd, 8), ty = init(rs, sType, 2), cl = init(rs, sClass, 2);
    onStore = [&](St &, int a, int, int, const Instruction *I) { int b, o; ob["store"]++; if (!split(a, b, o)) und.insert("where a store goes"); else if (!blocks.count(b)) bad("letters", std::string(whoName[RRSET]) + ": something other than the octets of a name is changed", I); };
    std::vector<std::tuple<St, int, const Instruction *>> rets;
    auto elem = [&](int p, int &ix) { auto l = T.lin(T.add(p, rds, -1)); bool ok = l.second % 8 == 0; l.second /= 8; for (auto &q : l.first) { if (q.second % 8) ok = false; q.second /= 8; } ix = ok ? T.of(l) : -1; return ok; };
    startS(*F, St(), {rs}, [&](St &S, CallInst *C, const std::string &nm, int &r) {
      auto A = [&](unsigned i) { return val(S, C->getArgOperand(i)); };
      if (nm == "wdns_downcase_name") { if (A(0) == T.add(rs, T.cst(sName))) S.facts[T.op("named", {rs}, 1)] = true; else und.insert("which name is put in lower case"); r = 0; return true; }
      if (nm != "wdns_downcase_rdata") return false;
      int p = A(0), ix; ob["data"]++; auto &t = T.t[p];
      if (t.k != KLoad || t.a[1] != 8 || !elem(t.a[0], ix)) { und.insert("which data are put in lower case"); r = freshNew(32); return true; }
      if (want(A(1), ty) == 0 || want(A(2), cl) == 0) bad("letters", std::string(whoName[RRSET]) + ": record data are put in lower case as of another type or class", C);
      r = T.mk(KFresh, "res" + std::to_string((long)C) + "." + std::to_string(ix), {}, 32, true); int done = T.op("done", {ix}, 1); S.facts[done] = true; last = r; return true;
    }, [&](St &S, int v, const Instruction *at) { rets.push_back({S, v, at}); });
    auto seen = [&](const Facts &fs) { std::set<int> out; for (auto &f : fs) { auto &t = T.t[f.first]; if (t.k != KOp) continue; int ix; if (t.op == "done" && f.second) out.insert(t.a[0]); if (t.op == "EQ" && f.second) for (int q = 0; q < 2; q++) { long z; auto &u = T.t[t.a[q]]; if (T.isC(t.a[1 - q], z) && z == 0 && u.k == KLoad && u.a[1] == 8 && elem(u.a[0], ix)) out.insert(ix); } } return out; };
    for (auto &x : rets) {
      auto &S = std::get<0>(x); int v = std::get<1>(x); long c; ob["return"]++;
      if (!T.isC(v, c)) { auto q = cmp(CmpInst::ICMP_EQ, v, T.cst(0), 32); auto it = S.facts.find(q.first); if (it != S.facts.end() && it->second == q.second) continue; und.insert("the result"); continue; }
      if (c != 0) continue;
      if (!S.facts.count(T.op("named", {rs}, 1))) bad("letters", std::string(whoName[RRSET]) + ": the owner name is not put in lower case", std::get<2>(x));
      auto q = cmp(CmpInst::ICMP_EQ, n, T.cst(0), 16); auto it = S.facts.find(q.first); if (it != S.facts.end() && it->second != q.second) continue;
      int r = scan(S, n, seen); if (r > 1) bad("letters", std::string(whoName[RRSET]) + ": data of the RRset may be left out", std::get<2>(x)); else if (r <= 0) und.insert("whether all data of an RRset are put in lower case");
    }
  }
  int last = -1; std::vector<std::tuple<St, int, const Instruction *>> later;
  // ---- the siblings agree
  typedef std::vector<Turn> Plan;
  static bool known(const std::set<std::string> &s) { return !s.empty() && !s.count("?"); }
  static std::string join(const std::set<std::string> &s) { std::string r; for (auto &x : s) r += (r.empty() ? "" : " or ") + x; return r; }
  void agree(const Plan &p, const Plan &o, Who w) {
    for (size_t t = 0; t < std::min(p.size(), o.size()); t++) {
      bool dec = true; std::string diff;
      for (int v = 0; v < 256; v++) {
        auto a = p[t].at.find(v), b = o[t].at.find(v); if (a == p[t].at.end() || b == o[t].at.end()) continue;
        if (!known(a->second) || !known(b->second)) { dec = false; continue; }
        if (a->second != b->second && diff.empty()) { bool fixed = true; for (auto &q : p[t].at) if (q.second != p[t].at.begin()->second) fixed = false; diff = join(b->second) + " where " + whoName[PARSE] + " takes " + join(a->second) + (fixed ? "" : " (first octet " + std::to_string(v) + ")"); }
      }
      if (w == RENDER && p[t].base == o[t].base && !p[t].seq.empty() && !o[t].seq.empty()) { std::string how; int r = sameAmount(p[t].seq, o[t].seq, p[t].base, how); ob[r == 1 ? "element" : "variable"]++; if (!r) bad("layout", std::string(whoName[w]) + " (record type " + std::to_string(type) + "), field " + std::to_string(t + 1) + " (" + kindOf(t) + "): an element takes " + how, o[t].loc); else if (r < 0) und.insert("elements of " + kindOf(t)); }
      if (w == TEXT) { // only fields of a fixed size can be compared
        std::set<std::string> ps, ts; for (auto &q : p[t].at) ps.insert(q.second.begin(), q.second.end()); for (auto &q : o[t].at) ts.insert(q.second.begin(), q.second.end());
        auto oct = [](const std::set<std::string> &s) { for (auto &x : s) if (x.find("octet") == std::string::npos) return false; return true; };
        ts.erase("0 octets"); // text that has no value to write is a path that cannot be taken
        if (ts.empty() && !ps.count("0 octets")) { bad("layout", std::string(whoName[w]) + " (record type " + std::to_string(type) + "), field " + std::to_string(t + 1) + " (" + kindOf(t) + "): nothing is written", o[t].loc); continue; }
        if (!oct(ps) || !oct(ts) || ps.size() != 1) { ob["variable"]++; continue; } diff = ps == ts ? "" : (ts.empty() ? "nothing" : join(ts)) + " where " + whoName[PARSE] + " takes " + join(ps); dec = true;
      }
      if (!dec && w != TEXT) { bool pk = true; for (auto &q : p[t].at) if (!known(q.second) || q.second.count("the rest")) pk = false; if (pk) und.insert(std::string(whoName[w]) + " (record type " + std::to_string(type) + "), field " + std::to_string(t + 1)); }
      ob[dec ? "field" : "variable"]++;
      if (!diff.empty()) bad("layout", std::string(whoName[w]) + " (record type " + std::to_string(type) + "), field " + std::to_string(t + 1) + " (" + kindOf(t) + "): " + (w == TEXT ? "writes " : "takes ") + diff, o[t].loc);
    }
  }
};
}
static std::vector<long> classes(long c, bool all) {
  if (all) { std::vector<long> r; for (long k = 0; k < 65536; k++) r.push_back(k); return r; }
  std::set<long> r{0, 1, 2, 3, 4, 5, 127, 128, 253, 254, 255, 256, 257, 0x7fff, 0x8000, 0x8001, 0xff01, 0xfffe, 0xffff}; r.insert(c); return {r.begin(), r.end()};
}
int cmdLayout(Module &M, const std::vector<std::string> &args) {
  bool deep = std::find(args.begin(), args.end(), "deep") != args.end();
  prepModule(M, [](Function &F) { return hasContract(F) || F.getName().starts_with("ubuf_"); });
  Lay R(M); json::Array miss; bool dump = getenv("LAYOUT_DUMP");
  if (!R.tab || !R.rows || R.kUnknown < 0 || R.kEnd < 0 || !R.nTypes) { emit(json::Object{{"kind", "end"}, {"missing", json::Array{"record_descr_array"}}}); return 0; }
  for (auto n : whoName) { auto *F = M.getFunction(n); if (!F || F->isDeclaration()) miss.push_back(std::string(n)); }
  long steps = 0; auto flush = [&](const char *fn) {
    for (auto &v : R.viol) { json::Object o = *v.getAsObject(); o["kind"] = "violation"; o["function"] = fn; emit(std::move(o)); }
    json::Object s; s["kind"] = "summary"; s["function"] = fn; s["steps"] = steps; json::Object ob; for (auto &p : R.ob) ob[p.first] = p.second; s["obligations"] = std::move(ob); json::Array u; for (auto &x : R.und) u.push_back(x); s["undecided"] = std::move(u); emit(std::move(s));
    R.viol = json::Array(); R.seen.clear(); R.und.clear(); R.ob.clear(); steps = 0;
  };
  if (miss.empty()) {
    R.name(); steps = R.steps; flush(whoName[NAME]); R.steps = 0; R.rrset(); steps = R.steps; flush(whoName[RRSET]);
    std::map<int, Lay::Plan> plans[4]; std::vector<int> sup; for (int t = 0; t < R.rows; t++) if (R.getRow(t, R.offTypes, 1) != R.kUnknown) sup.push_back(t);
    for (int w = 0; w < 4; w++) {
      for (int t : sup) { long c = R.getRow(t, R.offClass, 2); R.steps = 0; R.follow((Who)w, t, c ? c : 1); steps += R.steps; plans[w][t] = R.turns; if (w == DOWN) R.ob["type"]++;
        if (dump) { errs() << whoName[w] << " " << t << ":"; for (auto &tr : R.turns) { std::set<std::string> s; for (auto &q : tr.at) s.insert(q.second.begin(), q.second.end()); errs() << " {"; int k = 0; for (auto &x : s) if (k++ < 4) errs() << x << "; "; for (auto &x : tr.seq) errs() << " each " << R.T.str(x.first); errs() << "}"; } errs() << "\n"; }
        if (w) { R.fields.clear(); for (int i = 0; i < R.nTypes; i++) { long k = R.getRow(t, R.offTypes + i, 1); if (k == R.kEnd) break; R.fields.push_back(k); } R.agree(plans[0][t], plans[w][t], (Who)w); } }
      // the classes a layout is used for
      for (int t : sup) {
        long c = R.getRow(t, R.offClass, 2); auto *F = M.getFunction(whoName[w]); R.type = t; R.who = (Who)w;
        for (long k : classes(c, deep && t == *std::find_if(sup.begin(), sup.end(), [&](int q) { return R.getRow(q, R.offClass, 2) != 0; }))) {
          if (k == (c ? c : 1)) continue; if (w == TEXT && c == 0 && t % 8) continue;
          R.steps = 0; R.follow((Who)w, t, k, c != 0); steps += R.steps; R.ob["class"]++; auto at = [](const Lay::Plan &p) { std::vector<std::map<int, std::set<std::string>>> r; for (auto &q : p) r.push_back(q.at); return r; };
          if (R.over) R.und.insert(R.cur() + ", class " + std::to_string(k)); else if (c && !R.turns.empty()) R.bad("layout", R.cur() + ": the layout of class " + std::to_string(c) + " is used for class " + std::to_string(k), R.turns[0].loc ? R.turns[0].loc : F->getEntryBlock().getTerminator());
          else if (!c && at(R.turns) != at(plans[w][t])) R.bad("layout", R.cur() + ": class " + std::to_string(k) + " has another layout than class 1", F->getEntryBlock().getTerminator());
        }
        if ((w == PARSE || w == RENDER) && plans[w][t].empty()) R.bad("layout", R.cur() + ": the layout is not used for class " + std::to_string(c ? c : 1), F->getEntryBlock().getTerminator());
      }
      // record types without a description
      if (w == DOWN || w == PARSE) for (int t = 0; t < 65536; t++) if (t >= R.rows || R.getRow(t, R.offTypes, 1) == R.kUnknown) { R.steps = 0; R.follow((Who)w, t, 1, true); steps += R.steps; R.ob["type"]++; }
      flush(whoName[w]);
    }
  }
  json::Object e; e["kind"] = "end"; e["missing"] = std::move(miss); emit(std::move(e));
  return 0;
}
