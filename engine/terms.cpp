// What a record insertion stores where, under which comparisons, in terms of the values at entry.
#include "terms.h"
using namespace terms;
namespace {
struct Rec : Run {
  using Run::Run;
  bool lower(St &S, CallInst *C, const std::string &n, int &r) { if (n != "wdns_downcase_name") return false; int p = val(S, C->getArgOperand(0)), d = load(S, T.add(p, T.cst(nData)), 8, true), l = load(S, T.add(p, T.cst(nLen)), 1, false); int c = contOf(S, d); int b, o; if (!split(d, b, o)) S.lost = 1; else S.cont[d] = T.op("lower", {c, l}, 64); r = 0; return true; }
  // ---- wdns_compare_rr_rrset
  void compare(Function &F) {
    int rr = arg("rr"), rs = arg("rrset");
    auto eq = [&](long a, long b, int n) { int x = init(rr, a, n), y = init(rs, b, n); return T.op("EQ", {std::min(x, y), std::max(x, y)}, 1); };
    int len = eq(rName + nLen, sName + nLen, 1), ty = eq(rType, sType, 2), cl = eq(rClass, sClass, 2);
    int lr = init(rr, rName + nLen, 1), ls = init(rs, sName + nLen, 1), dr = init(rr, rName + nData, 8), ds = init(rs, sName + nData, 8);
    Hook h = [&](St &S, CallInst *C, const std::string &n, int &r) {
      return lower(S, C, n, r);
    };
    // what the octets are: 1 name of rr, 2 of rrset; +4 lower case; 0 something else known, -1 unknown
    std::function<int(int)> who = [&](int c) -> int {
      auto &t = T.t[c]; if (t.unk) return -1; if (t.k != KOp) return 0;
      if (t.op == "octets") return t.a[0] == dr ? 1 : t.a[0] == ds ? 2 : 0;
      if (t.op == "copy") return t.a[1] == lr || t.a[1] == ls ? who(t.a[0]) : 0;
      if (t.op == "lower") { int q = who(t.a[0]); return q <= 0 ? q : t.a[1] == lr || t.a[1] == ls ? (q | 4) : 0; }
      return 0;
    };
    start(F, {rr, rs}, h, [&](St &S, int v, const Instruction *at) {
      ob["compare-return"]++; dumpSt(S); long k; if (!T.isC(v, k)) { und.insert("result of the comparison"); return; }
      auto fact = [&](int t) { auto it = S.facts.find(t); return it == S.facts.end() ? -1 : (int)it->second; };
      int nameEq = -1; bool unkCmp = S.lost, strc = false; std::string why;
      for (auto &f : S.facts) {
        auto &t = T.t[f.first]; if (t.k != KOp) { if (t.unk) unkCmp = true; continue; }
        if (t.unk) unkCmp = true;
        for (long x : t.a) if (T.t[x].k == KOp && T.t[x].op == "strcmp") strc = true;
        if (t.op == "EQ" || t.op == "TRUE") for (long x : t.a) if (T.t[x].k == KOp && T.t[x].op == "memcmp") {
          auto &m = T.t[x]; long z; bool zero = false; for (long y : t.a) if (T.isC(y, z) && z == 0) zero = true; if (!zero) continue;
          int a = who(m.a[0]), b = who(m.a[1]); if (a < 0 || b < 0 || T.t[m.a[2]].unk) { unkCmp = true; continue; }
          bool whole = m.a[2] == lr || m.a[2] == ls; bool both = ((a & 3) == 1 && (b & 3) == 2) || ((a & 3) == 2 && (b & 3) == 1);
          if (!both) { why = "octets other than the two names are compared"; continue; } if (!whole) { why = "not the whole names are compared"; continue; }
          if (f.second && (a & 4) == (b & 4)) nameEq = 1; else if (!f.second && (a & 4) && (b & 4)) nameEq = 0; else why = "the names are not both compared in lower case";
        }
      }
      auto pairs = octetPairs(S.facts, dr, ds); bool wrong = false;
      if (!k && nameEq < 0) for (auto &q : pairs) { int r = octetsAt(S.facts, q[1], q[2]); if (r == 2) nameEq = 0; }
      for (auto &q : pairs) if (!octetsAt(S.facts, q[1], q[2])) return; // no such octets
      if (!k && nameEq < 0 && !pairs.empty()) why = "octets that are equal in lower case are found to differ";
      if (k && nameEq < 0) {
        bool loose = false;
        auto seen = [&](const Facts &fs) { std::set<int> out; for (auto &q : octetPairs(fs, dr, ds)) { if (octetsAt(fs, q[1], q[2]) & 2) { loose = true; continue; } out.insert(q[0]); } return out; };
        int r = scan(S, lr, seen); if (fact(len) == 1 && r != 1) { int r2 = scan(S, ls, seen); r = r2 == 1 ? 1 : std::max(r, r2); }
        if (r > 1 || loose) wrong = true;
        if (r == 1) nameEq = 1; else if (r > 1 || loose) why = r == 2 || loose ? "octets that differ in lower case are let pass" : "not all octets are compared"; else if (r < 0) unkCmp = true;
        auto z = cmp(CmpInst::ICMP_EQ, lr, T.cst(0), 8); auto z2 = cmp(CmpInst::ICMP_EQ, ls, T.cst(0), 8); for (auto &q : {z, z2}) { auto it = S.facts.find(q.first); if (it != S.facts.end() && it->second != q.second) nameEq = 1; }
      }
      if (strc) why = "the names are compared as strings, which end at the first zero octet";
      if (k) {
        claim("compare", "a record may match an RRset of another type", fact(ty) == 1 ? 1 : unkCmp ? -1 : 0, at);
        claim("compare", "a record may match an RRset of another class", fact(cl) == 1 ? 1 : unkCmp ? -1 : 0, at);
        claim("compare", "a record may match an RRset whose owner name has another length", fact(len) == 1 ? 1 : unkCmp ? -1 : 0, at);
        claim("compare", "a record may match an RRset with another owner name" + (why.empty() ? "" : ": " + why), nameEq == 1 ? 1 : wrong ? 0 : unkCmp ? -1 : 0, at);
      } else claim("compare", "a record may fail to match an RRset of the same name, type and class" + (why.empty() ? "" : ": " + why), fact(ty) == 0 || fact(cl) == 0 || fact(len) == 0 || nameEq == 0 ? 1 : unkCmp ? -1 : 0, at);
    });
  }
  // ---- _wdns_insert_rr_rrset_array
  void insert(Function &F) {
    for (int sec = 0; sec < 4; sec++) {
      int a = arg("a"), rr = arg("rr"); int rrs = init(a, aRr, 8), rss = init(a, aRs, 8), nrr = init(a, aNrr, 2), nrs = init(a, aNrs, 2), rd = init(rr, rRd, 8), nm = init(rr, rName + nData, 8), nl = init(rr, rName + nLen, 1), ttl = init(rr, rTtl, 4), ty = init(rr, rType, 2), cl = init(rr, rClass, 2), rl = T.mk(KLoad, "", {T.add(rd, T.cst(dLen)), 2}, 16);
      std::map<const BasicBlock *, std::set<int>> cmpIdx;
      Hook h = [&](St &S, CallInst *C, const std::string &n, int &r) {
        if (n == "wdns_compare_rr_rrset") {
          int p = val(S, C->getArgOperand(0)), q = val(S, C->getArgOperand(1)); ob["compare-call"]++;
          r = T.op("TRUE", {T.op("compare", {p, q}, 1)}, 1);
          // the record compared is still the one given
          if (p == rr) { bool same = load(S, T.add(rr, T.cst(rType)), 2, false) == ty && load(S, T.add(rr, T.cst(rClass)), 2, false) == cl && load(S, T.add(rr, T.cst(rName + nLen)), 1, false) == nl && load(S, T.add(rr, T.cst(rName + nData)), 8, true) == nm; if (!same) { bool u = S.lost; if (u) und.insert("what is compared"); else bad("group", "the record is changed before it is compared", C); } }
          return true;
        }
        if (n == "wdns_clear_rr") { r = 0; return true; } // frees what is left in the record; checked for ownership under C06
        return lower(S, C, n, r);
      };
      start(F, {a, rr, T.cst(sec)}, h, [&](St &S, int v, const Instruction *at) {
        long c; if (T.isC(v, c) && c != 0) return; ob["insert-return"]++; dumpSt(S);
        if (S.lost) { und.insert("the state at return"); return; }
        auto L = [&](int b, long o, int n) { return load(S, T.add(b, T.cst(o)), n, n == 8); };
        auto idx = [&](int b, int i, long sz) { return T.add(b, T.scale(i, sz)); };
        // is this a copy of the record data / of the name?
        auto rdLike = [&](int x) { if (x == rd) return 1; if (T.t[x].unk) return -1; if (!blocks.count(x)) return 0; int l = L(x, dLen, 2); int q = want(l, rl); int ct = contOf(S, T.add(x, T.cst(dData))), ex = T.op("copy", {T.op("octets", {T.add(rd, T.cst(dData))}, 64), rl}, 64); int z = want(ct, ex); return q == 0 || z == 0 ? 0 : q < 0 || z < 0 ? -1 : 1; };
        auto nmLike = [&](int x) { if (x == nm) return 1; if (T.t[x].unk) return -1; if (!blocks.count(x)) return 0; return want(contOf(S, x), T.op("copy", {T.op("octets", {nm}, 64), nl}, 64)); };
        std::string in = sec ? "" : " (question)";
        claim("record", "the number of records does not grow by one" + in, want(L(a, aNrr, 2), T.add(nrr, T.cst(1))), at);
        int R = L(a, aRr, 8), e = idx(R, nrr, rSz); auto made = [&](int x, int old) { if (T.t[x].unk) return -1; auto it = S.parent.find(x); return blocks.count(x) && it != S.parent.end() && it->second == old ? 1 : 0; };
        int g = made(R, rrs); claim("record", "the earlier records are not kept" + in, g, at);
        if (g == 1) {
          claim("record", "the stored record's type is not the record's" + in, want(L(e, rType, 2), ty), at); claim("record", "the stored record's class is not the record's" + in, want(L(e, rClass, 2), cl), at);
          claim("record", "the stored record's TTL is not the record's" + in, want(L(e, rTtl, 4), ttl), at); claim("record", "the stored record's name length is not the record's" + in, want(L(e, rName + nLen, 1), nl), at);
          claim("record", "the stored record's name is not the record's" + in, nmLike(L(e, rName + nData, 8)), at);
          if (sec) claim("record", "the stored record's data are not the record's", rdLike(L(e, rRd, 8)), at); else claim("record", "a question is stored with data", want(L(e, rRd, 8), T.cst(0)), at);
        }
        int Q = L(a, aRs, 8), cnt = L(a, aNrs, 2);
        if (cnt == nrs && Q == rss) { // joined an existing RRset
          if (sec == 0) { bad("group", "a question does not get an entry of its own", at); return; }
          int found = -1, blk = -1; bool wrongIdx = false;
          for (auto &m : S.mem) if (m.first.first != R && m.first.first != rr && m.second.first == 8 && rdLike(m.second.second) == 1) { auto it = S.parent.find(m.first.first); if (it != S.parent.end() && it->second > 0 && T.t[it->second].k == KLoad) { int ad = T.t[it->second].a[0]; found = T.add(ad, T.cst(-sRd)); blk = m.first.first; int n0 = T.mk(KLoad, "", {T.add(found, T.cst(sN)), 2}, 16); if (m.first.second != T.scale(n0, 8)) wrongIdx = true; } }
          if (found < 0) { bool u = false; for (auto &m : S.mem) if (m.second.first == 8 && T.t[m.second.second].unk) u = true; if (u || !S.smudged.empty()) und.insert("where the record data go"); else bad("group", "the record's data join no RRset", at); return; }
          int n0 = T.mk(KLoad, "", {T.add(found, T.cst(sN)), 2}, 16, T.t[found].unk), t0 = T.mk(KLoad, "", {T.add(found, T.cst(sTtl)), 4}, 32, T.t[found].unk);
          // the index of the RRset may be unknown: what counts is that everything is about the same one
          if (wrongIdx) bad("group", "the record's data are not put after the data the RRset has", at);
          auto same = [&](int got, int exp) { return got == exp ? 1 : 0; };
          claim("group", "the RRset's count does not grow by one", same(L(found, sN, 2), T.add(n0, T.cst(1))), at);
          claim("group", "the RRset does not keep the data that were extended", same(L(found, sRd, 8), blk), at);
          auto it = S.facts.find(T.op("TRUE", {T.op("compare", {rr, found}, 1)}, 1)); bool other = false; for (auto &f : S.facts) { auto &t = T.t[f.first]; if (t.k == KOp) for (long x : t.a) if (T.t[x].k == KOp && (T.t[x].op == "memcmp" || T.t[x].op == "strcmp")) other = true; if (t.k != KOp || t.op == "CALL") other = true; }
          claim("group", "a record joins an RRset it was not found to match", it != S.facts.end() && it->second ? 1 : other ? -1 : 0, at);
          int nt = L(found, sTtl, 4); auto lt = [&](int x, int y) { auto q = cmp(CmpInst::ICMP_ULT, x, y, 32); auto jt = S.facts.find(q.first); return jt == S.facts.end() ? -1 : (int)(jt->second != q.second); };
          auto eqf = [&](int x, int y) { auto q = cmp(CmpInst::ICMP_EQ, x, y, 32); auto jt = S.facts.find(q.first); return jt != S.facts.end() && jt->second != q.second; };
          bool sl = false; for (auto &f : S.facts) if (T.t[f.first].k == KOp && T.t[f.first].op == "SLT") sl = true;
          int ok = nt == t0 ? (lt(ttl, t0) == 0 || lt(t0, ttl) == 1 || eqf(t0, ttl)) : nt == ttl ? (lt(t0, ttl) == 0 || lt(ttl, t0) == 1 || eqf(t0, ttl)) : nt == T.op("umin", {std::min(t0, ttl), std::max(t0, ttl)}, 32) ? 1 : T.t[nt].k == KFresh ? -1 : 0;
          claim("ttl", std::string("an RRset's TTL may not be the smallest of its records'") + (sl ? " (TTLs are compared as signed numbers)" : ""), ok, at);
          for (auto &p : std::vector<std::pair<long, int>>{{sType, 2}, {sClass, 2}, {sName + nLen, 1}, {sName + nData, 8}}) claim("group", "joining changes the RRset's name, type or class", same(L(found, p.first, p.second), T.mk(KLoad, "", {T.add(found, T.cst(p.first)), p.second}, p.second * 8)), at);
        } else {
          claim("group", "the number of RRsets does not grow by one" + in, want(cnt, T.add(nrs, T.cst(1))), at);
          int g2 = made(Q, rss); claim("group", "the earlier RRsets are not kept" + in, g2, at); if (g2 != 1) return;
          int s = idx(Q, nrs, sSz);
          claim("group", "the new RRset's type is not the record's" + in, want(L(s, sType, 2), ty), at); claim("group", "the new RRset's class is not the record's" + in, want(L(s, sClass, 2), cl), at);
          claim("ttl", "the new RRset's TTL is not the record's" + in, want(L(s, sTtl, 4), ttl), at); claim("group", "the new RRset's name length is not the record's" + in, want(L(s, sName + nLen, 1), nl), at);
          claim("group", "the new RRset's name is not the record's" + in, nmLike(L(s, sName + nData, 8)), at);
          claim("group", sec ? "the new RRset does not count one record" : "a question's RRset has data", want(L(s, sN, 2), T.cst(sec ? 1 : 0)), at);
          if (sec) { int D = L(s, sRd, 8); claim("group", "the new RRset does not hold the record's data", T.t[D].unk ? -1 : blocks.count(D) ? rdLike(L(D, 0, 8)) : 0, at); }
          if (sec) covered(S, at, rr, rss, nrs);
        }
      });
    }
  }
  // a new RRset is made only after every existing one was found not to match
  void covered(St &S, const Instruction *at, int rr, int rss, int nrs) {
    { auto q = cmp(CmpInst::ICMP_EQ, nrs, T.cst(0), 32); auto it = S.facts.find(q.first); if (it != S.facts.end() && it->second != q.second) return; }
    auto part = [&](long ro, long so, int n, int set) { int x = init(rr, ro, n), y = T.mk(KLoad, "", {T.add(set, T.cst(so)), n}, n * 8, T.t[set].unk); return T.op("EQ", {std::min(x, y), std::max(x, y)}, 1); };
    int r = scan(S, nrs, [&](const Facts &facts) {
      std::set<int> out; // which RRset was compared, or seen to differ, on this turn
      for (auto &x : facts) {
        auto &t = T.t[x.first]; if (t.k != KOp || x.second) continue; int set = -1;
        if (t.op == "TRUE" && T.t[t.a[0]].op == "compare" && T.t[t.a[0]].a[0] == rr) set = T.t[t.a[0]].a[1];
        if (t.op == "EQ") for (long y : t.a) if (T.t[y].k == KLoad) for (long so : {sType, sClass, sName + nLen}) { int z = T.add(T.t[y].a[0], T.cst(-so)); for (auto &q : std::vector<std::tuple<long, long, int>>{{rType, sType, 2}, {rClass, sClass, 2}, {rName + nLen, sName + nLen, 1}}) if (std::get<1>(q) == so && part(std::get<0>(q), so, std::get<2>(q), z) == x.first) set = z; }
        if (set < 0) continue; auto l = T.lin(T.add(set, rss, -1)); bool ok = l.second % sSz == 0; l.second /= sSz; for (auto &p : l.first) { if (p.second % sSz) ok = false; p.second /= sSz; }
        if (ok) out.insert(T.of(l));
      }
      return out;
    });
    bool loops = unkCall; for (auto &hp : heads) if (!hp.second.backs.empty()) loops = true;
    if (r == 2) bad("group", "a new RRset may be made though an existing one was passed over without comparing it", at);
    else if (r == 3) bad("group", "a new RRset may be made though an existing one was not compared (the scan does not start at the end of the list)", at);
    else if (r == 4) bad("group", "a new RRset may be made though an existing one was not compared (the scan ends early)", at);
    else if (r == 0 && !loops) bad("group", "a new RRset may be made without comparing the record with the existing ones", at);
    else if (r <= 0) und.insert("whether every existing RRset is compared before a new one is made");
  }
  // what the facts say about the octets of the two names at one index: bit 0: they may be equal in lower case, bit 1: they may differ
  int octetsAt(const Facts &facts, int x, int y) {
    std::vector<std::pair<int, bool>> fs; std::map<int, long> as; long v; for (auto &f : facts) { as = {{x, 65}, {y, 66}}; if (mentions(f.first, {x, y}) && eval(f.first, as, v)) fs.push_back(f); }
    int r = 0; for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) {
      as[x] = a; as[y] = b; bool ok = true; for (auto &f : fs) if (eval(f.first, as, v) && (v != 0) != f.second) { ok = false; break; }
      if (ok) r |= (a >= 'A' && a <= 'Z' ? a + 32 : a) == (b >= 'A' && b <= 'Z' ? b + 32 : b) ? 1 : 2;
    }
    return r;
  }
  // pairs of single octets, one of each name at the same index, that the facts speak about
  std::vector<std::array<int, 3>> octetPairs(const Facts &facts, int dr, int ds) {
    std::map<int, int> X, Y; std::vector<int> w; std::set<int> sn; for (auto &f : facts) w.push_back(f.first);
    while (!w.empty()) { int y = w.back(); w.pop_back(); if (!sn.insert(y).second) continue; auto &t = T.t[y]; if (t.k == KLin) for (size_t i = 1; i + 1 < t.a.size(); i += 2) w.push_back(t.a[i]); else if (t.k == KOp) for (long z : t.a) w.push_back(z); else if (t.k == KLoad && t.a[1] == 1) { int b, o; if (split(t.a[0], b, o)) { if (b == dr) X[o] = y; else if (b == ds) Y[o] = y; } } }
    std::vector<std::array<int, 3>> r; for (auto &p : X) if (Y.count(p.first)) r.push_back({p.first, p.second, Y[p.first]}); return r;
  }
};
}
int cmdTerms(Module &M, const std::vector<std::string> &) {
  prepModule(M, [](Function &F) { return hasContract(F); });
  Rec R(M); json::Array miss; bool dump = getenv("TERMS_DUMP");
  for (auto n : {"wdns_compare_rr_rrset", "_wdns_insert_rr_rrset_array"}) {
    auto *F = M.getFunction(n); if (!F || F->isDeclaration()) { miss.push_back(std::string(n)); continue; }
    if (dump) F->print(errs());
    R.viol = json::Array(); R.seen.clear(); R.und.clear(); R.ob.clear(); long st = 0;
    if (n[0] == 'w') R.compare(*F); else R.insert(*F); st = R.steps;
    for (auto &v : R.viol) { json::Object o = *v.getAsObject(); o["kind"] = "violation"; o["function"] = n; emit(std::move(o)); }
    json::Object s; s["kind"] = "summary"; s["function"] = n; s["steps"] = st; json::Object ob; for (auto &p : R.ob) ob[p.first] = p.second; s["obligations"] = std::move(ob); json::Array u; for (auto &x : R.und) u.push_back(x); s["undecided"] = std::move(u); emit(std::move(s));
  }
  json::Object e; e["kind"] = "end"; e["missing"] = std::move(miss); emit(std::move(e));
  return 0;
}
