// C12: constant propagation of one table-lookup function for each named code.
// Interprocedural, context-sensitive; values are known constants or "unknown". An unknown branch ends the
// propagation with "undecided".
#include "common.h"
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <strings.h>
#include <string.h>
using namespace llvm;
namespace {
struct Undecided { std::string why; };
struct Val { enum K { Int, Ptr, Unk } k = Unk; APInt i; int obj = -1; int64_t off = 0;
  static Val I(APInt a) { Val v; v.k = Int; v.i = a; return v; }
  static Val P(int o, int64_t f) { Val v; v.k = Ptr; v.obj = o; v.off = f; return v; } };
struct Obj { std::vector<int> bytes; std::map<int64_t, Val> cells; bool ro = false; };
struct CP {
  Module &M; const DataLayout &DL;
  std::vector<Obj> objs; std::map<const Value *, int> gobj;
  int steps = 0;
  std::vector<std::string> bad; // structural violations found on the way
  std::set<std::string> tables;
  CP(Module &M) : M(M), DL(M.getDataLayout()) { objs.emplace_back(); }
  int newObj(uint64_t n, int fill) { Obj o; o.bytes.assign(n, fill); objs.push_back(o); return objs.size() - 1; }
  void initBytes(int o, int64_t off, const Constant *c) {
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      StringRef r = cd->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) objs[o].bytes[off + i] = (uint8_t)r[i];
    } else if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
      for (uint64_t i = 0; i < DL.getTypeStoreSize(c->getType()); i++) objs[o].bytes[off + i] = 0;
    } else if (auto *ci = dyn_cast<ConstantInt>(c)) {
      uint64_t v = ci->getZExtValue(); for (uint64_t i = 0; i < DL.getTypeStoreSize(c->getType()); i++) objs[o].bytes[off + i] = (v >> (8 * i)) & 255;
    } else if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      uint64_t f = 0; auto *st = dyn_cast<StructType>(c->getType());
      for (unsigned i = 0; i < ca->getNumOperands(); i++) {
        uint64_t eo = st ? (uint64_t)DL.getStructLayout(st)->getElementOffset(i) : f;
        initBytes(o, off + eo, ca->getOperand(i));
        f += DL.getTypeAllocSize(ca->getOperand(i)->getType());
      }
    } else if (c->getType()->isPointerTy()) objs[o].cells[off] = cst(c);
    else if (isa<UndefValue>(c)) ;
    else throw Undecided{"constant initialiser"};
  }
  int glob(const GlobalVariable *G) {
    auto it = gobj.find(G); if (it != gobj.end()) return it->second;
    if (!G->hasInitializer()) throw Undecided{"external variable"};
    int o = newObj(DL.getTypeAllocSize(G->getValueType()), 0); gobj[G] = o;
    initBytes(o, 0, G->getInitializer()); objs[o].ro = true;
    return o;
  }
  Val cst(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return Val::I(ci->getValue());
    if (isa<ConstantPointerNull>(c)) return Val::P(0, 0);
    if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::P(glob(g), 0);
    if (isa<Function>(c)) { auto it = gobj.find(c); if (it == gobj.end()) { gobj[c] = newObj(1, 0); it = gobj.find(c); } return Val::P(it->second, 0); }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *gep = dyn_cast<GEPOperator>(ce)) { APInt o(64, 0); if (gep->accumulateConstantOffset(DL, o)) { Val b = cst(cast<Constant>(gep->getPointerOperand())); b.off += o.getSExtValue(); return b; } }
      if (ce->isCast()) return cst(ce->getOperand(0));
    }
    return Val();
  }
  Val load(const Val &p, Type *T) {
    if (p.k != Val::Ptr || p.obj == 0) throw Undecided{"load through unknown pointer"};
    Obj &o = objs[p.obj]; uint64_t n = DL.getTypeStoreSize(T);
    if (p.off < 0 || p.off + (int64_t)n > (int64_t)o.bytes.size()) throw Undecided{"load out of bounds"};
    if (T->isPointerTy()) { auto it = o.cells.find(p.off); if (it != o.cells.end()) return it->second; bool z = true; for (unsigned i = 0; i < 8; i++) z &= o.bytes[p.off + i] == 0; return z ? Val::P(0, 0) : Val(); }
    if (!T->isIntegerTy()) return Val();
    APInt v(T->getIntegerBitWidth(), 0);
    for (unsigned i = 0; i < n; i++) { int b = o.bytes[p.off + i]; if (b < 0) return Val(); if (8 * i < v.getBitWidth()) v |= APInt(v.getBitWidth(), b) << (8 * i); }
    return Val::I(v);
  }
  void store(const Val &p, const Val &v, Type *T) {
    if (p.k != Val::Ptr || p.obj == 0) throw Undecided{"store through unknown pointer"};
    Obj &o = objs[p.obj]; uint64_t n = DL.getTypeStoreSize(T);
    if (p.off < 0 || p.off + (int64_t)n > (int64_t)o.bytes.size()) throw Undecided{"store out of bounds"};
    for (uint64_t i = 0; i < n; i++) { o.cells.erase(p.off + i); o.bytes[p.off + i] = -1; }
    if (T->isPointerTy()) o.cells[p.off] = v;
    else if (v.k == Val::Int) for (uint64_t i = 0; i < n; i++) o.bytes[p.off + i] = v.i.lshr(8 * i).getLoBits(8).getZExtValue() & 255;
  }
  std::string str(const Val &p) {
    if (p.k != Val::Ptr || p.obj == 0) throw Undecided{"string through unknown pointer"};
    std::string s; Obj &o = objs[p.obj];
    for (int64_t i = p.off;; i++) { if (i < 0 || i >= (int64_t)o.bytes.size() || o.bytes[i] < 0) throw Undecided{"string content unknown"}; if (!o.bytes[i]) return s; s += (char)o.bytes[i]; }
  }
  Val i32(int x) { return Val::I(APInt(32, (int64_t)x, true)); }
  Val ext(StringRef n, std::vector<Val> &a, const CallBase *CB) {
    auto num = [&](unsigned k) { if (a[k].k != Val::Int) throw Undecided{"unknown size argument"}; return a[k].i.getZExtValue(); };
    if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg")) return Val();
    if (n == "strcasecmp") return i32(strcasecmp(str(a[0]).c_str(), str(a[1]).c_str()));
    if (n == "strcmp") return i32(strcmp(str(a[0]).c_str(), str(a[1]).c_str()));
    if (n == "strncasecmp") return i32(strncasecmp(str(a[0]).c_str(), str(a[1]).c_str(), num(2)));
    if (n == "strncmp") return i32(strncmp(str(a[0]).c_str(), str(a[1]).c_str(), num(2)));
    if (n == "strlen") return Val::I(APInt(64, str(a[0]).size()));
    if (n == "toupper" || n == "tolower") { int c = num(0); if (n[2] == 'u') { if (c >= 'a' && c <= 'z') c -= 32; } else if (c >= 'A' && c <= 'Z') c += 32; return i32(c); }
    if (n == "strchr" || n == "strrchr") { std::string s = str(a[0]); char c = num(1); size_t k = c ? (n == "strchr" ? s.find(c) : s.rfind(c)) : s.size(); if (k == std::string::npos) return Val::P(0, 0); return Val::P(a[0].obj, a[0].off + k); }
    if (n.contains("strtol") || n.contains("strtoul")) {
      std::string s = str(a[0]); char *e; long v = strtol(s.c_str(), &e, num(2)); if (a[1].k == Val::Ptr && a[1].obj) store(a[1], Val::P(a[0].obj, a[0].off + (e - s.c_str())), CB->getArgOperand(1)->getType()); return Val::I(APInt(64, v, true)); }
    if (n == "bsearch") {
      auto *cmp = dyn_cast<Function>(CB->getArgOperand(4)->stripPointerCasts());
      if (!cmp || a[1].k != Val::Ptr) throw Undecided{"bsearch arguments"};
      uint64_t cnt = num(2), sz = num(3); int hit = -1;
      auto row = [&](uint64_t i) { return Val::P(a[1].obj, a[1].off + i * sz); };
      auto c = [&](Val x, Val y) { std::vector<Val> v{x, y}; Val r = call(cmp, v); if (r.k != Val::Int) throw Undecided{"comparator result"}; return r.i.isZero() ? 0 : r.i.isNegative() ? -1 : 1; };
      if ((int64_t)(cnt * sz) > (int64_t)objs[a[1].obj].bytes.size()) { bad.push_back("bsearch count/size exceed the table (" + fileLine(CB) + ")"); return Val(); }
      std::string tn = fileLine(CB) + " " + std::to_string(cnt) + " rows";
      if (tables.insert(tn).second)
        for (uint64_t i = 0; i + 1 < cnt; i++)
          if (c(row(i), row(i + 1)) >= 0) bad.push_back("table searched at " + fileLine(CB) + " is not strictly ascending in its comparator's order at rows " + std::to_string(i) + "," + std::to_string(i + 1));
      for (uint64_t i = 0; i < cnt; i++) if (c(a[0], row(i)) == 0) { hit = i; break; }
      return hit < 0 ? Val::P(0, 0) : row(hit);
    }
    if (n == "__ctype_tolower_loc" || n == "__ctype_toupper_loc" || n == "__ctype_b_loc") throw Undecided{"ctype table"};
    throw Undecided{("call of " + n).str()};
  }
  Val call(Function *F, std::vector<Val> &args, int depth = 0) {
    if (F->isDeclaration()) throw Undecided{"declaration"};
    if (depth > 16) throw Undecided{"recursion"};
    std::map<const Value *, Val> env;
    for (unsigned i = 0; i < F->arg_size(); i++) env[F->getArg(i)] = args[i];
    auto get = [&](const Value *v) -> Val { if (auto *c = dyn_cast<Constant>(v)) return cst(c); auto it = env.find(v); return it == env.end() ? Val() : it->second; };
    const BasicBlock *B = &F->getEntryBlock(), *prev = nullptr;
    for (;;) {
      std::map<const Value *, Val> ph;
      for (auto &P : B->phis()) ph[&P] = get(P.getIncomingValueForBlock(prev));
      for (auto &p : ph) env[p.first] = p.second;
      const BasicBlock *next = nullptr;
      for (auto &I : *B) {
        if (isa<PHINode>(I)) continue;
        if (++steps > 4000000) throw Undecided{"too many steps"};
        if (auto *A = dyn_cast<AllocaInst>(&I)) env[&I] = Val::P(newObj(DL.getTypeAllocSize(A->getAllocatedType()), -1), 0);
        else if (auto *L = dyn_cast<LoadInst>(&I)) env[&I] = load(get(L->getPointerOperand()), L->getType());
        else if (auto *S = dyn_cast<StoreInst>(&I)) store(get(S->getPointerOperand()), get(S->getValueOperand()), S->getValueOperand()->getType());
        else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          Val b = get(G->getPointerOperand()); if (b.k != Val::Ptr) continue;
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          if (!G->collectOffset(DL, 64, vo, co)) continue;
          int64_t off = b.off + co.getSExtValue(); bool ok = true;
          for (auto &[v, m] : vo) { Val x = get(v); if (x.k != Val::Int) { ok = false; break; } off += x.i.getSExtValue() * m.getSExtValue(); }
          if (ok) env[&I] = Val::P(b.obj, off);
        } else if (auto *C = dyn_cast<CmpInst>(&I)) {
          Val a = get(C->getOperand(0)), b = get(C->getOperand(1)); bool r;
          if (a.k == Val::Int && b.k == Val::Int) r = ICmpInst::compare(a.i, b.i, C->getPredicate());
          else if (a.k == Val::Ptr && b.k == Val::Ptr && (a.obj == b.obj || C->isEquality()))
            r = a.obj != b.obj ? C->getPredicate() == CmpInst::ICMP_NE : ICmpInst::compare(APInt(64, a.off), APInt(64, b.off), C->getPredicate());
          else continue;
          env[&I] = Val::I(APInt(1, r));
        } else if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
          Val a = get(BO->getOperand(0)), b = get(BO->getOperand(1));
          if (a.k == Val::Int && b.k == Val::Int) {
            auto &C = M.getContext();
            if (auto *r = ConstantFoldBinaryOpOperands(BO->getOpcode(), ConstantInt::get(C, a.i), ConstantInt::get(C, b.i), DL)) if (auto *ci = dyn_cast<ConstantInt>(r)) env[&I] = Val::I(ci->getValue());
          }
        } else if (auto *X = dyn_cast<CastInst>(&I)) {
          Val a = get(X->getOperand(0));
          if (a.k == Val::Int && X->getType()->isIntegerTy()) {
            unsigned w = X->getType()->getIntegerBitWidth();
            if (isa<ZExtInst>(X)) a.i = a.i.zext(w); else if (isa<SExtInst>(X)) a.i = a.i.sext(w); else if (isa<TruncInst>(X)) a.i = a.i.trunc(w);
            env[&I] = a;
          } else if (a.k == Val::Ptr && X->getType()->isPointerTy()) env[&I] = a;
        } else if (auto *S = dyn_cast<SelectInst>(&I)) { Val c = get(S->getCondition()); if (c.k == Val::Int) env[&I] = get(c.i.isZero() ? S->getFalseValue() : S->getTrueValue()); }
        else if (auto *CB = dyn_cast<CallInst>(&I)) {
          auto *f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
          if (!f) throw Undecided{"indirect call"};
          std::vector<Val> av; for (auto &x : CB->args()) av.push_back(get(x));
          env[&I] = f->isDeclaration() ? ext(f->getName(), av, CB) : call(f, av, depth + 1);
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isUnconditional()) next = Br->getSuccessor(0);
          else { Val c = get(Br->getCondition()); if (c.k != Val::Int) throw Undecided{"branch on unknown value at " + fileLine(&I)}; next = Br->getSuccessor(c.i.isZero() ? 1 : 0); }
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          Val c = get(Sw->getCondition()); if (c.k != Val::Int) throw Undecided{"switch on unknown value"};
          next = Sw->findCaseValue(ConstantInt::get(M.getContext(), c.i))->getCaseSuccessor();
        } else if (auto *R = dyn_cast<ReturnInst>(&I)) return R->getReturnValue() ? get(R->getReturnValue()) : Val();
        else if (isa<UnreachableInst>(I)) throw Undecided{"unreachable"};
        else env[&I] = Val();
      }
      prev = B; B = next;
    }
  }
};
}
// stdin: lines "tostr FN CODE WIDTH" -> {"s":..|null}; "fromstr FN STRING KIND" KIND=ret16|out16
int cmdCprop(Module &M, const std::vector<std::string> &) {
  for (auto &F : M) if (!F.isDeclaration()) {
    DominatorTree DT(F); std::vector<AllocaInst *> as;
    for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(A)) as.push_back(A);
    if (!as.empty()) PromoteMemToReg(as, DT);
  }
  CP *cp = new CP(M); char buf[4096];
  while (fgets(buf, sizeof buf, stdin)) {
    SmallVector<StringRef, 8> w; StringRef(buf).trim().split(w, ' ');
    Function *F = M.getFunction(w[1]);
    json::Object o{{"q", StringRef(buf).trim()}};
    if (!F || F->isDeclaration()) { o["err"] = "no such function"; emit(std::move(o)); continue; }
    size_t mark = cp->objs.size(), nb = cp->bad.size(); cp->steps = 0;
    if (mark > 200000) { delete cp; cp = new CP(M); nb = 0; }
    try {
      std::vector<Val> a;
      if (w[0] == "tostr") {
        a.push_back(Val::I(APInt(F->getArg(0)->getType()->getIntegerBitWidth(), std::stoll(w[2].str()), true)));
        Val r = cp->call(F, a);
        if (r.k != Val::Ptr) throw Undecided{"result"};
        if (r.obj == 0) o["s"] = nullptr; else o["s"] = cp->str(r);
      } else {
        std::string s = w[2].str(); int ob = cp->newObj(s.size() + 1, 0); for (size_t i = 0; i < s.size(); i++) cp->objs[ob].bytes[i] = (uint8_t)s[i];
        cp->objs[ob].ro = true;
        a.push_back(Val::P(ob, 0)); int oo = -1;
        if (w[3] == "out16") { oo = cp->newObj(2, -1); a.push_back(Val::P(oo, 0)); }
        Val r = cp->call(F, a);
        if (r.k != Val::Int) throw Undecided{"result"};
        o["ret"] = (int64_t)r.i.getZExtValue();
        if (oo >= 0) { auto &b = cp->objs[oo].bytes; if (b[0] >= 0 && b[1] >= 0) o["out"] = b[0] + 256 * b[1]; }
      }
    } catch (Undecided &u) { o["undecided"] = u.why; }
    if (cp->bad.size() > nb) { json::Array b; for (size_t i = nb; i < cp->bad.size(); i++) b.push_back(cp->bad[i]); o["bad"] = std::move(b); }
    emit(std::move(o));
  }
  json::Array t; for (auto &x : cp->tables) t.push_back(x);
  emit(json::Object{{"kind", "summary"}, {"tables", std::move(t)}});
  return 0;
}
