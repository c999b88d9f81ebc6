// C09: no mutable state shared between calls.
// Andersen-style (inclusion-based, field-insensitive) points-to over the whole library; every instruction that may
// write memory is checked for a target that is a variable with static storage, and every external callee is
// checked against the list of C library facilities that keep hidden state.
#include "common.h"
#include <llvm/Analysis/MemoryBuiltins.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <llvm/IR/Dominators.h>
using namespace llvm;

static const std::set<std::string> HIDDEN_STATE = {
  // POSIX.1-2017 2.9.1 functions that need not be thread-safe, plus process-state mutators
  "asctime","basename","catgets","crypt","ctime","dbm_clearerr","dbm_close","dbm_delete","dbm_error","dbm_fetch",
  "dbm_firstkey","dbm_nextkey","dbm_open","dbm_store","dirname","dlerror","drand48","encrypt","endgrent","endpwent",
  "endutxent","ftw","getc_unlocked","getchar_unlocked","getdate","getenv","secure_getenv","getgrent","getgrgid","getgrnam",
  "gethostent","gethostbyname","gethostbyaddr","getlogin","getnetbyaddr","getnetbyname","getnetent","getopt","getopt_long",
  "getprotobyname","getprotobynumber","getprotoent","getpwent","getpwnam","getpwuid","getservbyname","getservbyport",
  "getservent","getutxent","getutxid","getutxline","gmtime","hcreate","hdestroy","hsearch","inet_ntoa","inet_neta","inet_nsap_ntoa","l64a","lgamma",
  "lgammaf","lgammal","localeconv","localtime","lrand48","mrand48","nftw","nl_langinfo","ptsname","putc_unlocked",
  "putchar_unlocked","putenv","pututxline","rand","srand","random","srandom","initstate","setstate","readdir","setenv","unsetenv","clearenv","setgrent","setkey",
  "setpwent","setutxent","strerror","strsignal","strtok","system","tmpnam","ttyname","wcstombs","wctomb",
  "mblen","mbtowc","mbrlen","setlocale","time","clock","gettimeofday","clock_gettime","getpid","srand48","seed48","erand48","nrand48","jrand48","lcong48",
  "signal","umask","chdir","ether_ntoa","ether_aton","ns_ntoa","b64_ntop_static","fgetc_unlocked","dn_expand_static","arc4random","getrandom","getentropy","times","getrusage",
};

namespace {
struct PT {
  Module &M;
  using Node = const void *;
  std::map<Node, std::set<const Value *>> pts; // values & "contents" of objects
  std::map<Node, std::set<Node>> succ;
  std::set<Node> work;
  std::map<const Value *, std::pair<char, const Value *>> objOf;
  // content node of object o is &content[o]
  std::map<const Value *, char> content;
  std::map<const Function *, char> retn;
  std::vector<std::pair<const Value *, const Value *>> loads, stores; // (ptr, val) ; load: val = *ptr ; store: *ptr = val
  std::vector<const CallBase *> icalls;
  std::set<std::pair<const CallBase *, const Function *>> bound;
  Node C(const Value *o) { return &content[o]; }
  Node R(const Function *f) { return &retn[f]; }
  void edge(Node a, Node b) { if (a != b && succ[a].insert(b).second && !pts[a].empty()) work.insert(a); }
  bool add(Node n, const Value *o) { if (pts[n].insert(o).second) { work.insert(n); return true; } return false; }
  void constant(const Value *V, Node dst) {
    std::vector<const Value *> st{V}; std::set<const Value *> seen;
    while (!st.empty()) {
      auto *v = st.back(); st.pop_back();
      if (!seen.insert(v).second) continue;
      if (isa<GlobalVariable>(v) || isa<Function>(v)) { add(dst, v); continue; }
      if (auto *c = dyn_cast<ConstantExpr>(v)) for (auto &o : c->operands()) st.push_back(o);
      if (auto *c = dyn_cast<ConstantAggregate>(v)) for (auto &o : c->operands()) st.push_back(o);
    }
  }
  Node V(const Value *v) {
    if (isa<Constant>(v) && !pts.count(v)) { pts[v]; constant(v, v); }
    return v;
  }
  void call(const CallBase *CB, const Function *F) {
    if (!bound.insert({CB, F}).second) return;
    if (!F->isDeclaration()) {
      for (unsigned i = 0; i < CB->arg_size(); i++)
        if (i < F->arg_size()) edge(V(CB->getArgOperand(i)), F->getArg(i));
        else for (auto &I : instructions(*F)) if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::vastart)
          stores.push_back({II->getArgOperand(0), CB->getArgOperand(i)});
      edge(R(F), CB);
      return;
    }
    StringRef n = F->getName();
    if (CB->getType()->isPointerTy()) {
      if (n == "malloc" || n == "calloc" || n == "realloc" || n == "strdup" || n == "strndup" || n == "fopen" || n == "memdup") add(CB, CB);
      // any pointer result may also alias any pointer argument (strchr, strtok_r, bsearch, realloc, memcpy...)
      for (auto &a : CB->args()) if (a->getType()->isPointerTy()) edge(V(a), CB);
      for (auto &a : CB->args()) if (a->getType()->isPointerTy() && n == "strtok_r") loads.push_back({a, CB});
    }
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove") copies.push_back({CB->getArgOperand(0), CB->getArgOperand(1)});
    if (n == "realloc") copies.push_back({CB, CB->getArgOperand(0)});
    if (n == "strtol" || n.contains("strtoul") || n.contains("strtol") || n == "strtok_r")
      stores.push_back({CB->getArgOperand(n == "strtok_r" ? 2 : 1), CB->getArgOperand(0)});
    if (n == "bsearch" || n == "qsort")
      if (auto *cmp = dyn_cast<Function>(CB->getArgOperand(CB->arg_size() - 1)->stripPointerCasts()))
        if (!cmp->isDeclaration() && cmp->arg_size() >= 2) {
          edge(V(CB->getArgOperand(0)), cmp->getArg(0));
          edge(V(CB->getArgOperand(n == "qsort" ? 0 : 1)), cmp->getArg(1));
        }
  }
  std::vector<std::pair<const Value *, const Value *>> copies; // dst, src pointers
  PT(Module &M) : M(M) {
    for (auto &G : M.globals()) if (G.hasInitializer()) constant(G.getInitializer(), C(&G));
    for (auto &F : M) for (auto &I : instructions(F)) {
      if (isa<AllocaInst>(I)) add(&I, &I);
      else if (auto *L = dyn_cast<LoadInst>(&I)) loads.push_back({L->getPointerOperand(), L});
      else if (auto *S = dyn_cast<StoreInst>(&I)) stores.push_back({S->getPointerOperand(), S->getValueOperand()});
      else if (auto *A = dyn_cast<AtomicRMWInst>(&I)) stores.push_back({A->getPointerOperand(), A->getValOperand()});
      else if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) stores.push_back({A->getPointerOperand(), A->getNewValOperand()});
      else if (auto *Rt = dyn_cast<ReturnInst>(&I)) { if (Rt->getReturnValue()) edge(V(Rt->getReturnValue()), R(&F)); }
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (auto *cf = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) call(CB, cf);
        else icalls.push_back(CB);
      } else if (isa<GetElementPtrInst>(I)) edge(V(I.getOperand(0)), &I);
      else if (isa<PHINode>(I) || isa<SelectInst>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<FreezeInst>(I))
        for (auto &o : I.operands()) edge(V(o), &I);
    }
    solve();
  }
  void prop() {
    while (!work.empty()) {
      Node n = *work.begin(); work.erase(work.begin());
      auto s = pts[n];
      for (Node m : std::set<Node>(succ[n])) for (auto *o : s) add(m, o);
    }
  }
  void solve() {
    for (bool ch = true; ch;) {
      ch = false; prop();
      size_t e0 = 0, e1 = 0; for (auto &x : succ) e0 += x.second.size();
      for (auto &[p, v] : loads) for (auto *o : std::set<const Value *>(pts[V(p)])) edge(C(o), v);
      auto st = stores;
      for (auto &[p, v] : st) for (auto *o : std::set<const Value *>(pts[V(p)])) edge(V(v), C(o));
      for (auto &[d, s] : copies) for (auto *a : std::set<const Value *>(pts[V(d)])) for (auto *b : std::set<const Value *>(pts[V(s)])) edge(C(b), C(a));
      for (auto *cb : icalls) for (auto *o : std::set<const Value *>(pts[V(cb->getCalledOperand())])) if (auto *f = dyn_cast<Function>(o)) call(cb, f);
      for (auto &x : succ) e1 += x.second.size();
      if (e1 != e0 || !work.empty()) ch = true;
    }
  }
};
}

// pointer operands an external callee writes through
static std::vector<unsigned> writesThrough(const CallBase *CB, StringRef n) {
  if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n.starts_with("llvm.memset")) return {0};
  static const std::map<std::string, std::vector<unsigned>> W = {
    {"memcpy",{0}},{"memmove",{0}},{"memset",{0}},{"strcpy",{0}},{"strncpy",{0}},{"strcat",{0}},{"strncat",{0}},{"stpcpy",{0}},
    {"snprintf",{0}},{"sprintf",{0}},{"vsnprintf",{0}},{"vsprintf",{0}},{"fgets",{0}},{"qsort",{0}},{"inet_pton",{2}},{"inet_ntop",{2}},
    {"strtok_r",{0,2}},{"strtol",{1}},{"strtoul",{1}},{"strtoull",{1}},{"strtoll",{1}},{"__isoc23_strtol",{1}},{"__isoc23_strtoul",{1}},{"__isoc23_strtoull",{1}},{"__isoc23_strtoll",{1}},
    {"realloc",{0}},{"free",{0}},{"getline",{0,1}},{"fread",{0}},{"read",{1}},{"bcopy",{1}},{"bzero",{0}}};
  auto it = W.find(n.str());
  if (it != W.end()) return it->second;
  if (n.contains("sscanf")) { std::vector<unsigned> v; for (unsigned i = 2; i < CB->arg_size(); i++) v.push_back(i); return v; }
  return {};
}

int cmdEffects(Module &M, const std::vector<std::string> &) {
  for (auto &F : M) if (!F.isDeclaration()) {
    DominatorTree DT(F); std::vector<AllocaInst *> as;
    for (auto &I : instructions(F)) if (auto *A = dyn_cast<AllocaInst>(&I)) if (isAllocaPromotable(A)) as.push_back(A);
    if (!as.empty()) PromoteMemToReg(as, DT);
  }
  PT pt(M);
  unsigned nfun = 0, nstores = 0, ncalls = 0, nglob = 0, nmut = 0;
  std::set<std::string> ext;
  std::map<const GlobalVariable *, std::vector<std::string>> muts;
  for (auto &G : M.globals()) { if (G.isDeclaration() || G.getName().starts_with("llvm.")) continue; nglob++; if (!G.isConstant()) { nmut++; muts[&G]; } }
  auto target = [&](const Value *p, const Instruction &I, const char *how) {
    nstores++;
    for (auto *o : pt.pts[pt.V(p)])
      if (auto *G = dyn_cast<GlobalVariable>(o); G && !G->isConstant())
        emit(json::Object{{"kind", "violation"}, {"rule", "write-to-static"}, {"what", (Twine(how) + " variable with static storage '" + G->getName() + "'" + "").str()},
              {"loc", locOf(&I)}, {"key", ("static:" + G->getName() + ":" + I.getFunction()->getName()).str()}});
  };
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    nfun++;
    for (auto &I : instructions(F)) {
      if (auto *S = dyn_cast<StoreInst>(&I)) target(S->getPointerOperand(), I, "store to");
      else if (auto *A = dyn_cast<AtomicRMWInst>(&I)) target(A->getPointerOperand(), I, "atomic update of");
      else if (auto *A = dyn_cast<AtomicCmpXchgInst>(&I)) target(A->getPointerOperand(), I, "atomic update of");
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto *f = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (!f || !f->isDeclaration()) continue;
        StringRef n = f->getName();
        if (!n.starts_with("llvm.")) { ncalls++; ext.insert(n.str()); }
        if (HIDDEN_STATE.count(n.str()))
          emit(json::Object{{"kind", "violation"}, {"rule", "hidden-state-libc"}, {"what", ("call of " + n + "(), which keeps or depends on state shared between calls").str()},
                {"loc", locOf(&I)}, {"key", ("libc:" + n + ":" + F.getName()).str()}});
        if (n.starts_with("strtok_r") || true) for (unsigned k : writesThrough(CB, n)) if (k < CB->arg_size()) target(CB->getArgOperand(k), I, (n.str() + " writes to").c_str());
      }
    }
  }
  // reads of an external mutable object other than the standard streams
  for (auto &G : M.globals()) if (G.isDeclaration() && !G.isConstant() && G.getName() != "stderr" && G.getName() != "stdout" && G.getName() != "stdin")
    for (auto *U : G.users()) if (auto *I = dyn_cast<Instruction>(U))
      emit(json::Object{{"kind", "violation"}, {"rule", "external-state"}, {"what", ("use of external variable '" + G.getName() + "'").str()}, {"loc", locOf(I)}, {"key", ("ext:" + G.getName()).str()}});
  json::Array ea; for (auto &e : ext) ea.push_back(e);
  json::Array ma; for (auto &m : muts) ma.push_back(m.first->getName());
  emit(json::Object{{"kind", "summary"}, {"functions", nfun}, {"writes", nstores}, {"external_calls", ncalls}, {"globals", nglob}, {"non_const_globals", nmut},
        {"externals", std::move(ea)}, {"non_const_names", std::move(ma)}});
  return 0;
}
