#include "core.h"
#include <llvm/Support/CommandLine.h>
#include <llvm/Transforms/Utils/Cloning.h>

static cl::list<std::string> In(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Eng("engine", cl::desc("write engine findings"));
static cl::opt<std::string> Facts("facts", cl::desc("write facts"));
static cl::opt<int> Verb("verbose", cl::init(0));
static cl::opt<std::string> Only("only", cl::desc("verbose output only for this function"));
static cl::opt<int> InlineLimit("inline-limit", cl::init(60));

// The IR linker merges structs of the same shape (SCM_String and SCM_Symbol); remember which one was written.
static std::string structNameOf(StructType *ST) {
  std::string n = ST->hasName() ? ST->getName().str() : "anon";
  size_t d = n.rfind('.');
  if (d != std::string::npos && d + 1 < n.size() && n.find_first_not_of("0123456789", d + 1) == std::string::npos) n = n.substr(0, d);
  return n;
}
static void annotate(Module &M) {
  auto &C = M.getContext();
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    std::vector<GetElementPtrInst *> zs;
    for (auto &I : instructions(F))
      if (auto *G = dyn_cast<GetElementPtrInst>(&I))
        if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) {
          G->setMetadata("pscm.struct", MDNode::get(C, {MDString::get(C, structNameOf(ST))}));
          // keep "address of the first field" visible: the inliner would fold the zero-offset GEP away
          if (G->hasAllZeroIndices() && G->getNumIndices() >= 2 && !isa<AllocaInst>(G->getPointerOperand()->stripPointerCasts())) zs.push_back(G);
        }
    for (auto *G : zs) {
      std::vector<std::string> names;
      Type *ty = G->getSourceElementType();
      unsigned n = G->getNumIndices();
      for (unsigned i = 1; i < n; i++) {
        if (auto *ST = dyn_cast<StructType>(ty)) { names.push_back(structNameOf(ST)); ty = ST->getElementType(0); }
        else if (auto *AT = dyn_cast<ArrayType>(ty)) ty = AT->getElementType();
      }
      std::string key = "pscm.f0";
      for (auto &x : names) key += "|" + x;
      FunctionType *FT = FunctionType::get(G->getType(), {G->getPointerOperandType()}, false);
      FunctionCallee C = M.getOrInsertFunction(key, FT);
      cast<Function>(C.getCallee())->setDoesNotAccessMemory();
      cast<Function>(C.getCallee())->setDoesNotThrow();
      auto *CI = CallInst::Create(C, {G->getPointerOperand()}, "", G);
      CI->setDebugLoc(G->getDebugLoc());
      CI->takeName(G);
      G->replaceAllUsesWith(CI);
      G->eraseFromParent();
    }
  }
}

// Functions that exist only to structure one or two others (static, not address-taken, at most three call sites) are folded
// into their callers, so that extracting or merging such a helper does not change what the rules see.
static void inlineHelpers(Module &M) {
  for (int round = 0; round < 4; round++) {
    std::vector<CallBase *> todo;
    for (auto &F : M) {
      if (F.isDeclaration() || !F.hasLocalLinkage() || F.isVarArg() || !isRepoFunction(F)) continue;
      std::vector<CallBase *> calls;
      bool ok = true;
      for (auto *U : F.users()) {
        auto *CB = dyn_cast<CallBase>(U);
        if (!CB || CB->getCalledOperand() != &F || CB->getFunction() == &F) { ok = false; break; }
        calls.push_back(CB);
      }
      if (!ok || calls.empty() || calls.size() > 3) continue;
      int n = 0;
      for (auto &I : instructions(F)) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        n++;
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (auto *C = CB->getCalledFunction()) {
            if (C == &F || C->getName().contains("setjmp")) ok = false;
            // leaves first: a callee that is itself going to be folded comes in an earlier round
          }
        }
      }
      if (!ok || n > 250) continue;
      todo.insert(todo.end(), calls.begin(), calls.end());
    }
    if (todo.empty()) break;
    bool any = false;
    std::set<Function *> changed;
    for (auto *CB : todo) {
      Function *callee = CB->getCalledFunction();
      if (changed.count(callee)) continue;   // it has grown in this round: next round
      InlineFunctionInfo IFI;
      Function *into = CB->getFunction();
      if (InlineFunction(*CB, IFI).isSuccess()) { any = true; changed.insert(into); }
    }
    for (auto *F : changed) removeUnreachableBlocks(*F);
    std::vector<Function *> dead;
    for (auto &F : M) if (!F.isDeclaration() && F.hasLocalLinkage() && F.use_empty() && isRepoFunction(F)) dead.push_back(&F);
    for (auto *F : dead) F->eraseFromParent();
    if (!any) break;
  }
}

static void ssa(Module &M, bool inlineSmall) {
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  {
    FunctionPassManager FPM;
    FPM.addPass(LowerInvokePass());
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(PromotePass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  }
  MPM.run(M, MAM);
  for (auto &F : M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
  if (!inlineSmall) return;
  // inline small non-recursive leaf-ish helpers so that their checks are seen in the caller's path
  std::set<Function *> small;
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::NoInline);
    F.removeFnAttr(Attribute::OptimizeNone);
    if (!isRepoFunction(F) || F.isVarArg()) continue;
    int n = 0;
    bool self = false, indirect = false, setj = false, loops = false;
    std::set<BasicBlock *> seen;
    for (auto &B : F) {
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        n++;
        if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (CB->getCalledFunction() == &F) self = true;
          if (!CB->getCalledFunction() ) indirect = true;
          else if (CB->getCalledFunction()->getName().contains("setjmp")) setj = true;
        }
      }
      seen.insert(&B);
      for (auto *S : successors(&B)) if (seen.count(S)) loops = true;
    }
    if (n <= InlineLimit && !self && !setj && !loops && !indirect) small.insert(&F);
  }
  // only functions that call nothing but small functions / externals / error raisers, to keep growth bounded
  for (auto *F : small) F->addFnAttr(Attribute::AlwaysInline);
  ModulePassManager MPM2;
  MPM2.addPass(AlwaysInlinerPass(false));
  {
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(PromotePass());
    MPM2.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  }
  MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
  MPM2.run(M, MAM);
  for (auto &F : M) if (!F.isDeclaration()) removeUnreachableBlocks(F);
}

int main(int argc, char **argv) {
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext C;
  SMDiagnostic e;
  auto M = std::make_unique<Module>("pscm", C);
  Linker L(*M);
  bool first = true;
  for (auto &f : In) {
    auto N = parseIRFile(f, e, C);
    if (!N) { e.print(argv[0], errs()); return 2; }
    annotate(*N);
    if (first) { M->setDataLayout(N->getDataLayout()); M->setTargetTriple(N->getTargetTriple()); first = false; }
    if (L.linkInModule(std::move(N))) { errs() << "pscmlint: linking " << f << " failed\n"; return 2; }
  }
  initDebugInfo(*M);
  if (registrations().size() < 50) { errs() << "pscmlint: only " << registrations().size() << " builtin registrations found\n"; return 2; }
  if (!Facts.empty()) {
    ssa(*M, false);
    std::error_code ec;
    { raw_fd_ostream OS(Facts, ec); dumpFacts(*M, OS); }
    inlineHelpers(*M);
    ssa(*M, false);
    { raw_fd_ostream OS(Facts + ".hlp", ec); dumpFacts(*M, OS); }
    ssa(*M, true);
    { raw_fd_ostream OS(Facts + ".inl", ec); dumpFacts(*M, OS); }
    return 0;
  }
  ssa(*M, true);
  if (!Eng.empty()) return runEngine(*M, Eng, Verb, Only);
  return 0;
}
