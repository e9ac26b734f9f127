// Dumps the SSA form of the repository as JSON facts for the structural rules (check.py and rules/*.py).
#include "core.h"
using json_t = json::Value;

static std::string clean(std::string n) {
  if (n.rfind("struct.", 0) == 0) n = n.substr(7);
  if (n.rfind("class.", 0) == 0) n = n.substr(6);
  size_t d = n.rfind('.');
  if (d != std::string::npos && d + 1 < n.size() && n.find_first_not_of("0123456789", d + 1) == std::string::npos) n = n.substr(0, d);
  return n;
}
static DIType *fieldDI(const std::string &S, unsigned idx, std::string &nm) {
  nm = "f" + std::to_string(idx);
  auto *C = findStruct(S);
  if (!C) return nullptr;
  unsigned i = 0;
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
        if (i == idx) { nm = D->getName().str(); return D->getBaseType(); }
        i++;
      }
  return nullptr;
}

namespace {
struct Dump {
  Module &M;
  json::OStream J;
  DenseMap<const Value *, int> ids;
  Dump(Module &M, raw_ostream &OS) : M(M), J(OS) {}

  json_t gepPath(const GEPOperator *G, const Instruction *I) {
    json::Array P;
    Type *ty = G->getSourceElementType();
    auto it = G->idx_begin();
    auto *c0 = dyn_cast<ConstantInt>(it->get());
    if (!c0 || !c0->isZero()) P.push_back(json::Array{val(it->get())});
    bool first = true;
    for (++it; it != G->idx_end(); ++it) {
      if (auto *ST = dyn_cast<StructType>(ty)) {
        unsigned f = cast<ConstantInt>(it->get())->getZExtValue();
        std::string n = clean(ST->hasName() ? ST->getName().str() : "anon");
        if (first && I)
          if (auto *MD = I->getMetadata("pscm.struct")) n = clean(cast<MDString>(MD->getOperand(0))->getString().str());
        first = false;
        std::string fn;
        fieldDI(n, f, fn);
        P.push_back(n + "." + fn);
        ty = ST->getElementType(f);
      } else if (auto *AT = dyn_cast<ArrayType>(ty)) {
        ty = AT->getElementType();
        P.push_back(json::Array{val(it->get())});
      } else break;
    }
    return P;
  }
  // "%n" local, "$i" parameter, "@x" global/function, number, null, {"s":..}, {"g":..,"path":..}, {"f":..}, "undef"
  json_t val(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() > 64) return json::Object{{"big", 1}};
      return C->getBitWidth() == 1 ? (int64_t)C->getZExtValue() : C->getSExtValue();
    }
    if (isa<ConstantPointerNull>(V)) return nullptr;
    if (isa<UndefValue>(V)) return "undef";
    if (auto *C = dyn_cast<ConstantFP>(V)) return json::Object{{"f", C->getValueAPF().convertToDouble()}};
    if (auto *A = dyn_cast<Argument>(V)) return "$" + std::to_string(A->getArgNo());
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      if (G->isConstant() && G->hasInitializer())
        if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer()))
          if (D->isCString()) {
            std::string s = D->getAsCString().str();
            return json::Object{{"s", json::isUTF8(s) ? s : json::fixUTF8(s)}};
          }
      if (G->isConstant() && G->hasInitializer() && isa<ConstantAggregateZero>(G->getInitializer()) && G->getName().starts_with(".str"))
        return json::Object{{"s", ""}};
      return "@" + G->getName().str();
    }
    if (auto *F = dyn_cast<GlobalValue>(V)) return "@" + F->getName().str();
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) return json::Object{{"g", val(G->getPointerOperand())}, {"path", gepPath(G, nullptr)}};
      json::Array A;
      for (auto &o : CE->operands()) A.push_back(val(o));
      return json::Object{{"ce", CE->getOpcodeName()}, {"a", std::move(A)}};
    }
    if (isa<ConstantAggregateZero>(V)) return json::Object{{"zero", 1}};
    if (auto *CS = dyn_cast<ConstantStruct>(V)) { json::Array A; for (auto &o : CS->operands()) A.push_back(val(o)); return json::Object{{"struct", std::move(A)}}; }
    if (auto *CS = dyn_cast<ConstantArray>(V)) { json::Array A; for (auto &o : CS->operands()) A.push_back(val(o)); return json::Object{{"array", std::move(A)}}; }
    if (auto *CD = dyn_cast<ConstantDataArray>(V)) {
      json::Array A;
      if (CD->getElementType()->isIntegerTy()) for (unsigned i = 0; i < CD->getNumElements(); i++) A.push_back((int64_t)CD->getElementAsInteger(i));
      return json::Object{{"data", std::move(A)}};
    }
    auto it = ids.find(V);
    if (it != ids.end()) return "%" + std::to_string(it->second);
    if (isa<InlineAsm>(V)) return json::Object{{"asm", 1}};
    return json::Object{{"other", 1}};
  }
  std::string tyS(Type *T) {
    if (T->isPointerTy()) return "ptr";
    std::string s; raw_string_ostream O(s); T->print(O, false, true); return s;
  }
  json_t dbgChain(const Instruction *I) {
    json::Array A;
    for (DILocation *L = I->getDebugLoc(); L; L = L->getInlinedAt()) {
      auto *SP = L->getScope()->getSubprogram();
      auto *Fi = L->getFile();
      std::string p = Fi ? (Fi->getFilename().starts_with("/") ? Fi->getFilename().str() : (Fi->getDirectory() + "/" + Fi->getFilename()).str()) : "";
      A.push_back(json::Array{SP ? (SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : "?", baseFile(p) + ":" + std::to_string(L->getLine())});
    }
    return A;
  }
  void instr(const Instruction &I, std::map<const Value *, std::string> &names, std::map<const Value *, std::string> &vtypes) {
    J.objectBegin();
    J.attribute("i", ids[&I]);
    J.attribute("o", I.getOpcodeName());
    if (!I.getType()->isVoidTy()) J.attribute("t", tyS(I.getType()));
    if (auto *PN = dyn_cast<PHINode>(&I)) {
      json::Array A, B;
      for (unsigned k = 0; k < PN->getNumIncomingValues(); k++) { A.push_back(val(PN->getIncomingValue(k))); B.push_back(ids[PN->getIncomingBlock(k)]); }
      J.attribute("a", std::move(A));
      J.attribute("b", std::move(B));
    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      J.attribute("a", json::Array{val(G->getPointerOperand())});
      J.attribute("path", gepPath(cast<GEPOperator>(G), G));
      J.attribute("sz", (int64_t)M.getDataLayout().getTypeAllocSize(G->getResultElementType()));
    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
      Function *C = CB->getCalledFunction();
      if (C && C->getName().starts_with("pscm.f0")) {
        json::Array P;
        SmallVector<StringRef> parts;
        C->getName().split(parts, '|');
        for (unsigned k = 1; k < parts.size(); k++) { std::string fn, n = clean(parts[k].str()); fieldDI(n, 0, fn); P.push_back(n + "." + fn); }
        J.attribute("o", "gep");
        J.attribute("a", json::Array{val(CB->getArgOperand(0))});
        J.attribute("path", std::move(P));
      } else {
        json::Array A;
        for (auto &o : CB->args()) A.push_back(val(o.get()));
        J.attribute("a", std::move(A));
        if (CB->getFunctionType()->isVarArg()) { std::string T; for (auto &o : CB->args()) T += tyS(o->getType()) + " "; J.attribute("at", T); }
        J.attribute("f", val(CB->getCalledOperand()->stripPointerCasts()));
        if (CB->doesNotReturn() || (C && C->doesNotReturn())) J.attribute("nr", 1);
      }
    } else if (auto *B = dyn_cast<BranchInst>(&I)) {
      json::Array S;
      for (unsigned k = 0; k < B->getNumSuccessors(); k++) S.push_back(ids[B->getSuccessor(k)]);
      J.attribute("b", std::move(S));
      if (B->isConditional()) J.attribute("a", json::Array{val(B->getCondition())});
    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
      json::Array S, V;
      S.push_back(ids[Sw->getDefaultDest()]);
      for (auto &c : Sw->cases()) { S.push_back(ids[c.getCaseSuccessor()]); V.push_back(c.getCaseValue()->getSExtValue()); }
      J.attribute("b", std::move(S));
      J.attribute("cases", std::move(V));
      J.attribute("a", json::Array{val(Sw->getCondition())});
    } else {
      json::Array A;
      for (auto &o : I.operands()) if (!isa<BasicBlock>(o.get())) A.push_back(val(o.get()));
      J.attribute("a", std::move(A));
      if (auto *Cm = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(Cm->getPredicate()).str());
      if (auto *AI = dyn_cast<AllocaInst>(&I)) {
        J.attribute("at", tyS(AI->getAllocatedType()));
        J.attribute("sz", (int64_t)M.getDataLayout().getTypeAllocSize(AI->getAllocatedType()));
      }
      if (auto *S = dyn_cast<StoreInst>(&I)) J.attribute("st", tyS(S->getValueOperand()->getType()));
    }
    auto n = names.find(&I);
    if (n != names.end()) { J.attribute("v", n->second); J.attribute("vt", vtypes[&I]); }
    J.attribute("l", dbgChain(&I));
    J.objectEnd();
  }
  void function(Function &F) {
    ids.clear();
    int n = 0;
    for (auto &B : F) { ids[&B] = n++; }
    n = 0;
    for (auto &B : F) for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) ids[&I] = n++;
    std::map<const Value *, std::string> names, vtypes;
    for (auto &B : F)
      for (auto &I : B)
        if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
          if (D->getNumVariableLocationOps() == 1 && D->getVariableLocationOp(0)) {
            auto *V = D->getVariableLocationOp(0);
            if (!names.count(V)) { names[V] = D->getVariable()->getName().str(); vtypes[V] = typeStr(D->getVariable()->getType()); }
          }
    auto *SP = F.getSubprogram();
    J.attributeBegin(F.getName());
    J.objectBegin();
    J.attribute("name", pretty(&F));
    J.attribute("full", prettyFull(&F));
    J.attribute("repo", isRepoFunction(F));
    if (SP) {
      auto *Fi = SP->getFile();
      std::string p = Fi ? (Fi->getFilename().starts_with("/") ? Fi->getFilename().str() : (Fi->getDirectory() + "/" + Fi->getFilename()).str()) : "";
      J.attribute("file", baseFile(p));
      J.attribute("line", (int64_t)SP->getLine());
      json::Array P;
      if (auto *T = SP->getType()) { auto A = T->getTypeArray(); for (unsigned i = 0; i < A.size(); i++) P.push_back(i == 0 || A[i] ? typeStr(A[i]) : "..."); }
      J.attribute("sig", std::move(P));
    }
    json::Array pn;
    for (auto &A : F.args()) { auto it = names.find(&A); pn.push_back(it == names.end() ? "" : it->second); }
    J.attribute("params", std::move(pn));
    J.attribute("nargs", (int64_t)F.arg_size());
    J.attribute("vararg", F.isVarArg());
    J.attribute("noreturn", F.doesNotReturn());
    J.attribute("internal", F.hasLocalLinkage());
    J.attribute("addrtaken", F.hasAddressTaken());
    J.attribute("rt", tyS(F.getReturnType()));
    J.attributeArray("blocks", [&] {
      for (auto &B : F) {
        J.array([&] {
          for (auto &I : B) if (!isa<DbgInfoIntrinsic>(I)) instr(I, names, vtypes);
        });
      }
    });
    J.objectEnd();
    J.attributeEnd();
  }
  void run() {
    J.objectBegin();
    J.attributeObject("structs", [&] {
      for (auto *C : allStructs()) {
        std::string n = typeStr(C);
        J.attributeObject(n, [&] {
          J.attribute("size", (int64_t)C->getSizeInBits() / 8);
          J.attributeArray("fields", [&] {
            for (auto *E : C->getElements())
              if (auto *D = dyn_cast<DIDerivedType>(E))
                if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember())
                  J.value(json::Object{{"name", D->getName()}, {"type", typeStr(D->getBaseType())}, {"pointee", ptrPointee(D->getBaseType())}, {"off", (int64_t)D->getOffsetInBits() / 8}, {"size", (int64_t)D->getSizeInBits() / 8}});
          });
        });
      }
    });
    J.attributeObject("scm_types", [&] { for (auto &k : enums().scm) J.attribute(k.first, k.second); });
    J.attributeObject("type_tags", [&] { for (auto &k : enums().tag) J.attribute(k.first, k.second); });
    J.attributeArray("registrations", [&] {
      for (auto &R : registrations())
        J.value(json::Object{{"kind", R.kind}, {"name", R.name}, {"fn", R.fn ? R.fn->getName().str() : ""}, {"nargs", R.nargs}, {"loc", R.loc}, {"in", ""}});
    });
    J.attributeObject("globals", [&] {
      for (auto &G : M.globals()) {
        SmallVector<DIGlobalVariableExpression *> DG;
        G.getDebugInfo(DG);
        if (DG.empty()) {
          if (G.hasInitializer() && !G.getName().starts_with(".str") && !G.getName().starts_with("_ZTS") && !G.getName().starts_with("_ZTI")) {
            J.attributeObject(G.getName(), [&] { J.attribute("type", ""); J.attribute("const", G.isConstant()); J.attribute("ll", tyS(G.getValueType())); J.attribute("init", val(G.getInitializer())); });
          }
          continue;
        }
        auto *V = DG[0]->getVariable();
        if (!V->getFile() || !isRepoFile(V->getFile())) continue;
        J.attributeObject(G.getName(), [&] {
          J.attribute("name", V->getName());
          J.attribute("type", typeStr(V->getType()));
          J.attribute("pointee", ptrPointee(V->getType()));
          J.attribute("ll", tyS(G.getValueType()));
          J.attribute("size", (int64_t)M.getDataLayout().getTypeAllocSize(G.getValueType()));
          auto *Fi = V->getFile();
          std::string p = Fi->getFilename().starts_with("/") ? Fi->getFilename().str() : (Fi->getDirectory() + "/" + Fi->getFilename()).str();
          J.attribute("file", baseFile(p));
          J.attribute("line", (int64_t)V->getLine());
          J.attribute("const", G.isConstant());
          J.attribute("local", isa_and_nonnull<DILocalScope>(V->getScope()) && !isa<DIFile>(V->getScope()));
          J.attribute("decl", G.isDeclaration());
          if (G.hasInitializer()) J.attribute("init", val(G.getInitializer()));
        });
      }
    });
    J.attributeObject("decls", [&] {
      for (auto &F : M) if (!isRepoFunction(F) && !F.isIntrinsic() && !F.getName().starts_with("pscm.f0"))
        J.attributeObject(F.getName(), [&] { J.attribute("name", pretty(&F)); J.attribute("noreturn", F.doesNotReturn()); J.attribute("vararg", F.isVarArg()); });
    });
    J.attributeObject("funcs", [&] {
      for (auto &F : M) if (isRepoFunction(F)) function(F);
    });
    J.objectEnd();
  }
};
} // namespace
void dumpFacts(Module &M, raw_ostream &OS) { Dump D(M, OS); D.run(); }
