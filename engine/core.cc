#include "core.h"

std::string prettyFull(const Function *F) {
  return demangle(F->getName().str());
}
std::string pretty(const Function *F) {
  std::string s = demangle(F->getName().str());
  // cut the parameter list, respecting templates / operator()
  int depth = 0;
  size_t cut = std::string::npos;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (c == '<') depth++;
    else if (c == '>') depth--;
    else if (c == '(' && depth == 0) {
      if (s.compare(i, 2, "()") == 0 && i >= 8 && s.compare(i - 8, 8, "operator") == 0) { i++; continue; }
      if (s.compare(i, 21, "(anonymous namespace)") == 0) { i += 20; continue; }
      cut = i;
      break;
    }
  }
  if (cut != std::string::npos) s = s.substr(0, cut);
  return s;
}
static std::string g_root = [] { const char *e = getenv("PSCM_REPO"); return std::string(e ? e : "/repo") + "/"; }();
std::string baseFile(StringRef p) {
  std::string s = p.str();
  if (s.rfind(g_root, 0) == 0) return s.substr(g_root.size());
  return s;
}
static std::string fullPath(const DIFile *F) {
  if (!F) return "";
  StringRef fn = F->getFilename();
  if (fn.starts_with("/")) return fn.str();
  return (F->getDirectory() + "/" + fn).str();
}
bool isRepoFile(const DIFile *F) {
  std::string p = fullPath(F);
  return p.rfind(g_root, 0) == 0;
}
bool isRepoFunction(const Function &F) {
  if (F.isDeclaration()) return false;
  auto *SP = F.getSubprogram();
  return SP && isRepoFile(SP->getFile());
}
std::string locOf(const Instruction *I) {
  if (!I) return "?";
  DILocation *L = I->getDebugLoc();
  if (!L) {
    auto *SP = I->getFunction()->getSubprogram();
    if (SP) return baseFile(fullPath(SP->getFile())) + ":" + std::to_string(SP->getLine());
    return "?";
  }
  return baseFile(fullPath(L->getFile())) + ":" + std::to_string(L->getLine());
}
std::string chainOf(const Instruction *I) {
  std::string s;
  DILocation *L = I->getDebugLoc();
  if (!L) return locOf(I);
  for (; L; L = L->getInlinedAt()) {
    auto *SP = L->getScope()->getSubprogram();
    if (!s.empty()) s += " <- ";
    s += (SP ? SP->getName().str() : std::string("?")) + " at " + baseFile(fullPath(L->getFile())) + ":" + std::to_string(L->getLine());
  }
  return s;
}
DISubprogram *inlineScope(const Instruction *I) {
  DILocation *L = I->getDebugLoc();
  if (!L) return I->getFunction()->getSubprogram();
  return L->getScope()->getSubprogram();
}
DIType *stripTypedefs(DIType *T) {
  while (T) {
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      auto t = D->getTag();
      if (t == dwarf::DW_TAG_typedef || t == dwarf::DW_TAG_const_type || t == dwarf::DW_TAG_volatile_type ||
          t == dwarf::DW_TAG_member || t == dwarf::DW_TAG_restrict_type) {
        T = D->getBaseType();
        continue;
      }
    }
    break;
  }
  return T;
}
static std::string scopedName(DIType *T) {
  std::string n = T->getName().str();
  if (auto *P = dyn_cast_or_null<DIType>(T->getScope())) return scopedName(P) + "::" + n;
  return n;
}
std::string ptrPointee(DIType *T) {
  T = stripTypedefs(T);
  if (auto *D = dyn_cast_or_null<DIDerivedType>(T)) {
    if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type) {
      DIType *B = stripTypedefs(D->getBaseType());
      if (!B) return "void";
      if (auto *C = dyn_cast<DICompositeType>(B)) return scopedName(C);
      if (auto *BT = dyn_cast<DIBasicType>(B)) return BT->getName().str();
      if (auto *D2 = dyn_cast<DIDerivedType>(B)) {
        std::string in = ptrPointee(D2);
        return in + "*";
      }
      return "fn";
    }
  }
  return "";
}
std::string typeStr(DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return typeStr(D->getBaseType()) + "*";
    case dwarf::DW_TAG_reference_type: return typeStr(D->getBaseType()) + "&";
    case dwarf::DW_TAG_typedef:
      return D->getName().str();
    case dwarf::DW_TAG_const_type: return "const " + typeStr(D->getBaseType());
    default: return typeStr(D->getBaseType());
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = typeStr(C->getBaseType());
      for (auto *E : C->getElements())
        if (auto *R = dyn_cast<DISubrange>(E))
          if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount())) s += "[" + std::to_string(CI->getSExtValue()) + "]";
      return s;
    }
    return scopedName(C);
  }
  if (auto *S = dyn_cast<DISubroutineType>(T)) {
    std::string s;
    auto arr = S->getTypeArray();
    for (unsigned i = 0; i < arr.size(); i++) {
      if (i == 0) s = typeStr(arr[i]) + "(";
      else s += (i > 1 ? "," : "") + typeStr(arr[i]);
    }
    return s + ")";
  }
  return T->getName().str();
}

static Enums E_;
static std::vector<DICompositeType *> structs_;
Enums &enums() { return E_; }
const std::vector<DICompositeType *> &allStructs() { return structs_; }
DICompositeType *findStruct(StringRef name) {
  for (auto *C : structs_)
    if (scopedName(C) == name) return C;
  return nullptr;
}
static std::vector<Registration> regs_;
std::vector<Registration> &registrations() { return regs_; }

static std::string constStr(const Value *V) {
  V = V->stripPointerCasts();
  if (auto *G = dyn_cast<GlobalVariable>(V))
    if (G->hasInitializer())
      if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer()))
        if (D->isCString()) return D->getAsCString().str();
  return "";
}

void initDebugInfo(Module &M) {
  DebugInfoFinder DF;
  DF.processModule(M);
  std::set<std::string> seen;
  for (auto *T : DF.types())
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
        std::string n = scopedName(C);
        for (auto *El : C->getElements())
          if (auto *En = dyn_cast<DIEnumerator>(El)) {
            if (n == "SCM::Type") {
              E_.scm[En->getName().str()] = En->getValue().getSExtValue();
              E_.scmName[En->getValue().getSExtValue()] = En->getName().str();
            }
            if (n == "TypeTag") E_.tag[En->getName().str()] = En->getValue().getSExtValue();
          }
      }
      if ((C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_class_type) && !C->isForwardDecl()) {
        std::string n = scopedName(C);
        if (C->getFile() && isRepoFile(C->getFile()) && seen.insert(n).second) structs_.push_back(C);
      }
    }
  // registrations of builtins (before any inlining)
  for (auto &F : M) {
    if (F.isDeclaration()) continue;
    for (auto &I : instructions(F))
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        Function *C = CB->getCalledFunction();
        if (!C) continue;
        std::string d = prettyFull(C);
        Registration R;
        R.cb = CB;
        R.loc = locOf(&I);
        auto fnArg = [&](unsigned i) { return dyn_cast<Function>(CB->getArgOperand(i)->stripPointerCasts()); };
        if (d.find("scm_define_function<") != std::string::npos) {
          R.kind = "fixed";
          R.name = constStr(CB->getArgOperand(0));
          auto *ci = dyn_cast<ConstantInt>(CB->getArgOperand(1));
          R.nargs = ci ? (int)ci->getSExtValue() : -99;
          R.fn = fnArg(4);
        } else if (d.find("scm_define_vararg_function<") != std::string::npos) {
          R.kind = "vararg"; R.name = constStr(CB->getArgOperand(0)); R.nargs = -2; R.fn = fnArg(1);
        } else if (d.find("scm_define_generic_function<") != std::string::npos) {
          R.kind = "generic"; R.name = constStr(CB->getArgOperand(0)); R.nargs = -1; R.fn = fnArg(1);
        } else if (pretty(C) == "scm_c_define_gsubr") {
          R.kind = "gsubr"; R.name = constStr(CB->getArgOperand(0));
          auto *ci = dyn_cast<ConstantInt>(CB->getArgOperand(1));
          R.nargs = ci ? (int)ci->getSExtValue() : -99; R.fn = fnArg(4);
        } else continue;
        regs_.push_back(R);
      }
  }
}
