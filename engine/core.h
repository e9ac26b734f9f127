// Shared helpers of the pscm static analyser: module loading, debug-info lookups.
#pragma once
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/DenseSet.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/Analysis/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/LowerInvoke.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;

std::string pretty(const Function *F);           // demangled name, without parameter list
std::string prettyFull(const Function *F);       // demangled, with parameters
std::string baseFile(StringRef path);            // path below /repo
bool isRepoFile(const DIFile *F);
bool isRepoFunction(const Function &F);          // defined in /repo sources
std::string locOf(const Instruction *I);         // file:line (innermost)
std::string chainOf(const Instruction *I);       // "f at file:line <- g at file:line"
DIType *stripTypedefs(DIType *T);                // strips typedefs/const/volatile/member
std::string ptrPointee(DIType *T);               // name of pointee struct for T*, else ""
std::string typeStr(DIType *T);
DISubprogram *inlineScope(const Instruction *I); // subprogram the instruction was written in

struct Enums {
  std::map<std::string, int64_t> scm;   // SCM::Type enumerators
  std::map<std::string, int64_t> tag;   // TypeTag enumerators
  std::map<int64_t, std::string> scmName;
};
Enums &enums();
void initDebugInfo(Module &M);
DICompositeType *findStruct(StringRef name);
const std::vector<DICompositeType *> &allStructs();
void dumpFacts(Module &M, raw_ostream &OS);      // facts.cc
int runEngine(Module &M, const std::string &out, int verbose, const std::string &only); // engine.cc

struct Registration { std::string kind, name; Function *fn; int nargs; std::string loc; const CallBase *cb; };
std::vector<Registration> &registrations();
