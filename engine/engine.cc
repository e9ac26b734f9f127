// Interprocedural, path-sensitive abstract interpreter over the SSA form of the program.
// Obligations (decided at every instruction of every function, lifted to callers as clauses when they
// depend on the caller):
//   null   an address that is accessed is not null
//   kind   a value's payload is only used as the structure its type says it is
//   assert an assertion is never reached with its condition false
//   div    integer divisor non-zero, and INT_MIN is not divided by -1
//   index  element accesses of bounded objects are in range
//   ret    builtins return a value
#include "core.h"

// Values ordered by their position in the program, so that no result depends on where they lie in memory.
static DenseMap<const Value *, unsigned> valueNo;
static void numberValues(Module &M) {
  unsigned n = 0;
  for (auto &G : M.globals()) valueNo[&G] = n++;
  for (auto &F : M) {
    valueNo[&F] = n++;
    for (auto &A : F.args()) valueNo[&A] = n++;
    for (auto &B : F) { valueNo[&B] = n++; for (auto &I : B) valueNo[&I] = n++; }
  }
}
struct ById {
  bool operator()(const Value *a, const Value *b) const {
    if (a == b) return false;
    auto i = valueNo.find(a), j = valueNo.find(b);
    if (i == valueNo.end() || j == valueNo.end()) { errs() << "pscmlint: value without a number\n"; abort(); }
    return i->second < j->second;
  }
};

namespace {

typedef int Term;

enum TK : uint8_t { T_CONST, T_GLOBAL, T_ALLOCA, T_ARG, T_LEAF, T_FIELD, T_IDX, T_LOAD, T_BIN, T_CMP, T_CAST, T_RET, T_KILL };

struct TD {
  TK k;
  int a = -1, b = -1;       // sub-terms
  const void *p = nullptr;  // entity: instruction, global, struct type, ...
  int64_t c = 0;            // constant / field index / opcode / tag
  uint8_t bits = 64;        // integer width (0 = pointer)
  bool operator==(const TD &o) const { return k == o.k && a == o.a && b == o.b && p == o.p && c == o.c && bits == o.bits; }
};
struct TDHash {
  size_t operator()(const TD &t) const {
    size_t h = t.k * 1000003u + (size_t)t.a * 31337u + (size_t)t.b * 7919u;
    h ^= (size_t)t.p * 0x9E3779B97F4A7C15ull;
    h ^= (size_t)t.c * 0xC2B2AE3D27D4EB4Full + t.bits;
    return h ^ (h >> 29);
  }
};

std::vector<TD> terms;
std::unordered_map<TD, Term, TDHash> termIndex;
std::vector<uint8_t> termDepth;

Term mk(const TD &t) {
  auto it = termIndex.find(t);
  if (it != termIndex.end()) return it->second;
  Term id = terms.size();
  terms.push_back(t);
  termIndex[t] = id;
  int d = 0;
  if (t.a >= 0) d = std::max(d, (int)termDepth[t.a]);
  if (t.b >= 0) d = std::max(d, (int)termDepth[t.b]);
  termDepth.push_back(std::min(d + 1, 250));
  return id;
}
Term mkConst(int64_t v, int bits) { TD t{T_CONST}; t.c = v; t.bits = bits; return mk(t); }
Term mkNull() { return mkConst(0, 0); }
Term mkKill() { TD t{T_KILL}; return mk(t); }
Term mkLeaf(const void *p, int64_t tag, int bits) { TD t{T_LEAF}; t.p = p; t.c = tag; t.bits = bits; return mk(t); }
Term mkGlobal(const void *p) { TD t{T_GLOBAL}; t.p = p; t.bits = 0; return mk(t); }
Term mkArg(const Argument *A, int bits) { TD t{T_ARG}; t.p = nullptr; t.c = A->getArgNo(); t.bits = bits; return mk(t); }

struct StructInfo { std::string name; };
std::map<const StructType *, std::string> stNames;
std::string cleanStructName(std::string n);
std::string stName(const void *p) {
  auto *S = (const StructType *)p;
  auto it = stNames.find(S);
  if (it != stNames.end()) return it->second;
  return stNames[S] = cleanStructName(S->hasName() ? S->getName().str() : "anon");
}
std::string cleanStructName(std::string n) {
  if (n.rfind("struct.", 0) == 0) n = n.substr(7);
  if (n.rfind("class.", 0) == 0) n = n.substr(6);
  // drop numeric suffix added by the linker (struct.SCM.12)
  size_t d = n.rfind('.');
  if (d != std::string::npos && d + 1 < n.size() && n.find_first_not_of("0123456789", d + 1) == std::string::npos) n = n.substr(0, d);
  return n;
}
// canonical interned struct name so that linker duplicates unify
std::map<std::string, const std::string *> internedNames;
const std::string *internName(const std::string &s) {
  auto it = internedNames.find(s);
  if (it != internedNames.end()) return it->second;
  auto *n = new std::string(s);
  internedNames[s] = n;
  return n;
}
std::map<std::string, DICompositeType *> diByName;
std::string fieldName(const std::string &S, int idx) {
  auto it = diByName.find(S);
  if (it == diByName.end()) {
    DICompositeType *C = findStruct(S);
    it = diByName.insert({S, C}).first;
  }
  if (!it->second) return "f" + std::to_string(idx);
  int i = 0;
  for (auto *E : it->second->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
        if (i == idx) return D->getName().str();
        i++;
      }
  return "f" + std::to_string(idx);
}
DIType *fieldType(const std::string &S, int idx) {
  DICompositeType *C = findStruct(S);
  if (!C) return nullptr;
  int i = 0;
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
        if (i == idx) return D->getBaseType();
        i++;
      }
  return nullptr;
}
int fieldIdx(const std::string &S, const std::string &f) {
  DICompositeType *C = findStruct(S);
  if (!C) return -1;
  int i = 0;
  for (auto *E : C->getElements())
    if (auto *D = dyn_cast<DIDerivedType>(E))
      if (D->getTag() == dwarf::DW_TAG_member && !D->isStaticMember()) {
        if (D->getName() == f) return i;
        i++;
      }
  return -1;
}

Term mkField(Term base, const std::string *S, int idx) {
  TD t{T_FIELD};
  t.a = base; t.p = S; t.c = idx; t.bits = 0;
  return mk(t);
}
Term mkLoad(Term addr, int ver, int bits) {
  TD t{T_LOAD};
  t.a = addr; t.b = ver; t.bits = bits;
  return mk(t);
}

// --- intervals ---------------------------------------------------------------------------------
struct IV {
  int64_t lo = INT64_MIN, hi = INT64_MAX;
  uint64_t mask = 0;   // admissible values when useMask (all in 0..63)
  bool useMask = false;
  bool nz = false;
  bool operator==(const IV &o) const { return lo == o.lo && hi == o.hi && useMask == o.useMask && (!useMask || mask == o.mask) && nz == o.nz; }
  bool top() const { return lo == INT64_MIN && hi == INT64_MAX && !useMask && !nz; }
  bool empty() const { return lo > hi || (useMask && mask == 0) || (nz && lo == 0 && hi == 0); }
  bool isConst() const { return lo == hi; }
  bool maybeZero() const { return !nz && lo <= 0 && hi >= 0; }
  void norm() {
    if (nz && lo == 0 && hi != INT64_MIN) { if (lo == hi) { lo = 1; hi = 0; return; } lo = 1; }
    if (nz && hi == 0) hi = -1;
    if (!useMask && lo >= 0 && hi <= 63 && lo <= hi) {
      useMask = true;
      mask = 0;
      for (int64_t i = lo; i <= hi; i++) mask |= 1ull << i;
    }
    if (useMask) {
      if (nz) mask &= ~1ull;
      for (int i = 0; i < 64; i++)
        if ((mask >> i & 1) && (i < lo || i > hi)) mask &= ~(1ull << i);
      if (!mask) { lo = 1; hi = 0; return; }
      lo = std::max<int64_t>(lo, __builtin_ctzll(mask));
      hi = std::min<int64_t>(hi, 63 - __builtin_clzll(mask));
      if (!(mask & 1)) nz = true;
    }
    if (lo > 0 || hi < 0) nz = true;
  }
};
IV ivConst(int64_t c) { IV v; v.lo = v.hi = c; v.nz = c != 0; v.norm(); return v; }
IV ivMask(uint64_t m) { IV v; v.lo = 0; v.hi = 63; v.useMask = true; v.mask = m; v.norm(); return v; }
IV ivNZ() { IV v; v.nz = true; return v; }
IV ivRange(int64_t lo, int64_t hi) { IV v; v.lo = lo; v.hi = hi; v.norm(); return v; }
IV meet(IV a, const IV &b) {
  a.lo = std::max(a.lo, b.lo);
  a.hi = std::min(a.hi, b.hi);
  a.nz |= b.nz;
  if (b.useMask) {
    if (a.useMask) a.mask &= b.mask;
    else { a.useMask = true; a.mask = b.mask; }
  }
  a.norm();
  return a;
}
IV joinIV(const IV &a, const IV &b) {
  if (a.empty()) return b;
  if (b.empty()) return a;
  IV r;
  r.lo = std::min(a.lo, b.lo);
  r.hi = std::max(a.hi, b.hi);
  r.nz = a.nz && b.nz;
  if (a.useMask && b.useMask) { r.useMask = true; r.mask = a.mask | b.mask; }
  r.norm();
  return r;
}
bool leq(const IV &a, const IV &b) {  // a included in b
  if (a.empty()) return true;
  if (a.lo < b.lo || a.hi > b.hi) return false;
  if (b.nz && a.maybeZero()) return false;
  if (b.useMask) {
    if (!a.useMask) return false;
    if (a.mask & ~b.mask) return false;
  }
  return true;
}
int64_t satAdd(int64_t a, int64_t b) {
  int64_t r;
  if (__builtin_add_overflow(a, b, &r)) return a > 0 ? INT64_MAX : INT64_MIN;
  return r;
}
int64_t satMul(int64_t a, int64_t b) {
  int64_t r;
  if (__builtin_mul_overflow(a, b, &r)) return ((a > 0) == (b > 0)) ? INT64_MAX : INT64_MIN;
  return r;
}
IV widthRange(int bits) {
  if (bits <= 0 || bits >= 64) return IV();
  if (bits == 1) return ivRange(0, 1);
  return ivRange(-(1ll << (bits - 1)), (1ll << (bits - 1)) - 1);
}

// --- domain tables ------------------------------------------------------------------------------
// Value types whose payload is a pointer to a structure, keyed by the structure.
std::map<std::string, uint64_t> kindMask;       // struct name -> admissible SCM::Type values
uint64_t ptrTypes = 0, allTypes = 0;
int64_t tyNIL = -1;
uint64_t numMask = 0;   // types whose payload is an integer
int fSCMtype = 0, fSCMvalue = 1;

struct FieldKey { const std::string *S; int f; bool operator<(const FieldKey &o) const { return S < o.S || (S == o.S && f < o.f); } };
// Fields that may change behind a caller's back: loads are versioned and calls may havoc them.
bool isUnstableStruct(const std::string &S) {
  static const std::set<std::string> un = {"SCM_Port", "SCM_Promise", "SCM_Variable", "SCM_Module", "SCM_HashTable", "SCM_Environment",
                                           "Parser", "catch_info", "jmp_buf_and_retval", "EvalStackFrame"};
  // anything that is not one of the immutable-shape structures below is treated as unstable
  static const std::set<std::string> st = {"SCM", "SCM_List", "SCM_Vector", "SCM_String", "SCM_Symbol", "SCM_Procedure", "SCM_Function",
                                           "SCM_Rational", "SCM_Macro", "SCM_Continuation", "SCM_SourceLocation", "SCM_Smob", "SCM_SmobDescriptor"};
  if (un.count(S)) return true;
  return !st.count(S);
}
// fields that are set when the object is made and never again
bool isUnstableField(const std::string &S, int f) {
  static std::map<std::pair<std::string, int>, bool> memo;
  auto it = memo.find({S, f});
  if (it != memo.end()) return it->second;
  bool r = isUnstableStruct(S);
  if (S == "SCM") r = fieldName(S, f) == "source_loc";
  if (S == "SCM_HashTable") { std::string n = fieldName(S, f); if (n == "capacity" || n == "buckets") r = false; }
  if (S == "SCM_Module") { std::string n = fieldName(S, f); if (n == "obarray") r = false; }
  if (S == "SCM_Port") { std::string n = fieldName(S, f); if (n == "soft_procedures" || n == "string_data" || n == "port_type" || n == "is_input") r = false; }
  return memo[{S, f}] = r;
}
// Declared representation invariants (assumed on loads; the stores that establish them are checked in rule "inv").
std::set<std::pair<std::string, std::string>> nonNullFields = {
    {"SCM_List", "data"},      {"SCM_Symbol", "data"},     {"SCM_String", "data"},   {"SCM_Procedure", "body"}, {"SCM_Procedure", "env"},
    {"SCM_Function", "name"},  {"SCM_Macro", "transformer"}, {"SCM_Macro", "name"}, {"SCM_Macro", "env"}, {"SCM_Module", "obarray"},
    {"SCM_Environment::Entry", "key"}, {"SCM_Environment::Entry", "value"}, {"SCM_HashTable", "buckets"}, {"SCM_Promise", "thunk"},
    {"Parser", "pos"}, {"Parser", "input"}, {"SCM_Function","func_ptr"}, {"SCM_SourceLocation","filename"},
    {"catch_info", "tag"}, {"catch_info", "jbr"}, {"lazy_catch_data", "tag"}, {"lazy_catch_data", "handler"}, {"SCM_Continuation", "stack_src"},
    {"scm_t_debug_option", "name"}, {"scm_t_read_option", "name"}, {"SCM_Promise", "value"}, {"SCM_Port", "string_data"}, {"SCM_Port", "output_buffer"},
};
std::set<std::pair<std::string, std::string>> nonNegFields = {
    {"SCM_Vector", "length"}, {"SCM_HashTable", "capacity"}, {"SCM_String", "len"}, {"SCM_Symbol", "len"}, {"SCM_HashTable", "size"},
    {"SCM_Port","string_len"},{"SCM_Port","string_pos"},{"SCM_Port","output_len"},{"SCM_Port","output_capacity"}};
// ranges, established at every store
struct RangeSpec { int64_t lo, hi; };
std::map<std::pair<std::string, std::string>, RangeSpec> fieldRange = {
    {{"SCM_HashTable", "capacity"}, {1, INT64_MAX / 4}},
    {{"SCM_Smob", "tag"}, {0x1000000, 0x1000000 + 255}},
};
// arrays that are absent only when they have no elements, and whose elements are values
std::set<std::pair<std::string, std::string>> valueArrays = {{"SCM_Vector", "elements"}};
bool isValueArrayElem(Term addr) {
  const TD &t = terms[addr];
  Term base = t.k == T_IDX ? t.a : addr;
  const TD &b = terms[base];
  if (b.k != T_LOAD || terms[b.a].k != T_FIELD) return false;
  const std::string &S = *(const std::string *)terms[b.a].p;
  return valueArrays.count({S, fieldName(S, terms[b.a].c)});
}
struct BoundSpec { std::string lenField; int64_t slack; };
std::map<std::pair<std::string, std::string>, BoundSpec> boundTable = {
    {{"SCM_Vector", "elements"}, {"length", 0}},
    {{"SCM_HashTable", "buckets"}, {"capacity", 0}},
    {{"SCM_String", "data"}, {"len", 1}},
    {{"SCM_Symbol", "data"}, {"len", 1}},
};

const std::string *sSCM;

// Global-variable invariants (never negative / set at start-up and never null again): assumed on loads, checked on
// every store; a variable whose stores do not establish it is dropped and the analysis is repeated.
std::set<const GlobalVariable *, ById> gNonNeg, gNonNull, gBad, gMono;
std::map<const GlobalVariable *, int64_t, ById> gMax;
std::map<const Function *, std::set<Function *, ById>, ById> indOut;
// functions whose contract is to hand back a value: assumed at calls, checked at their exits (rule ret)
bool nonNullRet(const Function *F);
// what a function-local static value refers to once it is set: kind, and payload when that is a constant
struct KindSpec { uint64_t mask; bool hasVal; int64_t v; };
std::map<const GlobalVariable *, KindSpec, ById> gKind;
std::map<const GlobalVariable *, Function *, ById> staticOwner;
IV loadDefault(Term addr, int bits) {
  IV v = widthRange(bits);
  const TD &t = terms[addr];
  if (t.k == T_GLOBAL) {
    auto n = ((const GlobalValue *)t.p)->getName();
    if (n == "stdout" || n == "stderr" || n == "stdin") return ivNZ();
    auto *GV = (const GlobalVariable *)t.p;
    if (gNonNeg.count(GV)) { auto mx = gMax.find(GV); return meet(v, ivRange(0, mx == gMax.end() ? INT64_MAX : mx->second)); }
    if (gNonNull.count(GV) && bits == 0) return ivNZ();
  }
  if (t.k == T_FIELD) {
    const std::string &S = *(const std::string *)t.p;
    if (S == "SCM" && terms[t.a].k == T_LOAD && terms[terms[t.a].a].k == T_GLOBAL) {
      auto gk = gKind.find((const GlobalVariable *)terms[terms[t.a].a].p);
      if (gk != gKind.end()) {
        if (t.c == fSCMtype) return ivMask(gk->second.mask);
        if (t.c == fSCMvalue && gk->second.hasVal) return ivConst(gk->second.v);
      }
    }
    if (S == "SCM" && t.c == fSCMtype) return ivMask(allTypes);
    std::pair<std::string, std::string> key(S, fieldName(S, t.c));
    if (nonNullFields.count(key)) v = meet(v, ivNZ());
    if (nonNegFields.count(key)) v = meet(v, ivRange(0, INT64_MAX / 4));
    auto fr = fieldRange.find(key);
    if (fr != fieldRange.end()) v = meet(v, ivRange(fr->second.lo, fr->second.hi));
    if (valueArrays.count(key)) v = meet(v, ivNZ());
    if (S == "SCM_Rational" && key.second == "denominator") v = meet(v, ivRange(1, INT64_MAX));
  }
  if (bits == 0 && isValueArrayElem(addr)) v = meet(v, ivNZ());
  return v;
}

// --- state ---------------------------------------------------------------------------------------
typedef std::pair<Term, Term> TP;
struct State {
  std::map<const Value *, Term, ById> env;
  std::map<Term, Term> mem;               // address -> value
  std::map<std::pair<const void *, int>, int> ver;  // key -> version leaf term
  int allVer = -1;                        // version for keys without entry (after total havoc)
  std::map<Term, IV> facts;
  std::map<TP, int64_t> diffs;            // a - b <= c
  std::map<Term, Term> objSize;           // allocation leaf -> size in bytes
  std::set<Term> zeroed;                  // base terms of zero-initialised objects
  bool dead = false;
};

std::pair<const void *, int> keyOf(Term addr) {
  const TD &t = terms[addr];
  switch (t.k) {
  case T_FIELD: return {t.p, (int)t.c};
  case T_GLOBAL: return {t.p, -1};
  case T_ALLOCA: return {t.p, -2};
  case T_IDX: {
    // element of whatever the base is
    const TD &b = terms[t.a];
    if (b.k == T_FIELD || b.k == T_GLOBAL || b.k == T_ALLOCA) { auto k = keyOf(t.a); return {k.first, k.second - 100}; }
    return {nullptr, (int)t.bits};
  }
  default: return {nullptr, -3};
  }
}
bool stableKey(Term addr) {
  const TD &t = terms[addr];
  if (t.k == T_FIELD) return !isUnstableField(*(const std::string *)t.p, t.c);
  if (t.k == T_GLOBAL) return false;
  if (t.k == T_IDX) {
    const TD &b = terms[t.a];
    if (b.k == T_GLOBAL) return false;
    if (b.k == T_FIELD) return !isUnstableStruct(*(const std::string *)b.p);
    if (b.k == T_LOAD && b.a >= 0 && terms[b.a].k == T_FIELD) return !isUnstableStruct(*(const std::string *)terms[b.a].p);
    return true;
  }
  return true;
}
Term rootOf(Term addr) {
  while (true) {
    const TD &t = terms[addr];
    if (t.k == T_FIELD || t.k == T_IDX) addr = t.a;
    else return addr;
  }
}

IV val(const State &S, Term t, int depth = 0);

bool boolCmp(const State &S, const TD &t, IV &out, int depth);

void lin(Term t, Term &base, int64_t &off) {
  off = 0;
  while (terms[t].k == T_BIN && terms[t].c == Instruction::Add && terms[terms[t].b].k == T_CONST) {
    off = satAdd(off, terms[terms[t].b].c);
    t = terms[t].a;
  }
  base = t;
}
const int64_t NOB = INT64_MAX;
// upper bound of a - b
int64_t upperDiff(const State &S, Term a, Term b, int depth = 0) {
  Term ba, bb;
  int64_t oa, ob;
  lin(a, ba, oa);
  lin(b, bb, ob);
  if (ba == bb) return satAdd(oa, -ob);
  int64_t best = NOB;
  // Bellman-Ford restricted to diffs
  if (!S.diffs.empty()) {
    std::map<Term, int64_t> dist;
    dist[ba] = 0;
    for (int it = 0; it < 4; it++) {
      bool ch = false;
      for (auto &d : S.diffs) {
        auto f = dist.find(d.first.first);
        if (f == dist.end()) continue;
        int64_t nd = satAdd(f->second, d.second);
        auto g = dist.find(d.first.second);
        if (g == dist.end() || nd < g->second) { dist[d.first.second] = nd; ch = true; }
      }
      if (!ch) break;
    }
    for (auto &kv : dist) {
      if (kv.first == bb) best = std::min(best, kv.second);
      else if (depth < 2) {
        IV x = val(S, kv.first, 3), y = val(S, bb, 3);
        if (x.hi != INT64_MAX && y.lo != INT64_MIN) best = std::min(best, satAdd(kv.second, satAdd(x.hi, -y.lo)));
        if (terms[kv.first].k == T_CONST) {}
      }
    }
    // structural: base is a min-like / rem result etc. is covered by intervals
  }
  IV x = val(S, ba, 2), y = val(S, bb, 2);
  if (x.hi != INT64_MAX && y.lo != INT64_MIN) best = std::min(best, satAdd(x.hi, -y.lo));
  // a = x rem/urem n  => a <= n - 1
  const TD &ta = terms[ba];
  if (ta.k == T_BIN && (ta.c == Instruction::URem || ta.c == Instruction::SRem)) {
    IV d = val(S, ta.b, 2);
    if (d.lo > 0 && depth < 2) {
      int64_t u = upperDiff(S, ta.b, bb, depth + 1);
      if (u != NOB) best = std::min(best, satAdd(u, -1));
    }
  }
  // a = x - y with y >= 0 : a <= x
  if (ta.k == T_BIN && ta.c == Instruction::Sub && depth < 3) {
    IV d = val(S, ta.b, 2);
    if (d.lo != INT64_MIN) {
      int64_t u = upperDiff(S, ta.a, bb, depth + 1);
      if (u != NOB) best = std::min(best, satAdd(u, -d.lo));
    }
  }
  // a - (x - y), with y <= k
  const TD &tb = terms[bb];
  if (tb.k == T_BIN && tb.c == Instruction::Sub && depth < 3) {
    // a - x + y
    IV d = val(S, tb.b, 2);
    if (d.hi != INT64_MAX) {
      int64_t u = upperDiff(S, ba, tb.a, depth + 1);
      if (u != NOB) best = std::min(best, satAdd(u, d.hi));
    }
  }
  // a = x / k with x>=0, k>=1 : a <= x
  if (ta.k == T_BIN && (ta.c == Instruction::SDiv || ta.c == Instruction::UDiv) && depth < 3) {
    IV d = val(S, ta.b, 2), n = val(S, ta.a, 2);
    if (d.lo >= 1 && n.lo >= 0) {
      int64_t u = upperDiff(S, ta.a, bb, depth + 1);
      if (u != NOB) best = std::min(best, u);
    }
  }
  // b = x + y  with y >= 0
  if (tb.k == T_BIN && tb.c == Instruction::Add && depth < 3) {
    for (int s = 0; s < 2; s++) {
      Term x1 = s ? tb.b : tb.a, y1 = s ? tb.a : tb.b;
      IV d = val(S, y1, 2);
      if (d.lo != INT64_MIN) {
        int64_t u = upperDiff(S, ba, x1, depth + 1);
        if (u != NOB) best = std::min(best, satAdd(u, -d.lo));
      }
    }
  }
  if (ta.k == T_BIN && ta.c == Instruction::Add && depth < 3) {
    for (int s = 0; s < 2; s++) {
      Term x1 = s ? ta.b : ta.a, y1 = s ? ta.a : ta.b;
      IV d = val(S, y1, 2);
      if (d.hi != INT64_MAX) {
        int64_t u = upperDiff(S, x1, bb, depth + 1);
        if (u != NOB) best = std::min(best, satAdd(u, d.hi));
      }
    }
    // x + (y - x) style cancellation
    for (int s = 0; s < 2; s++) {
      Term x1 = s ? ta.b : ta.a, y1 = s ? ta.a : ta.b;
      const TD &ty = terms[y1];
      if (ty.k == T_BIN && ty.c == Instruction::Sub && ty.b == x1) {
        int64_t u = upperDiff(S, ty.a, bb, depth + 1);
        if (u != NOB) best = std::min(best, u);
      }
    }
  }
  if (best == NOB) return NOB;
  return satAdd(best, satAdd(oa, -ob));
}

IV val(const State &S, Term t, int depth) {
  const TD &d = terms[t];
  IV v;
  switch (d.k) {
  case T_CONST: return ivConst(d.c);
  case T_GLOBAL: case T_ALLOCA: v = ivNZ(); break;
  case T_LOAD: v = loadDefault(d.a, d.bits); break;
  case T_FIELD: {
    IV b = val(S, d.a, depth + 1);
    if (b.nz) v = ivNZ();
    else if (d.c == 0 && b.isConst() && b.lo == 0) v = ivConst(0);
    break;
  }
  case T_IDX: {
    IV b = val(S, d.a, depth + 1);
    if (b.nz) v = ivNZ();
    break;
  }
  case T_CMP: v = ivRange(0, 1); { IV o; if (depth < 3 && boolCmp(S, d, o, depth + 1)) v = o; } break;
  case T_BIN: {
    v = widthRange(d.bits);
    if (depth < 6) {
      IV a = val(S, d.a, depth + 1), b = val(S, d.b, depth + 1);
      switch (d.c) {
      case Instruction::Add: {
        IV r = ivRange(satAdd(a.lo, b.lo), satAdd(a.hi, b.hi));
        if (a.lo == INT64_MIN || b.lo == INT64_MIN) r.lo = INT64_MIN;
        if (a.hi == INT64_MAX || b.hi == INT64_MAX) r.hi = INT64_MAX;
        r.useMask = false; r.norm();
        v = meet(v, r);
        break;
      }
      case Instruction::Sub: {
        IV r;
        r.lo = (a.lo == INT64_MIN || b.hi == INT64_MAX) ? INT64_MIN : satAdd(a.lo, -b.hi);
        r.hi = (a.hi == INT64_MAX || b.lo == INT64_MIN) ? INT64_MAX : satAdd(a.hi, b.lo == INT64_MIN ? INT64_MAX : -b.lo);
        if (depth < 2 && !S.diffs.empty()) {
          int64_t u = upperDiff(S, d.a, d.b, 2);
          if (u != NOB) r.hi = std::min(r.hi, u);
          u = upperDiff(S, d.b, d.a, 2);
          if (u != NOB && u != INT64_MIN) r.lo = std::max(r.lo, -u);
        }
        r.norm();
        v = meet(v, r);
        break;
      }
      case Instruction::Mul:
        if (a.lo >= 0 && b.lo >= 0) v = meet(v, ivRange(satMul(a.lo, b.lo), (a.hi == INT64_MAX || b.hi == INT64_MAX) ? INT64_MAX : satMul(a.hi, b.hi)));
        break;
      case Instruction::And:
        if (b.lo >= 0) v = meet(v, ivRange(0, b.hi));
        else if (a.lo >= 0) v = meet(v, ivRange(0, a.hi));
        break;
      case Instruction::Or:
        if (a.nz || b.nz) { if (d.bits == 1) v = ivConst(1); else v = meet(v, ivNZ()); }
        else if (a.isConst() && b.isConst() && a.lo == 0 && b.lo == 0) v = ivConst(0);
        break;
      case Instruction::Xor:
        if (d.bits == 1 && b.isConst() && b.lo != 0 && a.isConst()) v = ivConst(!a.lo);
        break;
      case Instruction::URem:
        if (b.lo > 0) v = meet(v, ivRange(0, b.hi == INT64_MAX ? INT64_MAX : b.hi - 1));
        break;
      case Instruction::SRem:
        if (b.lo > 0 && b.hi != INT64_MAX) v = meet(v, ivRange(a.lo >= 0 ? 0 : -(b.hi - 1), b.hi - 1));
        else if (a.lo >= 0) v = meet(v, ivRange(0, a.hi));
        break;
      case Instruction::SDiv: case Instruction::UDiv:
        if (a.lo >= 0 && b.lo > 0) v = meet(v, ivRange(0, a.hi));
        break;
      case Instruction::LShr:
        if (a.lo >= 0) v = meet(v, ivRange(0, a.hi));
        break;
      default: break;
      }
    }
    break;
  }
  case T_CAST: {
    v = widthRange(d.bits);
    if (d.c == Instruction::ZExt) {
      int sb = terms[d.a].bits;
      if (sb > 0 && sb < 63) v = ivRange(0, (1ll << sb) - 1);
    }
    if (d.c == Instruction::PtrToInt || d.c == Instruction::IntToPtr) {
      IV a = val(S, d.a, depth + 1);
      if (a.nz) v = meet(v, ivNZ());
      if (a.isConst()) v = meet(v, ivConst(a.lo));
    }
    break;
  }
  default: v = widthRange(d.bits); break;
  }
  auto it = S.facts.find(t);
  if (it != S.facts.end()) v = meet(v, it->second);
  // representation invariants linking a value's type and its payload
  if (d.k == T_LOAD && terms[d.a].k == T_FIELD && terms[d.a].p == sSCM && depth < 4) {
    Term x = terms[d.a].a;
    if (terms[d.a].c == fSCMvalue && !v.nz) {
      // payload pointer types always carry a payload
      auto m = S.mem.find(mkField(x, sSCM, fSCMtype));
      Term ty = m != S.mem.end() ? m->second : mkLoad(mkField(x, sSCM, fSCMtype), -1, 32);
      IV tv = val(S, ty, depth + 1);
      if (tv.useMask && (tv.mask & ~ptrTypes) == 0) v = meet(v, ivNZ());
      if (tv.useMask && tyNIL >= 0 && tv.mask == (1ull << tyNIL)) v = meet(v, ivConst(0));
    }
    if (terms[d.a].c == fSCMtype && tyNIL >= 0 && v.useMask && (v.mask >> tyNIL & 1) && (v.mask & ~(1ull << tyNIL))) {
      Term pv = mkLoad(mkField(x, sSCM, fSCMvalue), -1, 0);
      auto f = S.facts.find(pv);
      if (f != S.facts.end() && f->second.nz) v = meet(v, ivMask(v.mask & ~(1ull << tyNIL)));
      else if (f != S.facts.end() && f->second.isConst() && f->second.lo == 0) v = meet(v, ivMask(v.mask & ~ptrTypes));
    }
  }
  return v;
}

bool boolCmp(const State &S, const TD &t, IV &out, int depth) {
  IV a = val(S, t.a, depth), b = val(S, t.b, depth);
  auto T = [&](bool x) { out = ivConst(x ? 1 : 0); return true; };
  auto p = (CmpInst::Predicate)t.c;
  bool ptr = terms[t.a].bits == 0 || terms[t.b].bits == 0;
  if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
    bool eq = p == CmpInst::ICMP_EQ;
    if (t.a == t.b) return T(eq);
    IV m = meet(a, b);
    if (m.empty()) return T(!eq);
    if (a.isConst() && b.isConst()) return T((a.lo == b.lo) == eq);
    if (ptr) {
      // distinct allocations / globals
      TK ka = terms[t.a].k, kb = terms[t.b].k;
      if ((ka == T_GLOBAL || ka == T_ALLOCA) && (kb == T_GLOBAL || kb == T_ALLOCA)) return T(!eq);
      return false;
    }
    if (!S.diffs.empty() && depth < 3) {
      int64_t u = upperDiff(S, t.a, t.b, 1);
      if (u != NOB && u < 0) return T(!eq);
      int64_t w = upperDiff(S, t.b, t.a, 1);
      if (w != NOB && w < 0) return T(!eq);
    }
    return false;
  }
  bool uns = CmpInst::isUnsigned(p);
  if (uns && (a.lo < 0 || b.lo < 0)) return false;
  int64_t ab = NOB, ba = NOB;
  if (depth < 4) { ab = upperDiff(S, t.a, t.b, 1); ba = upperDiff(S, t.b, t.a, 1); }
  switch (p) {
  case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT:
    if (ab != NOB && ab < 0) return T(true);
    if (ba != NOB && ba <= 0) return T(false);
    break;
  case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE:
    if (ab != NOB && ab <= 0) return T(true);
    if (ba != NOB && ba < 0) return T(false);
    break;
  case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT:
    if (ba != NOB && ba < 0) return T(true);
    if (ab != NOB && ab <= 0) return T(false);
    break;
  case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE:
    if (ba != NOB && ba <= 0) return T(true);
    if (ab != NOB && ab < 0) return T(false);
    break;
  default: break;
  }
  return false;
}

void addFact(State &S, Term t, const IV &v) {
  if (S.dead) return;
  if (terms[t].k == T_CONST) {
    if (meet(ivConst(terms[t].c), v).empty()) S.dead = true;
    return;
  }
  IV cur = val(S, t);
  IV n = meet(cur, v);
  if (n.empty()) { S.dead = true; return; }
  if (!(n == cur)) {
    S.facts[t] = n;
    // a field-0 address or payload knowledge does not need propagation: val() recomputes it
    if (terms[t].k == T_BIN && terms[t].c == Instruction::Add && terms[terms[t].b].k == T_CONST) {
      int64_t c = terms[terms[t].b].c;
      IV w = ivRange(n.lo == INT64_MIN ? INT64_MIN : satAdd(n.lo, -c), n.hi == INT64_MAX ? INT64_MAX : satAdd(n.hi, -c));
      addFact(S, terms[t].a, w);
    }
    if (terms[t].k == T_FIELD && terms[t].c == 0) {
      if (n.isConst() && n.lo == 0) addFact(S, terms[t].a, ivConst(0));
      else if (n.nz) addFact(S, terms[t].a, ivNZ());
    }
    if (terms[t].k == T_CAST && (terms[t].c == Instruction::PtrToInt)) {
      if (n.nz) addFact(S, terms[t].a, ivNZ());
      else if (n.isConst() && n.lo == 0) addFact(S, terms[t].a, ivConst(0));
    }
  }
}
void addDiff(State &S, Term a, Term b, int64_t c) {  // a - b <= c
  Term ba, bb;
  int64_t oa, ob;
  lin(a, ba, oa);
  lin(b, bb, ob);
  c = satAdd(c, satAdd(ob, -oa));
  if (ba == bb) { if (c < 0) S.dead = true; return; }
  IV x = val(S, ba), y = val(S, bb);
  if (y.hi != INT64_MAX && satAdd(y.hi, c) < x.hi) addFact(S, ba, ivRange(INT64_MIN, satAdd(y.hi, c)));
  if (S.dead) return;
  if (x.lo != INT64_MIN && satAdd(x.lo, -c) > y.lo) addFact(S, bb, ivRange(satAdd(x.lo, -c), INT64_MAX));
  if (terms[ba].k == T_CONST || terms[bb].k == T_CONST) return;
  auto it = S.diffs.find({ba, bb});
  if (it == S.diffs.end()) { if (S.diffs.size() < 200) S.diffs[{ba, bb}] = c; }
  else it->second = std::min(it->second, c);
}

void assume(State &S, Term t, bool truth) {
  if (S.dead) return;
  const TD d = terms[t];
  if (d.k == T_CONST) { if ((d.c != 0) != truth) S.dead = true; return; }
  IV cur = val(S, t);
  if (cur.isConst()) { if ((cur.lo != 0) != truth) S.dead = true; if (d.k != T_CMP) return; }
  if (d.k == T_CAST && (d.c == Instruction::ZExt)) { assume(S, d.a, truth); return; }
  if (d.k == T_BIN && d.bits == 1) {
    if (d.c == Instruction::Xor && terms[d.b].k == T_CONST && terms[d.b].c != 0) { assume(S, d.a, !truth); addFact(S, t, ivConst(truth)); return; }
    if (d.c == Instruction::And && truth) { assume(S, d.a, true); assume(S, d.b, true); return; }
    if (d.c == Instruction::Or && !truth) { assume(S, d.a, false); assume(S, d.b, false); return; }
  }
  if (d.k == T_CMP) {
    auto p = (CmpInst::Predicate)d.c;
    if (!truth) p = CmpInst::getInversePredicate(p);
    Term a = d.a, b = d.b;
    if (terms[a].k == T_CONST && terms[b].k != T_CONST) { std::swap(a, b); p = CmpInst::getSwappedPredicate(p); }
    if (p == CmpInst::ICMP_EQ) {
      // nested boolean
      if (terms[b].k == T_CONST && (terms[a].k == T_CMP || terms[a].bits == 1)) { assume(S, a, terms[b].c != 0); return; }
      IV m = meet(val(S, a), val(S, b));
      if (m.empty()) { S.dead = true; return; }
      addFact(S, a, m);
      addFact(S, b, m);
      if (terms[b].k != T_CONST && terms[a].bits != 0 && !S.dead) { addDiff(S, a, b, 0); addDiff(S, b, a, 0); }
      if (terms[a].bits == 0 && terms[b].k != T_CONST) addFact(S, t, ivConst(truth));
      return;
    }
    if (p == CmpInst::ICMP_NE) {
      if (terms[b].k == T_CONST && (terms[a].k == T_CMP || terms[a].bits == 1)) { assume(S, a, terms[b].c == 0); return; }
      IV vb = val(S, b);
      if (vb.isConst()) {
        IV va = val(S, a);
        if (vb.lo == 0) addFact(S, a, ivNZ());
        else if (va.useMask && vb.lo >= 0 && vb.lo < 64) addFact(S, a, ivMask(va.mask & ~(1ull << vb.lo)));
        else if (va.lo == vb.lo && va.lo != INT64_MIN) addFact(S, a, ivRange(va.lo + 1, INT64_MAX));
        else if (va.hi == vb.lo && va.hi != INT64_MAX) addFact(S, a, ivRange(INT64_MIN, va.hi - 1));
        else if (terms[b].k == T_CONST) { S.facts[t] = ivConst(truth); }
      } else if (terms[a].bits != 0) {
        int64_t u = upperDiff(S, a, b);
        if (u == 0) addDiff(S, a, b, -1);
        int64_t w = upperDiff(S, b, a);
        if (w == 0) addDiff(S, b, a, -1);
        addFact(S, t, ivConst(truth));
      } else addFact(S, t, ivConst(truth));
      return;
    }
    if (CmpInst::isUnsigned(p)) {
      IV va = val(S, a), vb = val(S, b);
      bool lt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE;
      if (va.lo < 0 || vb.lo < 0) {
        // x u< C (C known non-negative): 0 <= x < C
        if (lt && vb.lo >= 0) { addFact(S, a, ivRange(0, INT64_MAX)); }
        else if (!lt && va.lo >= 0) { addFact(S, b, ivRange(0, INT64_MAX)); }
        else { if (!S.dead) S.facts[t] = ivConst(truth); return; }
      }
      if (S.dead) return;
    }
    switch (p) {
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: addDiff(S, a, b, -1); break;
    case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: addDiff(S, a, b, 0); break;
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: addDiff(S, b, a, -1); break;
    case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: addDiff(S, b, a, 0); break;
    default: addFact(S, t, ivConst(truth)); break;
    }
    return;
  }
  addFact(S, t, truth ? ivNZ() : ivConst(0));
}

// --- memory -----------------------------------------------------------------------------------------
int verOf(State &S, Term addr) {
  if (stableKey(addr)) return -1;
  auto k = keyOf(addr);
  auto it = S.ver.find(k);
  if (it != S.ver.end()) return it->second;
  return S.allVer;
}
bool rootedIn(Term addr, Term root) { return rootOf(addr) == root; }

Term doLoad(State &S, Term addr, int bits, const void *site) {
  auto it = S.mem.find(addr);
  if (it != S.mem.end()) {
    if (terms[it->second].bits == bits || terms[it->second].k == T_CONST) {
      if (terms[it->second].k == T_CONST && terms[it->second].bits != bits) return mkConst(terms[it->second].c, bits);
      return it->second;
    }
    if (bits != 0 && terms[it->second].bits != 0) return it->second;
  }
  // zero-initialised memory
  for (Term a = addr;;) {
    if (S.zeroed.count(a)) return mkConst(0, bits);
    const TD &t = terms[a];
    if (t.k == T_FIELD || t.k == T_IDX) a = t.a;
    else break;
  }
  // constant global arrays (string literals)
  Term v = mkLoad(addr, verOf(S, addr), bits);
  S.mem[addr] = v;
  return v;
}
bool mayAlias(Term a, Term b) {
  if (a == b) return true;
  Term ra = rootOf(a), rb = rootOf(b);
  TK ka = terms[ra].k, kb = terms[rb].k;
  if (ra != rb && (ka == T_ALLOCA || kb == T_ALLOCA || ka == T_GLOBAL || kb == T_GLOBAL)) {
    if ((ka == T_ALLOCA || ka == T_GLOBAL) && (kb == T_ALLOCA || kb == T_GLOBAL)) return false;
    if (ka == T_ALLOCA || kb == T_ALLOCA) return false; // locals whose address escapes are havocked at calls
  }
  auto qa = keyOf(a), qb = keyOf(b);
  if (qa != qb) return false;
  if (ra == rb && terms[a].k == T_IDX && terms[b].k == T_IDX && terms[a].a == terms[b].a) {
    // constant distinct indices
    if (terms[terms[a].b].k == T_CONST && terms[terms[b].b].k == T_CONST) return false;
    Term x, y; int64_t ox, oy;
    lin(terms[a].b, x, ox); lin(terms[b].b, y, oy);
    if (x == y && ox != oy) return false;
  }
  return true;
}
void doStore(State &S, Term addr, Term v, const Instruction *site) {
  bool st = stableKey(addr);
  if (!st || terms[addr].k == T_IDX) {
    auto k = keyOf(addr);
    std::vector<std::pair<Term, Term>> weak;
    for (auto it = S.mem.begin(); it != S.mem.end();) {
      if (it->first != addr && keyOf(it->first) == k && mayAlias(it->first, addr)) { weak.push_back(*it); it = S.mem.erase(it); }
      else ++it;
    }
    if (!st) {
      S.ver[k] = mkLeaf(site, 77, 0);
      // what may have been overwritten holds either the old or the new value
      if (terms[addr].k == T_FIELD && terms[v].bits != 65) {
        IV nv = val(S, v);
        for (auto &w : weak) {
          if (terms[w.first].k != T_FIELD || terms[w.second].bits == 65) continue;
          IV j = joinIV(val(S, w.second), nv);
          if (j.top()) continue;
          Term l = mkLoad(w.first, S.ver[k], terms[w.second].bits);
          addFact(S, l, j);
        }
      }
    }
  }
  S.mem[addr] = v;
}

// substitution over terms
struct Subst {
  std::unordered_map<Term, Term> m;
  std::function<Term(Term)> leafFn;  // for leaves not in m; return same term to keep
  std::unordered_map<Term, Term> memo;
  Term kill = mkKill();
  Term apply(Term t) {
    auto f = m.find(t);
    if (f != m.end()) return f->second;
    auto g = memo.find(t);
    if (g != memo.end()) return g->second;
    TD d = terms[t];
    Term r = t;
    switch (d.k) {
    case T_CONST: case T_GLOBAL: case T_KILL: break;
    case T_ALLOCA: case T_ARG: case T_LEAF: case T_RET:
      if (leafFn) r = leafFn(t);
      break;
    default: {
      TD n = d;
      bool ch = false, k = false;
      if (d.a >= 0) { n.a = apply(d.a); ch |= n.a != d.a; k |= n.a == kill; }
      if (d.b >= 0) { n.b = apply(d.b); ch |= n.b != d.b; k |= n.b == kill; }
      if (k) r = kill;
      else if (ch) r = mk(n);
    }
    }
    memo[t] = r;
    return r;
  }
};

// --- summaries ---------------------------------------------------------------------------------------
enum GoalKind { G_NZ, G_MASK, G_FALSE, G_DIV, G_LT, G_GE0 };
struct Goal {
  GoalKind k;
  Term a = -1, b = -1;
  uint64_t mask = 0;
  int64_t c = 0;
};
struct Origin { std::string rule, loc, chain, fn, what; };
struct Clause {
  std::vector<std::pair<Term, IV>> cond;
  std::vector<std::pair<TP, int64_t>> dcond;
  Goal g;
  int origin;            // index into origins
  std::vector<std::string> path;  // call chain, innermost first
};
std::vector<Origin> origins;
std::map<std::string, int> originIndex;

struct Exit { Term ret = -1; State st; };
struct Summary {
  bool analysed = false;
  bool bottom = true;       // no return known yet
  bool modAll = false;
  std::set<std::pair<const void *, int>> mods;
  std::vector<Exit> exits;
  std::vector<Clause> clauses;
  int rounds = 0;
};
std::map<const Function *, Summary, ById> summaries;
std::set<const Function *, ById> builtinFns;
std::set<const Function *, ById> addrTaken;

struct Finding { std::string rule, fn, loc, chain, what, originFn, originLoc; std::vector<std::string> path; };
std::vector<Finding> findings;
std::set<std::string> findingKeys;
std::map<std::string, long> counts;
int verbose_ = 0;

// --- textual rendering of terms for reports -------------------------------------------------------
const Function *curFnForNames = nullptr;
std::string show(Term t, int d = 0) {
  if (t < 0) return "?";
  if (d > 9) return "...";
  const TD &x = terms[t];
  switch (x.k) {
  case T_CONST: return x.bits == 0 ? (x.c ? std::to_string(x.c) : "null") : std::to_string(x.c);
  case T_GLOBAL: { auto n = ((const GlobalValue *)x.p)->getName().str(); return "&" + demangle(n); }
  case T_ALLOCA: { auto n = ((const Instruction *)x.p)->getName().str(); return "&" + (n.empty() ? std::string("local") : n); }
  case T_ARG: {
    if (curFnForNames && x.c < (int64_t)curFnForNames->arg_size()) { auto n = curFnForNames->getArg(x.c)->getName().str(); if (!n.empty()) return n; }
    return "arg" + std::to_string(x.c);
  }
  case T_LEAF: {
    if (x.c == 77) return "v";
    auto *V = (const Value *)x.p;
    if (x.c == 0 && V) {
      if (auto *CB = dyn_cast<CallBase>(V)) { if (auto *C = CB->getCalledFunction()) return pretty(C) + "()"; return "call()"; }
      auto n = V->getName().str();
      if (!n.empty()) return n;
    }
    return "x";
  }
  case T_FIELD: return show(x.a, d + 1) + "->" + fieldName(*(const std::string *)x.p, x.c);
  case T_IDX: return show(x.a, d + 1) + "[" + show(x.b, d + 1) + "]";
  case T_LOAD: {
    if (terms[x.a].k == T_FIELD) return show(x.a, d + 1);
    if (terms[x.a].k == T_GLOBAL) return demangle(((const GlobalValue *)terms[x.a].p)->getName().str());
    if (terms[x.a].k == T_ALLOCA) { auto s = show(x.a, d + 1); return s.substr(1); }
    return "*" + show(x.a, d + 1);
  }
  case T_BIN: { const char *op = Instruction::getOpcodeName(x.c); return "(" + show(x.a, d + 1) + " " + op + " " + show(x.b, d + 1) + ")"; }
  case T_CMP: return "(" + show(x.a, d + 1) + " " + CmpInst::getPredicateName((CmpInst::Predicate)x.c).str() + " " + show(x.b, d + 1) + ")";
  case T_CAST: return show(x.a, d + 1);
  case T_RET: return "result";
  case T_KILL: return "KILL";
  }
  return "?";
}
std::string showMask(uint64_t m) {
  std::string s;
  for (int i = 0; i < 64; i++)
    if (m >> i & 1) s += (s.empty() ? "" : "|") + (enums().scmName.count(i) ? enums().scmName[i] : std::to_string(i));
  return s;
}
std::string showGoal(const Goal &g) {
  switch (g.k) {
  case G_NZ: return show(g.a) + " is not null";
  case G_MASK: return show(g.a) + " is " + showMask(g.mask);
  case G_FALSE: return "not reached";
  case G_DIV: return show(g.b) + " is not 0, and not -1 when " + show(g.a) + " is the most negative integer";
  case G_LT: return show(g.a) + " <= " + show(g.b) + (g.c >= 0 ? " + " : " - ") + std::to_string(std::llabs(g.c));
  case G_GE0: return show(g.a) + " >= 0";
  }
  return "";
}
void dumpState(const State &S) {
  for (auto &f : S.facts) errs() << "    " << show(f.first) << " in [" << f.second.lo << "," << f.second.hi << "]" << (f.second.nz ? " nz" : "") << (f.second.useMask ? " {" + showMask(f.second.mask) + "}" : "") << "\n";
  for (auto &f : S.diffs) errs() << "    " << show(f.first.first) << " - " << show(f.first.second) << " <= " << f.second << "\n";
  for (auto &f : S.mem) errs() << "    [" << show(f.first) << "] = " << show(f.second) << "\n";
}

bool prove(State &S, const Goal &g) {
  if (S.dead) return true;
  switch (g.k) {
  case G_NZ: return val(S, g.a).nz || val(S, g.a).empty();
  case G_MASK: { IV v = val(S, g.a); return v.empty() || (v.useMask && (v.mask & ~g.mask) == 0); }
  case G_FALSE: return false;
  case G_DIV: {
    IV b = val(S, g.b);
    if (b.maybeZero()) return false;
    IV a = val(S, g.a);
    int bits = terms[g.a].bits;
    int64_t mn = bits >= 64 || bits <= 0 ? INT64_MIN : -(1ll << (bits - 1));
    if (bits == 64 && terms[g.a].k == T_CONST) {}
    bool minus1 = b.lo <= -1 && b.hi >= -1;
    if (minus1 && g.c == 0) {
      // explicit disequality facts
      auto ne = [&](Term t, int64_t c) {
        TD x{T_CMP}; x.a = t; x.b = mkConst(c, terms[t].bits); x.bits = 1;
        x.c = CmpInst::ICMP_EQ; auto i = S.facts.find(mk(x)); if (i != S.facts.end() && i->second.isConst() && i->second.lo == 0) return true;
        x.c = CmpInst::ICMP_NE; i = S.facts.find(mk(x)); if (i != S.facts.end() && i->second.isConst() && i->second.lo == 1) return true;
        return false;
      };
      if (a.lo <= mn && !ne(g.a, mn) && !ne(g.b, -1)) return false;
    }
    return true;
  }
  case G_LT: { int64_t u = upperDiff(S, g.a, g.b); return u != NOB && u <= g.c; }
  case G_GE0: return val(S, g.a).lo >= 0;
  }
  return false;
}

// --- per-function analysis ----------------------------------------------------------------------------
struct FnInfo {
  std::vector<BasicBlock *> rpo;
  std::map<const BasicBlock *, int, ById> idx;
  std::set<const BasicBlock *, ById> header;
  std::map<const BasicBlock *, std::set<const BasicBlock *, ById>, ById> loopBlocks;
  std::map<const BasicBlock *, std::set<const Value *, ById>, ById> liveIn;
};

int bitsOf(Type *T) {
  if (T->isPointerTy()) return 0;
  if (T->isIntegerTy()) return std::min(T->getIntegerBitWidth(), 128u);
  return 65;  // opaque (float, struct)
}

void computeInfo(Function &F, FnInfo &FI) {
  std::vector<BasicBlock *> post;
  std::set<BasicBlock *, ById> seen, onStack;
  std::vector<std::pair<BasicBlock *, unsigned>> st;
  st.push_back({&F.getEntryBlock(), 0});
  seen.insert(&F.getEntryBlock());
  onStack.insert(&F.getEntryBlock());
  std::map<const BasicBlock *, std::set<const BasicBlock *, ById>, ById> backSrc;
  while (!st.empty()) {
    auto &[B, i] = st.back();
    auto *T = B->getTerminator();
    if (i < T->getNumSuccessors()) {
      BasicBlock *N = T->getSuccessor(i++);
      if (seen.insert(N).second) { onStack.insert(N); st.push_back({N, 0}); }
      else if (onStack.count(N)) { FI.header.insert(N); backSrc[N].insert(B); }
    } else {
      post.push_back(B);
      onStack.erase(B);
      st.pop_back();
    }
  }
  FI.rpo.assign(post.rbegin(), post.rend());
  for (size_t i = 0; i < FI.rpo.size(); i++) FI.idx[FI.rpo[i]] = i;
  for (auto *H : FI.header) {
    auto &L = FI.loopBlocks[H];
    L.insert(H);
    std::vector<const BasicBlock *> w(backSrc[H].begin(), backSrc[H].end());
    while (!w.empty()) {
      auto *B = w.back();
      w.pop_back();
      if (!L.insert(B).second) continue;
      for (auto *P : predecessors(B)) if (seen.count(const_cast<BasicBlock *>(P))) w.push_back(P);
    }
  }
  // liveness of SSA values at block entry
  bool ch = true;
  std::map<const BasicBlock *, std::set<const Value *, ById>, ById> use, def;
  for (auto *B : FI.rpo) {
    for (auto &I : *B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (!isa<PHINode>(I))
        for (auto &O : I.operands())
          if ((isa<Instruction>(O) || isa<Argument>(O)) && !def[B].count(O)) use[B].insert(O);
      def[B].insert(&I);
    }
  }
  while (ch) {
    ch = false;
    for (auto it = FI.rpo.rbegin(); it != FI.rpo.rend(); ++it) {
      auto *B = *it;
      std::set<const Value *, ById> out;
      for (auto *Sx : successors(B)) {
        for (auto *v : FI.liveIn[Sx]) if (!(isa<PHINode>(v) && cast<Instruction>(v)->getParent() == Sx)) out.insert(v);
        for (auto &I : *Sx) {
          auto *P = dyn_cast<PHINode>(&I);
          if (!P) break;
          const Value *v = P->getIncomingValueForBlock(B);
          if (isa<Instruction>(v) || isa<Argument>(v)) out.insert(v);
        }
      }
      std::set<const Value *, ById> in = use[B];
      for (auto *v : out) if (!def[B].count(v)) in.insert(v);
      // phis of this block are defined at entry: treat as live-in for state comparison
      for (auto &I : *B) {
        if (!isa<PHINode>(I)) break;
        in.insert(&I);
      }
      if (in != FI.liveIn[B]) { FI.liveIn[B] = in; ch = true; }
    }
  }
}

struct Analyzer {
  Function &F;
  FnInfo FI;
  const DataLayout &DL;
  bool record = false;
  std::vector<Exit> rawExits;
  std::vector<Clause> newClauses;
  std::vector<std::pair<Clause, State>> recursive;   // raised again by a call to itself
  long steps = 0;
  unsigned KB = 16;   // disjunct bound
  Analyzer(Function &F) : F(F), DL(F.getParent()->getDataLayout()) { computeInfo(F, FI); }

  Term termOf(State &S, const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() > 64) return mkLeaf(V, 5, 65);
      if (C->getBitWidth() == 1) return mkConst(C->getZExtValue(), 1);
      return mkConst(C->getSExtValue(), C->getBitWidth());
    }
    if (isa<ConstantPointerNull>(V)) return mkNull();
    if (auto *G = dyn_cast<GlobalValue>(V)) return mkGlobal(G);
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *G = dyn_cast<GEPOperator>(CE)) return gepTerm(S, G);
      if (CE->getOpcode() == Instruction::IntToPtr) return mkConst(1, 0);
      if (CE->isCast()) return termOf(S, CE->getOperand(0));
      return mkLeaf(V, 5, bitsOf(V->getType()));
    }
    if (isa<UndefValue>(V) || isa<ConstantFP>(V) || isa<ConstantAggregateZero>(V) || isa<Constant>(V)) {
      if (isa<ConstantAggregateZero>(V)) return mkConst(0, bitsOf(V->getType()));
      return mkLeaf(V, 5, bitsOf(V->getType()));
    }
    if (auto *A = dyn_cast<Argument>(V)) return mkArg(A, bitsOf(A->getType()));
    auto it = S.env.find(V);
    if (it != S.env.end()) return it->second;
    return mkLeaf(V, 0, bitsOf(V->getType()));
  }
  Term addTerm(Term a, Term b, int bits) {
    if (terms[a].k == T_CONST && terms[b].k == T_CONST) return mkConst(terms[a].c + terms[b].c, bits);
    if (terms[a].k == T_CONST) std::swap(a, b);
    if (terms[b].k == T_CONST) {
      if (terms[b].c == 0) return a;
      if (terms[a].k == T_BIN && terms[a].c == Instruction::Add && terms[terms[a].b].k == T_CONST)
        return addTerm(terms[a].a, mkConst(terms[b].c + terms[terms[a].b].c, bits), bits);
    }
    TD t{T_BIN};
    t.a = a; t.b = b; t.c = Instruction::Add; t.bits = bits;
    return mk(t);
  }
  Term idxTerm(Term base, Term idx, int esz) {
    if (terms[idx].k == T_CONST && terms[idx].c == 0) return base;
    const TD b = terms[base];
    if (b.k == T_IDX && b.bits == (uint8_t)esz) return idxTerm(b.a, addTerm(b.b, idx, 64), esz);
    TD t{T_IDX};
    t.a = base; t.b = idx; t.bits = esz;
    return mk(t);
  }
  Term gepTerm(State &S, const GEPOperator *G) {
    Term base = termOf(S, G->getPointerOperand());
    Type *ty = G->getSourceElementType();
    auto it = G->idx_begin();
    // first index: pointer arithmetic on the source element type
    {
      Term i = termOf(S, it->get());
      base = idxTerm(base, i, std::min<uint64_t>(DL.getTypeAllocSize(ty), 255));
    }
    bool firstStruct = true;
    for (++it; it != G->idx_end(); ++it) {
      if (auto *ST = dyn_cast<StructType>(ty)) {
        unsigned f = cast<ConstantInt>(it->get())->getZExtValue();
        std::string n = stName(ST);
        if (firstStruct)
          if (auto *GI = dyn_cast<Instruction>(G))
            if (auto *MD = GI->getMetadata("pscm.struct")) n = cleanStructName(cast<MDString>(MD->getOperand(0))->getString().str());
        firstStruct = false;
        base = mkField(base, internName(n), f);
        ty = ST->getElementType(f);
      } else if (auto *AT = dyn_cast<ArrayType>(ty)) {
        Term i = termOf(S, it->get());
        ty = AT->getElementType();
        // array element: mark with an index even when zero so that bounds are known
        TD t{T_IDX};
        t.a = base; t.b = i; t.bits = std::min<uint64_t>(DL.getTypeAllocSize(ty), 255);
        if (terms[i].k == T_CONST && terms[i].c == 0) {} else base = mk(t);
      } else break;
    }
    return base;
  }

  // ---- obligations
  void require(State &S, const Goal &g, const std::string &rule, const Instruction *I, const std::string &what) {
    if (S.dead) return;
    if (record) counts["obligations." + rule]++;
    bool ok = prove(S, g);
    // the collector's own walk over raw memory is decided by the heap rules (P01-P04), not here
    if (!ok && record && rule != "ginv" && atCollector(I)) counts["exempt.collector." + rule]++;
    else if (!ok && record) {
      curFnForNames = &F;
      fail(S, g, rule, I, what.empty() ? showGoal(g) : what, {});
    }
    // continue as if it held, so that one defect is reported once
    switch (g.k) {
    case G_NZ: addFact(S, g.a, ivNZ()); break;
    case G_MASK: addFact(S, g.a, ivMask(g.mask)); break;
    case G_FALSE: S.dead = true; break;
    case G_DIV: addFact(S, g.b, ivNZ()); break;
    case G_LT: if (terms[g.a].bits != 65 && terms[g.b].bits != 65) addDiff(S, g.a, g.b, g.c); break;
    case G_GE0: addFact(S, g.a, ivRange(0, INT64_MAX)); break;
    }
  }
  // A term that makes sense to the caller: built from arguments, globals and memory at entry.
  bool expressible(Term t, int depth = 0) {
    const TD &d = terms[t];
    if (termDepth[t] > 24) return false;
    switch (d.k) {
    case T_CONST: case T_GLOBAL: case T_ARG: return true;
    case T_LOAD:
      if (d.b != -1) return false;
      return expressible(d.a, depth + 1);
    case T_FIELD: case T_CAST: return expressible(d.a, depth + 1);
    case T_IDX: case T_BIN: case T_CMP: return expressible(d.a, depth + 1) && expressible(d.b, depth + 1);
    default: return false;
    }
  }
  int listDepth(Term t) {  // number of nested loads
    int n = 0;
    while (true) {
      const TD &d = terms[t];
      if (d.k == T_LOAD) n++;
      if (d.a < 0) break;
      t = d.a;
    }
    return n;
  }
  bool mentionsArg(Term t) {
    const TD &d = terms[t];
    if (d.k == T_ARG) return true;
    if (d.a >= 0 && mentionsArg(d.a)) return true;
    if (d.b >= 0 && mentionsArg(d.b)) return true;
    return false;
  }
  void fail(State &S, const Goal &g, const std::string &rule, const Instruction *I, const std::string &what, std::vector<std::string> path, int originIn = -1) {
    int o = originIn;
    if (o < 0) {
      std::string key = rule + "|" + chainOf(I) + "|" + F.getName().str() + "|" + what;
      auto it = originIndex.find(key);
      if (it == originIndex.end()) {
        Origin O;
        O.rule = rule;
        O.loc = locOf(I);
        O.chain = chainOf(I);
        O.fn = pretty(&F);
        O.what = what;
        origins.push_back(O);
        o = origins.size() - 1;
        originIndex[key] = o;
      } else o = it->second;
    }
    // liftable?
    bool lift = true, again = false;
    { std::string me = pretty(&F) + " at "; for (auto &p : path) if (p.rfind(me, 0) == 0) again = true; }   // recursion
    path.push_back(pretty(&F) + " at " + chainOf(I));
    if (g.a >= 0 && (!expressible(g.a))) lift = false;
    if (g.b >= 0 && (!expressible(g.b))) lift = false;
    bool any = (g.a >= 0 && mentionsArg(g.a)) || (g.b >= 0 && mentionsArg(g.b));
    Clause C;
    C.g = g;
    C.origin = o;
    C.path = path;
    for (auto &f : S.facts)
      if (expressible(f.first) && termDepth[f.first] <= 16) {
        State e;
        IV base = val(e, f.first);
        if (!leq(base, f.second)) { C.cond.push_back({f.first, f.second}); if (mentionsArg(f.first)) any = true; }
      }
    for (auto &d : S.diffs)
      if (expressible(d.first.first) && expressible(d.first.second) && C.dcond.size() < 12) { C.dcond.push_back(d); if (mentionsArg(d.first.first) || mentionsArg(d.first.second)) any = true; }
    if (path.size() > 8) lift = false;
    if (g.a >= 0 && listDepth(g.a) > 7) lift = false;
    if (lift && any && again) recursive.push_back({C, S});
    else if (lift && any) newClauses.push_back(C);
    else report(C, S);
  }
  // A requirement a function passes on to a call of itself is met when the same requirement is already made of
  // the function's own callers (induction on the depth of the recursion); otherwise nothing establishes it.
  void settleRecursive() {
    for (auto &r : recursive) {
      bool covered = false;
      for (auto &e : newClauses) {
        if (e.g.k != r.first.g.k || e.g.a != r.first.g.a || e.g.b != r.first.g.b || e.g.mask != r.first.g.mask || e.g.c != r.first.g.c) continue;
        bool all = true;
        for (auto &c : e.cond) {
          bool found = false;
          for (auto &d : r.first.cond) if (d.first == c.first && leq(d.second, c.second)) found = true;
          if (!found) { all = false; break; }
        }
        for (auto &c : e.dcond) {
          bool found = false;
          for (auto &d : r.first.dcond) if (d.first == c.first && d.second <= c.second) found = true;
          if (!found) { all = false; break; }
        }
        if (all) { covered = true; break; }
      }
      if (!covered)
        // not as it stands: make the stronger requirement with the conditions both have in common
        for (size_t i = 0; i < newClauses.size() && !covered; i++) {
          Clause e = newClauses[i];
          if (e.g.k != r.first.g.k || e.g.a != r.first.g.a || e.g.b != r.first.g.b || e.g.mask != r.first.g.mask || e.g.c != r.first.g.c) continue;
          std::vector<std::pair<Term, IV>> common;
          for (auto &c : e.cond)
            for (auto &d : r.first.cond)
              if (d.first == c.first) { IV j = joinIV(c.second, d.second); State z; if (!leq(val(z, c.first), j)) common.push_back({c.first, j}); }
          if (e.g.k == G_FALSE && common.empty()) continue;
          e.cond = common;
          e.dcond.clear();
          newClauses.insert(newClauses.begin(), e);
          covered = true;
        }
      if (!covered) report(r.first, r.second);
      else counts["recursive.covered"]++;
    }
  }
  void report(const Clause &C, State &S) {
    const Origin &O = origins[C.origin];
    if (O.rule == "ginv") { gBad.insert(F.getParent()->getGlobalVariable(O.what.substr(5), true)); return; }
    Finding f;
    f.rule = O.rule;
    f.fn = pretty(&F);
    f.what = O.what;
    f.originFn = O.fn;
    f.originLoc = O.loc;
    f.chain = O.chain;
    f.path = C.path;
    f.loc = C.path.empty() ? O.loc : C.path.back();
    std::string key = f.rule + "|" + f.fn + "|" + O.chain + "|" + f.what + "|" + f.loc;
    if (findingKeys.insert(key).second) {
      findings.push_back(f);
      if (verbose_ > 1) {
        errs() << "FINDING " << f.rule << " " << f.fn << ": " << f.what << " [" << O.chain << "]\n";
        for (auto &p : C.path) errs() << "   via " << p << "\n";
        if (verbose_ > 2) dumpState(S);
      }
    }
  }

  void access(State &S, Term addr, const Instruction *I, bool write, uint64_t size) {
    Term r = rootOf(addr);
    const TD rd = terms[r];
    if (rd.k != T_ALLOCA && rd.k != T_GLOBAL) {
      require(S, Goal{G_NZ, r}, "null", I, "");
      if (S.dead) return;
    }
    // payload use must agree with the value's type
    kindCheck(S, addr, I);
    if (S.dead) return;
    boundCheck(S, addr, I, write, size);
  }
  // the struct an address chain interprets its root as
  const std::string *rootStruct(Term addr) {
    const std::string *s = nullptr;
    while (true) {
      const TD &t = terms[addr];
      if (t.k == T_FIELD) { s = (const std::string *)t.p; addr = t.a; }
      else if (t.k == T_IDX) { if (terms[t.a].k != T_FIELD && terms[t.a].k != T_IDX) {} addr = t.a; }
      else break;
    }
    return s;
  }
  bool payloadOf(Term r, Term &x) {  // r == payload of value x
    const TD &d = terms[r];
    if (d.k == T_LOAD && terms[d.a].k == T_FIELD && terms[d.a].p == sSCM && terms[d.a].c == fSCMvalue) { x = terms[d.a].a; return true; }
    return false;
  }
  void requireKind(State &S, Term r, const std::string &st, const Instruction *I) {
    auto it = kindMask.find(st);
    if (it == kindMask.end()) return;
    Term x;
    if (!payloadOf(r, x)) return;
    Term ty = doLoad(S, mkField(x, sSCM, fSCMtype), 32, nullptr);
    uint64_t m = it->second;
    // an empty list's payload is null, so it cannot be the one that is followed
    require(S, Goal{G_MASK, ty, -1, m}, "kind", I, "");
  }
  // does the integer made of a payload take part in arithmetic, ordering or indexing?
  static bool numericUse(const Value *V, int depth = 0) {
    if (depth > 4) return false;
    for (auto *U : V->users()) {
      auto *I = dyn_cast<Instruction>(U);
      if (!I) continue;
      if (isa<TruncInst>(I) || isa<SExtInst>(I) || isa<ZExtInst>(I) || isa<FreezeInst>(I) || isa<PHINode>(I)) { if (numericUse(I, depth + 1)) return true; continue; }
      if (isa<BinaryOperator>(I) || isa<SwitchInst>(I) || isa<SIToFPInst>(I) || isa<UIToFPInst>(I)) return true;
      if (auto *G = dyn_cast<GetElementPtrInst>(I)) { if (G->getPointerOperand() != V) return true; continue; }
      if (auto *C = dyn_cast<ICmpInst>(I)) { if (!C->isEquality()) return true; continue; }
    }
    return false;
  }
  void kindCheck(State &S, Term addr, const Instruction *I) {
    const std::string *s = rootStruct(addr);
    if (!s) return;
    requireKind(S, rootOf(addr), *s, I);
  }
  Term sizeTermOf(State &S, Term base, int &kind) {
    auto it = S.objSize.find(base);
    if (it != S.objSize.end()) { kind = 1; return it->second; }
    return -1;
  }
  void boundCheck(State &S, Term addr, const Instruction *I, bool write, uint64_t size) {
    // find the outermost index step
    Term a = addr;
    while (terms[a].k == T_FIELD) a = terms[a].a;
    Term idx, base;
    int64_t esz;
    if (terms[a].k == T_IDX) { idx = terms[a].b; base = terms[a].a; esz = terms[a].bits; }
    else { idx = mkConst(0, 64); base = a; esz = size; }
    const TD bd = terms[base];
    Term len = -1;
    int64_t slack = 0;
    std::string rule = "index";
    if (bd.k == T_LOAD && terms[bd.a].k == T_FIELD) {
      const TD &fd = terms[bd.a];
      const std::string &Sn = *(const std::string *)fd.p;
      auto it = boundTable.find({Sn, fieldName(Sn, fd.c)});
      if (it != boundTable.end()) {
        int lf = fieldIdx(Sn, it->second.lenField);
        DIType *LT = fieldType(Sn, lf);
        int bits = LT ? (int)stripTypedefs(LT)->getSizeInBits() : 64;
        len = doLoad(S, mkField(fd.a, (const std::string *)fd.p, lf), bits, nullptr);
        slack = it->second.slack;
      }
    }
    if (len < 0 && terms[a].k == T_IDX && (bd.k == T_ALLOCA || bd.k == T_GLOBAL || bd.k == T_FIELD)) {
      Type *T = nullptr;
      if (bd.k == T_ALLOCA) T = ((const AllocaInst *)bd.p)->getAllocatedType();
      else if (bd.k == T_GLOBAL) { if (auto *GV = dyn_cast<GlobalVariable>((const GlobalValue *)bd.p)) T = GV->getValueType(); }
      if (bd.k == T_FIELD) {
        DIType *FT = fieldType(*(const std::string *)bd.p, bd.c);
        FT = stripTypedefs(FT);
        if (auto *CT = dyn_cast_or_null<DICompositeType>(FT))
          if (CT->getTag() == dwarf::DW_TAG_array_type && esz > 0) { len = mkConst(CT->getSizeInBits() / 8 / esz, 64); rule = "buffer"; }
      } else if (T && esz > 0) {
        uint64_t tot = DL.getTypeAllocSize(T);
        len = mkConst(tot / esz, 64);
        rule = "buffer";
      }
    }
    if (len < 0) {
      int k = 0;
      Term sz = sizeTermOf(S, base, k);
      if (sz >= 0 && esz > 0) {
        rule = "heapbuf";
        if (esz == 1) len = sz;
        else {
          // size = n * esz ?
          const TD &sd = terms[sz];
          if (sd.k == T_BIN && sd.c == Instruction::Mul) {
            if (terms[sd.b].k == T_CONST && terms[sd.b].c == esz) len = sd.a;
            else if (terms[sd.a].k == T_CONST && terms[sd.a].c == esz) len = sd.b;
          } else if (sd.k == T_CONST) len = mkConst(sd.c / esz, 64);
        }
      }
    }
    if (len < 0) return;
    if (record && !S.dead) counts["sites." + rule]++;
    if (terms[idx].k != T_CONST || terms[idx].c < 0) require(S, Goal{G_GE0, idx}, rule, I, "");
    if (S.dead) return;
    Goal g{G_LT, idx, len};
    g.c = slack - 1;
    require(S, g, rule, I, "");
  }

  // ---- instructions
  Term castTerm(State &S, unsigned op, Term a, int bits) {
    const TD d = terms[a];
    if (bits == 65 || d.bits == 65) return -1;
    if (d.k == T_CONST) {
      int64_t c = d.c;
      if (op == Instruction::ZExt && d.bits > 0 && d.bits < 64) c &= (1ll << d.bits) - 1;
      if (op == Instruction::Trunc && bits < 64) { if (bits == 1) c &= 1; else c = (int64_t)((uint64_t)c << (64 - bits)) >> (64 - bits); }
      return mkConst(c, bits);
    }
    if (op == Instruction::SExt) return a;
    if (op == Instruction::BitCast) return a;
    if (op == Instruction::ZExt) {
      if (d.bits == 1 || d.k == T_CMP) return a;
      IV v = val(S, a);
      if (v.lo >= 0) return a;
    }
    if (op == Instruction::Trunc) {
      IV v = val(S, a);
      IV w = widthRange(bits);
      if (v.lo >= w.lo && v.hi <= w.hi) return a;
      if (d.k == T_CAST && d.c == Instruction::ZExt && terms[d.a].bits == bits) return d.a;
    }
    if (op == Instruction::PtrToInt && d.k == T_CAST && d.c == Instruction::IntToPtr) return d.a;
    if (op == Instruction::IntToPtr && d.k == T_CAST && d.c == Instruction::PtrToInt) return d.a;
    TD t{T_CAST};
    t.a = a; t.c = op; t.bits = bits;
    return mk(t);
  }

  void havocCall(State &S, const CallBase *CB, bool all, const std::set<std::pair<const void *, int>> *mods) {
    Term vleaf = mkLeaf(CB, 77, 0);
    // variables that are never set back to null stay set
    std::vector<Term> stay;
    for (auto *G : gMono) {
      Term ga = mkGlobal(G);
      if (!all && !(mods && mods->count({(const void *)G, -1}))) continue;
      auto m = S.mem.find(ga);
      if (val(S, m != S.mem.end() ? m->second : mkLoad(ga, verOf(S, ga), 0)).nz) stay.push_back(ga);
    }
    struct Fin { State &S; std::vector<Term> &st; ~Fin() { for (Term g : st) addFact(S, mkLoad(g, verOf(S, g), 0), ivNZ()); } } fin{S, stay};
    if (all) {
      S.ver.clear();
      S.allVer = vleaf;
      for (auto it = S.mem.begin(); it != S.mem.end();) {
        if (!stableKey(it->first) && terms[rootOf(it->first)].k != T_ALLOCA) it = S.mem.erase(it);
        else ++it;
      }
    } else if (mods) {
      for (auto &k : *mods) {
        S.ver[k] = vleaf;
        for (auto it = S.mem.begin(); it != S.mem.end();) {
          if (!stableKey(it->first) && keyOf(it->first) == k && terms[rootOf(it->first)].k != T_ALLOCA) it = S.mem.erase(it);
          else ++it;
        }
      }
    }
  }
  void havocArgsPointee(State &S, const CallBase *CB, const std::set<unsigned> *only = nullptr) {
    for (unsigned i = 0; i < CB->arg_size(); i++) {
      if (only && !only->count(i)) continue;
      Term a = termOf(S, CB->getArgOperand(i));
      Term r = rootOf(a);
      if (terms[r].k != T_ALLOCA && !S.objSize.count(r)) continue;
      for (auto it = S.mem.begin(); it != S.mem.end();) {
        if (rootOf(it->first) == r) it = S.mem.erase(it);
        else ++it;
      }
      S.zeroed.erase(r);
      // memory of the local after the call
      S.ver[{terms[r].p, -2}] = mkLeaf(CB, 77, 0);
    }
  }

  // returns list of successor states
  void call(State S, const CallBase *CB, std::vector<State> &out) {
    const Function *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    int rb = bitsOf(CB->getType());
    Term res = mkLeaf(CB, 0, rb);
    if (C && C->isIntrinsic()) {
      intrinsic(S, CB, C);
      if (!S.dead) out.push_back(std::move(S));
      return;
    }
    if (!C) {
      // indirect call: contract of function values - arguments are values, result is a value
      Term f = termOf(S, CB->getCalledOperand());
      require(S, Goal{G_NZ, f}, "null", CB, "");
      if (S.dead) return;
      bool all = false, any = false;
      for (auto *T : addrTaken) if (T->getFunctionType() == CB->getFunctionType() && !T->isDeclaration() && summaries.count(const_cast<Function *>(T))) {
        any = true;
        auto &TS = summaries[const_cast<Function *>(T)];
        if (TS.modAll) { all = true; break; }
      }
      if (all || !any) havocCall(S, CB, true, nullptr);
      else for (auto *T : addrTaken) if (T->getFunctionType() == CB->getFunctionType() && summaries.count(const_cast<Function *>(T))) havocCall(S, CB, false, &summaries[const_cast<Function *>(T)].mods);
      havocArgsPointee(S, CB);
      S.env[CB] = res;
      if (rb == 0) addFact(S, res, ivNZ());
      out.push_back(std::move(S));
      return;
    }
    std::string name = C->getName().str();
    if (name.rfind("pscm.f0", 0) == 0) {
      Term t = termOf(S, CB->getArgOperand(0));
      size_t p = name.find('|');
      while (p != std::string::npos) {
        size_t q = name.find('|', p + 1);
        t = mkField(t, internName(cleanStructName(name.substr(p + 1, q == std::string::npos ? std::string::npos : q - p - 1))), 0);
        p = q;
      }
      S.env[CB] = t;
      out.push_back(std::move(S));
      return;
    }
    if (C->isDeclaration() || !isRepoFunction(*C)) {
      external(S, CB, C, name, res, out);
      return;
    }
    Summary &Sm = summaries[C];
    // arguments and instantiation
    std::vector<Term> args;
    for (unsigned i = 0; i < CB->arg_size(); i++) args.push_back(termOf(S, CB->getArgOperand(i)));
    // payloads handed over as structures must agree with the value's type
    if (auto *SP = C->getSubprogram()) {
      auto ta = SP->getType()->getTypeArray();
      unsigned off = C->arg_size() + 1 - std::min<unsigned>(ta.size(), C->arg_size() + 1);
      for (unsigned i = 0; i + off < args.size() && i + 1 < ta.size(); i++) {
        std::string pn = ptrPointee(ta[i + 1]);
        Term x;
        if (kindMask.count(pn) && payloadOf(args[i + off], x)) {
          uint64_t m = kindMask[pn];
          if (!val(S, args[i + off]).nz && tyNIL >= 0) m |= (1ull << tyNIL);   // a null payload is no payload
          Term ty = doLoad(S, mkField(x, sSCM, fSCMtype), 32, nullptr);
          require(S, Goal{G_MASK, ty, -1, m}, "kind", CB, "");
          if (S.dead) return;
        }
      }
    }
    // preconditions
    for (auto &cl : Sm.clauses) {
      checkClause(S, CB, cl, args);
      if (S.dead) return;
    }
    if (Sm.exits.empty()) return;  // does not return (or not known to return yet)
    State pre = S;
    for (auto &ex : Sm.exits) {
      State n = pre;
      // 1. facts about the state at entry
      Subst sub;
      Term RET = retTerm(rb);
      sub.leafFn = [&](Term t) -> Term {
        if (terms[t].k == T_ARG) return terms[t].c < (int64_t)args.size() ? args[terms[t].c] : sub.kill;
        if (terms[t].k == T_RET) return t;
        return sub.kill;
      };
      auto inst = [&](Term t) { return instTerm(pre, sub, t); };
      for (auto &f : ex.st.facts) {
        if (mentionsExitVer(f.first)) continue;
        Term t = inst(f.first);
        if (t == sub.kill || mentionsRet(t)) continue;
        if (terms[t].bits == 65) continue;
        addFact(n, t, f.second);
        if (n.dead) break;
      }
      if (n.dead) continue;
      // merge loads done while instantiating
      for (auto &m : pre.mem) if (!n.mem.count(m.first)) n.mem.insert(m);
      for (auto &d : ex.st.diffs) {
        if (mentionsExitVer(d.first.first) || mentionsExitVer(d.first.second)) continue;
        Term x = inst(d.first.first), y = inst(d.first.second);
        if (x == sub.kill || y == sub.kill || mentionsRet(x) || mentionsRet(y)) continue;
        addDiff(n, x, y, d.second);
        if (n.dead) break;
      }
      if (n.dead) continue;
      // 2. effects
      if (Sm.modAll) havocCall(n, CB, true, nullptr);
      else havocCall(n, CB, false, &Sm.mods);
      // 3. result
      Term rv = res;
      if (ex.ret >= 0 && rb != 65) {
        Term t = inst(ex.ret);
        if (t != sub.kill && !mentionsRet(t) && !mentionsExitVer(ex.ret)) rv = t;
      }
      n.env[CB] = rv;
      if (rb == 0 && nonNullRet(C)) { addFact(n, rv, ivNZ()); if (n.dead) continue; }
      // 4. memory written by the callee and facts about results
      Subst post;
      post.m[RET] = rv;
      std::map<Term, Term> exitLoads;
      std::function<Term(Term)> conv = [&](Term t) -> Term {
        // convert a callee exit-state term into the caller's post state
        auto g = exitLoads.find(t);
        if (g != exitLoads.end()) return g->second;
        TD d = terms[t];
        Term r;
        if (d.k == T_RET) r = rv;
        else if (d.k == T_LOAD && d.b != -1) {
          Term a = conv(d.a);
          if (a == sub.kill) r = sub.kill;
          else {
            r = mkLeafT(CB, t, d.bits);
            IV v = loadDefault(a, d.bits);
            if (!v.top()) addFact(n, r, v);
          }
        } else if (d.k == T_LOAD) {
          if (mentionsRet(d.a) || mentionsExitVer(d.a)) {
            Term a = conv(d.a);
            r = a == sub.kill ? sub.kill : doLoad(n, a, d.bits, CB);
          } else r = inst(t);
        } else if (d.a >= 0) {
          TD nn = d;
          nn.a = conv(d.a);
          if (d.b >= 0) nn.b = conv(d.b);
          if (nn.a == sub.kill || (d.b >= 0 && nn.b == sub.kill)) r = sub.kill;
          else if (nn.k == T_BIN && nn.c == Instruction::Add) r = addTerm(nn.a, nn.b, nn.bits);
          else if (nn.k == T_IDX) r = idxTerm(nn.a, nn.b, nn.bits);
          else r = mk(nn);
        } else if (d.k == T_ARG) r = d.c < (int64_t)args.size() ? args[d.c] : sub.kill;
        else if (d.k == T_CONST || d.k == T_GLOBAL) r = t;
        else r = sub.kill;
        exitLoads[t] = r;
        return r;
      };
      for (auto &m : ex.st.mem) {
        Term a = conv(m.first);
        if (a == sub.kill) continue;
        Term v = conv(m.second);
        if (v == sub.kill) { n.mem.erase(a); continue; }
        if (m.second == mkLoad(m.first, -1, terms[m.second].bits)) continue; // unchanged entry value
        doStore(n, a, v, CB);
      }
      for (auto &f : ex.st.facts) {
        if (!mentionsExitVer(f.first) && !mentionsRet(f.first)) continue;
        Term t = conv(f.first);
        if (t == sub.kill || terms[t].bits == 65) continue;
        addFact(n, t, f.second);
        if (n.dead) break;
      }
      if (n.dead) continue;
      for (auto &d : ex.st.diffs) {
        if (!(mentionsExitVer(d.first.first) || mentionsExitVer(d.first.second) || mentionsRet(d.first.first) || mentionsRet(d.first.second))) continue;
        Term x = conv(d.first.first), y = conv(d.first.second);
        if (x == sub.kill || y == sub.kill) continue;
        addDiff(n, x, y, d.second);
        if (n.dead) break;
      }
      if (n.dead) continue;
      for (auto &o : ex.st.objSize) {
        Term a = conv(o.first), v = conv(o.second);
        if (a != sub.kill && v != sub.kill) n.objSize[a] = v;
      }
      // locals passed by address and possibly written by the callee
      out.push_back(std::move(n));
    }
  }
  static Term mkLeafT(const void *p, Term t, int bits) { return mkLeaf(p, 100000 + t, bits); }
  std::unordered_map<Term, char> mrMemo, meMemo;
  bool mentionsRet(Term t) {
    const TD &d = terms[t];
    if (d.k == T_RET) return true;
    if (d.a < 0 && d.b < 0) return false;
    auto it = mrMemo.find(t);
    if (it != mrMemo.end()) return it->second;
    bool r = (d.a >= 0 && mentionsRet(d.a)) || (d.k != T_LOAD && d.b >= 0 && mentionsRet(d.b));
    mrMemo[t] = r;
    return r;
  }
  bool mentionsExitVer(Term t) {
    const TD &d = terms[t];
    if (d.k == T_LOAD && d.b != -1) return true;
    if (d.a < 0 && d.b < 0) return false;
    auto it = meMemo.find(t);
    if (it != meMemo.end()) return it->second;
    bool r = (d.a >= 0 && mentionsExitVer(d.a)) || (d.k != T_LOAD && d.b >= 0 && mentionsExitVer(d.b));
    meMemo[t] = r;
    return r;
  }
  static Term retTerm(int bits) { TD t{T_RET}; t.bits = bits; return mk(t); }
  static Term exitVer() { return mkLeaf(nullptr, 78, 0); }
  // name of a memory cell's content when the function returns: fields of the result that never change need no version
  static Term exitLoad(Term addr, int bits) {
    if (stableKey(addr) && terms[rootOf(addr)].k == T_RET) return mkLoad(addr, -1, bits);
    if (terms[addr].k == T_FIELD && terms[addr].p == sSCM && (terms[addr].c == fSCMtype || terms[addr].c == fSCMvalue)) return mkLoad(addr, -1, bits);
    return mkLoad(addr, exitVer(), bits);
  }
  static IV kindIV(Term addr, IV v) {
    if (v.isConst() && terms[addr].k == T_FIELD && terms[addr].p == sSCM && terms[addr].c == fSCMtype && v.lo >= 0 && v.lo < 64) return ivMask(1ull << v.lo);
    return v;
  }

  // instantiate an entry-state term of the callee in the caller's state S (loads are resolved in S)
  Term instTerm(State &S, Subst &sub, Term t) {
    auto f = sub.memo.find(t);
    if (f != sub.memo.end()) return f->second;
    TD d = terms[t];
    Term r;
    switch (d.k) {
    case T_CONST: case T_GLOBAL: r = t; break;
    case T_ALLOCA: case T_ARG: case T_LEAF: case T_RET: r = sub.leafFn(t); break;
    case T_LOAD: {
      Term a = instTerm(S, sub, d.a);
      if (a == sub.kill || mentionsRet(a)) r = a == sub.kill ? a : mkLoad(a, d.b, d.bits);
      else r = doLoad(S, a, d.bits, nullptr);
      break;
    }
    default: {
      TD n = d;
      n.a = d.a >= 0 ? instTerm(S, sub, d.a) : -1;
      n.b = d.b >= 0 ? instTerm(S, sub, d.b) : -1;
      if (n.a == sub.kill || n.b == sub.kill) r = sub.kill;
      else if (n.k == T_BIN && n.c == Instruction::Add) r = addTerm(n.a, n.b, n.bits);
      else if (n.k == T_IDX) r = idxTerm(n.a, n.b, n.bits);
      else if (n.k == T_CAST) { r = castTerm(S, n.c, n.a, n.bits); if (r < 0) r = sub.kill; }
      else r = mk(n);
    }
    }
    sub.memo[t] = r;
    return r;
  }
  void checkClause(State &S, const Instruction *I, const Clause &cl, const std::vector<Term> &args) {
    State T = S;
    Subst sub;
    sub.leafFn = [&](Term t) -> Term {
      if (terms[t].k == T_ARG) return terms[t].c < (int64_t)args.size() ? args[terms[t].c] : sub.kill;
      return sub.kill;
    };
    if (record) counts["callsite_clauses"]++;
    for (auto &c : cl.cond) {
      Term t = instTerm(T, sub, c.first);
      if (t == sub.kill || terms[t].bits == 65) continue;
      addFact(T, t, c.second);
      if (T.dead) return;
    }
    for (auto &c : cl.dcond) {
      Term x = instTerm(T, sub, c.first.first), y = instTerm(T, sub, c.first.second);
      if (x == sub.kill || y == sub.kill) continue;
      addDiff(T, x, y, c.second);
      if (T.dead) return;
    }
    Goal g = cl.g;
    if (g.a >= 0) g.a = instTerm(T, sub, g.a);
    if (g.b >= 0) g.b = instTerm(T, sub, g.b);
    if (g.a == sub.kill || g.b == sub.kill) g.k = G_FALSE, g.a = g.b = -1;
    if (prove(T, g)) return;
    if (record) fail(T, g, "", I, "", cl.path, cl.origin);
  }

  void intrinsic(State &S, const CallBase *CB, const Function *C) {
    switch (C->getIntrinsicID()) {
    case Intrinsic::memset: {
      Term a = termOf(S, CB->getArgOperand(0));
      Term v = termOf(S, CB->getArgOperand(1));
      for (auto it = S.mem.begin(); it != S.mem.end();) {
        if (rootOf(it->first) == rootOf(a)) it = S.mem.erase(it);
        else ++it;
      }
      if (terms[v].k == T_CONST && terms[v].c == 0) S.zeroed.insert(a);
      else S.zeroed.erase(rootOf(a));
      Term r = rootOf(a);
      if (terms[r].k != T_ALLOCA && terms[r].k != T_GLOBAL) require(S, Goal{G_NZ, r}, "null", CB, "");
      lenCheck(S, CB, a, termOf(S, CB->getArgOperand(2)), true);
      break;
    }
    case Intrinsic::memcpy: case Intrinsic::memmove: {
      Term a = termOf(S, CB->getArgOperand(0)), b = termOf(S, CB->getArgOperand(1));
      Term n = termOf(S, CB->getArgOperand(2));
      bool zero = terms[n].k == T_CONST && terms[n].c == 0;
      Term ra = rootOf(a), rb = rootOf(b);
      (void)rb;
      if (!zero) {
        if (terms[ra].k != T_ALLOCA && terms[ra].k != T_GLOBAL) require(S, Goal{G_NZ, ra}, "null", CB, "");
        if (S.dead) return;
      }
      lenCheck(S, CB, a, n, true);
      if (S.dead) return;
      lenCheck(S, CB, b, n, false);
      if (S.dead) return;
      // copy known struct contents
      std::vector<TP> add;
      Subst sb;
      sb.m[b] = a;
      if (b != a)
        for (auto &m : S.mem)
          if (rootOf(m.first) == rootOf(b)) { Term na = sb.apply(m.first); if (na != m.first) add.push_back({na, m.second}); }
      for (auto it = S.mem.begin(); it != S.mem.end();) {
        bool under = false;
        for (Term t = it->first;;) { if (t == a) { under = true; break; } if (terms[t].k == T_FIELD || terms[t].k == T_IDX) t = terms[t].a; else break; }
        if (under) it = S.mem.erase(it); else ++it;
      }
      bool z = S.zeroed.count(b);
      S.zeroed.erase(a);
      if (z) S.zeroed.insert(a);
      for (auto &p : add) S.mem[p.first] = p.second;
      break;
    }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::smul_with_overflow:
      S.env.erase(CB);
      break;
    default:
      if (!CB->getType()->isVoidTy()) S.env[CB] = mkLeaf(CB, 0, bitsOf(CB->getType()));
    }
  }
  // [p, p+n) must lie inside the object p points to
  void lenCheck(State &S, const CallBase *CB, Term p, Term n, bool write) {
    if (S.dead) return;
    Term idx = mkConst(0, 64), base = p;
    if (terms[p].k == T_IDX && terms[p].bits == 1) { idx = terms[p].b; base = terms[p].a; }
    else if (terms[p].k == T_FIELD || terms[p].k == T_IDX) return;
    const TD bd = terms[base];
    Term len = -1;
    int64_t slack = 0;
    std::string rule;
    if (bd.k == T_LOAD && terms[bd.a].k == T_FIELD) {
      const TD &fd = terms[bd.a];
      const std::string &Sn = *(const std::string *)fd.p;
      auto it = boundTable.find({Sn, fieldName(Sn, fd.c)});
      if (it != boundTable.end() && it->second.slack == 1) {
        int lf = fieldIdx(Sn, it->second.lenField);
        len = doLoad(S, mkField(fd.a, (const std::string *)fd.p, lf), 32, nullptr);
        slack = 1;
        rule = "index";
      }
    } else if (bd.k == T_ALLOCA) {
      len = mkConst(DL.getTypeAllocSize(((const AllocaInst *)bd.p)->getAllocatedType()), 64);
      rule = "buffer";
    } else if (bd.k == T_GLOBAL) {
      if (auto *GV = dyn_cast<GlobalVariable>((const GlobalValue *)bd.p)) { len = mkConst(DL.getTypeAllocSize(GV->getValueType()), 64); rule = "buffer"; }
    } else {
      int k;
      len = sizeTermOf(S, base, k);
      rule = "heapbuf";
    }
    if (len < 0) return;
    Term end = addTerm(idx, n, 64);
    if (record) counts["sites." + rule]++;
    if (terms[idx].k != T_CONST) require(S, Goal{G_GE0, idx}, rule, CB, "");
    if (S.dead) return;
    if (terms[n].k != T_CONST) {
      IV nv = val(S, n);
      if (nv.lo < 0) require(S, Goal{G_GE0, n}, rule, CB, "");
      if (S.dead) return;
    }
    Goal g{G_LT, end, len};
    g.c = slack;
    require(S, g, rule, CB, "");
  }

  void external(State &S, const CallBase *CB, const Function *C, const std::string &name0, Term res, std::vector<State> &out) {
    int rb = bitsOf(CB->getType());
    std::string name = name0;
    for (const char *pre : {"__isoc23_", "__isoc99_"}) if (name.rfind(pre, 0) == 0) name = name.substr(strlen(pre));
    if (name == "__assert_fail") {
      std::string txt;
      if (auto *G = dyn_cast<GlobalVariable>(CB->getArgOperand(0)->stripPointerCasts()))
        if (G->hasInitializer()) if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer())) if (D->isCString()) txt = D->getAsCString().str();
      require(S, Goal{G_FALSE}, "assert", CB, "assert(" + txt + ")");
      return;
    }
    static const std::set<std::string> nr = {"exit", "_exit", "abort", "longjmp", "siglongjmp", "quick_exit", "_Exit", "__cxa_throw", "_ZSt9terminatev", "__cxa_rethrow", "_Unwind_Resume", "__clang_call_terminate"};
    if (nr.count(name) || C->doesNotReturn()) return;
    auto arg = [&](unsigned i) { return termOf(S, CB->getArgOperand(i)); };
    if (!CB->getType()->isVoidTy()) S.env[CB] = res;
    auto ne = [&](unsigned i) { require(S, Goal{G_NZ, rootOf(arg(i))}, "null", CB, ""); };
    static const std::set<std::string> str1 = {"strlen", "strdup", "atoi", "strtol", "strtod", "strtoll", "atof", "atol"};
    static const std::set<std::string> str2 = {"strcmp", "strncmp", "strcpy", "strncpy", "strcat", "strchr", "strrchr", "strstr", "strncat", "strspn", "strcspn"};
    if (str1.count(name)) { ne(0); if (S.dead) return; kindCheckStr(S, arg(0), CB); }
    if (str2.count(name)) { ne(0); if (S.dead) return; if (name != "strchr" && name != "strrchr") ne(1); if (S.dead) return; }
    if (name == "fclose" || name == "fflush" || name == "fgetc" || name == "ungetc" || name == "fputc" || name == "fputs" || name == "fread" || name == "fwrite") {
      unsigned fi = name == "fclose" || name == "fflush" || name == "fgetc" ? 0 : name == "fputs" || name == "ungetc" || name == "fputc" ? 1 : 3;
      if (name != "fflush") { ne(fi); if (S.dead) return; }
    }
    if (name == "fseek" || name == "ftell" || name == "fprintf" || name == "vfprintf") { ne(0); if (S.dead) return; }
    if (name == "strlen" || name == "strspn" || name == "strcspn") {
      addFact(S, res, ivRange(0, 1 << 30));   // strings below 1 GiB (see DESIGN.md, assumptions)
      Term sa = arg(0);
      int64_t have = -1;
      if (terms[sa].k == T_GLOBAL)
        if (auto *GV = dyn_cast<GlobalVariable>((const GlobalValue *)terms[sa].p)) {
          if (name == "strlen" && GV->isConstant() && GV->hasInitializer()) {
            if (auto *D = dyn_cast<ConstantDataArray>(GV->getInitializer())) if (D->isCString()) { S.env[CB] = mkConst(D->getAsCString().size(), 64); }
            if (isa<ConstantAggregateZero>(GV->getInitializer())) S.env[CB] = mkConst(0, 64);
          }
          have = DL.getTypeAllocSize(GV->getValueType());
        }
      if (terms[sa].k == T_ALLOCA) have = DL.getTypeAllocSize(((const AllocaInst *)terms[sa].p)->getAllocatedType());
      if (have > 0) addFact(S, res, ivRange(0, have - 1));
    }
    if (name == "_setjmp" || name == "setjmp" || name == "__sigsetjmp") {
      // control may come back here later, with all shared state changed
      havocCall(S, CB, true, nullptr);
    }
    if (name == "malloc" || name == "_Znam" || name == "_Znwm") {
      addFact(S, res, ivNZ());
      S.objSize[res] = arg(0);
      // allocation sizes that wrap are not modelled
    } else if (name == "calloc") {
      addFact(S, res, ivNZ());
      Term a = arg(0), b = arg(1);
      if (terms[b].k == T_CONST) { TD t{T_BIN}; t.a = a; t.b = b; t.c = Instruction::Mul; t.bits = 64; S.objSize[res] = mk(t); }
      S.zeroed.insert(res);
    } else if (name == "realloc") {
      addFact(S, res, ivNZ());
      S.objSize[res] = arg(1);
    } else if (name == "strdup") {
      addFact(S, res, ivNZ());
    } else if (name == "__ctype_b_loc" || name == "__errno_location" || name == "__ctype_tolower_loc" || name == "__ctype_toupper_loc") {
      addFact(S, res, ivNZ());
    } else if (name == "snprintf" || name == "vsnprintf") {
      Term n = arg(1);
      lenCheck(S, CB, arg(0), n, true);
      if (S.dead) return;
      addFact(S, res, ivRange(0, INT32_MAX));
    } else if (name == "fgetc" || name == "getc" || name == "getchar") {
      addFact(S, res, ivRange(-1, 255));
    } else if (name == "fread") {
      addFact(S, res, ivRange(0, INT64_MAX / 4));
      // result <= count
      addDiff(S, res, arg(2), 0);
      Term sz = arg(1);
      if (terms[sz].k == T_CONST && terms[sz].c == 1) lenCheck(S, CB, arg(0), arg(2), true);
    } else if (name == "fgets" || name == "strncpy") {
      if (name == "strncpy") lenCheck(S, CB, arg(0), arg(2), true);
      else lenCheck(S, CB, arg(0), arg(1), true);
    } else if (name == "readlink" || name == "read" || name == "pread") {
      Term buf = name == "readlink" ? arg(1) : arg(1), n = arg(2);
      lenCheck(S, CB, buf, n, true);
      if (S.dead) return;
      addFact(S, res, ivRange(-1, INT64_MAX / 4));
      addDiff(S, res, n, 0);
    } else if (name == "backtrace") {
      addFact(S, res, ivRange(0, INT32_MAX));
      addDiff(S, res, arg(1), 0);
    } else if (name == "memcpy" || name == "memmove") {
      lenCheck(S, CB, arg(0), arg(2), true); if (S.dead) return;
      lenCheck(S, CB, arg(1), arg(2), false);
    } else if (name == "toupper" || name == "tolower") {
      IV a = val(S, arg(0));
      if (a.lo >= 0 && a.hi <= 255) addFact(S, res, ivRange(0, 255));
    }
    if (name == "strcpy" || name == "sprintf" || name == "strcat" || name == "vsprintf" || name == "gets") {
      // unbounded write: into a fixed buffer it is only acceptable from a literal that fits
      Term d = rootOf(arg(0));
      if (terms[d].k == T_ALLOCA || terms[d].k == T_GLOBAL) {
        bool ok = false;
        if (name == "strcpy" || name == "strcat") {
          if (auto *G = dyn_cast<GlobalVariable>(CB->getArgOperand(1)->stripPointerCasts()))
            if (G->isConstant() && name == "strcpy") {
              uint64_t have = terms[d].k == T_ALLOCA ? DL.getTypeAllocSize(((const AllocaInst *)terms[d].p)->getAllocatedType()).getFixedValue() : 0;
              ok = arg(0) == d && DL.getTypeAllocSize(G->getValueType()) <= have;
            }
        }
        if (!ok) require(S, Goal{G_FALSE}, "buffer", CB, name + " into a fixed-size buffer without a bound");
        if (S.dead) S.dead = false;
      }
    }
    // out-parameters and buffers
    if (name != "free" && name != "strlen" && name != "strcmp" && name != "strncmp" && name != "printf" && name != "fprintf" && name != "memcmp" && name != "strdup" && name != "strchr" && name != "strrchr" && name != "strstr" && name != "fopen" && name != "fputs" && name != "fputc" && name != "fwrite" && name != "fclose" && name != "fflush" && name != "atoi" && name != "atof")
      havocArgsPointee(S, CB);
    if (name == "strtol" || name == "strtod" || name == "strtoll" || name == "strtoul") {
      // the end pointer is set, and points into the string
      Term ep = arg(1);
      if (terms[rootOf(ep)].k == T_ALLOCA) { Term e = doLoad(S, ep, 0, CB); addFact(S, e, ivNZ()); }
    }
    if (name == "free" || name == "_ZdaPv" || name == "_ZdlPvm" || name == "_ZdlPv") {}
    if (!S.dead) out.push_back(std::move(S));
  }
  void kindCheckStr(State &S, Term p, const Instruction *I) {}

  void exec(State S, BasicBlock::iterator it, std::vector<std::pair<BasicBlock *, State>> &out) {
    // worklist of (state, position) within the block
    std::vector<State> cur;
    cur.push_back(std::move(S));
    BasicBlock *B = it->getParent();
    for (; it != B->end(); ++it) {
      Instruction &I = *it;
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        std::vector<State> nxt;
        for (auto &s : cur) call(std::move(s), CB, nxt);
        if (nxt.size() > KB) mergeDown(nxt, nullptr, &I, KB);
        cur = std::move(nxt);
        if (cur.empty()) return;
        continue;
      }
      if (I.isTerminator()) {
        for (auto &s : cur) terminator(s, I, out);
        return;
      }
      for (auto &s : cur) step(s, I);
      cur.erase(std::remove_if(cur.begin(), cur.end(), [](State &s) { return s.dead; }), cur.end());
      if (cur.empty()) return;
    }
  }
  void step(State &S, Instruction &I) {
    steps++;
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      TD t{T_ALLOCA};
      t.p = A; t.bits = 0;
      S.env[&I] = mk(t);
      return;
    }
    if (auto *L = dyn_cast<LoadInst>(&I)) {
      Term a = termOf(S, L->getPointerOperand());
      access(S, a, &I, false, DL.getTypeStoreSize(L->getType()));
      if (S.dead) return;
      int bits = bitsOf(L->getType());
      Term v = doLoad(S, a, bits, &I);
      // i8 booleans
      S.env[&I] = v;
      if (terms[v].bits == 65 && bits != 65) S.env[&I] = mkLeaf(&I, 0, bits);
      return;
    }
    if (auto *St = dyn_cast<StoreInst>(&I)) {
      Term a = termOf(S, St->getPointerOperand());
      access(S, a, &I, true, DL.getTypeStoreSize(St->getValueOperand()->getType()));
      if (S.dead) return;
      Term v = termOf(S, St->getValueOperand());
      doStore(S, a, v, &I);
      invStore(S, a, v, &I);
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { S.env[&I] = gepTerm(S, cast<GEPOperator>(G)); return; }
    if (auto *C = dyn_cast<ICmpInst>(&I)) {
      Term a = termOf(S, C->getOperand(0)), b = termOf(S, C->getOperand(1));
      if (terms[a].bits == 65 || terms[b].bits == 65) { S.env[&I] = mkLeaf(&I, 0, 1); return; }
      TD t{T_CMP};
      t.a = a; t.b = b; t.c = C->getPredicate(); t.bits = 1;
      if (terms[a].k == T_CONST && terms[b].k != T_CONST) { t.a = b; t.b = a; t.c = C->getSwappedPredicate(); }
      // comparing a boolean with 0
      if (terms[t.b].k == T_CONST && terms[t.b].c == 0 && terms[t.a].bits == 1 && t.c == CmpInst::ICMP_NE) { S.env[&I] = t.a; return; }
      S.env[&I] = mk(t);
      return;
    }
    if (auto *C = dyn_cast<CastInst>(&I)) {
      Term a = termOf(S, C->getOperand(0));
      Term px;
      if (C->getOpcode() == Instruction::PtrToInt && payloadOf(a, px) && numericUse(C)) {
        // a payload is calculated with only when it is a number (or a character, or a truth value)
        Term ty = doLoad(S, mkField(px, sSCM, fSCMtype), 32, nullptr);
        require(S, Goal{G_MASK, ty, -1, numMask}, "kind", &I, "");
        if (S.dead) return;
      }
      Term r = castTerm(S, C->getOpcode(), a, bitsOf(C->getType()));
      S.env[&I] = r < 0 ? mkLeaf(&I, 0, bitsOf(C->getType())) : r;
      return;
    }
    if (auto *Bo = dyn_cast<BinaryOperator>(&I)) {
      if (!Bo->getType()->isIntegerTy()) { S.env[&I] = mkLeaf(&I, 0, 65); return; }
      Term a = termOf(S, Bo->getOperand(0)), b = termOf(S, Bo->getOperand(1));
      int bits = bitsOf(Bo->getType());
      unsigned op = Bo->getOpcode();
      if (bits == 65 || bits > 64 || terms[a].bits == 65 || terms[b].bits == 65) { S.env[&I] = mkLeaf(&I, 0, bits); return; }
      if (op == Instruction::SDiv || op == Instruction::SRem || op == Instruction::UDiv || op == Instruction::URem) {
        Goal g{G_DIV, a, b};
        g.c = (op == Instruction::UDiv || op == Instruction::URem) ? 1 : 0;
        // a dividend the callers cannot name: only the divisor matters to them
        if (!expressible(a)) {
          if (g.c) g = Goal{G_NZ, b, -1};
          else if (!prove(S, g)) g.a = mkConst(bits >= 64 ? INT64_MIN : -(1ll << (bits - 1)), bits);
        }
        require(S, g, "div", &I, "divisor " + show(b));
        if (S.dead) return;
      }
      if (op == Instruction::Sub && terms[b].k == T_CONST && terms[b].c != INT64_MIN) { S.env[&I] = addTerm(a, mkConst(-terms[b].c, bits), bits); return; }
      if (op == Instruction::Add) { S.env[&I] = addTerm(a, b, bits); return; }
      if (terms[a].k == T_CONST && terms[b].k == T_CONST) {
        int64_t x = terms[a].c, y = terms[b].c, r = 0;
        bool ok = true;
        switch (op) {
        case Instruction::Sub: r = x - y; break;
        case Instruction::Mul: ok = !__builtin_mul_overflow(x, y, &r); break;
        case Instruction::And: r = x & y; break;
        case Instruction::Or: r = x | y; break;
        case Instruction::Xor: r = x ^ y; break;
        default: ok = false;
        }
        if (ok) { S.env[&I] = mkConst(r, bits); return; }
      }
      TD t{T_BIN};
      t.a = a; t.b = b; t.c = op; t.bits = bits;
      S.env[&I] = mk(t);
      return;
    }
    if (auto *Se = dyn_cast<SelectInst>(&I)) {
      Term c = termOf(S, Se->getCondition());
      IV v = val(S, c);
      Term a = termOf(S, Se->getTrueValue()), b = termOf(S, Se->getFalseValue());
      if (v.isConst()) S.env[&I] = v.lo ? a : b;
      else if (terms[a].k == T_CONST && terms[a].c == -1) S.env[&I] = b;   // allocation-size overflow guard
      else {
        Term r = mkLeaf(&I, 0, bitsOf(I.getType()));
        S.env[&I] = r;
        if (terms[r].bits != 65) { IV j = joinIV(val(S, a), val(S, b)); if (!j.top()) addFact(S, r, j); }
      }
      return;
    }
    if (auto *Ex = dyn_cast<ExtractValueInst>(&I)) {
      if (auto *CB = dyn_cast<CallBase>(Ex->getAggregateOperand()))
        if (auto *C = CB->getCalledFunction())
          if (C->isIntrinsic() && Ex->getIndices()[0] == 0) {
            unsigned op = 0;
            switch (C->getIntrinsicID()) {
            case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: op = Instruction::Mul; break;
            case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: op = Instruction::Add; break;
            default: break;
            }
            if (op) {
              Term a = termOf(S, CB->getArgOperand(0)), b = termOf(S, CB->getArgOperand(1));
              if (op == Instruction::Add) { S.env[&I] = addTerm(a, b, 64); return; }
              TD t{T_BIN};
              t.a = a; t.b = b; t.c = op; t.bits = 64;
              S.env[&I] = mk(t);
              return;
            }
          }
      S.env[&I] = mkLeaf(&I, 0, bitsOf(I.getType()));
      return;
    }
    if (isa<FreezeInst>(I)) { S.env[&I] = termOf(S, I.getOperand(0)); return; }
    if (!I.getType()->isVoidTy()) S.env[&I] = mkLeaf(&I, 0, bitsOf(I.getType()));
  }
  static bool collectorFile(const std::string &f) { size_t s = f.rfind('/'); std::string b = s == std::string::npos ? f : f.substr(s + 1); return b == "gc.cc" || b == "gc.h"; }
  static bool collectorGlobal(Term t) {
    if (terms[t].k == T_LOAD) return collectorGlobal(rootOf(terms[t].a));
    if (terms[t].k != T_GLOBAL) return false;
    static std::unordered_map<const void *, bool> memo;
    auto it = memo.find(terms[t].p);
    if (it != memo.end()) return it->second;
    bool r = false;
    if (auto *GV = dyn_cast<GlobalVariable>((const GlobalValue *)terms[t].p)) {
      SmallVector<DIGlobalVariableExpression *, 1> ds;
      GV->getDebugInfo(ds);
      for (auto *d : ds) if (d->getVariable()->getFile() && collectorFile(d->getVariable()->getFile()->getFilename().str())) r = true;
    }
    return memo[terms[t].p] = r;
  }
  bool atCollector(const Instruction *I) {
    if (auto *L = I->getDebugLoc().get()) return collectorFile(L->getFilename().str());
    return inCollector();
  }
  bool inCollector() {   // the collector poisons what it reclaims
    auto *SP = F.getSubprogram();
    return SP && baseFile(SP->getFilename()).find("/gc.") != std::string::npos;
  }
  // declared representation invariants are established by the stores
  void invStore(State &S, Term a, Term v, const Instruction *I) {
    const TD &d = terms[a];
    if (d.k == T_GLOBAL) {
      auto *GV = (const GlobalVariable *)d.p;
      if (gNonNeg.count(GV) && terms[v].bits != 65) require(S, Goal{G_GE0, v}, "ginv", I, "ginv:" + GV->getName().str());
      if (gMax.count(GV) && terms[v].bits != 65) { Goal g{G_LT, v, mkConst(gMax[GV], terms[v].bits)}; g.c = 0; require(S, g, "ginv", I, "ginv:" + GV->getName().str()); }
      if ((gNonNull.count(GV) || gMono.count(GV)) && terms[v].bits == 0) require(S, Goal{G_NZ, v}, "ginv", I, "ginv:" + GV->getName().str());
      return;
    }
    if (terms[v].bits == 0 && isValueArrayElem(a) && !inCollector()) { require(S, Goal{G_NZ, v}, "inv", I, ""); return; }
    if (d.k != T_FIELD) return;
    const std::string &Sn = *(const std::string *)d.p;
    std::string f = fieldName(Sn, d.c);
    auto fr = fieldRange.find({Sn, f});
    if (fr != fieldRange.end() && terms[v].bits != 65 && !inCollector()) {
      if (fr->second.hi < INT64_MAX / 4) { Goal g{G_LT, v, mkConst(fr->second.hi, terms[v].bits)}; g.c = 0; require(S, g, "inv", I, ""); }
      if (!S.dead) require(S, Goal{G_GE0, addTerm(v, mkConst(-fr->second.lo, terms[v].bits), terms[v].bits)}, "inv", I, "");
      return;
    }
    if (!nonNullFields.count({Sn, f})) return;
    if (terms[v].k == T_CONST && terms[v].c == 0) {
      // explicit null initialisation of a fresh object (dummy heads, constructors): overwritten or never followed
      return;
    }
    if (Sn == "SCM_List" || Sn == "SCM_Symbol" || Sn == "SCM_String") require(S, Goal{G_NZ, v}, "inv", I, "");
  }
  void terminator(State &S, Instruction &I, std::vector<std::pair<BasicBlock *, State>> &out) {
    if (auto *R = dyn_cast<ReturnInst>(&I)) {
      Exit e;
      if (R->getReturnValue()) e.ret = termOf(S, R->getReturnValue());
      if (record) {
        e.st = S;
        rawExits.push_back(std::move(e));
      }
      return;
    }
    if (auto *Br = dyn_cast<BranchInst>(&I)) {
      if (Br->isUnconditional()) { edge(S, I.getParent(), Br->getSuccessor(0), out); return; }
      Term c = termOf(S, Br->getCondition());
      State t = S;
      assume(t, c, true);
      if (!t.dead) edge(t, I.getParent(), Br->getSuccessor(0), out);
      assume(S, c, false);
      if (!S.dead) edge(S, I.getParent(), Br->getSuccessor(1), out);
      return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
      Term c = termOf(S, Sw->getCondition());
      for (auto cs : Sw->cases()) {
        State t = S;
        TD x{T_CMP};
        x.a = c; x.b = mkConst(cs.getCaseValue()->getSExtValue(), terms[c].bits); x.c = CmpInst::ICMP_EQ; x.bits = 1;
        assume(t, mk(x), true);
        if (!t.dead) edge(t, I.getParent(), cs.getCaseSuccessor(), out);
        assume(S, mk(x), false);
        if (S.dead) return;
      }
      edge(S, I.getParent(), Sw->getDefaultDest(), out);
      return;
    }
    // unreachable etc.: path ends
  }
  void edge(State &S, BasicBlock *from, BasicBlock *to, std::vector<std::pair<BasicBlock *, State>> &out) {
    State n = S;
    std::vector<std::pair<const Value *, Term>> upd;
    for (auto &I : *to) {
      auto *P = dyn_cast<PHINode>(&I);
      if (!P) break;
      upd.push_back({P, termOf(S, P->getIncomingValueForBlock(from))});
    }
    for (auto &u : upd) n.env[u.first] = u.second;
    // drop dead SSA values
    auto &live = FI.liveIn[to];
    for (auto it = n.env.begin(); it != n.env.end();) {
      if (!live.count(it->first)) it = n.env.erase(it);
      else ++it;
    }
    prune(n);
    out.push_back({to, std::move(n)});
  }
  void collectLeaves(Term t, std::set<Term> &out, std::set<Term> &seen) {
    if (!seen.insert(t).second) return;
    const TD &d = terms[t];
    if (d.k == T_LEAF) { out.insert(t); return; }
    if (d.k == T_LOAD && d.b >= 0) {}
    if (d.a >= 0) collectLeaves(d.a, out, seen);
    if (d.b >= 0 && d.k != T_LOAD) collectLeaves(d.b, out, seen);
  }
  bool leavesIn(Term t, const std::set<Term> &ok, std::unordered_map<Term, bool> &memo) {
    auto f = memo.find(t);
    if (f != memo.end()) return f->second;
    const TD &d = terms[t];
    bool r = true;
    if (d.k == T_LEAF) r = ok.count(t);
    else {
      if (d.a >= 0) r = leavesIn(d.a, ok, memo);
      if (r && d.b >= 0 && d.k != T_LOAD) r = leavesIn(d.b, ok, memo);
    }
    memo[t] = r;
    return r;
  }
  void prune(State &S) {
    std::set<Term> leaves, seen;
    for (auto &e : S.env) collectLeaves(e.second, leaves, seen);
    for (auto &o : S.objSize) if (leaves.count(o.first)) collectLeaves(o.second, leaves, seen);
    // memory reachable: addresses whose leaves are known
    for (int round = 0; round < 3; round++) {
      std::unordered_map<Term, bool> memo;
      size_t before = leaves.size();
      for (auto &m : S.mem)
        if (leavesIn(m.first, leaves, memo)) collectLeaves(m.second, leaves, seen);
      if (leaves.size() == before) break;
    }
    std::unordered_map<Term, bool> memo;
    for (auto it = S.mem.begin(); it != S.mem.end();) {
      // addresses of dead objects, and trivial entries
      bool triv = terms[it->second].k == T_LOAD && terms[it->second].a == it->first && stableKey(it->first) && terms[rootOf(it->first)].k != T_ALLOCA;
      if (triv || !leavesIn(it->first, leaves, memo)) it = S.mem.erase(it);
      else ++it;
    }
    for (auto it = S.facts.begin(); it != S.facts.end();) {
      if (!leavesIn(it->first, leaves, memo)) it = S.facts.erase(it);
      else ++it;
    }
    for (auto it = S.diffs.begin(); it != S.diffs.end();) {
      if (!leavesIn(it->first.first, leaves, memo) || !leavesIn(it->first.second, leaves, memo)) it = S.diffs.erase(it);
      else ++it;
    }
    for (auto it = S.objSize.begin(); it != S.objSize.end();) {
      if (!leavesIn(it->first, leaves, memo)) it = S.objSize.erase(it);
      else ++it;
    }
    for (auto it = S.zeroed.begin(); it != S.zeroed.end();) {
      if (!leavesIn(*it, leaves, memo)) it = S.zeroed.erase(it);
      else ++it;
    }
  }

  // ---- joins
  // Join two states; `where` identifies the join point (unique leaf names per variable).
  // killSet: predicate for leaves that may not survive un-renamed (loop variance).
  State join(State A, State B, const void *where, std::function<bool(Term)> variant, bool widen, bool hard = false) {
    State R;
    Subst sa, sb;
    std::vector<std::pair<Term, std::pair<Term, Term>>> extraA;  // J -> (tA,tB) for repeated mappings
    // versions
    auto verJoin = [&](int a, int b, std::pair<const void *, int> k) -> int {
      if (a == b && !(a >= 0 && variant && variant(a))) return a;
      return mkLeaf(where, 80000000 + (int64_t)(std::hash<const void *>()(k.first) % 10000000) * 7 + k.second, 0);
    };
    if (A.allVer != B.allVer || (A.allVer >= 0 && variant && variant(A.allVer))) R.allVer = mkLeaf(where, 79, 0);
    else R.allVer = A.allVer;
    {
      std::set<std::pair<const void *, int>> keys;
      for (auto &v : A.ver) keys.insert(v.first);
      for (auto &v : B.ver) keys.insert(v.first);
      for (auto &k : keys) {
        int a = A.ver.count(k) ? A.ver[k] : A.allVer, b = B.ver.count(k) ? B.ver[k] : B.allVer;
        R.ver[k] = verJoin(a, b, k);
      }
    }
    std::vector<std::pair<Term, TP>> news;
    auto isVar = [&](Term t) {
      if (!variant) return false;
      std::set<Term> lv, seen;
      collectLeaves(t, lv, seen);
      for (auto l : lv) if (variant(l)) return true;
      return false;
    };
    std::set<Term> changedJ;
    for (auto &e : A.env) {
      auto f = B.env.find(e.first);
      if (f == B.env.end()) continue;
      Term J = mkLeaf(where, (int64_t)(intptr_t)e.first, terms[e.second].bits == 65 ? 65 : bitsOf(e.first->getType()));
      if (e.second == f->second && !(isVar(e.second) && e.second != J)) { R.env[e.first] = e.second; continue; }
      if (e.second == f->second && e.second == J) { R.env[e.first] = J; continue; }
      R.env[e.first] = J;
      news.push_back({J, {e.second, f->second}});
      if (f->second != J || e.second != J) changedJ.insert(J);
    }
    for (auto &e : A.mem) {
      auto f = B.mem.find(e.first);
      if (f == B.mem.end()) continue;
      if (isVar(e.first)) continue;
      if (e.second == f->second && !isVar(e.second)) { R.mem[e.first] = e.second; continue; }
      int bits = terms[e.second].bits;
      if (bits != terms[f->second].bits && !(terms[e.second].k == T_CONST || terms[f->second].k == T_CONST)) continue;
      if (terms[e.second].k == T_CONST) bits = terms[f->second].bits;
      // kind and payload of a value are written once, when it is made: the cell itself is a good name for them
      if (terms[e.first].k == T_FIELD && terms[e.first].p == sSCM && (terms[e.first].c == fSCMtype || terms[e.first].c == fSCMvalue)) {
        Term L = mkLoad(e.first, -1, terms[e.first].c == fSCMtype ? 32 : 0);
        auto put = [&](State &X, Term v) { if (v == L || terms[v].bits == 65) return; IV k = kindIV(e.first, val(X, v)); if (!k.top()) { auto i = X.facts.find(L); X.facts[L] = i == X.facts.end() ? k : meet(i->second, k); } };
        put(A, e.second); put(B, f->second);
        continue;
      }
      Term J = mkLeaf(where, 500000000000ll + e.first, bits);
      R.mem[e.first] = J;
      news.push_back({J, {e.second, f->second}});
      if (f->second != J || e.second != J) changedJ.insert(J);
    }
    // renamed copies of facts
    auto rename = [&](State &X, bool second, std::vector<std::pair<Term, IV>> &facts, std::vector<std::pair<TP, int64_t>> &diffs) {
      // simultaneous substitution with the first J for each term
      std::map<Term, std::vector<Term>> multi;
      for (auto &n : news) { Term t = second ? n.second.second : n.second.first; multi[t].push_back(n.first); }
      size_t maxm = 1;
      for (auto &m : multi) maxm = std::max(maxm, m.second.size());
      maxm = std::min<size_t>(maxm, 4);
      for (size_t round = 0; round < maxm; round++) {
        Subst s;
        for (auto &m : multi) {
          Term J = m.second[std::min(round, m.second.size() - 1)];
          if (terms[m.first].k == T_CONST) continue;
          s.m[m.first] = J;
        }
        s.leafFn = [&](Term t) -> Term {
          if (changedJ.count(t) && !s.m.count(t)) return s.kill;
          if (terms[t].k == T_LEAF && variant && variant(t)) return s.kill;
          return t;
        };
        for (auto &f : X.facts) {
          Term t = s.apply(f.first);
          if (t != s.kill) facts.push_back({t, f.second});
        }
        for (auto &d : X.diffs) {
          Term a = s.apply(d.first.first), b = s.apply(d.first.second);
          if (a != s.kill && b != s.kill) diffs.push_back({{a, b}, d.second});
        }
      }
      // facts under their own name too (terms that are unchanged)
      Subst id;
      id.leafFn = [&](Term t) -> Term {
        if (changedJ.count(t)) return id.kill;
        if (terms[t].k == T_LEAF && variant && variant(t)) return id.kill;
        return t;
      };
      for (auto &f : X.facts) { Term t = id.apply(f.first); if (t != id.kill) facts.push_back({t, f.second}); }
      for (auto &d : X.diffs) {
        Term a = id.apply(d.first.first), b = id.apply(d.first.second);
        if (a != id.kill && b != id.kill) diffs.push_back({{a, b}, d.second});
      }
      // value knowledge of the renamed terms themselves
      for (auto &n : news) {
        Term t = second ? n.second.second : n.second.first;
        if (terms[t].bits == 65) continue;
        IV v = val(X, t);
        if (!v.top()) facts.push_back({n.first, v});
        // the renamed term is definitionally equal to constants / offsets: x+1 vs x
        Term b; int64_t o;
        lin(t, b, o);
        if (o != 0 && terms[t].bits != 0) {
          // J = b + o ; express relative to whatever b is renamed to
          for (auto &m : news) {
            Term t2 = second ? m.second.second : m.second.first;
            if (t2 == b) { diffs.push_back({{n.first, m.first}, o}); diffs.push_back({{m.first, n.first}, -o}); }
          }
        }
      }
      // pairwise relations between renamed variables and their context
      std::vector<Term> ints;
      for (auto &n : news) if (terms[n.first].bits > 1 && terms[n.first].bits <= 64) ints.push_back(n.first);
      if (ints.size() <= 14)
        for (auto &n : news) {
          if (!(terms[n.first].bits > 1 && terms[n.first].bits <= 64)) continue;
          Term t = second ? n.second.second : n.second.first;
          for (auto &m : news) {
            if (&m == &n || !(terms[m.first].bits > 1 && terms[m.first].bits <= 64)) continue;
            Term t2 = second ? m.second.second : m.second.first;
            int64_t u = upperDiff(X, t, t2);
            if (u != NOB) diffs.push_back({{n.first, m.first}, u});
          }
          // against invariant terms it is already related to
          std::set<Term> others;
          for (auto *Y : {&A, &B})
            for (auto &d : Y->diffs) {
              others.insert(d.first.first);
              others.insert(d.first.second);
            }
          int cnt = 0;
          for (Term o : others) {
            if (terms[o].bits <= 1 || terms[o].bits > 64) continue;
            if (isVar(o) || changedJ.count(o)) continue;
            std::set<Term> lv, seen; collectLeaves(o, lv, seen);
            bool bad = false; for (auto l : lv) if (changedJ.count(l)) bad = true;
            if (bad) continue;
            if (++cnt > 20) break;
            int64_t u = upperDiff(X, t, o);
            if (u != NOB && u > INT64_MIN / 4) diffs.push_back({{n.first, o}, u});
            u = upperDiff(X, o, t);
            if (u != NOB && u > INT64_MIN / 4) diffs.push_back({{o, n.first}, u});
          }
        }
    };
    std::vector<std::pair<Term, IV>> fa, fb;
    std::vector<std::pair<TP, int64_t>> da, db;
    rename(A, false, fa, da);
    rename(B, true, fb, db);
    // fields of objects that got a new name
    for (auto &n : news) {
      if (terms[n.first].bits != 0) continue;
      Term tA = n.second.first, tB = n.second.second;
      if (terms[tA].k == T_CONST || terms[tB].k == T_CONST) continue;
      std::set<std::pair<const void *, int64_t>> fs;
      std::map<std::pair<const void *, int64_t>, int> fbits;
      for (auto *X : {&A, &B}) {
        Term tx = X == &A ? tA : tB;
        for (auto &m : X->mem) if (terms[m.first].k == T_FIELD && terms[m.first].a == tx && terms[m.second].bits != 65) {
          std::pair<const void *, int64_t> k(terms[m.first].p, terms[m.first].c);
          fs.insert(k);
          if (terms[m.second].k != T_CONST || !fbits.count(k)) fbits[k] = terms[m.second].bits;
        }
      }
      if (fs.size() > 12) continue;
      for (auto &k : fs) {
        auto *Sn = (const std::string *)k.first;
        auto cell = [&](State &X, Term base) { Term a = mkField(base, Sn, k.second); auto i = X.mem.find(a); return kindIV(a, val(X, i != X.mem.end() ? i->second : mkLoad(a, verOf(X, a), fbits[k]))); };
        IV a = cell(A, tA), b = cell(B, tB);
        if (a.top() || b.top()) continue;
        Term ja = mkField(n.first, Sn, k.second);
        if (R.mem.count(ja)) continue;
        Term L = mkLoad(ja, verOf(R, ja), fbits[k]);
        fa.push_back({L, a});
        fb.push_back({L, b});
      }
    }
    State SA, SB;   // renamed states, used only for evaluation
    SA.mem = SB.mem = R.mem;
    for (auto &f : fa) { auto i = SA.facts.find(f.first); SA.facts[f.first] = i == SA.facts.end() ? f.second : meet(i->second, f.second); }
    for (auto &f : fb) { auto i = SB.facts.find(f.first); SB.facts[f.first] = i == SB.facts.end() ? f.second : meet(i->second, f.second); }
    for (auto &d : da) { auto i = SA.diffs.find(d.first); if (i == SA.diffs.end() || d.second < i->second) SA.diffs[d.first] = d.second; }
    for (auto &d : db) { auto i = SB.diffs.find(d.first); if (i == SB.diffs.end() || d.second < i->second) SB.diffs[d.first] = d.second; }
    std::set<Term> ts;
    for (auto &f : SA.facts) ts.insert(f.first);
    for (auto &f : SB.facts) ts.insert(f.first);
    State empty;
    for (Term t : ts) {
      IV a = val(SA, t), b = val(SB, t);
      IV j = joinIV(a, b);
      if (widen) {
        // B is the new information, A the old one
        if (j.lo < a.lo) { j.lo = INT64_MIN; if (b.lo >= 0) j.lo = 0; j.useMask = j.useMask && j.mask != 0; }
        if (j.hi > a.hi) { if (!(!hard && j.useMask && terms[t].bits != 0 && terms[t].bits <= 32 && j.hi < 32)) { j.hi = nextThreshold(j.hi); j.useMask = false; } }
        if (!j.useMask && j.lo > j.hi) j = IV();
        if (j.lo == INT64_MIN) j.useMask = false;
        j.norm();
      }
      IV base = val(empty, t);
      if (!leq(base, j)) R.facts[t] = j;
    }
    std::set<TP> dk;
    for (auto &d : SA.diffs) dk.insert(d.first);
    for (auto &d : SB.diffs) dk.insert(d.first);
    for (auto &k : dk) {
      int64_t a = upperDiff(SA, k.first, k.second), b = upperDiff(SB, k.first, k.second);
      if (a == NOB || b == NOB) continue;
      if (widen && !SA.diffs.count(k)) continue;   // under widening the set of relations only shrinks
      if (widen && b > a) {
        // keep a small set of thresholds
        int64_t t = NOB;
        for (int64_t th : {-1, 0, 1}) if (b <= th) { t = th; break; }
        if (t == NOB) continue;
        R.diffs[k] = t;
        continue;
      }
      if (R.diffs.size() < 120) R.diffs[k] = std::max(a, b);
    }
    for (auto &o : A.objSize) {
      auto f = B.objSize.find(o.first);
      if (f != B.objSize.end() && f->second == o.second && !isVar(o.first) && !isVar(o.second)) R.objSize.insert(o);
    }
    for (auto z : A.zeroed) if (B.zeroed.count(z) && !isVar(z)) R.zeroed.insert(z);
    return R;
  }
  // category vector: keeps states apart that differ in nullness / booleans of live variables
  std::vector<int> category(State &S, const BasicBlock *B) {
    std::vector<int> c;
    for (auto &e : S.env) {
      if (terms[e.second].bits == 0 || e.first->getType()->isPointerTy()) {
        IV v = val(S, e.second);
        c.push_back(v.nz ? 1 : (v.isConst() ? 0 : 2));
      } else if (e.first->getType()->isIntegerTy(1) || e.first->getType()->isIntegerTy(8)) {
        IV v = val(S, e.second);
        c.push_back(v.isConst() && v.lo >= 0 && v.lo < 2 ? (int)v.lo : 2);
      } else c.push_back(3);
    }
    return c;
  }
  bool subsumed(const State &A, const State &B) {  // A is at least as strong as B
    if (A.env != B.env) return false;
    for (auto &m : B.mem) { auto i = A.mem.find(m.first); if (i == A.mem.end() || i->second != m.second) return false; }
    for (auto &f : B.facts) if (!leq(val(A, f.first), f.second)) return false;
    for (auto &d : B.diffs) { int64_t u = upperDiff(A, d.first.first, d.first.second); if (u == NOB || u > d.second) return false; }
    for (auto &o : B.objSize) { auto i = A.objSize.find(o.first); if (i == A.objSize.end() || i->second != o.second) return false; }
    for (auto z : B.zeroed) if (!A.zeroed.count(z)) return false;
    if (A.ver != B.ver || A.allVer != B.allVer) return false;
    return true;
  }
  bool sameState(const State &A, const State &B) {
    return A.env == B.env && A.mem == B.mem && A.facts == B.facts && A.diffs == B.diffs && A.objSize == B.objSize && A.zeroed == B.zeroed && A.ver == B.ver && A.allVer == B.allVer;
  }
  void mergeDown(std::vector<State> &v, const BasicBlock *B, const void *where, unsigned cap) {
    // remove duplicates
    for (size_t i = 0; i < v.size(); i++)
      for (size_t j = 0; j < v.size();) {
        if (i != j && subsumed(v[j], v[i])) { v.erase(v.begin() + j); if (j < i) i--; }
        else j++;
      }
    if (v.size() <= cap) return;
    // group by category
    std::map<std::vector<int>, std::vector<size_t>> g;
    for (size_t i = 0; i < v.size(); i++) g[category(v[i], B)].push_back(i);
    std::vector<State> r;
    for (auto &kv : g) {
      // if there is room keep members apart
      State acc = v[kv.second[0]];
      for (size_t i = 1; i < kv.second.size(); i++) acc = join(acc, v[kv.second[i]], where, nullptr, false);
      r.push_back(std::move(acc));
    }
    while (r.size() > cap) {
      State b = std::move(r.back());
      r.pop_back();
      r.back() = join(r.back(), b, where, nullptr, false);
    }
    v = std::move(r);
  }

  void run(State entry) {
    std::map<const BasicBlock *, std::map<const BasicBlock *, std::vector<State>, ById>, ById> in;  // target -> source -> states
    std::map<const BasicBlock *, std::vector<State>, ById> H;                                 // header invariants
    std::map<const BasicBlock *, int, ById> hvisits;
    std::set<int> work;
    work.insert(0);
    std::map<const BasicBlock *, std::vector<State>, ById> finalIn;
    BasicBlock *E = FI.rpo[0];
    long guard = 0;
    while (!work.empty()) {
      int bi = *work.begin();
      work.erase(work.begin());
      BasicBlock *B = FI.rpo[bi];
      if (++guard > 6000) { counts["aborted_functions"]++; break; }
      std::vector<State> st;
      if (B == E) st.push_back(entry);
      for (auto &s : in[B]) for (auto &x : s.second) st.push_back(x);
      if (st.empty()) continue;
      if (FI.header.count(B)) {
        auto &L = FI.loopBlocks[B];
        auto variant = [&](Term t) -> bool {
          const TD &d = terms[t];
          if (d.k != T_LEAF) return false;
          auto *I = (const Value *)d.p;
          if (!I) return false;
          if (d.p == (const void *)B) return false;  // header's own join leaves are handled explicitly
          const BasicBlock *PB = nullptr;
          if (blockSet.count(d.p)) PB = (const BasicBlock *)d.p;
          else if (instSet.count(d.p)) PB = ((const Instruction *)d.p)->getParent();
          return PB && L.count(PB);
        };
        int vis = ++hvisits[B];
        bool changed = false;
        auto &h = H[B];
        // rebuild from entry edges each time would lose widening; accumulate instead
        for (auto &src : in[B]) {
          bool back = L.count(src.first);
          for (auto &x : src.second) {
            State y = x;
            if (h.empty()) { h.push_back(y); changed = true; continue; }
            // find subsuming
            bool done = false;
            for (auto &k : h) if (subsumed(y, k)) { done = true; break; }
            if (done) continue;
            auto cy = category(y, B);
            int best = -1;
            for (size_t i = 0; i < h.size(); i++) if (category(h[i], B) == cy) { best = i; break; }
            if (best < 0 && h.size() < 6 && vis < 30) {
              if (!back) { h.push_back(y); changed = true; continue; }
              // a new disjunct coming round the loop: rename its variant parts by joining with itself
              State z = join(y, y, B, variant, false);
              bool d2 = false;
              for (auto &k : h) if (subsumed(z, k)) d2 = true;
              if (!d2) { h.push_back(z); changed = true; }
              continue;
            }
            if (best < 0) best = 0;
            State j = join(h[best], y, B, variant, vis > 3, vis > 8);
            prune(j);
            if (!sameState(j, h[best])) {
              if (verbose_ > 4 && vis > 8) {
                curFnForNames = &F;
                errs() << "HEADER " << B->getName() << " visit " << vis << " disjunct " << best << " of " << h.size() << "\n";
                auto &o = h[best];
                for (auto &e : j.env) if (!o.env.count(e.first) || o.env[e.first] != e.second) errs() << "   env " << e.first->getName() << " " << (o.env.count(e.first) ? o.env[e.first] : -1) << " -> " << e.second << " " << show(e.second) << "\n";
                for (auto &e : j.mem) if (!o.mem.count(e.first) || o.mem[e.first] != e.second) errs() << "   mem+ " << e.first << " " << show(e.first) << " -> " << e.second << " " << show(e.second) << "\n";
                for (auto &e : o.mem) if (!j.mem.count(e.first)) errs() << "   mem- " << e.first << " " << show(e.first) << "\n";
                for (auto &e : j.facts) if (!o.facts.count(e.first) || !(o.facts[e.first] == e.second)) errs() << "   fact+ " << e.first << " " << show(e.first) << " [" << e.second.lo << "," << e.second.hi << "]" << e.second.nz << "\n";
                for (auto &e : o.facts) if (!j.facts.count(e.first)) errs() << "   fact- " << e.first << " " << show(e.first) << "\n";
                for (auto &e : j.diffs) if (!o.diffs.count(e.first) || !(o.diffs[e.first] == e.second)) errs() << "   diff+ " << show(e.first.first) << " - " << show(e.first.second) << " <= " << e.second << "\n";
                for (auto &e : o.diffs) if (!j.diffs.count(e.first)) errs() << "   diff- " << show(e.first.first) << " - " << show(e.first.second) << "\n";
                if (j.ver != o.ver || j.allVer != o.allVer) errs() << "   ver\n";
                if (j.objSize != o.objSize) errs() << "   objsize\n";
                if (j.zeroed != o.zeroed) errs() << "   zeroed\n";
              }
              h[best] = j; changed = true;
            }
            if (vis > 40) {
              counts["slow_loops"]++;
            }
          }
        }
        if (B == E && h.empty()) { h.push_back(entry); changed = true; }
        if (!changed && vis > 1) continue;
        if (vis > 60) { counts["aborted_loops"]++; if (verbose_ > 0) errs() << "aborted loop in " << F.getName() << " " << B->getName() << "\n"; continue; }
        st = h;
      } else mergeDown(st, B, B, KB);
      finalIn[B] = st;
      std::vector<std::pair<BasicBlock *, State>> out;
      for (auto &s : st) exec(s, B->begin(), out);
      std::map<const BasicBlock *, std::vector<State>, ById> by;
      for (auto &o : out) by[o.first].push_back(std::move(o.second));
      for (auto *Sx : successors(B)) {
        auto &slot = in[Sx][B];
        std::vector<State> nv;
        auto f = by.find(Sx);
        if (f != by.end()) nv = f->second;
        // avoid useless re-processing
        bool same = nv.size() == slot.size();
        if (same) for (size_t i = 0; i < nv.size(); i++) if (!sameState(nv[i], slot[i])) { same = false; break; }
        if (!same) {
          slot = std::move(nv);
          work.insert(FI.idx[Sx]);
        }
      }
    }
    // final pass: record
    record = true;
    for (auto *B : FI.rpo) {
      auto f = finalIn.find(B);
      if (f == finalIn.end()) continue;
      auto st = f->second;
      if (FI.header.count(B)) st = H[B];
      std::vector<std::pair<BasicBlock *, State>> out;
      if (verbose_ > 3) for (auto &s : st) { errs() << "== " << F.getName() << " block " << B->getName() << "\n"; curFnForNames = &F; dumpState(s); }
      for (auto &s : st) exec(s, B->begin(), out);
    }
    record = false;
  }
  std::set<const void *> blockSet, instSet;
  // widening stops at the constants the function compares with
  std::set<int64_t> thresholds;
  int64_t nextThreshold(int64_t v) {
    auto it = thresholds.lower_bound(v);
    return it == thresholds.end() ? INT64_MAX : *it;
  }
  void prep() {
    for (auto &B : F) for (auto &I : B) if (auto *IC = dyn_cast<ICmpInst>(&I)) for (auto &O : IC->operands()) if (auto *K = dyn_cast<ConstantInt>(O)) {
      int64_t k = K->getBitWidth() <= 64 ? K->getSExtValue() : 0;
      if (k >= 2 && k <= (1 << 20) && thresholds.size() < 16) { thresholds.insert(k); thresholds.insert(k - 1); }
    }
    for (auto &B : F) { blockSet.insert(&B); for (auto &I : B) instSet.insert(&I); }
  }

  // contract of arguments at entry
  State entryState(bool root) {
    State S;
    auto *SP = F.getSubprogram();
    unsigned nImplicit = 0;
    if (SP) {
      auto ta = SP->getType()->getTypeArray();
      unsigned n = ta.size() ? ta.size() - 1 : 0;
      nImplicit = F.arg_size() > n ? F.arg_size() - n : 0;
    }
    for (auto &A : F.args()) {
      if (A.hasStructRetAttr() || A.hasByValAttr() || A.hasNonNullAttr()) S.facts[mkArg(&A, 0)] = ivNZ();
      if (A.getArgNo() < nImplicit && A.getType()->isPointerTy()) S.facts[mkArg(&A, 0)] = ivNZ();
    }
    if (root) rootContract(S);
    return S;
  }
  void rootContract(State &S) {
    auto *SP = F.getSubprogram();
    if (!SP) return;
    auto ta = SP->getType()->getTypeArray();
    unsigned n = ta.size() ? ta.size() - 1 : 0;
    unsigned off = F.arg_size() > n ? F.arg_size() - n : 0;
    for (unsigned i = 0; i < n && i + off < F.arg_size(); i++) {
      std::string p = ptrPointee(ta[i + 1]);
      Term a = mkArg(F.getArg(i + off), bitsOf(F.getArg(i + off)->getType()));
      // values, environments, C strings, ports... handed in by a caller that owns them; lists may be empty (null)
      // but an expression handed to a special form together with its environment is not
      if (!p.empty() && (p != "SCM_List" || (i > 0 && ptrPointee(ta[i]) == "SCM_Environment"))) S.facts[a] = ivNZ();
    }
  }

  void summarise() {
    // turn raw exits into summary exits over arguments, globals and the result
    Summary &Sm = summaries[&F];
    int rb = bitsOf(F.getReturnType());
    Term RET = retTerm(rb);
    std::vector<Exit> ex;
    for (auto &e : rawExits) {
      Exit n;
      State &S = e.st;
      Subst sub;
      Term r = e.ret;
      bool named = false;
      if (r >= 0 && rb != 65 && !expressible(r)) { sub.m[r] = RET; named = true; }
      // name memory results: content of arguments' / result's memory at exit
      sub.leafFn = [&](Term t) -> Term { if (terms[t].k == T_ARG || terms[t].k == T_RET) return t; return sub.kill; };
      auto okAddr = [&](Term a) -> Term {
        Term t = sub.apply(a);
        if (t == sub.kill) return t;
        Term rt = rootOf(t);
        TK k = terms[rt].k;
        if (k == T_RET || k == T_ARG || k == T_GLOBAL || k == T_LOAD) return t;
        return sub.kill;
      };
      for (int round = 0; round < 3; round++) {
        bool more = false;
        for (auto &m : S.mem) {
          if (expressible(m.second) || sub.m.count(m.second)) continue;
          if (terms[m.second].k == T_CONST) continue;
          sub.memo.clear();
          Term a = okAddr(m.first);
          if (a == sub.kill) continue;
          if (termDepth[a] > 14) continue;
          if (terms[m.second].bits == 65) continue;
          if (collectorGlobal(rootOf(a))) continue;
          sub.m[m.second] = exitLoad(a, terms[m.second].bits);
          more = true;
        }
        if (!more) break;
      }
      sub.memo.clear();
      auto okTerm = [&](Term t) -> Term {
        // versions of loads that are not entry loads cannot be named
        Term u = sub.apply(t);
        if (u == sub.kill) return u;
        if (!verOk(u)) return sub.kill;
        return u;
      };
      for (auto &m : S.mem) {
        Term a = okAddr(m.first);
        if (a == sub.kill || !verOk(a)) continue;
        Term v = okTerm(m.second);
        if (v == sub.kill) {
          continue;
        }
        if (v == mkLoad(a, -1, terms[v].bits)) continue;
        if (collectorGlobal(rootOf(a))) continue;
        n.st.mem[a] = v;
      }
      for (auto &f : S.facts) {
        Term t = okTerm(f.first);
        if (t == sub.kill || terms[t].bits == 65 || termDepth[t] > 16) continue;
        auto i = n.st.facts.find(t);
        n.st.facts[t] = i == n.st.facts.end() ? f.second : meet(i->second, f.second);
      }
      for (auto &d : S.diffs) {
        Term a = okTerm(d.first.first), b = okTerm(d.first.second);
        if (a != sub.kill && b != sub.kill) n.st.diffs[{a, b}] = d.second;
      }
      // what is known of the terms that got a new name
      for (auto &q : sub.m) {
        if (terms[q.first].bits == 65 || q.second == RET || !verOk(q.second)) continue;
        IV v = val(S, q.first);
        State e0;
        if (!leq(val(e0, q.second), v)) { auto i = n.st.facts.find(q.second); n.st.facts[q.second] = i == n.st.facts.end() ? v : meet(v, i->second); }
      }
      for (auto &q : sub.m) {
        const TD &qd = terms[q.first];
        if (qd.k == T_BIN && (qd.c == Instruction::URem || qd.c == Instruction::SRem) && val(S, qd.b).lo > 0) {
          Term b = okTerm(qd.b);
          if (b != sub.kill && terms[b].k != T_CONST && verOk(q.second)) n.st.diffs[{q.second, b}] = -1;
        }
      }
      for (auto &o : S.objSize) {
        Term a = okTerm(o.first), b = okTerm(o.second);
        if (a != sub.kill && b != sub.kill) n.st.objSize[a] = b;
      }
      if (r >= 0 && rb != 65) {
        n.ret = named ? RET : r;
        if (named) { IV v = val(S, r); if (!v.top()) { auto i = n.st.facts.find(RET); n.st.facts[RET] = i == n.st.facts.end() ? v : meet(v, i->second); } }
      }
      n.st.env[(const Value *)&F] = n.ret >= 0 ? n.ret : mkConst(0, 1);
      ex.push_back(std::move(n));
    }
    // merge exits
    auto toStates = [&](std::vector<Exit> &v) { std::vector<State> s; for (auto &e : v) s.push_back(e.st); return s; };
    std::vector<State> st = toStates(ex);
    for (size_t i = 0; i < st.size(); i++)
      for (size_t j = 0; j < st.size();) {
        if (i != j && subsumed(st[j], st[i])) { st.erase(st.begin() + j); if (j < i) i--; }
        else j++;
      }
    size_t cap = 6;
    if (st.size() > cap) {
      std::map<std::vector<int64_t>, std::vector<State>> g;
      for (auto &s : st) {
        Term r = s.env.begin()->second;
        std::vector<int64_t> key;
        IV v = val(s, r);
        key.push_back(terms[r].k == T_CONST ? terms[r].c : -5);
        key.push_back(v.nz ? 1 : v.isConst() ? 0 : 2);
        // kind of the result
        if (rb == 0 && terms[r].k != T_CONST) {
          auto mt = s.mem.find(mkField(r, sSCM, fSCMtype));
          IV k = val(s, mt != s.mem.end() ? mt->second : mkLoad(mkField(r, sSCM, fSCMtype), -1, 32));
          if (mt != s.mem.end() && k.isConst()) k = ivMask(1ull << k.lo);
          key.push_back(k.useMask && __builtin_popcountll(k.mask) <= 1 ? (int64_t)k.mask : -7);
        } else key.push_back(-8);
        // nullness of arguments
        for (auto &A : F.args()) if (A.getType()->isPointerTy()) { IV a = val(s, mkArg(&A, 0)); key.push_back(a.nz ? 1 : a.isConst() ? 0 : 2); }
        g[key].push_back(s);
      }
      std::vector<State> r;
      for (auto &kv : g) {
        State acc = kv.second[0];
        for (size_t i = 1; i < kv.second.size(); i++) acc = joinExit(acc, kv.second[i], rb);
        r.push_back(acc);
      }
      while (r.size() > cap) {
        State b = r.back();
        r.pop_back();
        r.back() = joinExit(r.back(), b, rb);
      }
      st = r;
    }
    std::vector<Exit> fin;
    for (auto &s : st) {
      Exit e;
      e.ret = s.env.begin()->second;
      if (F.getReturnType()->isVoidTy() || rb == 65) e.ret = -1;
      e.st = s;
      fin.push_back(e);
    }
    Sm.exits = fin;
    if (!fin.empty()) Sm.bottom = false;
  }
  bool verOk(Term t) {
    const TD &d = terms[t];
    if (d.k == T_LOAD && d.b != -1 && d.b != exitVer()) return false;
    if (d.a >= 0 && !verOk(d.a)) return false;
    if (d.k != T_LOAD && d.b >= 0 && !verOk(d.b)) return false;
    return true;
  }
  State joinExit(State A, State B, int rb) {
    // return values that differ become RET
    Term RET = retTerm(rb);
    Term ra = A.env.begin()->second, rbv = B.env.begin()->second;
    auto toRet = [&](State &X, Term r) {
      if (r == RET) return;
      IV v = val(X, r);
      // copy facts about r under the name RET
      Subst s;
      if (terms[r].k != T_CONST) {
        s.m[r] = RET;
        std::vector<std::pair<Term, IV>> add;
        for (auto &f : X.facts) { Term t = s.apply(f.first); if (t != f.first) add.push_back({t, f.second}); }
        for (auto &a : add) X.facts[a.first] = a.second;
      }
      if (!v.top()) X.facts[RET] = v;
      if (rb == 0 && terms[r].k != T_CONST) {
        // kind of the value, when it is known without a recorded fact
        Term la = mkField(r, sSCM, fSCMtype), lr = mkField(RET, sSCM, fSCMtype);
        auto mt = X.mem.find(la);
        for (int ver : {-1}) {
          IV k = val(X, mt != X.mem.end() ? mt->second : mkLoad(la, ver, 32));
          if (mt != X.mem.end() && k.isConst()) k = ivMask(1ull << k.lo);
          if (k.useMask && k.mask != allTypes) { Term q = mkLoad(lr, -1, 32); auto i = X.facts.find(q); X.facts[q] = i == X.facts.end() ? k : meet(i->second, k); }
        }
      }
      X.env[(const Value *)&F] = RET;
    };
    if (ra != rbv) { toRet(A, ra); toRet(B, rbv); }
    State R;
    R.env = A.env;
    for (auto &m : A.mem) {
      auto f = B.mem.find(m.first);
      if (f == B.mem.end()) {
        // unknown in B: content at exit is unknown in the join
        Term J = exitLoad(m.first, terms[m.second].bits);
        if (terms[J].b == -1) { IV a = kindIV(m.first, val(A, m.second)); auto i = A.facts.find(J); if (!a.top()) A.facts[J] = i == A.facts.end() ? a : meet(i->second, a); }
        else R.mem[m.first] = J;
        continue;
      }
      if (f->second == m.second) R.mem[m.first] = m.second;
      else {
        Term J = exitLoad(m.first, terms[m.second].bits);
        IV a = kindIV(m.first, val(A, m.second)), b = kindIV(m.first, val(B, f->second));
        A.facts[J] = a;
        B.facts[J] = b;
        if (terms[J].b != -1) R.mem[m.first] = J;
      }
    }
    for (auto &m : B.mem) if (!A.mem.count(m.first)) {
      Term J = exitLoad(m.first, terms[m.second].bits);
      if (terms[J].b == -1) { IV b = kindIV(m.first, val(B, m.second)); auto i = B.facts.find(J); if (!b.top()) B.facts[J] = i == B.facts.end() ? b : meet(i->second, b); }
      else R.mem[m.first] = J;
    }
    std::set<Term> ts;
    for (auto &f : A.facts) ts.insert(f.first);
    State empty;
    for (Term t : ts) {
      if (!B.facts.count(t)) {
        // B may still know it implicitly
      }
      IV j = joinIV(val(A, t), val(B, t));
      if (!leq(val(empty, t), j)) R.facts[t] = j;
    }
    for (auto &f : B.facts) if (!ts.count(f.first)) {
      IV j = joinIV(val(A, f.first), val(B, f.first));
      if (!leq(val(empty, f.first), j)) R.facts[f.first] = j;
    }
    for (auto &d : A.diffs) {
      int64_t u = upperDiff(B, d.first.first, d.first.second);
      if (u != NOB) R.diffs[d.first] = std::max(u, d.second);
    }
    for (auto &o : A.objSize) { auto f = B.objSize.find(o.first); if (f != B.objSize.end() && f->second == o.second) R.objSize.insert(o); }
    return R;
  }
};

// --- call graph ---------------------------------------------------------------------------------------
bool nonNullRet(const Function *F) {
  static const std::set<std::string> names = {"eval_with_env", "apply_procedure", "apply_procedure_with_values", "quasi", "expand_macro_call"};
  static std::unordered_map<const Function *, bool> memo;
  auto it = memo.find(F);
  if (it != memo.end()) return it->second;
  bool r = names.count(pretty(F)) && F->getReturnType()->isPointerTy();
  if (!r && F->getReturnType()->isPointerTy() && (builtinFns.count(F) || addrTaken.count(F))) {
    auto *SP = F->getSubprogram();
    if (SP) { auto ta = SP->getType()->getTypeArray(); if (ta.size() && ta[0] && ptrPointee(ta[0]) == "SCM") r = true; }
  }
  return memo[F] = r;
}

struct CG {
  std::map<Function *, std::set<Function *, ById>, ById> out, in;
  std::vector<std::vector<Function *>> sccs;
  std::map<Function *, int, ById> num, low;
  std::vector<Function *> st;
  std::set<Function *, ById> on;
  int t = 0;
  void dfs(Function *f) {
    num[f] = low[f] = ++t;
    st.push_back(f);
    on.insert(f);
    for (auto *g : out[f]) {
      if (!num.count(g)) { dfs(g); low[f] = std::min(low[f], low[g]); }
      else if (on.count(g)) low[f] = std::min(low[f], num[g]);
    }
    if (low[f] == num[f]) {
      std::vector<Function *> c;
      Function *g;
      do { g = st.back(); st.pop_back(); on.erase(g); c.push_back(g); } while (g != f);
      sccs.push_back(c);
    }
  }
};

}  // namespace

static std::string j2(const std::string &s) { return s; }

int runEngine(Module &M, const std::string &outPath, int verbose, const std::string &only) {
  numberValues(M);
  verbose_ = verbose;
  const int verbosity = verbose;
  sSCM = internName("SCM");
  fSCMtype = fieldIdx("SCM", "type");
  fSCMvalue = fieldIdx("SCM", "value");
  if (fSCMtype < 0 || fSCMvalue < 0) { errs() << "pscmlint: struct SCM {type,value} not found\n"; return 2; }
  auto &E = enums().scm;
  for (auto &e : E) allTypes |= 1ull << e.second;
  auto K = [&](const char *st, std::initializer_list<const char *> ts) {
    uint64_t m = 0;
    for (auto *t : ts) { if (!E.count(t)) { errs() << "pscmlint: SCM::" << t << " not found\n"; exit(2); } m |= 1ull << E[t]; }
    kindMask[st] = m;
    ptrTypes |= m;
  };
  K("SCM_List", {"LIST"}); K("SCM_String", {"STR"}); K("SCM_Symbol", {"SYM"}); K("SCM_Procedure", {"PROC"});
  K("SCM_Function", {"FUNC"}); K("SCM_Continuation", {"CONT"}); K("SCM_Macro", {"MACRO"}); K("SCM_HashTable", {"HASH_TABLE"});
  K("SCM_Rational", {"RATIO"}); K("SCM_Vector", {"VECTOR"}); K("SCM_Port", {"PORT"}); K("SCM_Promise", {"PROMISE"});
  K("SCM_Module", {"MODULE"}); K("SCM_Smob", {"SMOB"}); K("SCM_Variable", {"VARIABLE"});
  tyNIL = E["NIL"];
  for (auto *t : {"NUM", "CHAR", "BOOL"}) { if (!E.count(t)) { errs() << "pscmlint: SCM::" << t << " not found\n"; exit(2); } numMask |= 1ull << E[t]; }

  for (auto &r : registrations()) if (r.fn) builtinFns.insert(r.fn);
  CG cg;
  std::vector<Function *> fns;
  for (auto &F : M) if (isRepoFunction(F)) fns.push_back(&F);
  std::set<const Function *, ById> called;
  for (auto *F : fns) {
    cg.out[F];
    for (auto &I : instructions(*F)) {
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
        if (C && isRepoFunction(*C)) { cg.out[F].insert(C); cg.in[C].insert(F); called.insert(C); }
      }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      for (unsigned i = 0; i < I.getNumOperands(); i++)
        if (auto *C = dyn_cast<Function>(I.getOperand(i)->stripPointerCasts())) {
          auto *CB = dyn_cast<CallBase>(&I);
          if (!(CB && &CB->getCalledOperandUse() == &I.getOperandUse(i))) addrTaken.insert(C);
        }
    }
  }
  for (auto &G : M.globals()) if (G.hasInitializer()) {
    // functions in initialisers
    std::vector<const Constant *> w = {G.getInitializer()};
    std::set<const Constant *> seen;
    while (!w.empty()) {
      auto *c = w.back(); w.pop_back();
      if (!seen.insert(c).second) continue;
      if (auto *Fc = dyn_cast<Function>(c)) addrTaken.insert(Fc);
      for (auto &o : c->operands()) if (auto *oc = dyn_cast<Constant>(o)) w.push_back(oc);
    }
  }
  for (auto &G : M.globals()) {
    std::string n = G.getName().str();
    if (n.rfind("_ZZ", 0) != 0 || !G.getValueType()->isPointerTy()) continue;
    size_t e = n.rfind('E');
    if (e == std::string::npos) continue;
    Function *O = M.getFunction("_Z" + n.substr(3, e - 3));
    if (!O || !isRepoFunction(*O)) continue;
    staticOwner[&G] = O;
    for (auto *U : G.users()) if (auto *I = dyn_cast<Instruction>(U)) { auto *F = const_cast<Function *>(I->getFunction()); if (F != O) { cg.out[F].insert(O); cg.in[O].insert(F); } }
  }
  for (auto *F : fns) if (!cg.num.count(F)) cg.dfs(F);
  // mod sets
  {
    // direct
    for (auto *F : fns) {
      bool collector = false;   // what the collector changes in other structures belongs to objects nobody can reach
      if (auto *SP = F->getSubprogram()) collector = baseFile(SP->getFilename()).find("/gc.") != std::string::npos;
      Summary &S = summaries[F];
      Analyzer A(*F);
      State dummy;
      for (auto &I : instructions(*F)) {
        if (auto *St = dyn_cast<StoreInst>(&I)) {
          // structural key of the address
          const Value *P = St->getPointerOperand()->stripPointerCasts();
          if (isa<AllocaInst>(P)) continue;
          if (auto *G = dyn_cast<GEPOperator>(P)) {
            Term t = A.gepTerm(dummy, G);
            Term r = rootOf(t);
            if (terms[r].k == T_ALLOCA) continue;
            const Value *base = G->getPointerOperand()->stripPointerCasts();
            while (auto *G2 = dyn_cast<GEPOperator>(base)) base = G2->getPointerOperand()->stripPointerCasts();
            if (isa<AllocaInst>(base)) continue;
            if (collector && terms[t].k == T_FIELD && ((const std::string *)terms[t].p)->rfind("SCM", 0) == 0) continue;
            if (!stableKey(t)) S.mods.insert(keyOf(t));
            else if (terms[t].k == T_IDX) {}
          } else if (auto *GV = dyn_cast<GlobalValue>(P)) S.mods.insert({(const void *)GV, -1});
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          if (!isa<Function>(CB->getCalledOperand()->stripPointerCasts())) {
            bool any = false;
            for (auto *T : addrTaken) if (T->getFunctionType() == CB->getFunctionType() && !T->isDeclaration() && isRepoFunction(*T)) { indOut[F].insert(const_cast<Function *>(T)); any = true; }
            if (!any) S.modAll = true;
          }
        }
      }
    }
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto *F : fns) {
        Summary &S = summaries[F];
        auto both = cg.out[F];
        both.insert(indOut[F].begin(), indOut[F].end());
        for (auto *G : both) {
          Summary &T = summaries[G];
          if (T.modAll && !S.modAll) { S.modAll = true; ch = true; }
          for (auto &m : T.mods) if (S.mods.insert(m).second) ch = true;
        }
      }
    }
  }
  long nf = 0;
  std::string onlyFn = only;
  auto isRoot = [&](Function *F) {
    return builtinFns.count(F) || addrTaken.count(F) || !called.count(F) || pretty(F) == "eval_with_env" || pretty(F).rfind("pscm_", 0) == 0 || pretty(F) == "main";
  };
  // roots: what is still required of callers must follow from the calling contract; what does not is reported
  // here, once, and what does is left for callers that may break the contract
  auto checkRoot = [&](Function *F) {
    Summary &S = summaries[F];
    Analyzer A(*F);
    A.prep();
    std::vector<Clause> keep;
    for (auto &cl : S.clauses) {
      State T = A.entryState(true);
      for (auto &c : cl.cond) if (!T.dead) addFact(T, c.first, c.second);
      for (auto &c : cl.dcond) if (!T.dead) addDiff(T, c.first.first, c.first.second, c.second);
      counts["root_clauses"]++;
      if (T.dead || prove(T, cl.g)) keep.push_back(cl);
      else A.report(cl, T);
    }
    S.clauses = keep;
  };
  auto analyse = [&](Function *F, bool rec) {
    if (verbose_ > 0 && verbose_ < 3 ) {}
    Analyzer A(*F);
    A.prep();
    auto savedF = findings.size();
    auto savedKeys = findingKeys;
    int v = verbose_;
    if (!onlyFn.empty() && pretty(F) != onlyFn) verbose_ = 0;
    auto t0 = std::chrono::steady_clock::now();
    A.run(A.entryState(false));
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (verbosity > 0 && dt > 0.5) errs() << "time " << dt << " " << pretty(F) << " steps " << A.steps << " newclauses " << A.newClauses.size() << " exits " << A.rawExits.size() << "\n";
    Summary &S = summaries[F];
    A.settleRecursive();
    A.summarise();
    // clauses: dedupe
    std::vector<Clause> cl;
    std::map<std::string, int> per;
    for (auto &c : A.newClauses) {
      std::string k = std::to_string(c.origin) + "/" + std::to_string(c.g.k) + "/" + std::to_string(c.g.a) + "/" + std::to_string(c.g.b);
      bool dup = false;
      for (auto &d : cl) {
        if (d.origin != c.origin || d.g.k != c.g.k || d.g.a != c.g.a || d.g.b != c.g.b || d.g.mask != c.g.mask) continue;
        if (d.cond == c.cond || d.cond.empty()) { dup = true; break; }
      }
      if (dup) continue;
      if (++per[k] > 8) {
        // weaken: keep only common conditions
        for (auto it = cl.begin(); it != cl.end(); ++it)
          if (it->origin == c.origin && it->g.k == c.g.k && it->g.a == c.g.a && it->g.b == c.g.b) {
            std::vector<std::pair<Term, IV>> common;
            for (auto &x : it->cond) for (auto &y : c.cond) if (x.first == y.first) { IV j = joinIV(x.second, y.second); State e; if (!leq(val(e, x.first), j)) common.push_back({x.first, j}); }
            it->cond = common;
            it->dcond.clear();
            break;
          }
        continue;
      }
      cl.push_back(c);
    }
    S.clauses = cl;
    if (verbosity > 2 && pretty(F) == onlyFn) {
      curFnForNames = F;
      for (auto &e : S.exits) { errs() << "EXIT ret " << (e.ret >= 0 ? show(e.ret) : "-") << "\n"; dumpState(e.st); }
      errs() << "CLAUSES of " << onlyFn << "\n";
      for (auto &c : cl) {
        errs() << " [" << origins[c.origin].rule << "] " << showGoal(c.g) << "   origin " << origins[c.origin].fn << " " << origins[c.origin].what << " " << origins[c.origin].chain << "\n";
        for (auto &p : c.path) errs() << "        via " << p << "\n";
        for (auto &x : c.cond) errs() << "      if " << show(x.first) << " in [" << x.second.lo << "," << x.second.hi << "]" << (x.second.nz ? " nz" : "") << (x.second.useMask ? " {" + showMask(x.second.mask) + "}" : "") << "\n";
      }
    }
    for (auto &so : staticOwner) if (so.second == F && !S.exits.empty()) {
      // content of the variable at the exits
      Term addr = mkGlobal(so.first), entry = mkLoad(addr, -1, 0);
      uint64_t mask = 0; bool ok = true, hv = true, any = false; int64_t cv = 0;
      for (auto &e : S.exits) {
        auto m = e.st.mem.find(addr);
        Term v = m == e.st.mem.end() ? entry : m->second;
        if (v == entry) continue;
        IV k, w;
        for (int ver : {(int)A.exitVer(), -1}) {
          Term la = mkField(v, sSCM, fSCMtype), lv = mkField(v, sSCM, fSCMvalue);
          auto mt = e.st.mem.find(la), mv = e.st.mem.find(lv);
          IV k2 = val(e.st, mt != e.st.mem.end() ? mt->second : mkLoad(la, ver, 32)), w2 = val(e.st, mv != e.st.mem.end() ? mv->second : mkLoad(lv, ver, 0));
          if (k2.useMask && __builtin_popcountll(k2.mask) == 1) k = k2; else if (k2.isConst()) k = ivMask(1ull << k2.lo);
          if (w2.isConst()) w = w2;
        }
        if (!k.useMask) { ok = false; break; }
        if (any && mask != k.mask) { ok = false; break; }
        mask = k.mask;
        if (!w.isConst() || (any && cv != w.lo)) hv = false; else cv = w.lo;
        any = true;
      }
      if (ok && any) { gKind[so.first] = KindSpec{mask, hv, cv}; if (verbosity > 0) errs() << "static " << so.first->getName() << " kind " << showMask(mask) << (hv ? " value " + std::to_string(cv) : "") << "\n"; }
      counts["static_values"] = gKind.size();
    }
    if (isRoot(F)) checkRoot(F);
    S.analysed = true;
    // findings inside recursive components are only kept in the last round
    if (!rec) { findings.resize(savedF); findingKeys = savedKeys; }
    verbose_ = v;
    nf++;
  };
  auto sig = [&](Function *F) {
    std::string s;
    Summary &S = summaries[F];
    s += std::to_string(S.exits.size()) + ":";
    for (auto &e : S.exits) {
      s += std::to_string(e.ret) + "{";
      for (auto &f : e.st.facts) s += std::to_string(f.first) + "=" + std::to_string(f.second.lo) + "," + std::to_string(f.second.hi) + "," + std::to_string(f.second.mask) + (f.second.nz ? "n" : "") + ";";
      for (auto &m : e.st.mem) s += std::to_string(m.first) + ">" + std::to_string(m.second) + ";";
      s += "}";
    }
    std::set<std::string> cs;
    for (auto &c : S.clauses) { std::string x = std::to_string(c.origin) + "," + std::to_string(c.g.a) + "," + std::to_string(c.g.b) + "," + std::to_string(c.cond.size()); cs.insert(x); }
    for (auto &x : cs) s += x + "|";
    return s;
  };
  // members of recursive components: only what matters to callers that are analysed at the same time
  auto coarsen = [&](Function *F) {
    Analyzer A(*F);
    int rb = bitsOf(F->getReturnType());
    std::map<int, Exit> by;
    for (auto &e : summaries[F].exits) {
      IV v = e.ret >= 0 ? val(e.st, e.ret) : IV();
      int k = e.ret < 0 ? 0 : v.nz ? 1 : v.isConst() ? 2 : terms[e.ret].k == T_ARG ? 16 + (int)terms[e.ret].c : 3;
      auto it = by.find(k);
      if (it == by.end()) by[k] = e;
      else {
        it->second.st = A.joinExit(it->second.st, e.st, rb);
        if (it->second.ret >= 0) it->second.ret = it->second.st.env.begin()->second;
      }
    }
    std::vector<Exit> r;
    for (auto &kv : by) {
      Exit e = kv.second;
      Exit n;
      n.ret = e.ret;
      if (e.ret >= 0 && termDepth[e.ret] > 3) { n.ret = A.retTerm(rb); IV v = val(e.st, e.ret); if (!v.top()) n.st.facts[n.ret] = v; }
      n.st.env[(const Value *)F] = n.ret >= 0 ? n.ret : mkConst(0, 1);
      for (auto &f : e.st.facts) if (termDepth[f.first] <= 3) { auto i = n.st.facts.find(f.first); n.st.facts[f.first] = i == n.st.facts.end() ? f.second : meet(i->second, f.second); }
      for (auto &d : e.st.diffs) if (termDepth[d.first.first] <= 6 && termDepth[d.first.second] <= 6) n.st.diffs.insert(d);
      for (auto &m : e.st.mem) if (termDepth[m.first] <= 3) n.st.mem[m.first] = termDepth[m.second] <= 4 && terms[m.second].k != T_LOAD ? m.second : A.exitLoad(m.first, terms[m.second].bits);
      r.push_back(n);
    }
    summaries[F].exits = r;
  };
  for (auto &G : M.globals()) {
    if (!G.hasInitializer() || G.isConstant() || G.getName().starts_with(".str")) continue;
    bool stored = false, other = false, storedNull = false, popped = false;
    std::set<const Function *, ById> storers, testers;
    std::vector<const Value *> w = {&G};
    for (auto *U : G.users()) {
      if (auto *St = dyn_cast<StoreInst>(U)) {
        if (St->getPointerOperand() != &G) { other = true; continue; }
        stored = true;
        storers.insert(St->getFunction());
        if (isa<ConstantPointerNull>(St->getValueOperand())) storedNull = true;
        if (auto *SL = dyn_cast<LoadInst>(St->getValueOperand()->stripPointerCasts())) if (isa<GEPOperator>(SL->getPointerOperand())) popped = true;
      } else if (auto *L = dyn_cast<LoadInst>(U)) {
        for (auto *U2 : L->users())
          if (auto *C = dyn_cast<ICmpInst>(U2)) if (isa<ConstantPointerNull>(C->getOperand(1))) testers.insert(L->getFunction());
      } else if (auto *CB = dyn_cast<CallBase>(U)) {
        // handing the address to the collector's root table does not write to it
        auto *C = CB->getCalledFunction();
        if (!(C && pretty(C) == "gc_register_root")) other = true;
      } else other = true;
    }
    if (other) continue;
    {
      bool collectorOnly = !storers.empty(), dec = false;
      for (auto *f : storers) {
        auto *SP = f->getSubprogram();
        if (!SP || baseFile(SP->getFilename()).find("/gc.") == std::string::npos) collectorOnly = false;
      }
      for (auto *U : G.users()) if (auto *St = dyn_cast<StoreInst>(U)) if (St->getPointerOperand() == &G)
        if (auto *BO = dyn_cast<BinaryOperator>(St->getValueOperand())) {
          auto *KC = dyn_cast<ConstantInt>(BO->getOperand(1));
          if (BO->getOpcode() == Instruction::Sub || (BO->getOpcode() == Instruction::Add && KC && KC->isNegative())) dec = true;
        }
      if (collectorOnly) continue;
      if (dec) continue;
    }
    if (G.getValueType()->isIntegerTy() && G.getValueType()->getIntegerBitWidth() > 8) {
      if (auto *C = dyn_cast<ConstantInt>(G.getInitializer())) if (!C->isNegative()) {
        gNonNeg.insert(&G);
        // a guard "G < K" / "G >= K" before the stores suggests the invariant G <= K
        int64_t k = -1; bool one = true;
        for (auto *U : G.users()) if (auto *L = dyn_cast<LoadInst>(U)) for (auto *U2 : L->users()) if (auto *IC = dyn_cast<ICmpInst>(U2)) {
          auto *KC = dyn_cast<ConstantInt>(IC->getOperand(1));
          if (!KC || IC->getOperand(0) != L) continue;
          auto pr = IC->getPredicate();
          if (pr != CmpInst::ICMP_SGE && pr != CmpInst::ICMP_SLT && pr != CmpInst::ICMP_UGE && pr != CmpInst::ICMP_ULT) continue;
          if (KC->getSExtValue() <= 1) continue;
          if (k >= 0 && k != KC->getSExtValue()) one = false;
          k = KC->getSExtValue();
        }
        if (k > 0 && one) gMax[&G] = k;
      }
    }
    if (G.getValueType()->isPointerTy() && stored && !storedNull && !popped && !staticOwner.count(&G) && !Analyzer::collectorGlobal(mkGlobal(&G))) gMono.insert(&G);
    if (G.getValueType()->isPointerTy() && stored && !storedNull) {
      bool lazy = false;
      for (auto *f : storers) if (testers.count(f)) lazy = true;
      if (!lazy || !isa<ConstantPointerNull>(G.getInitializer())) gNonNull.insert(&G);
    }
  }
  int maxScc = 0;
  for (int attempt = 0; attempt < 4; attempt++) {
  gBad.clear();
  findings.clear(); findingKeys.clear(); counts.clear();
  for (auto *F : fns) { summaries[F].exits.clear(); summaries[F].clauses.clear(); summaries[F].analysed = false; summaries[F].bottom = true; }
  counts["global_invariants"] = gNonNeg.size() + gNonNull.size();
  counts["attempts"] = attempt + 1;
  for (auto &scc : cg.sccs) {
    maxScc = std::max<int>(maxScc, scc.size());
    bool recursive = scc.size() > 1 || cg.out[scc[0]].count(scc[0]);
    if (!recursive) {
      analyse(scc[0], true);
      continue;
    }
    if (verbose_ > 0) errs() << "SCC of " << scc.size() << "\n";
    std::map<Function *, long, ById> changedAt, doneAt;
    long clock = 1;
    for (auto *F : scc) changedAt[F] = 0;
    for (int round = 0; round < 8; round++) {
      bool ch = false;
      for (auto *F : scc) {
        if (doneAt.count(F)) {
          bool need = false;
          for (auto *G : cg.out[F]) { auto c = changedAt.find(G); if (c != changedAt.end() && c->second > doneAt[F]) { need = true; break; } }
          if (!need) continue;
        }
        doneAt[F] = ++clock;
        std::string a = sig(F);
        auto old = summaries[F].exits;
        analyse(F, false);
        coarsen(F);
        if (round >= 2 && sig(F) != a && !summaries[F].exits.empty()) {
          // widen: one exit holding what all rounds agree on
          Analyzer A(*F);
          std::vector<Exit> all = old;
          for (auto &e : summaries[F].exits) all.push_back(e);
          State acc = all[0].st;
          int rb = bitsOf(F->getReturnType());
          for (size_t i = 1; i < all.size(); i++) acc = A.joinExit(acc, all[i].st, rb);
          Exit e;
          e.st = acc;
          e.ret = F->getReturnType()->isVoidTy() || rb == 65 ? -1 : acc.env.begin()->second;
          summaries[F].exits = {e};
        }
        if (sig(F) != a) { ch = true; changedAt[F] = ++clock; }
      }
      if (verbosity > 0) for (auto *F : scc) if (summaries[F].clauses.size() > 10) errs() << "    " << pretty(F) << " clauses " << summaries[F].clauses.size() << " root " << isRoot(F) << "\n";
      if (verbose_ > 0) errs() << " round " << round << (ch ? " changed" : " stable") << "\n";
      if (!ch) break;
    }
    for (auto *F : scc) {
      auto ex = summaries[F].exits;
      analyse(F, true);
      summaries[F].exits = ex;
    }
  }
  for (auto *F : fns) {
    if (!isRoot(F)) continue;
    Summary &S = summaries[F];
    Analyzer A(*F);
    A.prep();
    counts["roots"]++;
    // builtins must hand back a value
    bool alwaysNone = !summaries[F].exits.empty() && !builtinFns.count(F);
    for (auto &e : S.exits) if (!(e.ret >= 0 && terms[e.ret].k == T_CONST && terms[e.ret].c == 0)) alwaysNone = false;
    if (nonNullRet(F) && !alwaysNone) {
      for (auto &e : S.exits) {
        counts["obligations.ret"]++;
        State st = e.st;
        IV v = e.ret >= 0 ? val(st, e.ret) : IV();
        if (!v.nz) {
          // arguments are non-null by contract
          State r = A.entryState(true);
          for (auto &f : r.facts) addFact(st, f.first, f.second);
          if (st.dead) continue;
          if (e.ret >= 0 && val(st, e.ret).nz) continue;
          Finding f;
          f.rule = "ret"; f.fn = pretty(F); f.originFn = pretty(F); f.what = "may return no value";
          f.loc = f.originLoc = baseFile(F->getSubprogram()->getFilename()) + ":" + std::to_string(F->getSubprogram()->getLine());
          if (findingKeys.insert("ret|" + f.fn).second) findings.push_back(f);
        }
      }
    }
  }
  if (gBad.empty()) break;
  for (auto *g : gBad) { if (verbosity > 0 && g) errs() << "dropping global invariant of " << g->getName() << "\n"; gMax.erase(g); gNonNeg.erase(g); gNonNull.erase(g); gMono.erase(g); }
  }
  // reachability classes
  std::set<Function *, ById> fromBuiltin, fromEval;
  {
    std::function<void(Function *, std::set<Function *, ById> &, bool)> walk = [&](Function *f, std::set<Function *, ById> &s, bool stopEval) {
      if (stopEval && pretty(f) == "eval_with_env") return;
      if (!s.insert(f).second) return;
      for (auto *g : cg.out[f]) walk(g, s, stopEval);
    };
    for (auto *F : fns) {
      if (builtinFns.count(F)) walk(F, fromBuiltin, true);
      if (pretty(F) == "eval_with_env") walk(F, fromEval, false);
    }
  }
  std::map<std::string, std::pair<bool, bool>> cls;
  for (auto *F : fns) { auto &c = cls[pretty(F)]; c.first |= fromBuiltin.count(F); c.second |= fromEval.count(F); }

  std::error_code ec;
  raw_fd_ostream OS(outPath, ec);
  json::OStream J(OS, 1);
  J.object([&] {
    J.attributeArray("findings", [&] {
      for (auto &f : findings)
        J.object([&] {
          J.attribute("rule", f.rule);
          J.attribute("fn", f.fn);
          J.attribute("loc", f.loc);
          J.attribute("chain", f.chain);
          J.attribute("what", f.what);
          J.attribute("originFn", f.originFn);
          J.attribute("originLoc", f.originLoc);
          J.attribute("builtin", cls[f.fn].first);
          J.attribute("form", cls[f.fn].second);
          J.attributeArray("path", [&] { for (auto &p : f.path) J.value(p); });
        });
    });
    J.attributeObject("counts", [&] {
      for (auto &c : counts) J.attribute(c.first, (int64_t)c.second);
      J.attribute("functions", (int64_t)fns.size());
      J.attribute("analyses", (int64_t)nf);
      J.attribute("builtins", (int64_t)builtinFns.size());
      J.attribute("registrations", (int64_t)registrations().size());
      J.attribute("max_scc", maxScc);
      J.attribute("terms", (int64_t)terms.size());
    });
    J.attributeArray("noreturn", [&] { for (auto *F : fns) if (summaries[F].exits.empty()) J.value(pretty(F)); });
  });
  return 0;
}
