#include "loader.h"
extern "C" const char* LLVMGetRawDataValues(LLVMValueRef c, size_t* n);
extern "C" LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef sw, unsigned i) __attribute__((weak));
std::vector<Val> g_consts; std::unordered_map<u64, Func*> g_byAddr; std::unordered_map<std::string, Func*> g_byName;
static std::unordered_map<LLVMValueRef, Func*> g_byVal; static std::unordered_map<LLVMValueRef, u64> g_globAddr;
static LLVMModuleRef M; static LLVMTargetDataRef TD;
static std::map<std::pair<u64, u64>, i32> g_constIx;

// the LLVMValueKind enumeration is not stable between LLVM versions, so kinds are asked for one by one
static LLVMValueKind kindOf(LLVMValueRef v) {
  if (LLVMIsAInstruction(v)) return LLVMInstructionValueKind; if (LLVMIsAArgument(v)) return LLVMArgumentValueKind;
  if (LLVMIsAPoisonValue(v)) return LLVMPoisonValueValueKind; if (LLVMIsAUndefValue(v)) return LLVMUndefValueValueKind;
  if (LLVMIsAConstantInt(v)) return LLVMConstantIntValueKind; if (LLVMIsAConstantFP(v)) return LLVMConstantFPValueKind; if (LLVMIsAConstantPointerNull(v)) return LLVMConstantPointerNullValueKind;
  if (LLVMIsAConstantAggregateZero(v)) return LLVMConstantAggregateZeroValueKind; if (LLVMIsAConstantDataArray(v)) return LLVMConstantDataArrayValueKind; if (LLVMIsAConstantDataVector(v)) return LLVMConstantDataVectorValueKind;
  if (LLVMIsAConstantStruct(v)) return LLVMConstantStructValueKind; if (LLVMIsAConstantArray(v)) return LLVMConstantArrayValueKind; if (LLVMIsAConstantVector(v)) return LLVMConstantVectorValueKind;
  if (LLVMIsAConstantExpr(v)) return LLVMConstantExprValueKind; if (LLVMIsAFunction(v)) return LLVMFunctionValueKind; if (LLVMIsAGlobalVariable(v)) return LLVMGlobalVariableValueKind; if (LLVMIsAGlobalAlias(v)) return LLVMGlobalAliasValueKind;
  if (LLVMIsAInlineAsm(v)) return LLVMInlineAsmValueKind; if (!LLVMIsConstant(v)) return LLVMMetadataAsValueValueKind;
  return LLVMBlockAddressValueKind;
}
static bool has(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }
bool isCrateFn(const std::string& n) { // non-generic functions and closures defined in elasticlunr
  if (n.compare(0, 2, "_R") || !has(n, "11elasticlunr")) return false;
  if (n[2] == 'I') return false;
  // the defining crate is the first crate root in the path
  size_t p = n.find("Cs"); if (p == std::string::npos) return false;
  size_t q = n.find('_', p); if (q == std::string::npos) return false;
  return n.compare(q + 1, 13, "11elasticlunr") == 0;
}
Stub stubFor(const std::string& n) {
  struct P { const char* s; Stub k; };
  static const P exact[] = {{"malloc", S_MALLOC}, {"calloc", S_CALLOC}, {"free", S_FREE}, {"realloc", S_CREALLOC}, {"posix_memalign", S_MEMALIGN}, {"memcmp", S_MEMCMP}, {"bcmp", S_MEMCMP}, {"strlen", S_STRLEN},
    {"memcpy", S_MEMCPY}, {"memmove", S_MEMCPY}, {"memset", S_MEMSET}, {"abort", S_ABORT}, {"exit", S_ABORT}, {"_exit", S_ABORT}, {"getenv", S_RET0}, {"pthread_key_create", S_KEYCREATE}, {"pthread_setspecific", S_RET0}, {"pthread_key_delete", S_RET0}, {"sched_yield", S_RET0},
    {"pthread_self", S_RET0}, {"syscall", S_RETNEG}, {"open64", S_RETNEG}, {"open", S_RETNEG}, {"sched_getaffinity", S_RETNEG}, {"sysconf", S_RETNEG}, {"stat64", S_RETNEG}, {"getrandom", S_RETNEG}, {"__errno_location", S_ERRNO}, {"write", S_WRITE}, {"writev", S_WRITE}, {"clock_gettime", S_RET0}, {"pause", S_RET0}, {"gettid", S_RET0},
    {"sym_range", S_SYM_RANGE}, {"sym_u64", S_SYM_U64}, {"sym_assume", S_SYM_ASSUME}, {"sym_assert", S_SYM_ASSERT}, {"sym_reach", S_SYM_REACH}, {"sym_observe", S_SYM_OBSERVE}, {"sym_expect_panic", S_SYM_EXPECT}, {"sym_concrete", S_SYM_CONC},
    {"sqrt", S_MATH1}, {"exp", S_MATH1}, {"log", S_MATH1}, {"log2", S_MATH1}, {"log10", S_MATH1}, {"pow", S_MATH2}, {"fmod", S_MATH2}, {"cbrt", S_MATH1}, {"floor", S_MATH1}, {"ceil", S_MATH1}, {"round", S_MATH1}, {"trunc", S_MATH1}};
  for (auto& p : exact) if (n == p.s) return p.k;
  if (n.compare(0, 2, "_R") && n.compare(0, 2, "_Z")) return S_NONE;
  static const P sub[] = {{"12___rust_alloc", S_ALLOC}, {"14___rust_dealloc", S_DEALLOC}, {"14___rust_realloc", S_REALLOC}, {"19___rust_alloc_zeroed", S_ALLOCZ}, {"35___rust_no_alloc_shim_is_unstable_v2", S_NOSHIM},
    {"4core9panicking9panic_fmt", S_PANIC}, {"4core9panicking18panic_nounwind_fmt", S_PANIC}, {"4core9panicking14panic_nounwind", S_PANIC}, {"4core3str16slice_error_fail", S_PANIC}, {"5alloc5alloc18handle_alloc_error", S_PANIC}, {"3std9panicking11begin_panic", S_PANIC},
    {"4core6result13unwrap_failed", S_PANIC}, {"4core9panicking19assert_failed_inner", S_PANIC}, {"4core9panicking13assert_failed", S_PANIC}, {"3std9panicking13rust_panic", S_PANIC}};
  for (auto& p : sub) if (has(n, p.s)) { size_t at = n.find(p.s) + strlen(p.s); if (p.k != S_PANIC && at != n.size()) continue; return p.k; }
  if (has(n, "DefaultHasher") && has(n, "4hash6Hasher")) { if (has(n, "Hasher6finish")) return S_HASHFIN; if (has(n, "Hasher5write") || has(n, "Hasher9write_str")) return S_HASHWRITE; }
  if (has(n, "hashmap_random_keys")) return S_RANDKEYS;
  return S_NONE;
}
bool keepName(const std::string& n) { return n.compare(0, 2, "h_") == 0 || stubFor(n) != S_NONE; }

static void attr(LLVMContextRef C, LLVMValueRef f, const char* a) { unsigned k = LLVMGetEnumAttributeKindForName(a, strlen(a)); LLVMAddAttributeAtIndex(f, LLVMAttributeFunctionIndex, LLVMCreateEnumAttribute(C, k, 0)); }
static void dropAttr(LLVMValueRef f, const char* a) { unsigned k = LLVMGetEnumAttributeKindForName(a, strlen(a)); LLVMRemoveEnumAttributeAtIndex(f, LLVMAttributeFunctionIndex, k); }
static void parse(const char* path) {
  LLVMMemoryBufferRef mb; char* err = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &err)) { fprintf(stderr, "cannot read %s: %s\n", path, err); exit(2); }
  if (LLVMParseBitcode2(mb, &M)) { fprintf(stderr, "cannot parse %s\n", path); exit(2); }
}
int prepModule(const char* in, const char* out, const char* passes, const char* only) {
  auto wanted = [&](const std::string& n) { if (n.compare(0, 2, "h_") || !only || !*only) return true; return n.compare(0, strlen(only), only) == 0; };
  parse(in); LLVMContextRef C = LLVMGetModuleContext(M);
  LLVMStripModuleDebugInfo(M);
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    size_t n; std::string name = LLVMGetValueName2(f, &n);
    if (LLVMIsDeclaration(f)) continue;
    // no function is specialised for the host: drop target features so that everything can be inlined
    if (keepName(name) && wanted(name)) { LLVMSetLinkage(f, LLVMExternalLinkage); dropAttr(f, "alwaysinline"); attr(C, f, "noinline"); }
    else { LLVMSetLinkage(f, LLVMInternalLinkage); if (isCrateFn(name)) { dropAttr(f, "alwaysinline"); dropAttr(f, "inlinehint"); attr(C, f, "noinline"); } }
    if (stubFor(name) != S_NONE) { dropAttr(f, "alwaysinline"); }
  }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) { size_t n; std::string name = LLVMGetValueName2(g, &n); if (!LLVMIsDeclaration(g) && name.compare(0, 5, "llvm.")) LLVMSetLinkage(g, LLVMInternalLinkage); 
    if (name == "llvm.used" || name == "llvm.compiler.used") {} }
  for (const char* u : {"llvm.used", "llvm.compiler.used"}) if (LLVMValueRef g = LLVMGetNamedGlobal(M, u)) LLVMDeleteGlobal(g);
  LLVMPassBuilderOptionsRef o = LLVMCreatePassBuilderOptions();
  LLVMPassBuilderOptionsSetLoopVectorization(o, false); LLVMPassBuilderOptionsSetSLPVectorization(o, false); LLVMPassBuilderOptionsSetLoopUnrolling(o, false); LLVMPassBuilderOptionsSetLoopInterleaving(o, false); LLVMPassBuilderOptionsSetMergeFunctions(o, false);
  LLVMErrorRef e = LLVMRunPasses(M, passes, nullptr, o);
  if (e) { fprintf(stderr, "passes: %s\n", LLVMGetErrorMessage(e)); return 2; }
  if (LLVMWriteBitcodeToFile(M, out)) { fprintf(stderr, "cannot write %s\n", out); return 2; }
  return 0;
}

// ------------------------------------------------------------------- types
struct Leaf { u64 off; u16 w; };
static void flat(LLVMTypeRef t, u64 off, std::vector<Leaf>& o) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMVoidTypeKind: return;
    case LLVMIntegerTypeKind: { unsigned w = LLVMGetIntTypeWidth(t); if (w > 128) fail("integer wider than 128 bits"); o.push_back({off, (u16)w}); return; }
    case LLVMPointerTypeKind: o.push_back({off, 64}); return;
    case LLVMDoubleTypeKind: o.push_back({off, 64}); return; case LLVMFloatTypeKind: o.push_back({off, 32}); return; case LLVMHalfTypeKind: o.push_back({off, 16}); return;
    case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) flat(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), o); return; }
    case LLVMArrayTypeKind: { u64 n = LLVMGetArrayLength2(t); LLVMTypeRef e = LLVMGetElementType(t); u64 s = LLVMABISizeOfType(TD, e); if (n > 100000) fail("large array value"); for (u64 i = 0; i < n; i++) flat(e, off + i * s, o); return; }
    case LLVMVectorTypeKind: { u64 n = LLVMGetVectorSize(t); LLVMTypeRef e = LLVMGetElementType(t); u64 s = (LLVMSizeOfTypeInBits(TD, e) + 7) / 8; for (u64 i = 0; i < n; i++) flat(e, off + i * s, o); return; }
    default: fail("unsupported type kind " + std::to_string(LLVMGetTypeKind(t)));
  }
}
static std::vector<Leaf> flatten(LLVMTypeRef t) { std::vector<Leaf> o; flat(t, 0, o); return o; }
static u32 leafIndex(LLVMTypeRef t, const unsigned* ix, unsigned n) { // index of first leaf of the addressed member
  u32 r = 0;
  for (unsigned k = 0; k < n; k++) {
    if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned i = 0; i < ix[k]; i++) r += flatten(LLVMStructGetTypeAtIndex(t, i)).size(); t = LLVMStructGetTypeAtIndex(t, ix[k]); }
    else { LLVMTypeRef e = LLVMGetElementType(t); r += ix[k] * flatten(e).size(); t = e; }
  }
  return r;
}
static LLVMTypeRef memberType(LLVMTypeRef t, const unsigned* ix, unsigned n) { for (unsigned k = 0; k < n; k++) t = LLVMGetTypeKind(t) == LLVMStructTypeKind ? LLVMStructGetTypeAtIndex(t, ix[k]) : LLVMGetElementType(t); return t; }

// ---------------------------------------------------------------- constants
static u128 bigInt(LLVMValueRef v, unsigned w) {
  char* s = LLVMPrintValueToString(v); std::string t = s; LLVMDisposeMessage(s);
  t = t.substr(t.find(' ') + 1); bool neg = t[0] == '-'; u128 r = 0; for (char c : t) if (c >= '0' && c <= '9') r = r * 10 + (c - '0'); return (neg ? ~r + 1 : r) & maskw(w);
}
static void constVals(LLVMValueRef v, std::vector<Val>& o);
static Val const1(LLVMValueRef v) { std::vector<Val> o; constVals(v, o); return o.at(0); }
static u64 addrOf(LLVMValueRef v) {
  auto f = g_byVal.find(v); if (f != g_byVal.end()) return f->second->addr;
  auto g = g_globAddr.find(v); if (g != g_globAddr.end()) return g->second;
  fail("address of unknown global");
}
static void constVals(LLVMValueRef v, std::vector<Val>& o) {
  LLVMTypeRef t = LLVMTypeOf(v);
  switch (kindOf(v)) {
    case LLVMConstantIntValueKind: { if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) { auto l = flatten(t); LLVMValueRef e = LLVMGetElementAsConstant(v, 0); (void)e; for (size_t i = 0; i < l.size(); i++) o.push_back(const1(LLVMGetElementAsConstant(v, i))); return; }
      unsigned w = LLVMGetIntTypeWidth(t); o.push_back(w <= 64 ? C(LLVMConstIntGetZExtValue(v)) : C128(bigInt(v, w))); return; }
    case LLVMConstantFPValueKind: { LLVMBool loses; double d = LLVMConstRealGetDouble(v, &loses); if (LLVMGetTypeKind(t) == LLVMFloatTypeKind) { float f = d; u32 b; memcpy(&b, &f, 4); o.push_back(C(b)); } else if (LLVMGetTypeKind(t) == LLVMDoubleTypeKind) { u64 b; memcpy(&b, &d, 8); o.push_back(C(b)); } else o.push_back(C(0)); return; }
    case LLVMConstantPointerNullValueKind: case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: case LLVMConstantAggregateZeroValueKind: { size_t n = flatten(t).size(); for (size_t i = 0; i < n; i++) o.push_back(C(0)); return; }
    case LLVMConstantTargetNoneValueKind: o.push_back(C(0)); return;
    case LLVMConstantStructValueKind: case LLVMConstantArrayValueKind: case LLVMConstantVectorValueKind: { int n = LLVMGetNumOperands(v); for (int i = 0; i < n; i++) constVals(LLVMGetOperand(v, i), o); return; }
    case LLVMConstantDataArrayValueKind: case LLVMConstantDataVectorValueKind: { u64 n = LLVMGetTypeKind(t) == LLVMVectorTypeKind ? LLVMGetVectorSize(t) : LLVMGetArrayLength2(t); for (u64 i = 0; i < n; i++) constVals(LLVMGetElementAsConstant(v, i), o); return; }
    case LLVMFunctionValueKind: case LLVMGlobalVariableValueKind: case LLVMGlobalAliasValueKind: o.push_back(C(addrOf(v))); return;
    case LLVMConstantExprValueKind: {
      LLVMOpcode op = LLVMGetConstOpcode(v);
      if (op == LLVMGetElementPtr) { u64 a = const1(LLVMGetOperand(v, 0)).lo; LLVMTypeRef et = LLVMGetGEPSourceElementType(v); int n = LLVMGetNumOperands(v);
        for (int i = 1; i < n; i++) { LLVMValueRef ix = LLVMGetOperand(v, i); i64 k = (i64)const1(ix).lo; unsigned iw = LLVMGetIntTypeWidth(LLVMTypeOf(ix)); k = (i64)sx((u64)k, iw);
          if (i == 1) a += k * (i64)LLVMABISizeOfType(TD, et);
          else if (LLVMGetTypeKind(et) == LLVMStructTypeKind) { a += LLVMOffsetOfElement(TD, et, k); et = LLVMStructGetTypeAtIndex(et, k); }
          else { et = LLVMGetElementType(et); a += k * (i64)LLVMABISizeOfType(TD, et); } }
        o.push_back(C(a)); return; }
      if (op == LLVMPtrToInt || op == LLVMIntToPtr || op == LLVMBitCast || op == LLVMAddrSpaceCast || op == LLVMTrunc) { Val x = const1(LLVMGetOperand(v, 0)); auto l = flatten(t); o.push_back(C128(cv(x) & maskw(l[0].w))); return; }
      u128 a = cv(const1(LLVMGetOperand(v, 0))), b = cv(const1(LLVMGetOperand(v, 1))); unsigned w = flatten(t)[0].w;
      if (op == LLVMAdd) { o.push_back(C128((a + b) & maskw(w))); return; } if (op == LLVMSub) { o.push_back(C128((a - b) & maskw(w))); return; } if (op == LLVMXor) { o.push_back(C128(a ^ b)); return; }
      char* s = LLVMPrintValueToString(v); fail(std::string("unsupported constant expression ") + s); }
    default: { char* s = LLVMPrintValueToString(v); std::string x = s; fail("unsupported constant kind " + std::to_string(kindOf(v)) + " " + x.substr(0, 200)); }
  }
}
static void writeConst(Mem& m, u64 a, LLVMValueRef v) {
  LLVMTypeRef t = LLVMTypeOf(v);
  switch (kindOf(v)) {
    case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: case LLVMConstantAggregateZeroValueKind: case LLVMConstantPointerNullValueKind: return;
    case LLVMConstantDataArrayValueKind: { size_t n; const char* d = LLVMGetRawDataValues(v, &n); m.write(a, (const u8*)d, n); return; }
    case LLVMConstantStructValueKind: { int n = LLVMGetNumOperands(v); for (int i = 0; i < n; i++) writeConst(m, a + LLVMOffsetOfElement(TD, t, i), LLVMGetOperand(v, i)); return; }
    case LLVMConstantArrayValueKind: { u64 s = LLVMABISizeOfType(TD, LLVMGetElementType(t)); int n = LLVMGetNumOperands(v); for (int i = 0; i < n; i++) writeConst(m, a + i * s, LLVMGetOperand(v, i)); return; }
    default: { std::vector<Val> o; constVals(v, o); auto l = flatten(t); for (size_t i = 0; i < l.size(); i++) m.store(a + l[i].off, o[i], l[i].w); return; }
  }
}
void loadModule(const char* path, Mem& mem) {
  parse(path); TD = LLVMGetModuleDataLayout(M);
  u64 fa = 0x1000;
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    size_t n; Func* x = new Func; x->name = LLVMGetValueName2(f, &n); x->v = f; x->stub = stubFor(x->name); x->crate = isCrateFn(x->name);
    bool decl = LLVMIsDeclaration(f);
    if (decl && LLVMGetLinkage(f) == LLVMExternalWeakLinkage) x->addr = 0; else { x->addr = fa; fa += 16; g_byAddr[x->addr] = x; }
    if (decl && x->stub == S_NONE) x->stub = S_EXTERN;
    g_byVal[f] = x; g_byName[x->name] = x;
  }
  u64 ga = 0x10000000;
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
    u64 s = LLVMIsDeclaration(g) ? 64 : LLVMABISizeOfType(TD, LLVMGlobalGetValueType(g)); u64 al = std::max<u64>(16, LLVMGetAlignment(g)); ga = (ga + al - 1) & ~(al - 1); g_globAddr[g] = ga; ga += s + 16;
  }
  if (ga >= 0x20000000) { fprintf(stderr, "globals too large\n"); exit(2); }
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) if (!LLVMIsDeclaration(g)) writeConst(mem, g_globAddr[g], LLVMGetInitializer(g));
}

// -------------------------------------------------------------- translation
struct Tr {
  Func* F; std::unordered_map<LLVMValueRef, std::vector<i32>> slots; std::unordered_map<LLVMBasicBlockRef, u32> start; std::unordered_map<LLVMBasicBlockRef, std::vector<u32>> fix;
  static i32 constSlot(const Val& v) { auto k = std::make_pair(v.lo, v.hi); auto it = g_constIx.find(k); if (it != g_constIx.end()) return it->second; g_consts.push_back(v); i32 r = -(i32)g_consts.size(); g_constIx[k] = r; return r; }
  i32 fresh(u32 n) { i32 s = F->nslots; F->nslots += n; return s; }
  const std::vector<i32>& ops(LLVMValueRef v) {
    auto it = slots.find(v); if (it != slots.end()) return it->second;
    if (LLVMIsConstant(v)) { std::vector<Val> o; constVals(v, o); std::vector<i32> r; for (auto& x : o) r.push_back(constSlot(x)); return slots[v] = r; }
    if (kindOf(v) == LLVMInstructionValueKind || kindOf(v) == LLVMArgumentValueKind) { auto l = flatten(LLVMTypeOf(v)); i32 s = fresh(l.size()); std::vector<i32> r; for (size_t i = 0; i < l.size(); i++) r.push_back(s + i); return slots[v] = r; }
    if (kindOf(v) == LLVMMetadataAsValueValueKind) return slots[v] = {};
    fail("unsupported operand kind " + std::to_string(kindOf(v)));
  }
  i32 op1(LLVMValueRef v) { return ops(v).at(0); }
  Ins& emit(IOp op) { Ins i; memset(&i, 0, sizeof i); i.op = op; F->code.push_back(i); return F->code.back(); }
  u32 edge(LLVMBasicBlockRef from, LLVMBasicBlockRef to) {
    u32 e = F->edges.size(); F->edges.push_back({}); 
    for (LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) {
      unsigned n = LLVMCountIncoming(i); for (unsigned k = 0; k < n; k++) if (LLVMGetIncomingBlock(i, k) == from) {
        std::vector<i32> s = ops(LLVMGetIncomingValue(i, k)), d = ops(i);
        for (size_t j = 0; j < d.size(); j++) if (d[j] != s[j]) F->edges[e].cp.push_back({d[j], s[j]}); break; }
    }
    fix[to].push_back(e); return e;
  }
  // values that only rename other values need no instruction; blocks may come in any order, so this is resolved first
  void alias() {
    bool again = true; int rounds = 0;
    std::vector<LLVMValueRef> pend;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(F->v); b; b = LLVMGetNextBasicBlock(b)) for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode op = LLVMGetInstructionOpcode(i);
      if (op == LLVMExtractValue || op == LLVMFreeze || op == LLVMPtrToInt || op == LLVMIntToPtr || op == LLVMInsertValue || op == LLVMShuffleVector || op == LLVMBitCast) pend.push_back(i); }
    std::unordered_set<LLVMValueRef> pset(pend.begin(), pend.end());
    while (again && rounds++ < 10000) { again = false; std::vector<LLVMValueRef> rest;
      for (LLVMValueRef i : pend) {
        LLVMOpcode op = LLVMGetInstructionOpcode(i); bool ready = true;
        int nop = op == LLVMShuffleVector || op == LLVMInsertValue ? 2 : 1;
        for (int k = 0; k < nop; k++) if (pset.count(LLVMGetOperand(i, k))) ready = false;
        if (!ready) { rest.push_back(i); continue; }
        pset.erase(i); again = true;
        LLVMTypeRef t = LLVMTypeOf(i); LLVMValueRef a = LLVMGetOperand(i, 0); std::vector<i32> av = ops(a);
        if (op == LLVMExtractValue) { unsigned n = LLVMGetNumIndices(i); const unsigned* ix = LLVMGetIndices(i); u32 p = leafIndex(LLVMTypeOf(a), ix, n); size_t c = flatten(t).size(); slots[i] = std::vector<i32>(av.begin() + p, av.begin() + p + c); }
        else if (op == LLVMInsertValue) { unsigned n = LLVMGetNumIndices(i); const unsigned* ix = LLVMGetIndices(i); u32 p = leafIndex(LLVMTypeOf(a), ix, n); std::vector<i32> bv = ops(LLVMGetOperand(i, 1)); std::copy(bv.begin(), bv.end(), av.begin() + p); slots[i] = av; }
        else if (op == LLVMShuffleVector) { std::vector<i32> bv = ops(LLVMGetOperand(i, 1)); std::vector<i32> r; unsigned n = LLVMGetNumMaskElements(i); for (unsigned k = 0; k < n; k++) { int m = LLVMGetMaskValue(i, k); r.push_back(m < 0 ? constSlot(C(0)) : (size_t)m < av.size() ? av[m] : bv[m - av.size()]); } slots[i] = r; }
        else if (op == LLVMFreeze) slots[i] = av;
        else { auto la = flatten(LLVMTypeOf(a)), lb = flatten(t); bool same = la.size() == lb.size(); for (size_t k = 0; same && k < la.size(); k++) if (la[k].w != lb[k].w) same = false; if (same) slots[i] = av; else ops(i); }
      }
      pend.swap(rest); }
    if (!pend.empty()) fail("alias cycle in " + F->name);
  }
  void run() {
    LLVMValueRef f = F->v;
    unsigned np = LLVMCountParams(f);
    for (unsigned i = 0; i < np; i++) { auto o = ops(LLVMGetParam(f, i)); auto l = flatten(LLVMTypeOf(LLVMGetParam(f, i))); F->params.insert(F->params.end(), o.begin(), o.end()); for (auto& x : l) F->paramw.push_back(x.w); }
    alias();
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) { start[b] = F->code.size(); for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { try { ins(b, i); } catch (Abort& a) { char* s = LLVMPrintValueToString(i); std::string x = a.msg + " in " + s + " opcode " + std::to_string((int)LLVMGetInstructionOpcode(i)); fail(x); } } }
    for (auto& p : fix) for (u32 e : p.second) F->edges[e].target = start.at(p.first);
  }
  void intr(LLVMValueRef i, const std::string& name, Intr k, u32 sub = 0, i64 imm = 0) {
    IntrInfo ii; ii.name = name; int n = LLVMGetNumArgOperands(i); for (int a = 0; a < n; a++) { LLVMValueRef v = LLVMGetArgOperand(i, a); auto& o = ops(v); auto l = flatten(LLVMTypeOf(v)); ii.args.insert(ii.args.end(), o.begin(), o.end()); for (auto& x : l) ii.ws.push_back(x.w); }
    auto rl = flatten(LLVMTypeOf(i)); ii.n = rl.size(); i32 d = rl.empty() ? -1 : op1(i);
    F->intr.push_back(ii); Ins& x = emit(I_INTR); x.sub = k; x.d = d; x.w = rl.empty() ? 0 : rl[0].w; x.a = F->intr.size() - 1; x.w2 = sub; x.imm = imm;
  }
  void ins(LLVMBasicBlockRef b, LLVMValueRef i) {
    LLVMOpcode op = LLVMGetInstructionOpcode(i); LLVMTypeRef t = LLVMTypeOf(i);
    auto A = [&](int k) { return LLVMGetOperand(i, k); };
    auto unsup = [&](const std::string& why) { Ins& x = emit(I_UNSUP); F->lists.push_back({}); char* s = LLVMPrintValueToString(i); x.imm = (i64) new std::string(why + ": " + std::string(s).substr(0, 300)); LLVMDisposeMessage(s); };
    switch ((int)op) {
      case LLVMPHI: case LLVMFreeze: case LLVMExtractValue: case LLVMInsertValue: case LLVMShuffleVector: if (op == LLVMPHI) ops(i); return;
      case LLVMRet: { Ins& x = emit(I_RET); F->lists.push_back(LLVMGetNumOperands(i) ? ops(A(0)) : std::vector<i32>()); x.a = F->lists.size() - 1; return; }
      case LLVMBr: case 70: case 71: { if (!LLVMIsATerminatorInst(i)) return unsup("opcode"); // 70, 71: newer LLVM splits br in two
        if (LLVMGetNumSuccessors(i) == 1) { u32 e = edge(b, LLVMGetSuccessor(i, 0)); emit(I_BR).a = e; return; }
        i32 c = op1(A(0)); u32 e0 = edge(b, LLVMGetSuccessor(i, 0)), e1 = edge(b, LLVMGetSuccessor(i, 1)); Ins& x = emit(I_CBR); x.a = c; x.b = e0; x.c = e1; return; }
      case LLVMSwitch: {
        SwitchInfo s; unsigned n = LLVMGetNumSuccessors(i); s.def = edge(b, LLVMGetSuccessor(i, 0)); unsigned w = LLVMGetIntTypeWidth(LLVMTypeOf(A(0))); if (w > 64) return unsup("wide switch");
        std::map<LLVMBasicBlockRef, u32> byb; byb[LLVMGetSuccessor(i, 0)] = s.def;
        for (unsigned k = 1; k < n; k++) { LLVMBasicBlockRef tb = LLVMGetSuccessor(i, k); auto it = byb.find(tb); u32 e; if (it == byb.end()) byb[tb] = e = edge(b, tb); else e = it->second; LLVMValueRef cv_ = LLVMGetSwitchCaseValue(i, k); u64 c = LLVMConstIntGetZExtValue(cv_); s.cases.push_back({c, e}); s.idx[c] = e; }
        F->sw.push_back(s); i32 a = op1(A(0)); Ins& x = emit(I_SWITCH); x.a = a; x.w = w; x.b = F->sw.size() - 1; return; }
      case LLVMUnreachable: emit(I_UNREACHABLE); return;
      case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: {
        Op o; bool div = false; switch ((int)op) { case LLVMAdd: o = O_ADD; break; case LLVMSub: o = O_SUB; break; case LLVMMul: o = O_MUL; break; case LLVMUDiv: o = O_UDIV; div = true; break; case LLVMSDiv: o = O_SDIV; div = true; break; case LLVMURem: o = O_UREM; div = true; break; case LLVMSRem: o = O_SREM; div = true; break;
          case LLVMShl: o = O_SHL; break; case LLVMLShr: o = O_LSHR; break; case LLVMAShr: o = O_ASHR; break; case LLVMAnd: o = O_AND; break; case LLVMOr: o = O_OR; break; default: o = O_XOR; }
        auto l = flatten(t); auto d = ops(i), x = ops(A(0)), y = ops(A(1)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(div ? I_DIV : I_BIN); z.sub = o; z.w = l[k].w; z.d = d[k]; z.a = x[k]; z.b = y[k]; } return; }
      case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: { auto l = flatten(t); auto d = ops(i), x = ops(A(0)), y = ops(A(1)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_FBIN); z.sub = op; z.w = l[k].w; z.d = d[k]; z.a = x[k]; z.b = y[k]; } return; }
      case LLVMFNeg: { auto l = flatten(t); auto d = ops(i), x = ops(A(0)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_FNEG); z.w = l[k].w; z.d = d[k]; z.a = x[k]; } return; }
      case LLVMICmp: { auto l = flatten(LLVMTypeOf(A(0))); auto d = ops(i), x = ops(A(0)), y = ops(A(1)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_ICMP); z.sub = LLVMGetICmpPredicate(i); z.w = l[k].w; z.d = d[k]; z.a = x[k]; z.b = y[k]; } return; }
      case LLVMFCmp: { auto l = flatten(LLVMTypeOf(A(0))); auto d = ops(i), x = ops(A(0)), y = ops(A(1)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_FCMP); z.sub = LLVMGetFCmpPredicate(i); z.w = l[k].w; z.d = d[k]; z.a = x[k]; z.b = y[k]; } return; }
      case LLVMSelect: { auto l = flatten(t); auto d = ops(i), c = ops(A(0)), x = ops(A(1)), y = ops(A(2)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_SELECT); z.w = l[k].w; z.d = d[k]; z.c = c.size() == l.size() ? c[k] : c[0]; z.a = x[k]; z.b = y[k]; } return; }
      case LLVMZExt: case LLVMSExt: case LLVMTrunc: { auto l = flatten(t), la = flatten(LLVMTypeOf(A(0))); auto d = ops(i), x = ops(A(0)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(op == LLVMZExt ? I_ZEXT : op == LLVMSExt ? I_SEXT : I_TRUNC); z.w = l[k].w; z.w2 = la[k].w; z.d = d[k]; z.a = x[k]; } return; }
      case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: {
        auto l = flatten(t), la = flatten(LLVMTypeOf(A(0))); auto d = ops(i), x = ops(A(0));
        if (d == x) return;
        if (op != LLVMBitCast) { for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(l[k].w > la[k].w ? I_ZEXT : I_TRUNC); z.w = l[k].w; z.w2 = la[k].w; z.d = d[k]; z.a = x[k]; } return; }
        IntrInfo ii; ii.args = x; for (auto& q : la) ii.ws.push_back(q.w); ii.n = l.size(); F->intr.push_back(ii); Ins& z = emit(I_BITCAST); z.a = F->intr.size() - 1; z.d = d[0]; z.w = l[0].w; return; }
      case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: { auto l = flatten(t), la = flatten(LLVMTypeOf(A(0))); auto d = ops(i), x = ops(A(0)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_FCAST); z.sub = op; z.w = l[k].w; z.w2 = la[k].w; z.d = d[k]; z.a = x[k]; } return; }
      case LLVMAlloca: { LLVMTypeRef at = LLVMGetAllocatedType(i); u64 s = LLVMABISizeOfType(TD, at); u64 al = std::max<u64>(16, LLVMGetAlignment(i)); i32 cnt = op1(A(0)); i32 d = op1(i);
        if (cnt >= 0) return unsup("dynamic alloca"); s *= g_consts[-cnt - 1].lo; F->frame = (F->frame + al - 1) & ~(al - 1); Ins& z = emit(I_ALLOCA); z.d = d; z.imm = F->frame; F->frame += s; return; }
      case LLVMLoad: { if (LLVMGetTypeKind(t) == LLVMVectorTypeKind && LLVMSizeOfTypeInBits(TD, LLVMGetElementType(t)) % 8) { auto l = flatten(t); auto d = ops(i); i32 a = op1(A(0)); u32 n = (u32)l.size() * l[0].w; if (n % 8 || n > 128) return unsup("bit vector load");
          i32 p = fresh(1); { Ins& z = emit(I_LOAD); z.w = n; z.d = p; z.a = a; z.imm = 0; } IntrInfo ii; ii.args = {p}; ii.ws = {(u16)n}; ii.n = l.size(); F->intr.push_back(ii); Ins& z = emit(I_BITCAST); z.a = F->intr.size() - 1; z.d = d[0]; z.w = l[0].w; return; }
        auto l = flatten(t); auto d = ops(i); i32 a = op1(A(0)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_LOAD); z.w = l[k].w; z.d = d[k]; z.a = a; z.imm = l[k].off; } return; }
      case LLVMStore: { LLVMTypeRef vt = LLVMTypeOf(A(0)); if (LLVMGetTypeKind(vt) == LLVMVectorTypeKind && LLVMSizeOfTypeInBits(TD, LLVMGetElementType(vt)) % 8) { auto l = flatten(vt); auto v = ops(A(0)); i32 a = op1(A(1)); u32 n = (u32)l.size() * l[0].w; if (n % 8 || n > 128) return unsup("bit vector store");
          i32 p = fresh(1); IntrInfo ii; ii.args = v; for (auto& q : l) ii.ws.push_back(q.w); ii.n = 1; F->intr.push_back(ii); { Ins& z = emit(I_BITCAST); z.a = F->intr.size() - 1; z.d = p; z.w = n; } Ins& z = emit(I_STORE); z.w = n; z.a = a; z.b = p; z.imm = 0; return; }
        auto l = flatten(vt); auto v = ops(A(0)); i32 a = op1(A(1)); for (size_t k = 0; k < l.size(); k++) { Ins& z = emit(I_STORE); z.w = l[k].w; z.a = a; z.b = v[k]; z.imm = l[k].off; } return; }
      case LLVMGetElementPtr: {
        if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) return unsup("vector gep");
        i32 d = op1(i), base = op1(A(0)); i64 off = 0; GepInfo g; LLVMTypeRef et = LLVMGetGEPSourceElementType(i); int n = LLVMGetNumOperands(i);
        for (int k = 1; k < n; k++) { LLVMValueRef ix = A(k); i64 scale;
          if (k == 1) scale = LLVMABISizeOfType(TD, et);
          else if (LLVMGetTypeKind(et) == LLVMStructTypeKind) { u64 f = LLVMConstIntGetZExtValue(ix); off += LLVMOffsetOfElement(TD, et, f); et = LLVMStructGetTypeAtIndex(et, f); continue; }
          else { et = LLVMGetElementType(et); scale = LLVMABISizeOfType(TD, et); }
          unsigned iw = LLVMGetIntTypeWidth(LLVMTypeOf(ix)); i32 o = op1(ix);
          if (o < 0) off += (i64)sx(g_consts[-o - 1].lo, iw) * scale; else g.ix.push_back({o, (u16)iw, scale}); }
        Ins& z = emit(I_GEP); z.d = d; z.a = base; z.imm = off; z.b = -1; z.c = -1;
        if (g.ix.size() == 1 && std::get<1>(g.ix[0]) == 64 && std::get<2>(g.ix[0]) < 30000 && std::get<2>(g.ix[0]) >= 0) { z.b = std::get<0>(g.ix[0]); z.w = std::get<2>(g.ix[0]); }
        else if (!g.ix.empty()) { F->geps.push_back(g); z.c = F->geps.size() - 1; }
        return; }
      case LLVMExtractElement: { auto v = ops(A(0)); i32 ix = op1(A(1)); auto d = ops(i); if (ix >= 0 || d.size() != 1) return unsup("dynamic extractelement"); Ins& z = emit(I_COPY); z.d = d[0]; z.a = v.at(g_consts[-ix - 1].lo); return; }
      case LLVMInsertElement: { auto v = ops(A(0)); i32 e = op1(A(1)), ix = op1(A(2)); auto d = ops(i); if (ix >= 0) return unsup("dynamic insertelement"); v.at(g_consts[-ix - 1].lo) = e; for (size_t k = 0; k < d.size(); k++) { Ins& z = emit(I_COPY); z.d = d[k]; z.a = v[k]; } return; }
      case LLVMAtomicRMW: { Ins z; memset(&z, 0, sizeof z); z.op = I_RMW; z.sub = LLVMGetAtomicRMWBinOp(i); z.w = flatten(t)[0].w; z.d = op1(i); z.a = op1(A(0)); z.b = op1(A(1)); F->code.push_back(z); return; }
      case LLVMAtomicCmpXchg: { auto d = ops(i); Ins z; memset(&z, 0, sizeof z); z.op = I_CMPXCHG; z.w = flatten(LLVMTypeOf(A(1)))[0].w; z.d = d[0]; z.imm = d[1]; z.a = op1(A(0)); z.b = op1(A(1)); z.c = op1(A(2)); F->code.push_back(z); return; }
      case LLVMFence: return;
      case LLVMLandingPad: case LLVMResume: emit(I_UNREACHABLE); return;
      case LLVMCall: case LLVMInvoke: call(b, i, op); return;
      default: return unsup("unsupported opcode " + std::to_string((int)op));
    }
  }
  void call(LLVMBasicBlockRef b, LLVMValueRef i, LLVMOpcode op) {
    LLVMValueRef cal = LLVMGetCalledValue(i); LLVMTypeRef t = LLVMTypeOf(i);
    auto unsup = [&](const std::string& why) { Ins& x = emit(I_UNSUP); char* s = LLVMPrintValueToString(i); x.imm = (i64) new std::string(why + ": " + std::string(s).substr(0, 300)); LLVMDisposeMessage(s); };
    if (LLVMIsAInlineAsm(cal)) {
      size_t n; const char* s = LLVMGetInlineAsmAsmString(cal, &n); std::string as(s, n);
      if (as.empty() || (as.compare(0, 2, "/*") == 0 && as.find("*/") == as.size() - 2)) { // optimisation barrier: result (if any) is the first argument
        auto d = ops(i); if (d.empty()) return; if (LLVMGetNumArgOperands(i) < 1) return unsup("asm"); i32 a = op1(LLVMGetArgOperand(i, 0)); Ins& z = emit(I_COPY); z.d = d[0]; z.a = a; return; }
      if (as.find("cpuid") != std::string::npos) { for (i32 d : ops(i)) { i32 zc = constSlot(C(0)); Ins& z = emit(I_COPY); z.d = d; z.a = zc; } return; }
      return unsup("inline asm"); }
    size_t nl; std::string name = LLVMIsAFunction(cal) ? LLVMGetValueName2(cal, &nl) : "";
    if (name.compare(0, 5, "llvm.") == 0) {
      std::string s = name.substr(5); auto is = [&](const char* p) { return s.compare(0, strlen(p), p) == 0; };
      if (is("lifetime") || is("assume") || is("experimental.noalias") || is("dbg") || is("invariant") || is("prefetch") || is("x86.sse2.pause") || is("donothing") || is("pseudoprobe")) return;
      if (is("memcpy") || is("memmove")) return intr(i, name, N_MEMCPY);
      if (is("memset")) return intr(i, name, N_MEMSET);
      if (is("umin.")) return intr(i, name, N_MINMAX, 0); if (is("umax.")) return intr(i, name, N_MINMAX, 1); if (is("smin.")) return intr(i, name, N_MINMAX, 2); if (is("smax.")) return intr(i, name, N_MINMAX, 3);
      if (is("uadd.sat")) return intr(i, name, N_SATADD, 0); if (is("usub.sat")) return intr(i, name, N_SATADD, 1); if (is("sadd.sat")) return intr(i, name, N_SATADD, 2); if (is("ssub.sat")) return intr(i, name, N_SATADD, 3);
      if (is("uadd.with")) return intr(i, name, N_OVF, 0); if (is("usub.with")) return intr(i, name, N_OVF, 1); if (is("umul.with")) return intr(i, name, N_OVF, 2); if (is("sadd.with")) return intr(i, name, N_OVF, 3); if (is("ssub.with")) return intr(i, name, N_OVF, 4); if (is("smul.with")) return intr(i, name, N_OVF, 5);
      if (is("ctlz")) return intr(i, name, N_CTLZ); if (is("cttz.i")) return intr(i, name, N_CTTZ); if (is("ctpop")) return intr(i, name, N_CTPOP); if (is("bswap")) return intr(i, name, N_BSWAP); if (is("bitreverse")) return intr(i, name, N_BITREV);
      if (is("fshl")) return intr(i, name, N_FSH, 0); if (is("fshr")) return intr(i, name, N_FSH, 1); if (is("abs.")) return intr(i, name, N_ABS); if (is("scmp")) return intr(i, name, N_CMP3, 1); if (is("ucmp")) return intr(i, name, N_CMP3, 0);
      if (is("sqrt") || is("fabs") || is("floor") || is("ceil") || is("trunc") || is("round") || is("rint") || is("nearbyint") || is("log") || is("exp")) return intr(i, name, N_F1);
      if (is("fmuladd") || is("fma.")) return intr(i, name, N_FMA);
      if (is("copysign") || is("minnum") || is("maxnum") || is("pow.") || is("minimum") || is("maximum")) return intr(i, name, N_F2);
      if (is("powi")) return intr(i, name, N_POWI);
      if (is("vector.reduce.")) return intr(i, name, N_REDUCE);
      if (is("fptoui.sat")) return intr(i, name, N_FTOISAT, 0); if (is("fptosi.sat")) return intr(i, name, N_FTOISAT, 1);
      if (is("trap") || is("debugtrap") || is("ubsantrap")) return intr(i, name, N_TRAP);
      if (is("is.constant") || is("x86.xgetbv") || is("objectsize") || is("frameaddress") || is("returnaddress") || is("readcyclecounter")) return intr(i, name, N_ZERO);
      if (is("expect") || is("threadlocal.address") || is("launder") || is("strip.inv") || is("ssa.copy")) { auto d = ops(i); i32 a = op1(LLVMGetArgOperand(i, 0)); Ins& z = emit(I_COPY); z.d = d[0]; z.a = a; return; }
      if (is("ptrmask")) return intr(i, name, N_PTRMASK);
      if (is("x86.sse2.pmovmskb.128")) return intr(i, name, N_PMOVMSK);
      return unsup("intrinsic");
    }
    CallInfo c; c.callee = nullptr; c.fptr = -1; c.nextEdge = -1;
    if (LLVMIsAFunction(cal)) { c.callee = g_byVal.at(cal); c.name = name; } else { c.fptr = op1(cal); }
    int n = LLVMGetNumArgOperands(i); for (int a = 0; a < n; a++) { auto& o = ops(LLVMGetArgOperand(i, a)); c.args.insert(c.args.end(), o.begin(), o.end()); }
    auto rl = flatten(t); c.nret = rl.size(); c.retw = rl.empty() ? 0 : rl[0].w; c.d = rl.empty() ? -1 : op1(i);
    if (op == LLVMInvoke) c.nextEdge = edge(b, LLVMGetNormalDest(i));
    // byval arguments never occur in Rust-generated calls between Rust functions
    F->calls.push_back(c); u16 w = rl.empty() ? 0 : rl[0].w; Ins& z = emit(I_CALL); z.a = F->calls.size() - 1; z.w = w;
  }
};
void translate(Func* f) { if (f->translated) return; Tr t; t.F = f; t.run(); f->translated = true; f->frame = (f->frame + 15) & ~15ULL; }
