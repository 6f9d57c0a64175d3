// LLVM module loading (through the LLVM-C API of the compiler's own libLLVM) and
// translation of functions into the interpreter's flat instruction arrays.
#pragma once
#include "core.h"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/BitWriter.h>
extern "C" {
typedef struct LLVMOpaqueTargetData* LLVMTargetDataRef;
LLVMTargetDataRef LLVMGetModuleDataLayout(LLVMModuleRef M);
unsigned long long LLVMSizeOfTypeInBits(LLVMTargetDataRef TD, LLVMTypeRef Ty);
unsigned long long LLVMABISizeOfType(LLVMTargetDataRef TD, LLVMTypeRef Ty);
unsigned long long LLVMOffsetOfElement(LLVMTargetDataRef TD, LLVMTypeRef StructTy, unsigned Element);
}
#include <llvm-c/Error.h>
extern "C" LLVMBool LLVMStripModuleDebugInfo(LLVMModuleRef Module);
extern "C" {
typedef struct LLVMOpaquePassBuilderOptions* LLVMPassBuilderOptionsRef; typedef struct LLVMOpaqueTargetMachine* LLVMTargetMachineRef;
LLVMErrorRef LLVMRunPasses(LLVMModuleRef M, const char* Passes, LLVMTargetMachineRef TM, LLVMPassBuilderOptionsRef Options);
LLVMPassBuilderOptionsRef LLVMCreatePassBuilderOptions(void);
void LLVMPassBuilderOptionsSetLoopVectorization(LLVMPassBuilderOptionsRef, LLVMBool); void LLVMPassBuilderOptionsSetSLPVectorization(LLVMPassBuilderOptionsRef, LLVMBool);
void LLVMPassBuilderOptionsSetLoopUnrolling(LLVMPassBuilderOptionsRef, LLVMBool); void LLVMPassBuilderOptionsSetLoopInterleaving(LLVMPassBuilderOptionsRef, LLVMBool); void LLVMPassBuilderOptionsSetMergeFunctions(LLVMPassBuilderOptionsRef, LLVMBool);
}

enum IOp : u16 { I_BIN, I_DIV, I_ICMP, I_SELECT, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_INTR, I_FBIN, I_FCMP, I_FNEG,
  I_FCAST, I_RMW, I_CMPXCHG, I_BITCAST, I_UNREACHABLE, I_INSDYN, I_EXTDYN, I_UNSUP };
enum Intr : u16 { N_NOP, N_MEMCPY, N_MEMSET, N_MINMAX, N_SATADD, N_OVF, N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_BITREV, N_FSH, N_ABS, N_CMP3, N_F1, N_FMA, N_F2, N_REDUCE, N_FTOISAT, N_TRAP, N_ZERO, N_PMOVMSK, N_PSHUFB, N_TLS, N_PTRMASK, N_CPUID, N_IDENT, N_F1I, N_POWI, N_UNSUP };

struct Ins { u16 op, w, w2, sub; i32 d, a, b, c; i64 imm; };
struct Edge { u32 target; std::vector<std::pair<i32, i32>> cp; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; std::unordered_map<u64, u32> idx; };
struct Func;
struct CallInfo { Func* callee; i32 fptr; std::vector<i32> args; i32 d; u32 nret; u16 retw; i64 nextEdge; std::string name; };
struct IntrInfo { std::vector<i32> args; std::vector<u16> ws; u32 n; std::string name; };
struct GepInfo { std::vector<std::tuple<i32, u16, i64>> ix; };
enum Stub : u16 { S_NONE, S_ALLOC, S_ALLOCZ, S_DEALLOC, S_REALLOC, S_MALLOC, S_CALLOC, S_FREE, S_CREALLOC, S_MEMALIGN, S_PANIC, S_ABORT, S_HASHFIN, S_HASHWRITE, S_RANDKEYS, S_MEMCMP, S_STRLEN, S_MEMCPY, S_MEMSET, S_RET0, S_RETNEG, S_KEYCREATE, S_ERRNO, S_WRITE,
  S_SYM_RANGE, S_SYM_U64, S_SYM_ASSUME, S_SYM_ASSERT, S_SYM_REACH, S_SYM_OBSERVE, S_SYM_EXPECT, S_SYM_CONC, S_NOSHIM, S_MATH1, S_MATH2, S_SKIPOBJ, S_EXTERN };
struct Func {
  std::string name; u64 addr = 0; LLVMValueRef v = nullptr; bool translated = false, crate = false; Stub stub = S_NONE; u32 nslots = 0; u64 frame = 0;
  std::vector<Ins> code; std::vector<Edge> edges; std::vector<SwitchInfo> sw; std::vector<CallInfo> calls; std::vector<IntrInfo> intr; std::vector<GepInfo> geps; std::vector<i32> params; std::vector<std::vector<i32>> lists; std::vector<u16> paramw;
  u64 hits = 0, insn = 0; std::vector<Val*> pool;
};
extern std::vector<Val> g_consts;
extern std::unordered_map<u64, Func*> g_byAddr; extern std::unordered_map<std::string, Func*> g_byName;
Stub stubFor(const std::string& name);
bool keepName(const std::string& name);
bool isCrateFn(const std::string& name);
void loadModule(const char* path, Mem& mem);
void translate(Func* f);
int prepModule(const char* in, const char* out, const char* passes, const char* only);
