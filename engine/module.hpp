// Decodes an LLVM bitcode module (via the LLVM C API) into a flat register machine.
#pragma once
#include "expr.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Target.h>

struct Val { u64 v; Expr* e; }; // e!=null: symbolic or wider than 64 bits
struct Leaf { u64 off; u16 w; bool ptr; u8 fk; }; // fk: 0 int/ptr 1 float 2 double

enum IOp : u16 { I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACH, I_BIN, I_ICMP, I_SELECT, I_TRUNC, I_ZEXT, I_SEXT, I_COPY, I_BITCAST, I_ALLOCA, I_LOAD, I_STORE, I_GEP,
  I_CALL, I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_FENCE, I_CMPXCHG, I_RMW, I_FBIN, I_FCMP, I_FNEG, I_FCAST, I_UNSUPPORTED, I_NOP };

struct Func; struct Block;
struct GepTerm { i32 opd; u16 w; u64 scale; };
struct PhiMove { i32 dst; i32 src; u32 n; };
struct Edge { std::vector<PhiMove> mv; };
struct CallInfo {
  Func* callee = nullptr; int intr = 0; i32 calleeOpd = 0; bool inlineAsm = false; std::string name;
  std::vector<i32> args; std::vector<u16> argW; // flattened
  std::vector<u32> argFirst; std::vector<u32> argN; // per LLVM argument
  std::vector<u16> retW; int normalDest = -1; u16 elemW = 0; u32 elemN = 0;
};
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; u16 w; std::vector<Edge*> caseEdge; Edge* defEdge; };
struct Ins {
  u16 op; u16 sub; u16 w, w2; u32 n; i32 dst; i32 a, b, c;
  u64 imm;
  void* x; // extra
};
struct Block { u32 first; std::map<int, int> dummy; };
struct Func {
  std::string name; LLVMValueRef v; bool decl; bool decoded = false; u32 idx; u64 addr; bool weak = false;
  u32 nargs = 0, nslots = 0; std::vector<u16> argW; std::vector<u16> retW;
  std::vector<Ins> code; std::vector<u32> blockStart; std::vector<Val> consts;
  int special = 0; // intercepted function id
  u64 execCount = 0; // instructions executed in this function (statistics)
};
struct Global { LLVMValueRef v; std::string name; u32 objId; bool isConst; u64 size; bool weakExtern; };

struct BrInfo { int t0, t1; Edge *e0, *e1; };
struct MemInfo { std::vector<Leaf> leaves; bool vecI1 = false; };
struct GepInfo { u64 off; std::vector<GepTerm> terms; };
struct ShufInfo { std::vector<int> mask; };
struct CastInfo { std::vector<u16> from, to; };

extern LLVMModuleRef g_mod; extern LLVMTargetDataRef g_td;
extern std::vector<Func*> g_funcs; extern std::vector<Global> g_globals;
extern std::unordered_map<LLVMValueRef, Func*> g_funcByVal; extern std::unordered_map<LLVMValueRef, u32> g_globByVal;

void loadModule(const char* path);
void decodeFunc(Func* f);
void flatten(LLVMTypeRef t, std::vector<Leaf>& out, u64 off = 0);
void flattenConst(LLVMValueRef c, std::vector<Val>& out);
u64 funcAddr(u32 idx); Func* funcAt(u64 addr);

enum Intr { IN_NONE = 0, IN_NOP, IN_MEMCPY, IN_MEMMOVE, IN_MEMSET, IN_ASSUME, IN_EXPECT, IN_UADDO, IN_SADDO, IN_USUBO, IN_SSUBO, IN_UMULO, IN_SMULO,
  IN_UADDSAT, IN_USUBSAT, IN_SADDSAT, IN_SSUBSAT, IN_UMAX, IN_UMIN, IN_SMAX, IN_SMIN, IN_ABS, IN_FABS, IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_BSWAP, IN_BITREVERSE, IN_FSHL, IN_FSHR,
  IN_UCMP, IN_SCMP, IN_ISCONST, IN_TLADDR, IN_TRAP, IN_VRED_OR, IN_VRED_AND, IN_VRED_ADD, IN_VRED_UMAX, IN_VRED_UMIN, IN_VRED_XOR, IN_VRED_MUL, IN_PTRMASK, IN_LOADREL, IN_OBJSIZE, IN_UNKNOWN };
enum Special { SP_NONE = 0, SP_ALLOC, SP_ALLOC_ZEROED, SP_DEALLOC, SP_REALLOC, SP_PANIC, SP_BEGIN_UNWIND, SP_NOALLOCSHIM, SP_SYM, SP_ASSUME, SP_FAIL, SP_COVER, SP_OBSERVE, SP_CHECK, SP_NATIVE,
  SP_BCMP, SP_MEMCMP, SP_STRLEN, SP_SYSCALL, SP_ERRNO, SP_ABORT, SP_GETENV, SP_ZERO, SP_MALLOC, SP_CALLOC, SP_FREE, SP_MEMALIGN, SP_GETRANDOM, SP_WRITE, SP_CLOCK, SP_MEMCPYFN, SP_MEMSETFN, SP_ONERET, SP_LIBREALLOC, SP_PIN, SP_UNKNOWN_EXT };
