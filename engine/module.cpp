#include "module.hpp"
LLVMModuleRef g_mod; LLVMTargetDataRef g_td;
std::vector<Func*> g_funcs; std::vector<Global> g_globals;
std::unordered_map<LLVMValueRef, Func*> g_funcByVal; std::unordered_map<LLVMValueRef, u32> g_globByVal;
extern "C" LLVMBool LLVMParseBitcodeInContext2(LLVMContextRef, LLVMMemoryBufferRef, LLVMModuleRef*);

u64 funcAddr(u32 idx) { return 0x7f0000000000ull + (u64)idx * 16; }
Func* funcAt(u64 a) { if (a < 0x7f0000000000ull || (a & 15)) return nullptr; u64 i = (a - 0x7f0000000000ull) / 16; return i < g_funcs.size() ? g_funcs[i] : nullptr; }

static bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }

static int specialOf(const std::string& n, bool decl) {
  if (has(n, "12___rust_alloc") && !has(n, "19___rust_alloc_zeroed")) return SP_ALLOC;
  if (has(n, "19___rust_alloc_zeroed")) return SP_ALLOC_ZEROED;
  if (has(n, "14___rust_dealloc")) return SP_DEALLOC;
  if (has(n, "14___rust_realloc")) return SP_REALLOC;
  if (has(n, "17rust_begin_unwind")) return SP_BEGIN_UNWIND;
  if (has(n, "26___rust_alloc_error_handler")) return SP_ABORT;
  if (has(n, "3std9panicking11begin_panic") || has(n, "_4core9panicking9panic_fmt") || has(n, "_4core9panicking18panic_nounwind_fmt") || has(n, "_4core9panicking14panic_nounwind") ) return SP_PANIC;
  if (has(n, "__rust_no_alloc_shim_is_unstable")) return SP_NOALLOCSHIM;
  if (n == "sym_val") return SP_SYM; if (n == "sym_assume") return SP_ASSUME; if (n == "sym_fail") return SP_FAIL;
  if (n == "sym_cover") return SP_COVER; if (n == "sym_observe") return SP_OBSERVE; if (n == "sym_check") return SP_CHECK; if (n == "sym_native") return SP_NATIVE; if (n == "sym_pin") return SP_PIN;
  if (!decl) return SP_NONE;
  if (n == "bcmp") return SP_BCMP; if (n == "memcmp") return SP_MEMCMP; if (n == "strlen") return SP_STRLEN;
  if (n == "memcpy" || n == "memmove") return SP_MEMCPYFN; if (n == "memset") return SP_MEMSETFN;
  if (n == "syscall") return SP_SYSCALL; if (n == "__errno_location") return SP_ERRNO; if (n == "abort") return SP_ABORT;
  if (n == "getenv") return SP_GETENV; if (n == "malloc") return SP_MALLOC; if (n == "calloc") return SP_CALLOC; if (n == "free") return SP_FREE; if (n == "realloc") return SP_LIBREALLOC;
  if (n == "posix_memalign") return SP_MEMALIGN; if (n == "getrandom") return SP_GETRANDOM; if (n == "write") return SP_WRITE; if (n == "clock_gettime") return SP_CLOCK;
  if (n == "pthread_setspecific" || n == "pthread_key_delete") return SP_ZERO; if (n == "pthread_key_create") return SP_ONERET;
  return SP_UNKNOWN_EXT;
}

static int intrOf(const std::string& n) {
  auto st = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  if (st("llvm.lifetime") || st("llvm.experimental.noalias") || st("llvm.dbg") || st("llvm.x86.sse2.pause") || st("llvm.donothing") || st("llvm.prefetch") || st("llvm.invariant.start") || st("llvm.invariant.end")) return IN_NOP;
  if (st("llvm.memcpy")) return IN_MEMCPY; if (st("llvm.memmove")) return IN_MEMMOVE; if (st("llvm.memset")) return IN_MEMSET;
  if (st("llvm.assume")) return IN_ASSUME; if (st("llvm.expect")) return IN_EXPECT;
  if (st("llvm.uadd.with")) return IN_UADDO; if (st("llvm.sadd.with")) return IN_SADDO; if (st("llvm.usub.with")) return IN_USUBO; if (st("llvm.ssub.with")) return IN_SSUBO; if (st("llvm.umul.with")) return IN_UMULO; if (st("llvm.smul.with")) return IN_SMULO;
  if (st("llvm.uadd.sat")) return IN_UADDSAT; if (st("llvm.usub.sat")) return IN_USUBSAT; if (st("llvm.sadd.sat")) return IN_SADDSAT; if (st("llvm.ssub.sat")) return IN_SSUBSAT;
  if (st("llvm.umax")) return IN_UMAX; if (st("llvm.umin")) return IN_UMIN; if (st("llvm.smax")) return IN_SMAX; if (st("llvm.smin")) return IN_SMIN; if (st("llvm.fabs")) return IN_FABS; if (st("llvm.abs")) return IN_ABS;
  if (st("llvm.ctpop")) return IN_CTPOP; if (st("llvm.ctlz")) return IN_CTLZ; if (st("llvm.cttz")) return IN_CTTZ; if (st("llvm.bswap")) return IN_BSWAP; if (st("llvm.bitreverse")) return IN_BITREVERSE;
  if (st("llvm.fshl")) return IN_FSHL; if (st("llvm.fshr")) return IN_FSHR; if (st("llvm.ucmp")) return IN_UCMP; if (st("llvm.scmp")) return IN_SCMP; if (st("llvm.is.constant")) return IN_ISCONST;
  if (st("llvm.threadlocal.address")) return IN_TLADDR; if (st("llvm.trap") || st("llvm.debugtrap")) return IN_TRAP;
  if (st("llvm.vector.reduce.or")) return IN_VRED_OR; if (st("llvm.vector.reduce.and")) return IN_VRED_AND; if (st("llvm.vector.reduce.add")) return IN_VRED_ADD; if (st("llvm.vector.reduce.umax")) return IN_VRED_UMAX; if (st("llvm.vector.reduce.umin")) return IN_VRED_UMIN; if (st("llvm.vector.reduce.xor")) return IN_VRED_XOR; if (st("llvm.vector.reduce.mul")) return IN_VRED_MUL;
  if (st("llvm.ptrmask")) return IN_PTRMASK; if (st("llvm.load.relative")) return IN_LOADREL; if (st("llvm.objectsize")) return IN_OBJSIZE;
  return IN_UNKNOWN;
}

void flatten(LLVMTypeRef t, std::vector<Leaf>& out, u64 off) {
  switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: out.push_back({off, (u16)LLVMGetIntTypeWidth(t), false, 0}); break;
    case LLVMPointerTypeKind: out.push_back({off, 64, true, 0}); break;
    case LLVMFloatTypeKind: out.push_back({off, 32, false, 1}); break;
    case LLVMDoubleTypeKind: out.push_back({off, 64, false, 2}); break;
    case LLVMHalfTypeKind: out.push_back({off, 16, false, 3}); break;
    case LLVMFP128TypeKind: out.push_back({off, 128, false, 3}); break;
    case LLVMStructTypeKind: { unsigned n = LLVMCountStructElementTypes(t); for (unsigned i = 0; i < n; i++) flatten(LLVMStructGetTypeAtIndex(t, i), out, off + LLVMOffsetOfElement(g_td, t, i)); break; }
    case LLVMArrayTypeKind: { u64 n = LLVMGetArrayLength2(t); LLVMTypeRef e = LLVMGetElementType(t); u64 s = LLVMABISizeOfType(g_td, e); for (u64 i = 0; i < n; i++) flatten(e, out, off + i * s); break; }
    case LLVMVectorTypeKind: { u64 n = LLVMGetVectorSize(t); LLVMTypeRef e = LLVMGetElementType(t); std::vector<Leaf> l; flatten(e, l, 0); for (u64 i = 0; i < n; i++) out.push_back({off + i * ((l[0].w + 7) / 8), l[0].w, l[0].ptr, l[0].fk}); break; }
    case LLVMVoidTypeKind: case LLVMMetadataTypeKind: case LLVMTokenTypeKind: case LLVMLabelTypeKind: break;
    default: out.push_back({off, 64, false, 3}); break;
  }
}

static u64 constGep(LLVMValueRef v, u64& off);
u64 g_globalAddr(u32 objId);

static Val constScalar(LLVMValueRef c, unsigned w) {
  if (LLVMIsAConstantInt(c)) {
    if (w <= 64) return {LLVMConstIntGetZExtValue(c) & mask64(w), nullptr};
    char* s = LLVMPrintValueToString(c); char* p = strchr(s, ' '); bool neg = false; u128 v = 0; p++; if (*p == '-') { neg = true; p++; } for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0'); if (neg) v = -v; LLVMDisposeMessage(s);
    return {0, mkConst(v, w)};
  }
  if (LLVMIsAFunction(c)) { return {g_funcByVal[c]->addr, nullptr}; }
  if (LLVMIsAGlobalVariable(c)) { Global& g = g_globals[g_globByVal.at(c)]; if (g.weakExtern) return {0, nullptr}; return {g_globalAddr(g.objId), nullptr}; }
  if (LLVMIsAGlobalAlias(c)) return constScalar(LLVMAliasGetAliasee(c), w);
  if (LLVMIsAConstantPointerNull(c) || LLVMIsUndef(c) || LLVMIsAConstantAggregateZero(c)) { if (w > 64) return {0, mkConst(0, w)}; return {0, nullptr}; }
  if (LLVMIsAConstantFP(c)) { LLVMBool l; double d = LLVMConstRealGetDouble(c, &l); if (w == 64) { u64 v; memcpy(&v, &d, 8); return {v, nullptr}; } float f = (float)d; u32 v; memcpy(&v, &f, 4); return {v, nullptr}; }
  if (LLVMIsAConstantExpr(c)) {
    LLVMOpcode op = LLVMGetConstOpcode(c); LLVMValueRef a = LLVMGetOperand(c, 0);
    auto sw = [&](LLVMValueRef x) { std::vector<Leaf> l; flatten(LLVMTypeOf(x), l); return (unsigned)l[0].w; };
    switch (op) {
      case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: case LLVMTrunc: { Val v = constScalar(a, sw(a)); v.v &= mask64(w); return v; }
      case LLVMAdd: return {(constScalar(a, w).v + constScalar(LLVMGetOperand(c, 1), w).v) & mask64(w), nullptr};
      case LLVMSub: return {(constScalar(a, w).v - constScalar(LLVMGetOperand(c, 1), w).v) & mask64(w), nullptr};
      case LLVMXor: return {(constScalar(a, w).v ^ constScalar(LLVMGetOperand(c, 1), w).v) & mask64(w), nullptr};
      case LLVMGetElementPtr: { u64 off = 0; u64 base = constGep(c, off); return {base + off, nullptr}; }
      default: { // e.g. ptrtoaddr in newer LLVM
        if (LLVMGetNumOperands(c) == 1) { Val v = constScalar(a, sw(a)); v.v &= mask64(w); return v; } }
    }
  }
  char* s = LLVMPrintValueToString(c); fprintf(stderr, "constant: %s\n", s); die("unsupported constant");
}
static u64 constGep(LLVMValueRef c, u64& off) {
  LLVMValueRef base = LLVMGetOperand(c, 0); u64 b = constScalar(base, 64).v; LLVMTypeRef t = LLVMGetGEPSourceElementType(c);
  int n = LLVMGetNumOperands(c);
  for (int i = 1; i < n; i++) {
    LLVMValueRef idx = LLVMGetOperand(c, i); i64 iv = LLVMConstIntGetSExtValue(idx);
    if (i == 1) off += iv * LLVMABISizeOfType(g_td, t);
    else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { off += LLVMOffsetOfElement(g_td, t, iv); t = LLVMStructGetTypeAtIndex(t, iv); }
    else { t = LLVMGetElementType(t); off += iv * LLVMABISizeOfType(g_td, t); }
  }
  return b;
}

void flattenConst(LLVMValueRef c, std::vector<Val>& out) {
  LLVMTypeRef t = LLVMTypeOf(c); LLVMTypeKind k = LLVMGetTypeKind(t);
  if (k == LLVMStructTypeKind || k == LLVMArrayTypeKind || k == LLVMVectorTypeKind) {
    if (LLVMIsUndef(c) || LLVMIsAConstantAggregateZero(c) || LLVMIsNull(c)) { std::vector<Leaf> l; flatten(t, l); for (auto& x : l) out.push_back(x.w > 64 ? Val{0, mkConst(0, x.w)} : Val{0, nullptr}); return; }
    unsigned n = k == LLVMStructTypeKind ? LLVMCountStructElementTypes(t) : k == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
    for (unsigned i = 0; i < n; i++) { LLVMValueRef e = LLVMGetAggregateElement(c, i); if (!e) die("aggregate constant"); flattenConst(e, out); }
    return;
  }
  std::vector<Leaf> l; flatten(t, l); if (l.empty()) return;
  out.push_back(constScalar(c, l[0].w));
}

void loadModule(const char* path) {
  LLVMMemoryBufferRef buf; char* msg = nullptr;
  if (LLVMCreateMemoryBufferWithContentsOfFile(path, &buf, &msg)) die("cannot read %s", path);
  if (LLVMParseBitcodeInContext2(LLVMGetGlobalContext(), buf, &g_mod)) die("cannot parse %s", path);
  g_td = LLVMGetModuleDataLayout(g_mod);
  for (LLVMValueRef f = LLVMGetFirstFunction(g_mod); f; f = LLVMGetNextFunction(f)) {
    Func* F = new Func(); size_t n; const char* s = LLVMGetValueName2(f, &n); F->name.assign(s, n); F->v = f; F->decl = LLVMIsDeclaration(f); F->idx = g_funcs.size(); F->addr = funcAddr(F->idx);
    LLVMLinkage lk = LLVMGetLinkage(f); F->weak = F->decl && lk == LLVMExternalWeakLinkage; if (F->weak) F->addr = 0;
    F->special = specialOf(F->name, F->decl && F->name.compare(0, 5, "llvm."));
    if (F->decl && !F->name.compare(0, 5, "llvm.")) F->special = SP_NONE;
    g_funcs.push_back(F); g_funcByVal[f] = F;
  }
  u32 id = 16;
  for (LLVMValueRef g = LLVMGetFirstGlobal(g_mod); g; g = LLVMGetNextGlobal(g)) {
    Global G; size_t n; const char* s = LLVMGetValueName2(g, &n); G.name.assign(s, n); G.v = g; G.isConst = LLVMIsGlobalConstant(g); G.weakExtern = LLVMIsDeclaration(g) && LLVMGetLinkage(g) == LLVMExternalWeakLinkage;
    G.size = LLVMABISizeOfType(g_td, LLVMGlobalGetValueType(g)); G.objId = id++; g_globByVal[g] = g_globals.size(); g_globals.push_back(G);
  }
}

struct Dec {
  Func* f; std::unordered_map<LLVMValueRef, i32> slot; std::unordered_map<LLVMValueRef, i32> cmap; std::unordered_map<LLVMBasicBlockRef, int> bidx;
  std::vector<LLVMBasicBlockRef> blocks;
  u32 width(LLVMValueRef v, u32* n = nullptr) { std::vector<Leaf> l; flatten(LLVMTypeOf(v), l); if (n) *n = l.size(); return l.empty() ? 0 : l[0].w; }
  i32 opd(LLVMValueRef v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    auto ic = cmap.find(v); if (ic != cmap.end()) return ic->second;
    i32 base = ~(i32)f->consts.size(); flattenConst(v, f->consts); cmap[v] = base; return base;
  }
  Edge* edge(LLVMBasicBlockRef from, LLVMBasicBlockRef to) {
    Edge* e = new Edge();
    for (LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) {
      unsigned n = LLVMCountIncoming(i); bool ok = false;
      for (unsigned k = 0; k < n; k++) if (LLVMGetIncomingBlock(i, k) == from) { u32 cnt; width(i, &cnt); e->mv.push_back({slot[i], opd(LLVMGetIncomingValue(i, k)), cnt}); ok = true; break; }
      if (!ok) die("phi edge");
    }
    if (e->mv.empty()) { delete e; return nullptr; }
    return e;
  }
};
// constants are stored in order at index base, base+1...: operand ~idx; element k of a multi-leaf constant is ~(idx+k)

void decodeFunc(Func* f) {
  if (f->decoded) return; f->decoded = true;
  Dec d; d.f = f; u32 s = 0;
  unsigned np = LLVMCountParams(f->v);
  for (unsigned i = 0; i < np; i++) { LLVMValueRef p = LLVMGetParam(f->v, i); std::vector<Leaf> l; flatten(LLVMTypeOf(p), l); d.slot[p] = s; for (auto& x : l) f->argW.push_back(x.w); s += l.size(); }
  f->nargs = s;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f->v); b; b = LLVMGetNextBasicBlock(b)) {
    d.bidx[b] = d.blocks.size(); d.blocks.push_back(b);
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { u32 n; d.width(i, &n); if (n) { d.slot[i] = s; s += n; } }
  }
  f->nslots = s;
  for (auto b : d.blocks) {
    f->blockStart.push_back(f->code.size());
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode op = LLVMGetInstructionOpcode(i); Ins I; memset(&I, 0, sizeof I); u32 n; I.w = I.w2 = d.width(i, &n); I.n = n; I.dst = n ? d.slot[i] : -1;
      auto A = [&](int k) { return LLVMGetOperand(i, k); };
      auto brTo = [&](LLVMBasicBlockRef t) { return d.bidx.at(t); };
      switch (op) {
        case LLVMPHI: continue;
        case LLVMRet: I.op = I_RET; if (LLVMGetNumOperands(i)) { I.a = d.opd(A(0)); I.w = d.width(A(0), &I.n); } else I.n = 0; break;
        case LLVMSwitch: { I.op = I_SWITCH; SwitchInfo* si = new SwitchInfo(); LLVMValueRef c = A(0); I.a = d.opd(c); si->w = d.width(c); unsigned ns = LLVMGetNumSuccessors(i);
          LLVMBasicBlockRef def = LLVMGetSwitchDefaultDest(i); si->def = brTo(def); si->defEdge = d.edge(b, def);
          extern LLVMValueRef rsym_switch_case(LLVMValueRef, unsigned);
          for (unsigned k = 1; k < ns; k++) { LLVMValueRef cv = rsym_switch_case(i, k); LLVMBasicBlockRef t = LLVMGetSuccessor(i, k); si->cases.push_back({constScalar(cv, si->w).v, brTo(t)}); si->caseEdge.push_back(d.edge(b, t)); }
          I.x = si; break; }
        case LLVMUnreachable: I.op = I_UNREACH; break;
        case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem: case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: {
          static const std::map<int, int> m = {{LLVMAdd, E_ADD}, {LLVMSub, E_SUB}, {LLVMMul, E_MUL}, {LLVMUDiv, E_UDIV}, {LLVMSDiv, E_SDIV}, {LLVMURem, E_UREM}, {LLVMSRem, E_SREM}, {LLVMShl, E_SHL}, {LLVMLShr, E_LSHR}, {LLVMAShr, E_ASHR}, {LLVMAnd, E_AND}, {LLVMOr, E_OR}, {LLVMXor, E_XOR}};
          I.op = I_BIN; I.sub = m.at(op); I.a = d.opd(A(0)); I.b = d.opd(A(1)); break; }
        case LLVMICmp: I.op = I_ICMP; I.sub = LLVMGetICmpPredicate(i); I.a = d.opd(A(0)); I.b = d.opd(A(1)); I.w = d.width(A(0)); I.w2 = 1; break;
        case LLVMSelect: { I.op = I_SELECT; u32 cn; d.width(A(0), &cn); I.a = d.opd(A(0)); I.b = d.opd(A(1)); I.c = d.opd(A(2)); I.sub = cn > 1; std::vector<Leaf>* l = new std::vector<Leaf>(); flatten(LLVMTypeOf(i), *l); I.x = l; break; }
        case LLVMTrunc: I.op = I_TRUNC; I.a = d.opd(A(0)); I.w = d.width(A(0)); break;
        case LLVMZExt: I.op = I_ZEXT; I.a = d.opd(A(0)); I.w = d.width(A(0)); break;
        case LLVMSExt: I.op = I_SEXT; I.a = d.opd(A(0)); I.w = d.width(A(0)); break;
        case LLVMPtrToInt: case LLVMIntToPtr: { u32 w1 = d.width(A(0)); I.a = d.opd(A(0)); I.w = w1; I.op = w1 == I.w2 ? I_COPY : w1 > I.w2 ? I_TRUNC : I_ZEXT; break; }
        case LLVMFreeze: case LLVMAddrSpaceCast: I.op = I_COPY; I.a = d.opd(A(0)); break;
        case LLVMBitCast: { u32 n1; u32 w1 = d.width(A(0), &n1); I.a = d.opd(A(0)); if (n1 == n && w1 == I.w2) I.op = I_COPY; else { I.op = I_BITCAST; I.w = w1; I.imm = n1; } break; }
        case LLVMAlloca: { I.op = I_ALLOCA; I.imm = LLVMABISizeOfType(g_td, LLVMGetAllocatedType(i)); I.a = d.opd(A(0)); break; }
        case LLVMLoad: { I.op = I_LOAD; I.a = d.opd(A(0)); MemInfo* m = new MemInfo(); flatten(LLVMTypeOf(i), m->leaves); m->vecI1 = LLVMGetTypeKind(LLVMTypeOf(i)) == LLVMVectorTypeKind && m->leaves[0].w % 8; I.x = m; if (m->vecI1) I.op = I_UNSUPPORTED; break; }
        case LLVMStore: { I.op = I_STORE; I.b = d.opd(A(0)); I.a = d.opd(A(1)); I.w = d.width(A(0), &I.n); MemInfo* m = new MemInfo(); flatten(LLVMTypeOf(A(0)), m->leaves); m->vecI1 = LLVMGetTypeKind(LLVMTypeOf(A(0))) == LLVMVectorTypeKind && m->leaves[0].w % 8; I.x = m; if (m->vecI1) I.op = I_UNSUPPORTED; break; }
        case LLVMGetElementPtr: {
          I.op = I_GEP; if (n != 1) { I.op = I_UNSUPPORTED; break; } I.a = d.opd(A(0)); GepInfo* g = new GepInfo(); g->off = 0; LLVMTypeRef t = LLVMGetGEPSourceElementType(i); int no = LLVMGetNumOperands(i);
          for (int k = 1; k < no; k++) { LLVMValueRef ix = A(k); u64 sc;
            if (k == 1) sc = LLVMABISizeOfType(g_td, t);
            else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { u64 iv = LLVMConstIntGetZExtValue(ix); g->off += LLVMOffsetOfElement(g_td, t, iv); t = LLVMStructGetTypeAtIndex(t, iv); continue; }
            else { t = LLVMGetElementType(t); sc = LLVMABISizeOfType(g_td, t); }
            if (LLVMIsAConstantInt(ix)) g->off += (u64)LLVMConstIntGetSExtValue(ix) * sc; else g->terms.push_back({d.opd(ix), (u16)d.width(ix), sc}); }
          I.x = g; break; }
        case LLVMInvoke: case LLVMCall: {
          I.op = I_CALL; CallInfo* ci = new CallInfo(); LLVMValueRef cv = LLVMGetCalledValue(i);
          if (LLVMIsAInlineAsm(cv)) ci->inlineAsm = true;
          else { while (LLVMIsAGlobalAlias(cv)) cv = LLVMAliasGetAliasee(cv);
            if (LLVMIsAFunction(cv)) { Func* g = g_funcByVal[cv]; ci->callee = g; ci->name = g->name; if (!g->name.compare(0, 5, "llvm.")) ci->intr = intrOf(g->name); } else ci->calleeOpd = d.opd(cv); }
          if (ci->intr != IN_NOP) {
            unsigned na = LLVMGetNumArgOperands(i);
            for (unsigned k = 0; k < na; k++) { LLVMValueRef a = A(k); std::vector<Leaf> l; flatten(LLVMTypeOf(a), l); ci->argFirst.push_back(ci->args.size()); ci->argN.push_back(l.size()); if (l.empty()) continue; i32 o = d.opd(a); for (u32 q = 0; q < l.size(); q++) { ci->args.push_back(o >= 0 ? o + (i32)q : ~(~o + (i32)q)); ci->argW.push_back(l[q].w); } }
          }
          std::vector<Leaf> l; flatten(LLVMTypeOf(i), l); for (auto& x : l) ci->retW.push_back(x.w);
          if (op == LLVMInvoke) { LLVMBasicBlockRef nd = LLVMGetNormalDest(i); BrInfo* bi = new BrInfo(); bi->t0 = brTo(nd); bi->e0 = d.edge(b, nd); I.imm = (u64)bi; }
          I.x = ci; f->code.push_back(I);
          if (op == LLVMInvoke) { Ins J; memset(&J, 0, sizeof J); J.op = I_BR; J.x = (void*)I.imm; J.dst = -1; f->code.back().imm = 0; f->code.push_back(J); }
          continue; }
        case LLVMExtractValue: { I.op = I_COPY; std::vector<Leaf> pre; LLVMTypeRef t = LLVMTypeOf(A(0)); const unsigned* ix = LLVMGetIndices(i); unsigned ni = LLVMGetNumIndices(i); u32 off = 0;
          for (unsigned k = 0; k < ni; k++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned q = 0; q < ix[k]; q++) { std::vector<Leaf> l; flatten(LLVMStructGetTypeAtIndex(t, q), l); off += l.size(); } t = LLVMStructGetTypeAtIndex(t, ix[k]); } else { t = LLVMGetElementType(t); std::vector<Leaf> l; flatten(t, l); off += l.size() * ix[k]; } }
          i32 o = d.opd(A(0)); I.a = o >= 0 ? o + (i32)off : ~(~o + (i32)off); break; }
        case LLVMInsertValue: { LLVMTypeRef t = LLVMTypeOf(A(0)); const unsigned* ix = LLVMGetIndices(i); unsigned ni = LLVMGetNumIndices(i); u32 off = 0;
          for (unsigned k = 0; k < ni; k++) { if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned q = 0; q < ix[k]; q++) { std::vector<Leaf> l; flatten(LLVMStructGetTypeAtIndex(t, q), l); off += l.size(); } t = LLVMStructGetTypeAtIndex(t, ix[k]); } else { t = LLVMGetElementType(t); std::vector<Leaf> l; flatten(t, l); off += l.size() * ix[k]; } }
          I.op = I_COPY; I.a = d.opd(A(0)); f->code.push_back(I); Ins J = I; J.a = d.opd(A(1)); d.width(A(1), &J.n); J.dst = I.dst + off; f->code.push_back(J); continue; }
        case LLVMExtractElement: { I.op = I_EXTRACTELT; I.a = d.opd(A(0)); u32 vn; d.width(A(0), &vn); I.imm = vn; I.b = d.opd(A(1)); break; }
        case LLVMInsertElement: { I.op = I_INSERTELT; I.a = d.opd(A(0)); I.b = d.opd(A(1)); I.c = d.opd(A(2)); break; }
        case LLVMShuffleVector: { I.op = I_SHUFFLE; I.a = d.opd(A(0)); I.b = d.opd(A(1)); u32 vn; d.width(A(0), &vn); I.imm = vn; ShufInfo* si = new ShufInfo(); unsigned mn = LLVMGetNumMaskElements(i); for (unsigned k = 0; k < mn; k++) si->mask.push_back(LLVMGetMaskValue(i, k)); I.x = si; break; }
        case LLVMFence: I.op = I_NOP; break;
        case LLVMAtomicCmpXchg: I.op = I_CMPXCHG; I.a = d.opd(A(0)); I.b = d.opd(A(1)); I.c = d.opd(A(2)); I.w = d.width(A(1)); break;
        case LLVMAtomicRMW: I.op = I_RMW; I.sub = LLVMGetAtomicRMWBinOp(i); I.a = d.opd(A(0)); I.b = d.opd(A(1)); I.w = d.width(A(1)); break;
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: I.op = I_FBIN; I.sub = op; I.a = d.opd(A(0)); I.b = d.opd(A(1)); break;
        case LLVMFNeg: I.op = I_FNEG; I.a = d.opd(A(0)); break;
        case LLVMFCmp: I.op = I_FCMP; I.sub = LLVMGetFCmpPredicate(i); I.a = d.opd(A(0)); I.b = d.opd(A(1)); I.w = d.width(A(0)); break;
        case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt: I.op = I_FCAST; I.sub = op; I.a = d.opd(A(0)); I.w = d.width(A(0)); break;
        default:
          if (LLVMGetNumSuccessors && LLVMIsATerminatorInst(i) && (op == LLVMBr || LLVMGetNumSuccessors(i) <= 2) && op != LLVMResume) {
            unsigned ns = LLVMGetNumSuccessors(i); BrInfo* bi = new BrInfo(); bi->t0 = brTo(LLVMGetSuccessor(i, 0)); bi->e0 = d.edge(b, LLVMGetSuccessor(i, 0));
            if (ns == 2) { I.op = I_CONDBR; I.a = d.opd(LLVMGetCondition(i)); bi->t1 = brTo(LLVMGetSuccessor(i, 1)); bi->e1 = d.edge(b, LLVMGetSuccessor(i, 1)); } else I.op = I_BR;
            I.x = bi; break; }
          { // single-operand casts newer than this header (ptrtoaddr)
            if (!LLVMIsATerminatorInst(i) && LLVMIsACastInst(i)) { u32 w1 = d.width(A(0)); I.a = d.opd(A(0)); I.w = w1; I.op = w1 == I.w2 ? I_COPY : w1 > I.w2 ? I_TRUNC : I_ZEXT; break; } }
          I.op = I_UNSUPPORTED; I.imm = op;
      }
      f->code.push_back(I);
    }
  }
}
