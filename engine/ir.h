// LLVM bitcode -> internal flattened instruction form.
#pragma once
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/DebugInfo.h>
#include <map>
#include <set>
extern "C" {
typedef struct LLVMOpaqueTargetData *LLVMTargetDataRef;
LLVMTargetDataRef LLVMGetModuleDataLayout(LLVMModuleRef);
unsigned long long LLVMABISizeOfType(LLVMTargetDataRef, LLVMTypeRef);
unsigned long long LLVMOffsetOfElement(LLVMTargetDataRef, LLVMTypeRef, unsigned);
LLVMValueRef LLVMIsACondBrInst(LLVMValueRef);
LLVMValueRef LLVMIsAUncondBrInst(LLVMValueRef);
LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);
const char *LLVMGetRawDataValues(LLVMValueRef, size_t *);
}

struct Val { u64 lo, hi; Expr *e; };
static inline Val cval(u128 v) { return Val{(u64)v, (u64)(v >> 64), nullptr}; }
static inline u128 cu(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
static inline Expr *toE(const Val &v, unsigned w) { return v.e ? v.e : mkC(cu(v), w); }
static inline Val fromE(Expr *e) { if (isC(e)) return cval(e->c); return Val{0, 0, e}; }

struct Slot { u16 w; u32 off; };            // width in bits, byte offset in memory
struct TypeInfo { std::vector<Slot> s; u64 size; bool packedvec; bool fp; };
// vectors of small elements which fill whole bytes
static bool packedOk(TypeInfo *t) { unsigned w = t->s.size() ? t->s[0].w : 0; for (auto &x : t->s) if (x.w != w) return false; return w && w < 8 && t->s.size() > 1 && w * t->s.size() % 8 == 0 && w * t->s.size() <= 64; }

enum OpK : u8 {
  O_BIN, O_FBIN, O_ICMP, O_FCMP, O_CAST, O_SELECT, O_ALLOCA, O_LOAD, O_STORE, O_GEP,
  O_COPY, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACHABLE, O_FENCE, O_CMPXCHG, O_RMW,
  O_EXTRELT, O_INSELT, O_SHUF, O_FREEZE, O_UNSUP, O_BITCAST, O_FCAST
};
enum BinK : u8 { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_SHL, B_LSHR, B_ASHR, B_AND, B_OR, B_XOR };

struct Func;
struct GepIdx { int op; u16 w; s64 scale; };
struct Inst {
  OpK op; u8 sub; u16 w = 0;      // sub: binop / predicate / cast kind ; w: result lane width
  u16 n = 0;                     // number of lanes / slots
  u16 w2 = 0;                    // source width for casts
  int dst = -1;
  int a = 0, b = 0, c = 0;        // operand slot bases
  u32 loc = 0;
  u32 t0 = 0, t1 = 0;             // successor blocks
  TypeInfo *ty = nullptr;
  std::vector<int> xs;           // extra operands (call args slot bases flattened) / shuffle mask
  std::vector<u16> xw;           // widths of call args
  std::vector<GepIdx> gi;
  std::vector<std::pair<u128, u32>> cases;
  s64 imm = 0;
  Func *callee = nullptr; int builtin = -1;
  const char *note = nullptr;
};
struct Phi { int dst; u16 n; std::vector<std::pair<u32, int>> in; };
struct Block { std::vector<Phi> phis; std::vector<Inst> ins; };
struct Func {
  LLVMValueRef v; std::string name; bool translated = false, isdecl = false, varargs = false;
  int nregs = 0, nparams = 0; // param slots occupy regs [0,nparams)
  std::vector<u16> pw;
  std::vector<Block> blocks;
  int builtin = -1;
  u32 idx = 0;
  const char *ovr = nullptr;
};

static const u64 FBASE = 0x10000000ull;   // function addresses: FBASE + 16*idx
struct Loc { std::string file; unsigned line; };

struct ModuleIR {
  LLVMContextRef ctx; LLVMModuleRef mod; LLVMTargetDataRef td;
  std::vector<Func *> funcs;
  std::unordered_map<LLVMValueRef, Func *> fmap;
  std::unordered_map<std::string, Func *> fname;
  std::unordered_map<LLVMTypeRef, TypeInfo *> types;
  std::vector<Val> cpool;
  std::unordered_map<LLVMValueRef, int> cmap;
  std::vector<LLVMValueRef> ctors; // functions a loader runs before main
  std::unordered_map<LLVMValueRef, u64> gaddr; // filled by memory layer before translation
  std::unordered_map<std::string, u64> galias;
  std::vector<Loc> locs; std::map<std::pair<std::string, unsigned>, u32> locidx;
  std::unordered_map<LLVMMetadataRef, u32> locmd;
  std::string unsupWhy;

  void load(const char *path) {
    ctx = LLVMContextCreate();
    LLVMMemoryBufferRef buf; char *err = nullptr;
    if (LLVMCreateMemoryBufferWithContentsOfFile(path, &buf, &err)) { fprintf(stderr, "cannot read %s: %s\n", path, err); exit(3); }
    if (LLVMParseBitcodeInContext2(ctx, buf, &mod)) { fprintf(stderr, "cannot parse bitcode %s\n", path); exit(3); }
    td = LLVMGetModuleDataLayout(mod);
    locs.push_back({"", 0});
    for (LLVMValueRef f = LLVMGetFirstFunction(mod); f; f = LLVMGetNextFunction(f)) {
      Func *F = new Func(); F->v = f; size_t l; const char *nm = LLVMGetValueName2(f, &l); F->name = std::string(nm, l);
      F->isdecl = LLVMIsDeclaration(f); F->idx = funcs.size();
      F->varargs = LLVMIsFunctionVarArg(LLVMGlobalGetValueType(f));
      funcs.push_back(F); fmap[f] = F; fname[F->name] = F;
    }
  }
  u64 faddr(Func *f) { return FBASE + 16ull * (f->idx + 1); }
  Func *funcAt(u64 a) { if (a <= FBASE || (a - FBASE) % 16) return nullptr; u64 i = (a - FBASE) / 16 - 1; return i < funcs.size() ? funcs[i] : nullptr; }

  TypeInfo *type(LLVMTypeRef t) {
    auto it = types.find(t); if (it != types.end()) return it->second;
    TypeInfo *ti = new TypeInfo(); ti->packedvec = false; ti->fp = false;
    ti->size = 0;
    if (LLVMTypeIsSized(t)) ti->size = LLVMABISizeOfType(td, t);
    flat(t, 0, ti);
    return types[t] = ti;
  }
  void flat(LLVMTypeRef t, u32 off, TypeInfo *ti) {
    switch (LLVMGetTypeKind(t)) {
      case LLVMIntegerTypeKind: ti->s.push_back({(u16)LLVMGetIntTypeWidth(t), off}); break;
      case LLVMPointerTypeKind: ti->s.push_back({64, off}); break;
      case LLVMFloatTypeKind: ti->s.push_back({32, off}); ti->fp = true; break;
      case LLVMDoubleTypeKind: ti->s.push_back({64, off}); ti->fp = true; break;
      case LLVMStructTypeKind: {
        unsigned n = LLVMCountStructElementTypes(t);
        for (unsigned i = 0; i < n; i++) flat(LLVMStructGetTypeAtIndex(t, i), off + (u32)LLVMOffsetOfElement(td, t, i), ti);
        break;
      }
      case LLVMArrayTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t); u64 n = LLVMGetArrayLength2(t); u64 es = LLVMABISizeOfType(td, e);
        for (u64 i = 0; i < n; i++) flat(e, off + (u32)(i * es), ti);
        break;
      }
      case LLVMVectorTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t); unsigned n = LLVMGetVectorSize(t);
        unsigned ew = LLVMGetTypeKind(e) == LLVMIntegerTypeKind ? LLVMGetIntTypeWidth(e) : (unsigned)(LLVMABISizeOfType(td, e) * 8);
        if (ew % 8) ti->packedvec = true;
        for (unsigned i = 0; i < n; i++) flat(e, off + i * ((ew + 7) / 8), ti);
        break;
      }
      case LLVMVoidTypeKind: case LLVMMetadataTypeKind: case LLVMLabelTypeKind: case LLVMTokenTypeKind: break;
      default: ti->s.push_back({64, off}); ti->packedvec = true; break;
    }
  }
  // ---- constants
  static u128 parseInt(LLVMValueRef v, unsigned w) {
    if (w <= 64) return (u128)LLVMConstIntGetZExtValue(v) & maskw(w);
    char *s = LLVMPrintValueToString(v); const char *p = strchr(s, ' '); p++;
    bool neg = *p == '-'; if (neg) p++;
    u128 r = 0; while (*p >= '0' && *p <= '9') r = r * 10 + (*p++ - '0');
    LLVMDisposeMessage(s); if (neg) r = 0 - r; return r & maskw(w);
  }
  bool evalConst(LLVMValueRef v, std::vector<Val> &out) { // flattened
    LLVMTypeRef t = LLVMTypeOf(v);
    if (LLVMIsNull(v) || LLVMIsUndef(v) || LLVMIsPoison(v)) { for (size_t i = 0; i < type(t)->s.size(); i++) out.push_back(cval(0)); return true; }
    switch (LLVMGetValueKind(v)) {
      case LLVMConstantIntValueKind: 
        if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) break;
        out.push_back(cval(parseInt(v, LLVMGetIntTypeWidth(t)))); return true;
      case LLVMConstantFPValueKind: {
        LLVMBool li; double d = LLVMConstRealGetDouble(v, &li);
        if (LLVMGetTypeKind(t) == LLVMFloatTypeKind) { float f = (float)d; u32 b; memcpy(&b, &f, 4); out.push_back(cval(b)); }
        else { u64 b; memcpy(&b, &d, 8); out.push_back(cval(b)); }
        return true;
      }
      case LLVMConstantPointerNullValueKind: out.push_back(cval(0)); return true;
      case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: case LLVMConstantAggregateZeroValueKind: {
        for (size_t i = 0; i < type(t)->s.size(); i++) out.push_back(cval(0)); return true;
      }
      case LLVMFunctionValueKind: out.push_back(cval(faddr(fmap[v]))); return true;
      case LLVMGlobalVariableValueKind: { auto it = gaddr.find(v); if (it == gaddr.end()) { unsupWhy = "unplaced global"; return false; } out.push_back(cval(it->second)); return true; }
      case LLVMGlobalAliasValueKind: return evalConst(LLVMAliasGetAliasee(v), out);
      case LLVMConstantStructValueKind: case LLVMConstantArrayValueKind: case LLVMConstantVectorValueKind: {
        int n = LLVMGetNumOperands(v);
        for (int i = 0; i < n; i++) if (!evalConst(LLVMGetOperand(v, i), out)) return false;
        return true;
      }
      case LLVMConstantDataArrayValueKind: case LLVMConstantDataVectorValueKind: {
        LLVMTypeRef et = LLVMGetElementType(t);
        u64 n = LLVMGetTypeKind(t) == LLVMArrayTypeKind ? LLVMGetArrayLength2(t) : LLVMGetVectorSize(t);
        size_t sz; const char *raw = LLVMGetRawDataValues(v, &sz); size_t es = LLVMABISizeOfType(td, et);
        for (u64 i = 0; i < n; i++) { u64 x = 0; memcpy(&x, raw + i * es, es); out.push_back(cval(x)); }
        return true;
      }
      case LLVMConstantExprValueKind: {
        LLVMOpcode op = LLVMGetConstOpcode(v);
        std::vector<Val> a, b;
        switch (op) {
          case LLVMGetElementPtr: {
            if (!evalConst(LLVMGetOperand(v, 0), a)) return false;
            u64 base = a[0].lo; LLVMTypeRef et = LLVMGetGEPSourceElementType(v);
            int n = LLVMGetNumOperands(v);
            for (int i = 1; i < n; i++) {
              std::vector<Val> ix; LLVMValueRef o = LLVMGetOperand(v, i); if (!evalConst(o, ix)) return false;
              s64 k = (s64)sx(cu(ix[0]), LLVMGetIntTypeWidth(LLVMTypeOf(o)));
              if (i == 1) base += k * LLVMABISizeOfType(td, et);
              else if (LLVMGetTypeKind(et) == LLVMStructTypeKind) { base += LLVMOffsetOfElement(td, et, (unsigned)k); et = LLVMStructGetTypeAtIndex(et, (unsigned)k); }
              else { et = LLVMGetElementType(et); base += k * LLVMABISizeOfType(td, et); }
            }
            out.push_back(cval(base)); return true;
          }
          case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: case LLVMTrunc: {
            if (!evalConst(LLVMGetOperand(v, 0), a)) return false;
            TypeInfo *ti = type(t); if (ti->s.size() != 1 || a.size() != 1) { unsupWhy = "constexpr cast"; return false; }
            out.push_back(cval(cu(a[0]) & maskw(ti->s[0].w))); return true;
          }
          case LLVMAdd: case LLVMSub: case LLVMXor: {
            if (!evalConst(LLVMGetOperand(v, 0), a) || !evalConst(LLVMGetOperand(v, 1), b)) return false;
            u128 x = cu(a[0]), y = cu(b[0]);
            u128 r = op == LLVMAdd ? x + y : op == LLVMSub ? x - y : x ^ y;
            out.push_back(cval(r & maskw(type(t)->s[0].w))); return true;
          }
          default: { char *s = LLVMPrintValueToString(v); unsupWhy = std::string("constexpr ") + s; return false; }
        }
      }
      default: break;
    }
    char *s = LLVMPrintValueToString(v); unsupWhy = std::string("constant ") + s; 
    // vector splat printed as ConstantInt: <n x iM> splat (iM k)
    if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) {
      const char *p = strstr(s, "splat (");
      if (p) {
        p = strchr(p, '('); p = strchr(p, ' ') + 1; bool neg = *p == '-'; if (neg) p++;
        LLVMTypeRef et = LLVMGetElementType(t);
        if (LLVMGetTypeKind(et) == LLVMIntegerTypeKind) {
          u128 r = 0; if (!strncmp(p, "true", 4)) r = 1; else while (*p >= '0' && *p <= '9') r = r * 10 + (*p++ - '0');
          if (neg) r = 0 - r; unsigned w = LLVMGetIntTypeWidth(et);
          for (unsigned i = 0; i < LLVMGetVectorSize(t); i++) out.push_back(cval(r & maskw(w)));
          return true;
        }
      }
    }
    return false;
  }
  int constIdx(LLVMValueRef v) {
    auto it = cmap.find(v); if (it != cmap.end()) return it->second;
    std::vector<Val> o; if (!evalConst(v, o)) return INT32_MIN;
    int base = (int)cpool.size(); for (auto &x : o) cpool.push_back(x);
    if (o.empty()) cpool.push_back(cval(0));
    return cmap[v] = -1 - base;
  }
  u32 locOf(LLVMValueRef inst) {
    LLVMMetadataRef md = LLVMInstructionGetDebugLoc(inst); if (!md) return 0;
    auto it = locmd.find(md); if (it != locmd.end()) return it->second;
    unsigned line = LLVMDILocationGetLine(md); LLVMMetadataRef sc = LLVMDILocationGetScope(md);
    std::string fn;
    LLVMMetadataRef f = sc ? LLVMDIScopeGetFile(sc) : nullptr;
    if (f) { unsigned l; const char *p = LLVMDIFileGetFilename(f, &l); fn.assign(p, l); if (fn.size() && fn[0] != '/') { const char *d = LLVMDIFileGetDirectory(f, &l); fn = std::string(d, l) + "/" + fn; } }
    u32 &id = locidx[{fn, line}]; if (!id) { id = locs.size(); locs.push_back({fn, line}); }
    return locmd[md] = id;
  }

  // ---- function translation
  struct TR { std::unordered_map<LLVMValueRef, int> reg; std::unordered_map<LLVMBasicBlockRef, u32> bb; };
  bool bad = false;
  int opnd(TR &tr, LLVMValueRef v) {
    auto it = tr.reg.find(v); if (it != tr.reg.end()) return it->second;
    if (LLVMIsConstant(v)) { int i = constIdx(v); if (i == INT32_MIN) { bad = true; return -1; } return i; }
    LLVMValueKind k = LLVMGetValueKind(v);
    if (k == LLVMMetadataAsValueValueKind || k == LLVMInlineAsmValueKind || k == LLVMBasicBlockValueKind) return INT32_MIN;
    bad = true; unsupWhy = "operand"; return -1;
  }
  void translate(Func *F);
};
int builtinByName(const std::string &n);
