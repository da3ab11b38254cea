#include <llvm-c/BitWriter.h>
#include <llvm-c/DebugInfo.h>
// Insert a call to sx_atomic_hook(address, kind) before every atomic instruction (kind: 0 load, 1 store, 2 read-modify-write).
// Both the executor and the native binary are built from the result, so that both have the same preemption points.
static int instrument(const char *in, const char *out) {
  LLVMContextRef C = LLVMContextCreate(); LLVMMemoryBufferRef mb; char *err = nullptr; LLVMModuleRef m;
  if (LLVMCreateMemoryBufferWithContentsOfFile(in, &mb, &err)) { fprintf(stderr, "%s\n", err); return 2; }
  if (LLVMParseBitcodeInContext2(C, mb, &m)) { fprintf(stderr, "cannot parse %s\n", in); return 2; }
  LLVMValueRef hook = LLVMGetNamedFunction(m, "sx_atomic_hook"); if (!hook) { fprintf(stderr, "no hook\n"); return 2; }
  LLVMTypeRef ft = LLVMGlobalGetValueType(hook); LLVMBuilderRef B = LLVMCreateBuilderInContext(C); unsigned n = 0;
  LLVMTypeRef i32 = LLVMInt32TypeInContext(C);
  for (LLVMValueRef f = LLVMGetFirstFunction(m); f; f = LLVMGetNextFunction(f)) {
    if (f == hook) continue;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b))
      for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
        int k = -1; LLVMValueRef p = nullptr;
        switch (LLVMGetInstructionOpcode(i)) {
          case LLVMLoad: if (LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic) { k = 0; p = LLVMGetOperand(i, 0); } break;
          case LLVMStore: if (LLVMGetOrdering(i) != LLVMAtomicOrderingNotAtomic) { k = 1; p = LLVMGetOperand(i, 1); } break;
          case LLVMAtomicRMW: case LLVMAtomicCmpXchg: k = 2; p = LLVMGetOperand(i, 0); break;
          default: break;
        }
        if (k < 0) continue;
        LLVMPositionBuilderBefore(B, i); LLVMMetadataRef dl = LLVMInstructionGetDebugLoc(i), sp = LLVMGetSubprogram(f);
        if (!dl && sp) dl = LLVMDIBuilderCreateDebugLocation(C, 0, 0, sp, nullptr);
        LLVMSetCurrentDebugLocation2(B, dl);
        LLVMValueRef a[2] = {p, LLVMConstInt(i32, (unsigned)k, 0)}; LLVMBuildCall2(B, ft, hook, a, 2, ""); n++;
      }
  }
  if (LLVMWriteBitcodeToFile(m, out)) return 2;
  fprintf(stderr, "%u atomic instructions\n", n); return 0;
}
