void ModuleIR::translate(Func *F) {
  F->translated = true;
  if (F->isdecl) return;
  TR tr; LLVMValueRef f = F->v; int nr = 0;
  for (unsigned i = 0; i < LLVMCountParams(f); i++) {
    LLVMValueRef p = LLVMGetParam(f, i); TypeInfo *ti = type(LLVMTypeOf(p)); tr.reg[p] = nr;
    for (auto &s : ti->s) F->pw.push_back(s.w);
    nr += ti->s.size();
  }
  F->nparams = nr;
  u32 nb = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) {
    tr.bb[b] = nb++;
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      TypeInfo *ti = type(LLVMTypeOf(i));
      if (!ti->s.empty()) { tr.reg[i] = nr; nr += ti->s.size(); }
    }
  }
  F->nregs = nr; F->blocks.resize(nb);
  u32 bi = 0;
  for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b), bi++) {
    Block &B = F->blocks[bi];
    for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) {
      LLVMOpcode op = LLVMGetInstructionOpcode(i);
      TypeInfo *ti = type(LLVMTypeOf(i));
      if (op == LLVMPHI) {
        Phi p; p.dst = tr.reg.count(i) ? tr.reg[i] : -1; p.n = ti->s.size();
        for (unsigned k = 0; k < LLVMCountIncoming(i); k++) {
          bad = false; int o = opnd(tr, LLVMGetIncomingValue(i, k));
          if (bad) fprintf(stderr, "symx: unsupported phi operand in %s: %s\n", F->name.c_str(), unsupWhy.c_str());
          p.in.push_back({tr.bb[LLVMGetIncomingBlock(i, k)], o});
        }
        B.phis.push_back(p); continue;
      }
      Inst I; I.loc = locOf(i); I.n = ti->s.size(); I.w = I.n ? ti->s[0].w : 0; I.ty = ti;
      if (tr.reg.count(i)) I.dst = tr.reg[i];
      bad = false; unsupWhy.clear();
      auto O = [&](unsigned k) { return opnd(tr, LLVMGetOperand(i, k)); };
      auto OT = [&](unsigned k) { return type(LLVMTypeOf(LLVMGetOperand(i, k))); };
      if (LLVMIsAUncondBrInst(i)) { I.op = O_BR; I.t0 = tr.bb[LLVMGetSuccessor(i, 0)]; }
      else if (LLVMIsACondBrInst(i)) { I.op = O_CBR; I.a = opnd(tr, LLVMGetCondition(i)); I.t0 = tr.bb[LLVMGetSuccessor(i, 0)]; I.t1 = tr.bb[LLVMGetSuccessor(i, 1)]; }
      else switch (op) {
        case LLVMBr:
          if (LLVMGetNumSuccessors(i) == 1) { I.op = O_BR; I.t0 = tr.bb[LLVMGetSuccessor(i, 0)]; }
          else { I.op = O_CBR; I.a = opnd(tr, LLVMGetCondition(i)); I.t0 = tr.bb[LLVMGetSuccessor(i, 0)]; I.t1 = tr.bb[LLVMGetSuccessor(i, 1)]; }
          break;
        case LLVMRet: I.op = O_RET; I.n = 0; if (LLVMGetNumOperands(i)) { I.a = O(0); I.n = OT(0)->s.size(); } break;
        case LLVMSwitch: {
          I.op = O_SWITCH; I.a = O(0); I.w = OT(0)->s[0].w; I.t0 = tr.bb[LLVMGetSwitchDefaultDest(i)];
          unsigned ns = LLVMGetNumSuccessors(i);
          for (unsigned k = 1; k < ns; k++) I.cases.push_back({parseInt(LLVMGetSwitchCaseValue(i, k), I.w), tr.bb[LLVMGetSuccessor(i, k)]});
          break;
        }
        case LLVMUnreachable: I.op = O_UNREACHABLE; break;
#define BINOP(L, K) case L: I.op = O_BIN; I.sub = K; I.a = O(0); I.b = O(1); break;
        BINOP(LLVMAdd, B_ADD) BINOP(LLVMSub, B_SUB) BINOP(LLVMMul, B_MUL) BINOP(LLVMUDiv, B_UDIV) BINOP(LLVMSDiv, B_SDIV)
        BINOP(LLVMURem, B_UREM) BINOP(LLVMSRem, B_SREM) BINOP(LLVMShl, B_SHL) BINOP(LLVMLShr, B_LSHR) BINOP(LLVMAShr, B_ASHR)
        BINOP(LLVMAnd, B_AND) BINOP(LLVMOr, B_OR) BINOP(LLVMXor, B_XOR)
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: case LLVMFNeg:
          I.op = O_FBIN; I.sub = op == LLVMFAdd ? 0 : op == LLVMFSub ? 1 : op == LLVMFMul ? 2 : op == LLVMFDiv ? 3 : op == LLVMFRem ? 4 : 5; I.a = O(0); I.b = op == LLVMFNeg ? I.a : O(1); break;
        case LLVMICmp: I.op = O_ICMP; I.sub = LLVMGetICmpPredicate(i); I.a = O(0); I.b = O(1); I.w2 = OT(0)->s[0].w; break;
        case LLVMFCmp: I.op = O_FCMP; I.sub = LLVMGetFCmpPredicate(i); I.a = O(0); I.b = O(1); I.w2 = OT(0)->s[0].w; break;
        case LLVMTrunc: case LLVMZExt: case LLVMSExt: case LLVMPtrToInt: case LLVMIntToPtr:
          I.op = O_CAST; I.sub = op == LLVMSExt ? 1 : 0; I.a = O(0); I.w2 = OT(0)->s[0].w; break;
        case LLVMBitCast: case LLVMAddrSpaceCast: I.op = O_BITCAST; I.a = O(0); I.w2 = OT(0)->s[0].w; I.imm = OT(0)->s.size(); break;
        case LLVMFPToUI: case LLVMFPToSI: case LLVMUIToFP: case LLVMSIToFP: case LLVMFPTrunc: case LLVMFPExt:
          I.op = O_FCAST; I.sub = op == LLVMFPToUI ? 0 : op == LLVMFPToSI ? 1 : op == LLVMUIToFP ? 2 : op == LLVMSIToFP ? 3 : op == LLVMFPTrunc ? 4 : 5; I.a = O(0); I.w2 = OT(0)->s[0].w; break;
        case LLVMSelect: I.op = O_SELECT; I.a = O(0); I.b = O(1); I.c = O(2); I.imm = OT(0)->s.size(); break;
        case LLVMAlloca: {
          I.op = O_ALLOCA; I.imm = LLVMABISizeOfType(td, LLVMGetAllocatedType(i)); I.a = O(0); break;
        }
        case LLVMLoad: I.op = O_LOAD; I.a = O(0); if (ti->packedvec && !packedOk(ti)) { bad = true; unsupWhy = "packed vec load"; } break;
        case LLVMStore: I.op = O_STORE; I.a = O(1); I.b = O(0); I.ty = OT(0); I.n = I.ty->s.size(); if (I.ty->packedvec && !packedOk(I.ty)) { bad = true; unsupWhy = "packed vec store"; } break;
        case LLVMGetElementPtr: {
          I.op = O_GEP; I.a = O(0); I.imm = 0; LLVMTypeRef et = LLVMGetGEPSourceElementType(i);
          if (I.n != 1) { bad = true; unsupWhy = "vector gep"; break; }
          for (int k = 1; k < LLVMGetNumOperands(i); k++) {
            LLVMValueRef o = LLVMGetOperand(i, k); s64 sc = 0;
            if (k > 1 && LLVMGetTypeKind(et) == LLVMStructTypeKind) { unsigned ix = (unsigned)LLVMConstIntGetZExtValue(o); I.imm += LLVMOffsetOfElement(td, et, ix); et = LLVMStructGetTypeAtIndex(et, ix); continue; }
            if (k > 1) et = LLVMGetElementType(et);
            sc = LLVMABISizeOfType(td, et);
            unsigned w = LLVMGetIntTypeWidth(LLVMTypeOf(o));
            if (LLVMIsAConstantInt(o)) { I.imm += (s64)sx(parseInt(o, w), w) * sc; continue; }
            I.gi.push_back({opnd(tr, o), (u16)w, sc});
          }
          break;
        }
        case LLVMExtractValue: {
          I.op = O_COPY; LLVMTypeRef t = LLVMTypeOf(LLVMGetOperand(i, 0)); int off = 0; unsigned ni = LLVMGetNumIndices(i); const unsigned *ix = LLVMGetIndices(i);
          for (unsigned k = 0; k < ni; k++) {
            if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[k]; j++) off += type(LLVMStructGetTypeAtIndex(t, j))->s.size(); t = LLVMStructGetTypeAtIndex(t, ix[k]); }
            else { t = LLVMGetElementType(t); off += ix[k] * type(t)->s.size(); }
          }
          int o = O(0); I.a = o >= 0 ? o + off : o - off; break;
        }
        case LLVMInsertValue: {
          I.op = O_INSELT; I.sub = 1; LLVMTypeRef t = LLVMTypeOf(LLVMGetOperand(i, 0)); int off = 0; unsigned ni = LLVMGetNumIndices(i); const unsigned *ix = LLVMGetIndices(i);
          for (unsigned k = 0; k < ni; k++) {
            if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { for (unsigned j = 0; j < ix[k]; j++) off += type(LLVMStructGetTypeAtIndex(t, j))->s.size(); t = LLVMStructGetTypeAtIndex(t, ix[k]); }
            else { t = LLVMGetElementType(t); off += ix[k] * type(t)->s.size(); }
          }
          I.a = O(0); I.b = O(1); I.imm = off; I.c = OT(1)->s.size(); break;
        }
        case LLVMExtractElement: I.op = O_EXTRELT; I.a = O(0); I.b = O(1); I.imm = OT(0)->s.size(); I.w2 = OT(1)->s[0].w; break;
        case LLVMInsertElement: I.op = O_INSELT; I.sub = 0; I.a = O(0); I.b = O(1); I.c = O(2); I.w2 = OT(2)->s[0].w; break;
        case LLVMShuffleVector: {
          I.op = O_SHUF; I.a = O(0); I.b = O(1); I.imm = OT(0)->s.size();
          unsigned n = LLVMGetNumMaskElements(i); for (unsigned k = 0; k < n; k++) I.xs.push_back(LLVMGetMaskValue(i, k));
          break;
        }
        case LLVMFreeze: I.op = O_COPY; I.a = O(0); break;
        case LLVMFence: I.op = O_FENCE; break;
        case LLVMAtomicCmpXchg: I.op = O_CMPXCHG; I.a = O(0); I.b = O(1); I.c = O(2); I.w = OT(1)->s[0].w; break;
        case LLVMAtomicRMW: I.op = O_RMW; I.sub = LLVMGetAtomicRMWBinOp(i); I.a = O(0); I.b = O(1); break;
        case LLVMCall: case LLVMInvoke: {
          I.op = O_CALL; LLVMValueRef cv = LLVMGetCalledValue(i);
          if (op == LLVMInvoke) { I.t0 = tr.bb[LLVMGetNormalDest(i)] + 1; }
          unsigned na = LLVMGetNumArgOperands(i);
          if (LLVMIsAInlineAsm(cv)) {
            size_t l; const char *s = LLVMGetInlineAsmAsmString(cv, &l); std::string as(s, l);
            if (as.empty() || as.find("pause") != std::string::npos) { I.op = O_FENCE; if (I.n) { bad = true; unsupWhy = "asm barrier with outputs"; if (na == 1) { bad = false; I.op = O_COPY; I.a = O(0); } } }
            else if (as.find("cpuid") != std::string::npos) { I.op = O_UNSUP; I.sub = 1; }
            else { bad = true; unsupWhy = "inline asm: " + as; }
            break;
          }
          if (LLVMIsAFunction(cv)) {
            Func *G = fmap[cv]; I.callee = G;
            const std::string &nm = G->name;
            if (nm.compare(0, 5, "llvm.") == 0) {
              I.builtin = builtinByName(nm);
              if (I.builtin == -2) { I.op = O_FENCE; break; } // ignorable
              if (I.builtin == -1) { bad = true; unsupWhy = "intrinsic " + nm; }
            } else I.builtin = G->builtin;
          } else if (LLVMGetValueKind(cv) == LLVMGlobalAliasValueKind && LLVMIsAFunction(LLVMAliasGetAliasee(cv))) {
            I.callee = fmap[LLVMAliasGetAliasee(cv)]; I.builtin = I.callee->builtin;
          } else I.a = opnd(tr, cv);
          if (I.builtin == -2) { I.op = O_FENCE; break; }
          for (unsigned k = 0; k < na; k++) {
            LLVMValueRef ao = LLVMGetOperand(i, k); TypeInfo *at = type(LLVMTypeOf(ao));
            if (at->s.empty()) continue;
            int o = opnd(tr, ao);
            if (o == INT32_MIN) continue;
            for (size_t s = 0; s < at->s.size(); s++) { I.xs.push_back(o >= 0 ? o + (int)s : o - (int)s); I.xw.push_back(at->s[s].w); }
          }
          break;
        }
        default: bad = true; { char *s = LLVMPrintValueToString(i); unsupWhy = s; }
      }
      if (bad) { I.op = O_UNSUP; I.sub = 0; I.note = strdup((unsupWhy.empty() ? "?" : unsupWhy).c_str()); }
      B.ins.push_back(std::move(I));
    }
  }
}
