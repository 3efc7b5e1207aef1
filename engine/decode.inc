// ---- decoding LLVM functions into a compact register form (included inside struct Engine)
struct DecCtx {
    Fn* f;
    std::unordered_map<const Value*, int> slot;
    std::unordered_map<const Value*, int> cslot;
    std::unordered_map<const BasicBlock*, int> bstart;
};
int opnd(DecCtx& D, const Value* V) {
    auto it = D.slot.find(V);
    if (it != D.slot.end()) return it->second;
    auto ct = D.cslot.find(V);
    if (ct != D.cslot.end()) return ct->second;
    std::vector<Val> vals;
    if (auto* C = dyn_cast<Constant>(V)) constVals(C, vals);
    else vals.push_back(CV(0)); // metadata etc.
    int idx = ~(int)D.f->consts.size();
    // constants are stored forward; lanes are read at idx - lane
    for (auto& v : vals) D.f->consts.push_back(v);
    D.cslot[V] = idx;
    return idx;
}
static const char* fileOf(const std::string& s) { return s.c_str(); }

void decode(Fn* f) {
    f->decoded = true;
    Function* F = f->F;
    DecCtx D;
    D.f = f;
    int n = 0;
    for (auto& A : F->args()) { D.slot[&A] = n; f->argSlot.push_back(n); n += std::max(1u, lanesOf(A.getType())); }
    for (auto& B : *F)
        for (auto& I : B)
            if (!I.getType()->isVoidTy()) { D.slot[&I] = n; n += std::max(1u, lanesOf(I.getType())); }
    f->nregs = n;
    // count instructions to find block starts
    int pc = 0;
    for (auto& B : *F) {
        D.bstart[&B] = pc;
        for (auto& I : B) if (!isa<PHINode>(I) && !skip(I)) pc++;
    }
    auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
        Edge e;
        e.target = D.bstart[to];
        for (auto& I : *to) {
            auto* ph = dyn_cast<PHINode>(&I);
            if (!ph) break;
            const Value* in = ph->getIncomingValueForBlock(from);
            e.moves.push_back({ D.slot[ph], opnd(D, in), (int)lanesOf(ph->getType()), lanesOf(ph->getType()) == 1 ? flat(ph->getType())->l[0].w : 0 });
        }
        f->edges.push_back(std::move(e));
        return (int)f->edges.size() - 1;
    };
    for (auto& B : *F) {
        for (auto& I : B) {
            if (isa<PHINode>(I) || skip(I)) continue;
            f->code.emplace_back();
            Inst& x = f->code.back();
            x.I = &I;
            if (!I.getType()->isVoidTy()) { x.dst = D.slot[&I]; x.n = (u16)lanesOf(I.getType()); }
            auto width = [&](Type* T) -> unsigned { Flat* fl = flat(T); return fl->l.empty() ? 0 : fl->l[0].w; };
            if (!I.getType()->isVoidTy()) x.w = (u16)width(I.getType());
            switch (I.getOpcode()) {
            case Instruction::Add: x.sub = KAdd; goto bin;
            case Instruction::Sub: x.sub = KSub; goto bin;
            case Instruction::Mul: x.sub = KMul; goto bin;
            case Instruction::UDiv: x.sub = KUDiv; goto bin;
            case Instruction::SDiv: x.sub = KSDiv; goto bin;
            case Instruction::URem: x.sub = KURem; goto bin;
            case Instruction::SRem: x.sub = KSRem; goto bin;
            case Instruction::And: x.sub = KAnd; goto bin;
            case Instruction::Or: x.sub = KOr; goto bin;
            case Instruction::Xor: x.sub = KXor; goto bin;
            case Instruction::Shl: x.sub = KShl; goto bin;
            case Instruction::LShr: x.sub = KLShr; goto bin;
            case Instruction::AShr: x.sub = KAShr; goto bin;
            bin:
                x.op = OpBin; x.a = opnd(D, I.getOperand(0)); x.b = opnd(D, I.getOperand(1));
                break;
            case Instruction::FAdd: x.sub = KFAdd; goto fbin;
            case Instruction::FSub: x.sub = KFSub; goto fbin;
            case Instruction::FMul: x.sub = KFMul; goto fbin;
            case Instruction::FDiv: x.sub = KFDiv; goto fbin;
            fbin:
                x.op = OpFBin; x.a = opnd(D, I.getOperand(0)); x.b = opnd(D, I.getOperand(1));
                if (x.w > 64) x.op = OpUnsupported;
                break;
            case Instruction::FNeg: x.op = OpFNeg; x.a = opnd(D, I.getOperand(0)); break;
            case Instruction::FCmp: {
                x.op = OpFCmp; x.sub = (u16)cast<FCmpInst>(I).getPredicate(); x.a = opnd(D, I.getOperand(0)); x.b = opnd(D, I.getOperand(1));
                x.w2 = (u16)width(I.getOperand(0)->getType());
                if (x.w2 > 64) x.op = OpUnsupported;
                break;
            }
            case Instruction::FPExt: case Instruction::FPTrunc: x.sub = KFToF; goto fconv;
            case Instruction::FPToSI: x.sub = KFToSI; goto fconv;
            case Instruction::FPToUI: x.sub = KFToUI; goto fconv;
            case Instruction::SIToFP: x.sub = KSIToF; goto fconv;
            case Instruction::UIToFP: x.sub = KUIToF; goto fconv;
            fconv:
                x.op = OpFConv; x.a = opnd(D, I.getOperand(0)); x.w2 = (u16)width(I.getOperand(0)->getType());
                if (x.w2 > 64 || x.w > 64) x.op = OpUnsupported;
                break;
            case Instruction::ICmp:
                x.op = OpICmp; x.sub = (u16)cast<ICmpInst>(I).getPredicate(); x.a = opnd(D, I.getOperand(0)); x.b = opnd(D, I.getOperand(1));
                x.w2 = (u16)width(I.getOperand(0)->getType());
                break;
            case Instruction::Trunc: x.op = OpTrunc; goto cst;
            case Instruction::ZExt: x.op = OpZExt; goto cst;
            case Instruction::SExt: x.op = OpSExt; goto cst;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned sw = width(I.getOperand(0)->getType());
                x.op = x.w < sw ? OpTrunc : x.w > sw ? OpZExt : OpCopy;
            }
            cst:
                x.a = opnd(D, I.getOperand(0)); x.w2 = (u16)width(I.getOperand(0)->getType());
                break;
            case Instruction::BitCast: case Instruction::AddrSpaceCast: {
                x.a = opnd(D, I.getOperand(0)); x.w2 = (u16)width(I.getOperand(0)->getType());
                x.imm = lanesOf(I.getOperand(0)->getType());
                x.op = ((unsigned)x.imm == x.n && x.w == x.w2) ? OpCopy : OpBitcastLanes;
                break;
            }
            case Instruction::Freeze: x.op = OpCopy; x.a = opnd(D, I.getOperand(0)); break;
            case Instruction::Select:
                x.op = OpSelect; x.a = opnd(D, I.getOperand(0)); x.b = opnd(D, I.getOperand(1)); x.c = opnd(D, I.getOperand(2));
                x.flag = I.getOperand(0)->getType()->isVectorTy();
                x.ty = flat(I.getType());
                break;
            case Instruction::Load: {
                auto& L = cast<LoadInst>(I);
                x.op = OpLoad; x.a = opnd(D, L.getPointerOperand()); x.ty = flat(L.getType());
                x.sub = L.isAtomic() ? (u16)L.getOrdering() : 0;
                if (!x.ty->ok) x.op = OpUnsupported;
                break;
            }
            case Instruction::Store: {
                auto& S = cast<StoreInst>(I);
                x.op = OpStore; x.a = opnd(D, S.getPointerOperand()); x.b = opnd(D, S.getValueOperand()); x.ty = flat(S.getValueOperand()->getType());
                x.sub = S.isAtomic() ? (u16)S.getOrdering() : 0;
                if (!x.ty->ok) x.op = OpUnsupported;
                break;
            }
            case Instruction::GetElementPtr: {
                auto& G = cast<GetElementPtrInst>(I);
                if (G.getType()->isVectorTy()) { x.op = OpUnsupported; break; }
                x.op = OpGEP; x.a = opnd(D, G.getPointerOperand());
                for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                    Value* V = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) {
                        x.imm += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(V)->getZExtValue());
                    } else {
                        u64 es = it.getSequentialElementStride(*DL);
                        if (auto* ci = dyn_cast<ConstantInt>(V)) x.imm += ci->getSExtValue() * (i64)es;
                        else x.gep.push_back({ opnd(D, V), es, V->getType()->getIntegerBitWidth() });
                    }
                }
                break;
            }
            case Instruction::Br: {
                auto& Br = cast<BranchInst>(I);
                if (Br.isUnconditional()) { x.op = OpBr; int e = mkEdge(&B, Br.getSuccessor(0)); f->code.back().e1 = e; }
                else { x.op = OpCondBr; x.a = opnd(D, Br.getCondition()); x.e1 = mkEdge(&B, Br.getSuccessor(0)); x.e2 = mkEdge(&B, Br.getSuccessor(1)); x.tri = predicable(Br); }
                break;
            }
            case Instruction::Switch: {
                auto& S = cast<SwitchInst>(I);
                x.op = OpSwitch; x.a = opnd(D, S.getCondition()); x.w2 = (u16)S.getCondition()->getType()->getIntegerBitWidth();
                x.e1 = mkEdge(&B, S.getDefaultDest());
                for (auto& c : S.cases()) x.sw.push_back({ c.getCaseValue()->getZExtValue(), mkEdge(&B, c.getCaseSuccessor()) });
                break;
            }
            case Instruction::Ret: {
                x.op = OpRet;
                Value* rv = cast<ReturnInst>(I).getReturnValue();
                if (rv) { x.a = opnd(D, rv); x.n = (u16)lanesOf(rv->getType()); } else x.n = 0;
                break;
            }
            case Instruction::Invoke: case Instruction::Call: {
                auto& C = cast<CallBase>(I);
                x.op = OpCall;
                if (auto* inv = dyn_cast<InvokeInst>(&I)) { x.e1 = mkEdge(&B, inv->getNormalDest()); x.e2 = mkEdge(&B, inv->getUnwindDest()); }
                if (C.isInlineAsm()) {
                    // only empty / barrier-like asm is expected
                    x.op = cast<InlineAsm>(C.getCalledOperand())->getAsmString().empty() ? OpFence : OpUnsupported;
                    break;
                }
                for (auto& A : C.args()) {
                    x.args.push_back(opnd(D, A.get()));
                    Flat* fl = A->getType()->isMetadataTy() ? nullptr : flat(A->getType());
                    x.argn.push_back(fl ? (u16)fl->l.size() : 0);
                    x.argw.push_back(fl && !fl->l.empty() ? (u16)fl->l[0].w : 0);
                }
                Value* cv = C.getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                if (auto* CF = dyn_cast<Function>(cv)) {
                    x.nat = findNative(CF, x);
                    if (!x.nat) x.callee = fnOf(CF);
                    x.imm = x.nat ? x.imm : 0;
                } else { x.a = opnd(D, cv); x.callee = nullptr; }
                break;
            }
            case Instruction::Alloca: {
                auto& A = cast<AllocaInst>(I);
                x.op = OpAlloca; x.imm = (i64)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue();
                x.a = opnd(D, A.getArraySize()); x.w2 = (u16)A.getArraySize()->getType()->getIntegerBitWidth();
                break;
            }
            case Instruction::ExtractElement:
                x.op = OpExtractElt; x.a = opnd(D, I.getOperand(0)); x.b = opnd(D, I.getOperand(1));
                x.imm = lanesOf(I.getOperand(0)->getType()); x.w2 = (u16)width(I.getOperand(1)->getType());
                break;
            case Instruction::InsertElement:
                x.op = OpInsertElt; x.a = opnd(D, I.getOperand(0)); x.b = opnd(D, I.getOperand(1)); x.c = opnd(D, I.getOperand(2));
                x.w2 = (u16)width(I.getOperand(2)->getType());
                break;
            case Instruction::ShuffleVector: {
                auto& S = cast<ShuffleVectorInst>(I);
                x.op = OpShuffle; x.a = opnd(D, S.getOperand(0)); x.b = opnd(D, S.getOperand(1));
                x.imm = lanesOf(S.getOperand(0)->getType());
                for (int m : S.getShuffleMask()) x.mask.push_back(m);
                break;
            }
            case Instruction::ExtractValue: case Instruction::InsertValue: {
                ArrayRef<unsigned> idx = isa<ExtractValueInst>(I) ? cast<ExtractValueInst>(I).getIndices() : cast<InsertValueInst>(I).getIndices();
                Type* T = I.getOperand(0)->getType();
                unsigned off = 0;
                for (unsigned i : idx) {
                    if (auto* st = dyn_cast<StructType>(T)) {
                        for (unsigned k = 0; k < i; k++) off += lanesOf(st->getElementType(k));
                        T = st->getElementType(i);
                    } else { T = cast<ArrayType>(T)->getElementType(); off += i * lanesOf(T); }
                }
                x.imm = off;
                x.a = opnd(D, I.getOperand(0));
                if (isa<ExtractValueInst>(I)) x.op = OpExtractVal;
                else { x.op = OpInsertVal; x.b = opnd(D, I.getOperand(1)); x.w2 = (u16)lanesOf(I.getOperand(1)->getType()); }
                break;
            }
            case Instruction::Unreachable: x.op = OpUnreachable; break;
            case Instruction::LandingPad: x.op = OpLandingPad; break;
            case Instruction::Resume: x.op = OpResume; x.a = opnd(D, I.getOperand(0)); break;
            case Instruction::AtomicRMW: {
                auto& A = cast<AtomicRMWInst>(I);
                x.op = OpRMW; x.a = opnd(D, A.getPointerOperand()); x.b = opnd(D, A.getValOperand()); x.sub = (u16)A.getOperation();
                x.imm = (i64)A.getOrdering();
                x.ty = flat(A.getType());
                break;
            }
            case Instruction::AtomicCmpXchg: {
                auto& A = cast<AtomicCmpXchgInst>(I);
                x.op = OpCmpXchg; x.a = opnd(D, A.getPointerOperand()); x.b = opnd(D, A.getCompareOperand()); x.c = opnd(D, A.getNewValOperand());
                x.imm = (i64)A.getSuccessOrdering(); x.e1 = -1;
                x.w = (u16)width(A.getCompareOperand()->getType());
                x.sub = (u16)A.getFailureOrdering();
                break;
            }
            case Instruction::Fence: x.op = OpFence; break;
            default: x.op = OpUnsupported; break;
            }
        }
    }
    // edges were created while code vector was growing: nothing else to fix up
}
u8 predicable(const BranchInst& Br) {
    for (int k = 0; k < 2; k++) {
        const BasicBlock *T = Br.getSuccessor(k), *J = Br.getSuccessor(1 - k);
        if (T == J || T->getSinglePredecessor() != Br.getParent() || isa<PHINode>(T->front())) continue;
        auto* tb = dyn_cast<BranchInst>(T->getTerminator());
        if (!tb || !tb->isUnconditional() || tb->getSuccessor(0) != J) continue;
        bool ok = true; int n = 0;
        for (auto& I : *T) {
            if (&I == tb || skip(I)) continue;
            if (++n > 16) ok = false;
            switch (I.getOpcode()) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
            case Instruction::ICmp: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::Select: case Instruction::GetElementPtr: break;
            case Instruction::Load: if (!cast<LoadInst>(I).isSimple() || !I.getType()->isIntegerTy()) ok = false; break;
            case Instruction::Store: if (!cast<StoreInst>(I).isSimple() || !cast<StoreInst>(I).getValueOperand()->getType()->isIntegerTy()) ok = false; break;
            default: ok = false;
            }
            if (I.getType()->isVectorTy()) ok = false;
        }
        for (auto& I : *J) { if (!isa<PHINode>(I)) break; if (!I.getType()->isIntegerTy()) ok = false; }
        if (ok) return (u8)(k + 1);
    }
    return 0;
}
bool skip(const Instruction& I) {
    if (isa<DbgInfoIntrinsic>(I)) return true;
    if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
        switch (II->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::sideeffect:
        case Intrinsic::invariant_end:
            return true;
        default: break;
        }
    }
    return false;
}
