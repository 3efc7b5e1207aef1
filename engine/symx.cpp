// symx: path-wise symbolic execution of LLVM IR with an SMT back end.
//   symx [options] module.bc
// Memory safety, harness assertions, termination, data races and deadlocks are checked on every path;
// every feasible path within the harness bounds is explored and each verdict comes from the solver.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <deque>
#include <set>
#include <map>
#include <functional>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

using namespace llvm;
ExprPool P;
static Solver* SLV;

// ------------------------------------------------------------------ options
struct Opts {
    std::string file, entry = "sym_main", out;
    double      timeout = 600;
    u64         maxInst = 20000000; // per path
    int         jobs = 1;
    int         maxViol = 1;
    int         readLimit = 64, writeLimit = 64;
    bool        forkRead = true, forkWrite = true;
    bool        races = true;
    int         verbose = 0;
    u64         maxPaths = 0;
    std::vector<i64> params;
    double      memGB = 3.5;
    bool        schedUnlock = false;
    int         preempt = -1; // bound on preemptive switches per path (-1: none)
    bool        merge = false; // predicate small branch bodies instead of splitting the path
} O;

// ------------------------------------------------------------------ values
struct Val { u64 c; Expr* e; };
static inline Val CV(u64 c) { return { c, nullptr }; }
static inline Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
static inline Val fromE(Expr* e) {
    if (e->k == KConst && e->w <= 64) return { (u64)e->cv, nullptr };
    return { 0, e };
}
static inline Val mkC(u128 v, unsigned w) {
    if (w <= 64) return { (u64)(v & maskw(w)), nullptr };
    return { 0, P.cst(v, w) };
}

// ------------------------------------------------------------------ memory
struct Cell { Expr* e; u32 idx; };
struct Shadow { u32 wclk; int16_t wtid; u32 rclk[4]; };
enum OKind : u8 { OGlobal, OConst, OHeapNew, OHeapNewArr, OHeapMalloc, OStack, OExc };
struct Obj {
    int   rc = 0;
    u64   base = 0, size = 0;
    OKind kind = OGlobal;
    bool  freed = false;
    u64   align = 0;
    std::vector<u8>     b;
    std::vector<Cell>   s;
    std::vector<Shadow> sh;
};
struct ObjRef {
    Obj* p = nullptr;
    ObjRef() {}
    ObjRef(Obj* o) : p(o) { if (p) p->rc++; }
    ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
    ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjRef& operator=(ObjRef o) { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
static const u64 GBASE = 0x100000000000ull, HBASE = 0x200000000000ull, SBASE = 0x300000000000ull, FBASE = 0x0f0000000000ull;
static const unsigned SLOT = 20;
static const u64 SLOTOFF = 0x1000; // objects start at slot + SLOTOFF

// ------------------------------------------------------------------ decoded code
enum Op : u16 {
    OpBin, OpICmp, OpTrunc, OpZExt, OpSExt, OpCopy, OpSelect, OpLoad, OpStore, OpGEP, OpBr, OpCondBr, OpSwitch, OpRet, OpCall,
    OpAlloca, OpExtractElt, OpInsertElt, OpShuffle, OpExtractVal, OpInsertVal, OpUnreachable, OpLandingPad, OpResume,
    OpRMW, OpCmpXchg, OpFence, OpFBin, OpFCmp, OpFNeg, OpFConv, OpBitcastLanes, OpUnsupported
};
struct Lane { unsigned w; u64 off; };
struct Flat { std::vector<Lane> l; u64 size; bool ok = true; bool packedBits = false; };
struct Move { int dst, src, n; unsigned w; };
struct Edge { int target; std::vector<Move> moves; };
struct GepIdx { int op; u64 scale; unsigned w; };
struct Fn;
struct Native;
struct Inst {
    Op   op;
    u16  sub = 0;
    u16  w = 0, w2 = 0;
    u16  n = 1;
    bool cov = false;
    bool flag = false;
    int  dst = -1;
    int  a = 0, b = 0, c = 0;
    i64  imm = 0;
    int  e1 = -1, e2 = -1;        // edges
    u8   tri = 0;                 // CondBr: 1/2 = the taken/untaken successor is a small predicable body that rejoins the other
    Flat* ty = nullptr;
    std::vector<GepIdx>  gep;
    std::vector<int>     args;     // operand per argument (first lane)
    std::vector<u16>     argn;     // lanes per argument
    std::vector<u16>     argw;
    std::vector<std::pair<u64, int>> sw;
    std::vector<int>     mask;
    Fn*  callee = nullptr;
    int (*nat)(struct Engine&, struct State&, Inst&) = nullptr;
    const Instruction* I = nullptr;
};
struct Fn {
    Function* F = nullptr;
    bool decoded = false;
    int  nregs = 0;
    std::vector<Inst> code;
    std::vector<Val>  consts;
    std::vector<Edge> edges;
    std::vector<int>  argSlot;
    int  entry = 0;
    u64  calls = 0;
};

struct Frame { Fn* fn; int pc; int base; int stackMark; };
typedef std::vector<u32> VC;
struct ExcInfo { u64 ptr; u64 ti; u64 dtor; int handlers; bool rethrown; };
enum TStat { TRun, TBlockMutex, TBlockJoin, TDone };
struct Thread {
    std::vector<Frame> fr;
    std::vector<Val>   regs;
    std::vector<ObjRef> stk;
    TStat st = TRun;
    u64   waitOn = 0; bool waitShared = false;
    VC    vc;
    std::vector<u64> caught;   // caught exception stack
    u64   unwinding = 0;
    bool  schedDone = false;   // scheduling decision already taken for the current instruction
};
struct MutexSt { int owner = -1; std::vector<int> readers; VC rel; VC rrel; };
struct AtomSt { VC rel; };

struct State {
    std::vector<Thread> th;
    int  cur = 0;
    std::vector<ObjRef> heap;
    std::vector<ObjRef> glob; // by global index
    std::vector<Expr*>  cons;
    std::shared_ptr<Model> model;
    std::vector<u32>    syms; // symbols created on this path, in order
    std::unordered_map<Expr*, u64> known;    // terms with a value fixed by the path condition
    std::unordered_map<Expr*, Expr*> subst; // term -> older equal term
    std::map<u64, MutexSt> mtx;
    std::map<u64, AtomSt>  atoms;
    std::map<u64, ExcInfo> excs;
    u64  insts = 0;
    u64  live = 0; // live heap blocks
    std::vector<std::string> covers;
    u64  lastTime = 0; Expr* lastTimeE = nullptr;
    int  depth = 0;
    int  preempts = 0;
    bool mt() const { return th.size() > 1; }
};

enum { R_DONE, R_NOADV, R_DEAD };

struct PathDead {};     // path ended silently (infeasible / assume)

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, u64>> vals; std::vector<unsigned> widths; };

struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    std::unordered_map<Function*, Fn*> fns;
    std::vector<Fn*> fnByIdx;
    std::unordered_map<const GlobalVariable*, int> gidx;
    std::vector<const GlobalVariable*> gvars;
    std::unordered_map<Type*, Flat*> flats;
    std::unordered_map<u64, u64> typeinfoBase; // derived->base for external std exceptions
    std::unordered_map<u64, int> typeIds;
    std::deque<State*> work;
    std::map<std::pair<u32, std::string>, u32> symTab; // (position, name/w) -> symbol
    u64 uidCtr = 1;
    // statistics
    u64 paths = 0, pathsOk = 0, pathsAssume = 0, insts = 0, forks = 0, unsup = 0, limits = 0, asserts = 0, assertQ = 0;
    std::vector<Violation> viol, witness; // witness: inputs of a few completed paths
    std::map<std::string, u64> covers;
    std::map<std::string, u64> unsupMsgs;
    double t0;
    bool timedOut = false;
    u64 maxLive = 0;

    // ---------------------------------------------------------------- types
    Flat* flat(Type* T) {
        auto it = flats.find(T);
        if (it != flats.end()) return it->second;
        Flat* f = new Flat();
        flats[T] = f;
        f->size = T->isSized() ? DL->getTypeStoreSize(T).getFixedValue() : 0;
        std::function<void(Type*, u64)> rec = [&](Type* t, u64 off) {
            if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 128) f->ok = false; f->l.push_back({ w, off }); }
            else if (t->isPointerTy()) f->l.push_back({ 64, off });
            else if (t->isFloatTy()) f->l.push_back({ 32, off });
            else if (t->isDoubleTy()) f->l.push_back({ 64, off });
            else if (auto* s = dyn_cast<StructType>(t)) {
                auto* sl = DL->getStructLayout(s);
                for (unsigned i = 0; i < s->getNumElements(); i++) rec(s->getElementType(i), off + sl->getElementOffset(i));
            } else if (auto* a = dyn_cast<ArrayType>(t)) {
                u64 es = DL->getTypeAllocSize(a->getElementType());
                if (a->getNumElements() > 4096) { f->ok = false; return; }
                for (u64 i = 0; i < a->getNumElements(); i++) rec(a->getElementType(), off + i * es);
            } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
                Type* et = v->getElementType();
                unsigned bw = et->isPointerTy() ? 64 : et->getPrimitiveSizeInBits();
                if (bw % 8) f->packedBits = true;
                for (unsigned i = 0; i < v->getNumElements(); i++)
                    f->l.push_back({ bw, bw % 8 ? off : off + (u64)i * bw / 8 });
            } else if (t->isX86_FP80Ty()) { f->l.push_back({ 80, off }); }
            else if (t->isVoidTy() || t->isMetadataTy() || t->isTokenTy() || t->isLabelTy()) {}
            else f->ok = false;
        };
        rec(T, 0);
        return f;
    }
    unsigned lanesOf(Type* T) { return (unsigned)flat(T)->l.size(); }

    // ---------------------------------------------------------------- globals
    u64 gaddr(const GlobalValue* G) {
        if (auto* F = dyn_cast<Function>(G)) {
            Fn* f = fnOf(const_cast<Function*>(F));
            for (size_t i = 0; i < fnByIdx.size(); i++) (void)i;
            return FBASE + (u64)fnIdx[f] * 16;
        }
        if (auto* A = dyn_cast<GlobalAlias>(G)) {
            if (auto* g = dyn_cast<GlobalValue>(A->getAliasee()->stripPointerCasts())) return gaddr(g);
        }
        auto* V = dyn_cast<GlobalVariable>(G);
        if (!V) { errs() << "unsupported global " << G->getName() << "\n"; exit(3); }
        return GBASE + ((u64)gidx[V] << SLOT) + SLOTOFF;
    }
    std::unordered_map<Fn*, int> fnIdx;
    Fn* fnOf(Function* F) {
        auto& f = fns[F];
        if (!f) { f = new Fn(); f->F = F; fnIdx[f] = (int)fnByIdx.size(); fnByIdx.push_back(f); }
        return f;
    }

    void constVals(const Constant* C, std::vector<Val>& out) {
        Flat* f = flat(C->getType());
        if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
            for (auto& l : f->l) out.push_back(mkC(0, l.w));
            return;
        }
        if (auto* I = dyn_cast<ConstantInt>(C)) {
            const APInt& v = I->getValue();
            if (v.getBitWidth() <= 64) out.push_back(CV(v.getZExtValue()));
            else if (v.getBitWidth() <= 128) { u128 x = v.getRawData()[0] | ((u128)v.getRawData()[1] << 64); out.push_back(mkC(x, v.getBitWidth())); }
            else out.push_back(CV(0));
            return;
        }
        if (auto* Fp = dyn_cast<ConstantFP>(C)) {
            APInt v = Fp->getValueAPF().bitcastToAPInt();
            if (v.getBitWidth() <= 64) out.push_back(CV(v.getZExtValue()));
            else out.push_back(mkC(v.getRawData()[0], v.getBitWidth()));
            return;
        }
        if (auto* G = dyn_cast<GlobalValue>(C)) { out.push_back(CV(gaddr(G))); return; }
        if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
            for (unsigned i = 0; i < D->getNumElements(); i++) constVals(D->getElementAsConstant(i), out);
            return;
        }
        if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
            for (unsigned i = 0; i < C->getNumOperands(); i++) constVals(cast<Constant>(C->getOperand(i)), out);
            return;
        }
        if (auto* E = dyn_cast<ConstantExpr>(C)) {
            auto op1 = [&](unsigned i) { std::vector<Val> t; constVals(cast<Constant>(E->getOperand(i)), t); return t[0].c; };
            unsigned w = f->l.empty() ? 64 : f->l[0].w;
            switch (E->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) { errs() << "const gep\n"; exit(3); }
                out.push_back(CV(op1(0) + (u64)off.getSExtValue()));
                return;
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: constVals(cast<Constant>(E->getOperand(0)), out); return;
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
                out.push_back(mkC(op1(0), w)); return;
            case Instruction::Sub: out.push_back(mkC(op1(0) - op1(1), w)); return;
            case Instruction::Add: out.push_back(mkC(op1(0) + op1(1), w)); return;
            case Instruction::And: out.push_back(mkC(op1(0) & op1(1), w)); return;
            case Instruction::LShr: out.push_back(mkC(op1(0) >> op1(1), w)); return;
            case Instruction::AShr: out.push_back(mkC((u64)(sext64(op1(0), w) >> op1(1)), w)); return;
            case Instruction::ICmp: {
                u64 x = op1(0), y = op1(1);
                bool r = false;
                switch (E->getPredicate()) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_UGT: r = x > y; break; default: break; }
                out.push_back(CV(r)); return;
            }
            default: break;
            }
        }
        if (isa<BlockAddress>(C)) { out.push_back(CV(0)); return; }
        errs() << "unsupported constant " << *C << "\n";
        for (auto& l : f->l) out.push_back(mkC(0, l.w));
    }
    void initMem(Obj* o, u64 off, const Constant* C) {
        Type* T = C->getType();
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
        if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
            u64 es = DL->getTypeAllocSize(D->getElementType());
            StringRef raw = D->getRawDataValues();
            if (raw.size() == es * D->getNumElements()) { memcpy(&o->b[off], raw.data(), raw.size()); return; }
        }
        if (auto* S = dyn_cast<ConstantStruct>(C)) {
            auto* sl = DL->getStructLayout(S->getType());
            for (unsigned i = 0; i < S->getNumOperands(); i++) initMem(o, off + sl->getElementOffset(i), S->getOperand(i));
            return;
        }
        if (isa<ConstantArray>(C)) {
            u64 es = DL->getTypeAllocSize(cast<ArrayType>(T)->getElementType());
            for (unsigned i = 0; i < C->getNumOperands(); i++) initMem(o, off + i * es, cast<Constant>(C->getOperand(i)));
            return;
        }
        std::vector<Val> v;
        constVals(C, v);
        Flat* f = flat(T);
        if (v.size() != f->l.size()) return;
        for (size_t i = 0; i < v.size(); i++) {
            u128 x = v[i].e ? v[i].e->cv : v[i].c;
            unsigned nb = (f->l[i].w + 7) / 8;
            for (unsigned k = 0; k < nb; k++) o->b[off + f->l[i].off + k] = (u8)(x >> (8 * k));
        }
    }

#include "decode.inc"
#include "exec.inc"
#include "natives.inc"
};

#include "main.inc"
