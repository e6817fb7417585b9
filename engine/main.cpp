#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdarg>
#include "interp.hpp"
#include "residue.hpp"
using namespace llvm;

static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u64> GADDR;
static std::unordered_map<u64, Function*> FADDR;
static std::vector<std::string> FNAMES, ENCODED;  // after inlining; reachable from the entry point before it
static std::unordered_map<const Function*, int> FIDX;

struct Leaf { unsigned w; u64 off; char kind; /* i int, p ptr, d double, f float */ };
static std::unordered_map<Type*, std::vector<Leaf>> LEAVES;
static const std::vector<Leaf>& leaves(Type* t)
{
    auto it = LEAVES.find(t);
    if (it != LEAVES.end()) return it->second;
    std::vector<Leaf> r;
    if (t->isIntegerTy()) r.push_back({t->getIntegerBitWidth(), 0, 'i'});
    else if (t->isPointerTy()) r.push_back({64, 0, 'p'});
    else if (t->isDoubleTy()) r.push_back({64, 0, 'd'});
    else if (t->isFloatTy()) r.push_back({32, 0, 'f'});
    else if (t->isX86_FP80Ty()) r.push_back({128, 0, 'x'});
    else if (auto* s = dyn_cast<StructType>(t)) {
        auto* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) for (auto l : leaves(s->getElementType(i))) { l.off += L->getElementOffset(i).getFixedValue(); r.push_back(l); }
    }
    else if (auto* a = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(a->getElementType());
        auto le = leaves(a->getElementType());
        for (u64 i = 0; i < a->getNumElements(); i++) for (auto l : le) { l.off += i * es; r.push_back(l); }
    }
    else if (auto* v = dyn_cast<FixedVectorType>(t)) {
        unsigned ew = DL->getTypeSizeInBits(v->getElementType());
        auto l = leaves(v->getElementType())[0];
        for (unsigned i = 0; i < v->getNumElements(); i++) { l.off = (u64)i * ew / 8; r.push_back(l); }
    }
    else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {}
    else { std::string s; raw_string_ostream o(s); t->print(o); fail("unsupported type %s", s.c_str()); }
    return LEAVES[t] = r;
}
static unsigned nleaves(Type* t) { return leaves(t).size(); }
static unsigned leafIndex(Type* t, ArrayRef<unsigned> idx)
{
    unsigned r = 0;
    for (unsigned i : idx) {
        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += nleaves(s->getElementType(j)); t = s->getElementType(i); }
        else { auto* a = cast<ArrayType>(t); r += i * nleaves(a->getElementType()); t = a->getElementType(); }
    }
    return r;
}

enum XOp : uint16_t { X_BIN = 1, X_FBIN, X_ICMP, X_FCMP, X_CAST, X_LOAD, X_STORE, X_GEP, X_ALLOCA, X_BR, X_CBR, X_SWITCH, X_RET, X_CALL, X_SELECT, X_COPY, X_INSEL, X_EXEL, X_SHUF, X_UNREACH, X_FNEG, X_EXTV, X_INSV, X_ATOMRMW, X_CMPXCHG, X_RESUME, X_LPAD };
struct Fn;
struct Ins {
    uint16_t op; uint16_t sub; unsigned w, w2; int dst; int a, b, c; unsigned n;
    u64 imm; const std::vector<Leaf>* lv; const std::vector<Leaf>* lv2;
    std::vector<int> ops; std::vector<u64> imms;
    Function* callee; unsigned intr; int normalBB; unsigned flags; const Instruction* I;
};
struct Phi { int dst; unsigned n; std::vector<std::pair<int, int>> in; };
struct BB { std::vector<Phi> phis; std::vector<Ins> ins; int ipdom = -1; const BasicBlock* b; };
struct Fn {
    Function* F; std::string name; int idx; bool tlsinit = false; unsigned nslots = 0; std::vector<unsigned> slotw;
    std::vector<Val> consts; std::vector<BB> bbs; std::vector<int> args; bool pd = false;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const Constant*, int> cidx; std::unordered_map<const BasicBlock*, int> bbi;
};
static std::unordered_map<Function*, Fn*> FNS;
static Val constExprVal(const Constant* c);

static void flattenConst(const Constant* c, std::vector<Val>& out)
{
    Type* t = c->getType();
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        if (i->getBitWidth() > 128) fail("wide integer constant");
        const APInt& v = i->getValue(); u128 x = v.getRawData()[0]; if (v.getNumWords() > 1) x |= (u128)v.getRawData()[1] << 64; out.push_back(Val(x)); return; }
    if (auto* f = dyn_cast<ConstantFP>(c)) { APInt b = f->getValueAPF().bitcastToAPInt(); u128 x = b.getRawData()[0]; if (b.getNumWords() > 1) x |= (u128)b.getRawData()[1] << 64; out.push_back(Val(x)); return; }
    if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { for (unsigned i = 0; i < nleaves(t); i++) out.push_back(Val((u128)0)); return; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < d->getNumElements(); i++) flattenConst(d->getElementAsConstant(i), out); return; }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) { for (auto& o : a->operands()) flattenConst(cast<Constant>(&*o), out); return; }
    out.push_back(constExprVal(c));
}
static u64 globalAddr(const GlobalValue* g)
{
    if (auto* al = dyn_cast<GlobalAlias>(g)) return (u64)constExprVal(al->getAliasee()).c;
    auto it = GADDR.find(g);
    if (it != GADDR.end()) return it->second;
    u64 a;
    if (auto* f = dyn_cast<Function>(g)) { a = newObj(0, false, false, "function"); FADDR[a] = const_cast<Function*>(f); }
    else {
        auto* v = cast<GlobalVariable>(g);
        u64 sz = v->getValueType()->isSized() ? DL->getTypeAllocSize(v->getValueType()).getFixedValue() : 0;
        a = newObj(v->hasInitializer() ? sz : std::max<u64>(sz, 4096), false, false, strdup(g->getName().str().c_str()));
        OBJ[a >> 32]->own = v->isThreadLocal() ? 1 : v->isConstant() ? 0 : 2;
    }
    GADDR[g] = a;
    if (auto* v = dyn_cast<GlobalVariable>(g)) if (v->hasInitializer() && !isa<ConstantAggregateZero>(v->getInitializer()) && !isa<UndefValue>(v->getInitializer())) {
        std::vector<Val> vs; flattenConst(v->getInitializer(), vs);
        auto& lv = leaves(v->getValueType());
        auto* J = JRN; JRN = nullptr; auto* P = PAR; PAR = nullptr;
        for (size_t i = 0; i < lv.size(); i++) memStore(a + lv[i].off, vs[i], lv[i].kind == 'x' ? 80 : lv[i].w);
        JRN = J; PAR = P;
    }
    return a;
}
static Val constExprVal(const Constant* c)
{
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val((u128)globalAddr(g));
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* gep = cast<GEPOperator>(e);
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) fail("constant gep");
            return Val((u128)(u64)((u64)constExprVal(cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue())); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constExprVal(e->getOperand(0));
        case Instruction::Sub: { Val a = constExprVal(e->getOperand(0)), b = constExprVal(e->getOperand(1)); return Val((u128)(u64)(a.c - b.c)); }
        case Instruction::Add: { Val a = constExprVal(e->getOperand(0)), b = constExprVal(e->getOperand(1)); return Val((u128)(u64)(a.c + b.c)); }
        case Instruction::Trunc: { Val a = constExprVal(e->getOperand(0)); return Val(a.c & maskw(e->getType()->getIntegerBitWidth())); }
        case Instruction::ICmp: { Val a = constExprVal(e->getOperand(0)), b = constExprVal(e->getOperand(1)); bool eq = a.c == b.c; return Val((u128)(e->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq)); }
        default: fail("unsupported constant expression %s", e->getOpcodeName());
        }
    }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return Val((u128)0);
    std::vector<Val> v; flattenConst(c, v);
    return v.at(0);
}

static int opnd(Fn* f, const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) {
        auto it = f->cidx.find(c);
        if (it != f->cidx.end()) return it->second;
        int base = -1 - (int)f->consts.size();
        std::vector<Val> vs; flattenConst(c, vs);
        for (auto& x : vs) f->consts.push_back(x);
        if (vs.empty()) f->consts.push_back(Val((u128)0));
        return f->cidx[c] = base;
    }
    auto it = f->slot.find(v);
    if (it == f->slot.end()) return -1;  // metadata etc.
    return it->second;
}
static bool isNop(const CallInst* c) { return false; }

static std::vector<std::string> g_skip;  // demangled-prefix list of functions treated as no-ops

static Fn* compileFn(Function* F)
{
    auto it = FNS.find(F);
    if (it != FNS.end()) return it->second;
    Fn* f = new Fn(); f->F = F; FNS[F] = f;
    f->name = demangle(F->getName().str());
    { auto nm = F->getName(); f->tlsinit = nm.starts_with("__tls_init") || nm.starts_with("_ZTH"); }
    { auto ii = FIDX.find(F); f->idx = ii == FIDX.end() ? (1 << 16) - 1 : ii->second; }
    auto alloc = [&](const Value* v) { auto& l = leaves(v->getType()); f->slot[v] = f->nslots; for (auto& x : l) { f->slotw.push_back(x.w); f->nslots++; } };
    for (auto& a : F->args()) { alloc(&a); f->args.push_back(f->slot[&a]); }
    int bi = 0;
    for (auto& b : *F) { f->bbi[&b] = bi++; for (auto& i : b) if (!i.getType()->isVoidTy()) alloc(&i); }
    f->bbs.resize(bi);
    bi = 0;
    for (auto& b : *F) {
        BB& o = f->bbs[bi++]; o.b = &b;
        for (auto& i : b) {
            if (auto* p = dyn_cast<PHINode>(&i)) {
                Phi q; q.dst = f->slot[p]; q.n = nleaves(p->getType());
                for (unsigned j = 0; j < p->getNumIncomingValues(); j++) q.in.push_back({f->bbi[p->getIncomingBlock(j)], opnd(f, p->getIncomingValue(j))});
                o.phis.push_back(q); continue;
            }
            Ins x{}; x.I = &i; x.dst = i.getType()->isVoidTy() ? -1 : f->slot[&i]; x.callee = nullptr; x.normalBB = -1;
            if (isa<DbgInfoIntrinsic>(i)) continue;
            if (auto* q = dyn_cast<BinaryOperator>(&i)) {
                Type* t = q->getType();
                x.sub = q->getOpcode(); x.a = opnd(f, q->getOperand(0)); x.b = opnd(f, q->getOperand(1)); x.n = nleaves(t);
                x.w = leaves(t)[0].w; x.op = t->isFPOrFPVectorTy() ? X_FBIN : X_BIN;
                if (auto* od = dyn_cast<PossiblyDisjointInst>(q)) x.flags = od->isDisjoint();
                x.lv = &leaves(t);
            }
            else if (auto* q = dyn_cast<UnaryOperator>(&i)) { x.op = X_FNEG; x.a = opnd(f, q->getOperand(0)); x.n = nleaves(q->getType()); x.lv = &leaves(q->getType()); }
            else if (auto* q = dyn_cast<ICmpInst>(&i)) { x.op = X_ICMP; x.sub = q->getPredicate(); x.a = opnd(f, q->getOperand(0)); x.b = opnd(f, q->getOperand(1)); x.w = leaves(q->getOperand(0)->getType())[0].w; x.n = nleaves(q->getType()); }
            else if (auto* q = dyn_cast<FCmpInst>(&i)) { x.op = X_FCMP; x.sub = q->getPredicate(); x.a = opnd(f, q->getOperand(0)); x.b = opnd(f, q->getOperand(1)); x.n = nleaves(q->getType()); x.lv = &leaves(q->getOperand(0)->getType()); }
            else if (auto* q = dyn_cast<CastInst>(&i)) {
                x.op = X_CAST; x.sub = q->getOpcode(); x.a = opnd(f, q->getOperand(0)); x.lv = &leaves(q->getDestTy()); x.lv2 = &leaves(q->getSrcTy()); x.n = x.lv->size(); }
            else if (auto* q = dyn_cast<LoadInst>(&i)) { x.op = X_LOAD; x.a = opnd(f, q->getPointerOperand()); x.lv = &leaves(q->getType()); x.n = x.lv->size(); }
            else if (auto* q = dyn_cast<StoreInst>(&i)) { x.op = X_STORE; x.a = opnd(f, q->getPointerOperand()); x.b = opnd(f, q->getValueOperand()); x.lv = &leaves(q->getValueOperand()->getType()); x.n = x.lv->size(); }
            else if (auto* q = dyn_cast<AllocaInst>(&i)) { x.op = X_ALLOCA; x.imm = DL->getTypeAllocSize(q->getAllocatedType()); x.a = opnd(f, q->getArraySize()); }
            else if (auto* q = dyn_cast<GetElementPtrInst>(&i)) {
                x.op = X_GEP; x.a = opnd(f, q->getPointerOperand());
                if (q->getType()->isVectorTy()) fail("vector gep in %s", f->name.c_str());
                u64 off = 0;
                for (auto g = gep_type_begin(q), e = gep_type_end(q); g != e; ++g) {
                    Value* idx = g.getOperand();
                    if (auto* st = g.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else {
                        u64 sz = DL->getTypeAllocSize(g.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) off += (u64)ci->getSExtValue() * sz;
                        else { x.ops.push_back(opnd(f, idx)); x.imms.push_back(sz); x.imms.push_back(idx->getType()->getIntegerBitWidth()); }
                    }
                }
                x.imm = off;
            }
            else if (auto* q = dyn_cast<BranchInst>(&i)) {
                if (q->isUnconditional()) { x.op = X_BR; x.a = f->bbi[q->getSuccessor(0)]; }
                else { x.op = X_CBR; x.c = opnd(f, q->getCondition()); x.a = f->bbi[q->getSuccessor(0)]; x.b = f->bbi[q->getSuccessor(1)]; }
            }
            else if (auto* q = dyn_cast<SwitchInst>(&i)) {
                x.op = X_SWITCH; x.c = opnd(f, q->getCondition()); x.a = f->bbi[q->getDefaultDest()]; x.w = q->getCondition()->getType()->getIntegerBitWidth();
                for (auto& cs : q->cases()) { x.imms.push_back(cs.getCaseValue()->getZExtValue()); x.ops.push_back(f->bbi[cs.getCaseSuccessor()]); }
            }
            else if (auto* q = dyn_cast<ReturnInst>(&i)) { x.op = X_RET; x.n = 0; if (q->getReturnValue()) { x.a = opnd(f, q->getReturnValue()); x.n = nleaves(q->getReturnValue()->getType()); } }
            else if (auto* q = dyn_cast<CallBase>(&i)) {
                x.op = X_CALL; x.callee = q->getCalledFunction(); x.n = q->getType()->isVoidTy() ? 0 : nleaves(q->getType());
                x.lv = &leaves(q->getType());
                if (!x.callee) {
                    if (q->isInlineAsm()) x.flags = 1;
                    else { if (auto* al = dyn_cast<GlobalAlias>(q->getCalledOperand())) x.callee = dyn_cast<Function>(al->getAliaseeObject()); if (!x.callee) x.a = opnd(f, q->getCalledOperand()); }
                }
                for (unsigned j = 0; j < q->arg_size(); j++) { Value* av = q->getArgOperand(j); x.ops.push_back(av->getType()->isMetadataTy() ? -1 : opnd(f, av)); x.imms.push_back(av->getType()->isMetadataTy() ? 0 : nleaves(av->getType())); }
                x.intr = x.callee ? x.callee->getIntrinsicID() : 0;
                if (auto* iv = dyn_cast<InvokeInst>(q)) x.normalBB = f->bbi[iv->getNormalDest()];
                if (q->arg_size()) { Type* t0 = q->getArgOperand(0)->getType(); x.w = leaves(t0).empty() ? 0 : leaves(t0)[0].w; x.lv2 = &leaves(t0); }
            }
            else if (auto* q = dyn_cast<SelectInst>(&i)) { x.op = X_SELECT; x.c = opnd(f, q->getCondition()); x.a = opnd(f, q->getTrueValue()); x.b = opnd(f, q->getFalseValue()); x.n = nleaves(q->getType()); x.lv = &leaves(q->getType()); x.flags = q->getCondition()->getType()->isVectorTy(); }
            else if (auto* q = dyn_cast<FreezeInst>(&i)) { x.op = X_COPY; x.a = opnd(f, q->getOperand(0)); x.n = nleaves(q->getType()); }
            else if (auto* q = dyn_cast<ExtractElementInst>(&i)) { x.op = X_EXEL; x.a = opnd(f, q->getVectorOperand()); x.b = opnd(f, q->getIndexOperand()); }
            else if (auto* q = dyn_cast<InsertElementInst>(&i)) { x.op = X_INSEL; x.a = opnd(f, q->getOperand(0)); x.b = opnd(f, q->getOperand(1)); x.c = opnd(f, q->getOperand(2)); x.n = nleaves(q->getType()); }
            else if (auto* q = dyn_cast<ShuffleVectorInst>(&i)) { x.op = X_SHUF; x.a = opnd(f, q->getOperand(0)); x.b = opnd(f, q->getOperand(1)); x.n = nleaves(q->getType()); x.w = nleaves(q->getOperand(0)->getType()); for (int m : q->getShuffleMask()) x.ops.push_back(m); }
            else if (auto* q = dyn_cast<ExtractValueInst>(&i)) { x.op = X_EXTV; x.a = opnd(f, q->getAggregateOperand()); x.imm = leafIndex(q->getAggregateOperand()->getType(), q->getIndices()); x.n = nleaves(q->getType()); }
            else if (auto* q = dyn_cast<InsertValueInst>(&i)) { x.op = X_INSV; x.a = opnd(f, q->getAggregateOperand()); x.b = opnd(f, q->getInsertedValueOperand()); x.imm = leafIndex(q->getType(), q->getIndices()); x.n = nleaves(q->getType()); x.w = nleaves(q->getInsertedValueOperand()->getType()); }
            else if (auto* q = dyn_cast<AtomicRMWInst>(&i)) { x.op = X_ATOMRMW; x.sub = q->getOperation(); x.a = opnd(f, q->getPointerOperand()); x.b = opnd(f, q->getValOperand()); x.w = leaves(q->getType())[0].w; }
            else if (auto* q = dyn_cast<AtomicCmpXchgInst>(&i)) { x.op = X_CMPXCHG; x.a = opnd(f, q->getPointerOperand()); x.b = opnd(f, q->getCompareOperand()); x.c = opnd(f, q->getNewValOperand()); x.w = leaves(q->getNewValOperand()->getType())[0].w; }
            else if (isa<UnreachableInst>(i)) x.op = X_UNREACH;
            else if (isa<FenceInst>(i)) continue;
            else { x.op = X_RESUME; }
            o.ins.push_back(std::move(x));
        }
    }
    return f;
}
static void needPD(Fn* f)
{
    if (f->pd) return;
    f->pd = true;
    PostDominatorTree T(*f->F);
    for (size_t i = 0; i < f->bbs.size(); i++) {
        auto* n = T.getNode(f->bbs[i].b);
        if (!n) continue;
        auto* p = n->getIDom();
        if (p && p->getBlock()) f->bbs[i].ipdom = f->bbi[p->getBlock()];
    }
}

static Val binop(unsigned opc, Val a, Val b, unsigned w, unsigned flags)
{
    switch (opc) {
    case Instruction::Add: if (!a.e && !b.e) return Val((a.c + b.c) & maskw(w)); return vAdd(a, b, w);
    case Instruction::Sub: if (!a.e && !b.e) return Val((a.c - b.c) & maskw(w)); return vSub(a, b, w);
    case Instruction::Mul: return vMul(a, b, w);
    case Instruction::And: return vBit(O_AND, a, b, w);
    case Instruction::Or: if (flags && w > 1) return vAdd(a, b, w); return vBit(O_OR, a, b, w);
    case Instruction::Xor: return vBit(O_XOR, a, b, w);
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (b.e && strictUB) { doAssert(vUlt(b, Val((u128)w), w), "undefined behaviour: shift amount not smaller than the width"); }
        if (!b.e && b.c >= w) {
            if (strictUB) report(curModel, "undefined behaviour: shift amount " + std::to_string((u64)b.c) + " on a " + std::to_string(w) + "-bit value");
            return Val(newVar("poison", w));
        }
        return opc == Instruction::Shl ? vShl(a, b, w) : opc == Instruction::LShr ? vLshr(a, b, w) : vAshr(a, b, w);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        if (b.e) doAssert(vNot(vEq(b, Val((u128)0), w)), "division by zero");
        else if ((b.c & maskw(w)) == 0) report(curModel, "division by zero");
        Op o = opc == Instruction::UDiv ? O_UDIV : opc == Instruction::SDiv ? O_SDIV : opc == Instruction::URem ? O_UREM : O_SREM;
        return vDiv(o, a, b, w); }
    }
    fail("binop %u", opc);
}
// single precision is carried as the same number in double precision; one double operation followed by
// rounding to single is exactly the single operation (53 >= 2*24+2)
static Val f64(Val a)
{
    if (!a.e) return fromD((double)asF(a.c));
    if (a.e->op == O_F32) return a.e->k[0];
    fail("symbolic single precision value of unknown origin");
}
static Val f32(Val d)
{
    if (!d.e) return fromF((float)asD(d.c));
    if (isReal(d)) fail("abstract real in single precision");
    return Val(mk(O_F32, 32, {Val(mk(O_FRND32, 64, {d}))}));
}
// a library the executor links leaves MMX state behind now and then; long double needs an empty x87 stack
static inline void x87() { __asm__ volatile("emms" ::: "memory"); }
static Val fbin(unsigned opc, Val a, Val b, char kind)
{
    if (!a.e && !b.e) {
        if (kind == 'd') { double x = asD(a.c), y = asD(b.c); switch (opc) { case Instruction::FAdd: return fromD(x + y); case Instruction::FSub: return fromD(x - y); case Instruction::FMul: return fromD(x * y); case Instruction::FDiv: return fromD(x / y); case Instruction::FRem: return fromD(fmod(x, y)); } }
        if (kind == 'f') { float x = asF(a.c), y = asF(b.c); switch (opc) { case Instruction::FAdd: return fromF(x + y); case Instruction::FSub: return fromF(x - y); case Instruction::FMul: return fromF(x * y); case Instruction::FDiv: return fromF(x / y); } }
        if (kind == 'x') { x87(); auto L = [](Val v) { long double d = 0; u128 c = v.c; memcpy(&d, &c, 10); return d; }; auto R = [](long double d) { u128 c = 0; memcpy(&c, &d, 10); return Val(c); }; long double x = L(a), y = L(b); switch (opc) { case Instruction::FAdd: return R(x + y); case Instruction::FSub: return R(x - y); case Instruction::FMul: return R(x * y); case Instruction::FDiv: return R(x / y); } }
        fail("float op");
    }
    if (kind == 'f') return f32(fbin(opc, f64(a), f64(b), 'd'));
    if (kind != 'd') fail("symbolic non-double float op");
    if (isReal(a) || isReal(b)) {
        if (opc == Instruction::FDiv) {
            if (b.e) fail("division by an abstract real");
            double d = asD(b.c); int e2; if (d <= 0 || std::frexp(d, &e2) != 0.5) fail("division of an abstract real by %g", d);
            Rl x = real(a); e2 -= 1;
            if (e2 >= 0) x.k += e2; else { x.P = vMulC(x.P, (u128)1 << -e2, 128); x.Q = vMulC(x.Q, (u128)1 << -e2, 128); }
            return mkReal(x);
        }
        Rl x = real(a), y = real(b);
        switch (opc) {
        case Instruction::FAdd: return mkReal(addReal(x, y));
        case Instruction::FSub: return mkReal(addReal(x, negReal(y)));
        case Instruction::FMul: return mkReal(mulReal(x, y));
        default: fail("unsupported operation on an abstract real");
        }
    }
    switch (opc) {
    case Instruction::FAdd: return Val(mk(O_FADD, 64, {a, b}));
    case Instruction::FSub: return Val(mk(O_FSUB, 64, {a, b}));
    case Instruction::FMul: return Val(mk(O_FMUL, 64, {a, b}));
    case Instruction::FDiv: return Val(mk(O_FDIV, 64, {a, b}));
    }
    fail("symbolic fp op");
}
static Val fneg(Val a, char kind)
{
    if (!a.e) return kind == 'd' ? Val(fromD(-asD(a.c))) : Val(fromF(-asF(a.c)));
    if (kind == 'f') return f32(fneg(f64(a), 'd'));
    if (isReal(a)) return mkReal(negReal(real(a)));
    return Val(mk(O_FNEG, 64, {a}));
}
static Val icmp(unsigned p, Val a, Val b, unsigned w)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return vEq(a, b, w);
    case CmpInst::ICMP_NE: return vNot(vEq(a, b, w));
    case CmpInst::ICMP_ULT: return vUlt(a, b, w);
    case CmpInst::ICMP_ULE: return vUle(a, b, w);
    case CmpInst::ICMP_UGT: return vUlt(b, a, w);
    case CmpInst::ICMP_UGE: return vUle(b, a, w);
    case CmpInst::ICMP_SLT: return vSlt(a, b, w);
    case CmpInst::ICMP_SLE: return vSle(a, b, w);
    case CmpInst::ICMP_SGT: return vSlt(b, a, w);
    case CmpInst::ICMP_SGE: return vSle(b, a, w);
    }
    fail("icmp");
}
static Val fcmp(unsigned p, Val a, Val b, char kind)
{
    if (!a.e && !b.e) {
        double x = kind == 'd' ? asD(a.c) : asF(a.c), y = kind == 'd' ? asD(b.c) : asF(b.c);
        if (kind == 'x') { x87(); long double l = 0, m = 0; memcpy(&l, &a.c, 10); memcpy(&m, &b.c, 10); x = (double)l; y = (double)m; }
        bool u = x != x || y != y, r = false;
        switch (p & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y && !u; break; case 7: r = !u; break; default: r = false; }
        if (p & 8) { if ((p & 7) == 7) r = true; else r = r || u; }
        return Val((u128)r);
    }
    if (kind == 'f') { a = f64(a); b = f64(b); }
    if (isReal(a) || isReal(b)) {
        Val x = realInt(a), y = realInt(b);
        switch (p & 7) { case 1: return vEq(x, y, 128); case 2: return vSlt(y, x, 128); case 3: return vSle(y, x, 128); case 4: return vSlt(x, y, 128); case 5: return vSle(x, y, 128); case 6: return vNot(vEq(x, y, 128)); case 7: return Val((u128)1); default: return Val((u128)0); }
    }
    Val r;
    switch (p & 7) {
    case 0: r = Val((u128)0); break;
    case 1: r = Val(mk(O_FEQ, 1, {a, b})); break;
    case 2: r = Val(mk(O_FLT, 1, {b, a})); break;
    case 3: r = Val(mk(O_FLE, 1, {b, a})); break;
    case 4: r = Val(mk(O_FLT, 1, {a, b})); break;
    case 5: r = Val(mk(O_FLE, 1, {a, b})); break;
    case 6: r = vBit(O_OR, Val(mk(O_FLT, 1, {a, b})), Val(mk(O_FLT, 1, {b, a})), 1); break;
    case 7: r = vNot(Val(mk(O_FUNO, 1, {a, b}))); break;
    }
    if (p & 8) r = vBit(O_OR, r, Val(mk(O_FUNO, 1, {a, b})), 1);
    return r;
}

struct Frame { Fn* f; std::vector<Val> R; std::vector<Val> ret; std::vector<u64> allocas; int prev; };
static std::vector<Val> callFn(Function* F, const std::vector<Val>& args);
static bool external(Function* F, const Ins& x, std::vector<Val>& a, std::vector<Val>& r, const std::string& name);

static Val castVal(unsigned opc, Val a, const Leaf& s, const Leaf& d)
{
    if (!a.e && opc >= Instruction::FPToUI && opc <= Instruction::FPExt) x87();
    switch (opc) {
    case Instruction::Trunc: return vTrunc(a, s.w, d.w);
    case Instruction::ZExt: return vZext(a, s.w, d.w);
    case Instruction::SExt: return vSext(a, s.w, d.w);
    case Instruction::PtrToInt: return d.w < 64 ? vTrunc(a, 64, d.w) : a;
    case Instruction::IntToPtr: return s.w < 64 ? vZext(a, s.w, 64) : a;
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::FPExt: if (a.e) { if (s.kind != 'f' || d.kind != 'd') fail("symbolic fpext"); return f64(a); } if (d.kind == 'x') { long double l = s.kind == 'd' ? (long double)asD(a.c) : (long double)asF(a.c); u128 c = 0; memcpy(&c, &l, 10); return Val(c); } return Val(fromD((double)asF(a.c)));
    case Instruction::FPTrunc: if (a.e) { if (s.kind != 'd' || d.kind != 'f') fail("symbolic fptrunc"); return f32(a); } if (s.kind == 'x') { long double l = 0; memcpy(&l, &a.c, 10); return d.kind == 'd' ? Val(fromD((double)l)) : Val(fromF((float)l)); } return Val(fromF((float)asD(a.c)));
    case Instruction::SIToFP: case Instruction::UIToFP:
        if (a.e) { if (d.kind == 'f' && s.w <= 64) return Val(mk(O_F32, 32, {Val(mk(opc == Instruction::SIToFP ? O_SITOF32 : O_UITOF32, 64, {a}))})); if (d.kind != 'd') fail("symbolic int to float"); return Val(mk(opc == Instruction::SIToFP ? O_SITOFP : O_UITOFP, 64, {a})); }
        { long double v = opc == Instruction::SIToFP ? (long double)sx(a.c, s.w) : (long double)a.c;
          if (d.kind == 'd') return Val(fromD(opc == Instruction::SIToFP ? (double)(i128)sx(a.c, s.w) : (double)a.c));
          if (d.kind == 'f') return Val(fromF((float)v)); u128 c = 0; memcpy(&c, &v, 10); return Val(c); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        bool sg = opc == Instruction::FPToSI;
        if (a.e && s.kind == 'f') a = f64(a);
        if (isReal(a)) {
            Val q = realInt(a);
            if (d.w == 128) return q;
            return vTrunc(q, 128, d.w);
        }
        if (a.e) {
            // range check: undefined behaviour outside the target type
            double lo = sg ? -std::ldexp(1.0, d.w - 1) : -1.0, hi = sg ? std::ldexp(1.0, d.w - 1) : std::ldexp(1.0, d.w);
            Val ok = vBit(O_AND, fcmp(sg && d.w >= 53 ? CmpInst::FCMP_OGE : CmpInst::FCMP_OGT, a, Val(fromD(sg && d.w < 53 ? lo - 1 : lo)), 'd'), fcmp(CmpInst::FCMP_OLT, a, Val(fromD(hi)), 'd'), 1);
            doAssert(ok, "undefined behaviour: floating-point value out of range of the integer type it is converted to");
            return Val(mk(sg ? O_FPTOSI : O_FPTOUI, d.w, {a}));
        }
        long double v;
        if (s.kind == 'd') v = asD(a.c); else if (s.kind == 'f') v = asF(a.c); else { v = 0; memcpy(&v, &a.c, 10); }
        long double lo = sg ? -std::ldexp(1.0L, d.w - 1) : 0, hi = sg ? std::ldexp(1.0L, d.w - 1) : std::ldexp(1.0L, d.w);
        v = truncl(v);
        if (!(v >= lo && v < hi)) report(curModel, "undefined behaviour: floating-point value out of range of the integer type it is converted to");
        return sg ? Val((u128)(i128)v & maskw(d.w)) : Val((u128)v & maskw(d.w)); }
    }
    fail("cast %u", opc);
}

enum { R_RET = 0, R_JOIN = 1 };
static int execFrom(Frame& fr, int bb, int prev, int stop, bool phisDone);

static void doPhis(Frame& fr, int bb, int prev)
{
    BB& B = fr.f->bbs[bb];
    if (B.phis.empty()) return;
    static thread_local std::vector<Val> tmp;
    std::vector<Val> t2;
    for (auto& p : B.phis) {
        int o = 0; bool ok = false;
        for (auto& in : p.in) if (in.first == prev) { o = in.second; ok = true; break; }
        if (!ok) fail("phi");
        for (unsigned j = 0; j < p.n; j++) t2.push_back(o >= 0 ? fr.R[o + j] : fr.f->consts[-1 - o + j]);
    }
    size_t k = 0;
    for (auto& p : B.phis) for (unsigned j = 0; j < p.n; j++) fr.R[p.dst + j] = t2[k++];
}

// ---- merging of two arms -------------------------------------------------
struct MemImg { std::vector<uint8_t> d, st; std::vector<Cell> c; };
struct ArmResult { bool alive = false; int how = R_JOIN; int prev = -1; std::vector<Val> R, ret; std::vector<Expr*> extra; Model model; bool modelOk; std::map<std::pair<uint32_t, uint32_t>, MemImg> mem; };

static void runArm(Frame& fr, int target, int from, int stop, Val cond, ArmResult& out, const std::vector<Val>& R0, size_t pc0, const Model& m)
{
    std::vector<JEnt> J; auto* oldJ = JRN; JRN = &J;
    fr.R = R0;
    size_t callDepth = CALLS.size();
    size_t na = fr.allocas.size();
    curModel = m;
    addPC(cond);
    size_t pc1 = PC.size();
    try {
        if (target == stop) { doPhis(fr, stop, from); out.how = R_JOIN; }
        else out.how = execFrom(fr, target, from, stop, false);
        out.alive = true;
    } catch (PathEnd& e) {
        if (e.kind != 1 && e.kind != 0) { JRN = oldJ; throw; }
        if (e.kind == 0) fail("program exit inside a merged region");
        checkStop();
        out.alive = false;
        CALLS.resize(callDepth);
    }
    if (out.alive) {
        out.R = fr.R; out.ret = fr.ret; out.model = curModel;
        out.extra.assign(PC.begin() + pc1, PC.end());
        for (auto& j : J) {
            auto& im = out.mem[{j.id, j.off}];
            Obj* o = OBJ[j.id]; size_t n = std::max(j.d.size(), im.d.size());
            im.d.assign(o->d + j.off, o->d + j.off + n);
            if (o->st) im.st.assign(o->st + j.off, o->st + j.off + n); else im.st.assign(n, 0);
            bool s = false; for (auto x : im.st) if (x == 1) s = true;
            if (s) im.c.assign(o->sym + j.off, o->sym + j.off + n); else im.c.clear();
        }
    }
    // roll back
    for (size_t i = J.size(); i-- > 0;) {
        auto& j = J[i]; Obj* o = OBJ[j.id];
        memcpy(o->d + j.off, j.d.data(), j.d.size());
        bool any = false; for (auto x : j.st) if (x) any = true;
        if (any && !o->st) o->st = (uint8_t*)calloc(1, o->size);
        if (o->st) memcpy(o->st + j.off, j.st.data(), j.st.size());
        if (!j.c.empty()) { ensureSym(o); memcpy(o->sym + j.off, j.c.data(), j.c.size() * sizeof(Cell)); }
    }
    JRN = oldJ;
    PC.resize(pc0);
    fr.allocas.resize(na);
}
static void putImg(uint32_t id, uint32_t off, const MemImg& im)
{
    Obj* o = OBJ[id];
    journal(o, ((u64)id << 32) | off, im.d.size());
    memcpy(o->d + off, im.d.data(), im.d.size());
    bool any = false; for (auto x : im.st) if (x) any = true;
    if (any && !o->st) o->st = (uint8_t*)calloc(1, o->size);
    if (o->st) memcpy(o->st + off, im.st.data(), im.st.size());
    if (!im.c.empty()) { ensureSym(o); memcpy(o->sym + off, im.c.data(), im.c.size() * sizeof(Cell)); }
}
// returns R_RET / R_JOIN as seen by the caller: after a merged branch the
// execution continues at block `join` with its phis already evaluated.
static int mergeBranch(Frame& fr, Val cond, int tb, int fb, int from, int join, bool& contAtJoin)
{
    ST->merges++;
    size_t pc0 = PC.size();
    std::vector<Val> R0 = fr.R, ret0 = fr.ret;
    bool cur = evalBool(cond.e, curModel);
    Model m; int fz = feasible(cur ? vNot(cond) : cond, &m);
    if (fz < 0) { ST->inconclusive = 1; fz = 0; }
    ArmResult A, B;
    Model m0 = curModel;
    mergeDepth++;
    if (cur || fz) runArm(fr, tb, from, join, cond, A, R0, pc0, cur ? m0 : m);
    if (!cur || fz) { fr.ret = ret0; runArm(fr, fb, from, join, vNot(cond), B, R0, pc0, cur ? m : m0); }
    mergeDepth--;
    if (!A.alive && !B.alive) throw PathEnd{1};
    if (!A.alive || !B.alive) {
        ArmResult& X = A.alive ? A : B;
        if (!(A.alive ? (cur || fz) && !((!cur) || fz) : ((!cur) || fz) && !(cur || fz))) addPC(A.alive ? cond : vNot(cond));
        for (auto* e : X.extra) PC.push_back(e);
        fr.R = X.R; fr.ret = X.ret; curModel = X.model;
        for (auto& kv : X.mem) putImg(kv.first.first, kv.first.second, kv.second);
        contAtJoin = X.how == R_JOIN;
        return X.how;
    }
    if (A.how != B.how) fail("merge: arms end differently in %s", fr.f->name.c_str());
    for (auto* e : A.extra) addPC(vBit(O_OR, vNot(cond), Val(e), 1));
    for (auto* e : B.extra) addPC(vBit(O_OR, cond, Val(e), 1));
    curModel = A.model;
    // registers
    fr.R = A.R;
    for (size_t i = 0; i < fr.R.size(); i++) if (A.R[i].e != B.R[i].e || A.R[i].c != B.R[i].c) {
        bool ua = !A.R[i].e && !A.R[i].c, ub = !B.R[i].e && !B.R[i].c; (void)ua; (void)ub;
        fr.R[i] = mergeVal(cond, A.R[i], B.R[i], fr.f->slotw[i]);
    }
    if (A.how == R_RET) {
        fr.ret = A.ret;
        auto& lv = leaves(fr.f->F->getReturnType());
        for (size_t i = 0; i < fr.ret.size(); i++) fr.ret[i] = mergeVal(cond, A.ret[i], B.ret[i], lv[i].w);
    }
    // memory: bytes written by either arm
    std::map<uint32_t, std::map<uint32_t, std::pair<uint8_t, uint8_t>>> touched;  // id -> off
    struct Side { std::unordered_map<u64, std::pair<const MemImg*, uint32_t>> at; };
    auto collect = [&](ArmResult& X, std::unordered_map<u64, std::pair<const MemImg*, uint32_t>>& at) {
        for (auto& kv : X.mem) for (uint32_t i = 0; i < kv.second.d.size(); i++) at[((u64)kv.first.first << 32) | (kv.first.second + i)] = {&kv.second, i};
    };
    std::unordered_map<u64, std::pair<const MemImg*, uint32_t>> atA, atB;
    collect(A, atA); collect(B, atB);
    std::vector<u64> all; for (auto& kv : atA) all.push_back(kv.first); for (auto& kv : atB) if (!atA.count(kv.first)) all.push_back(kv.first);
    std::sort(all.begin(), all.end());
    auto byteState = [&](std::unordered_map<u64, std::pair<const MemImg*, uint32_t>>& at, u64 a, uint8_t& d, uint8_t& st, Cell& c) {
        auto it = at.find(a);
        if (it != at.end()) { auto* im = it->second.first; uint32_t i = it->second.second; d = im->d[i]; st = im->st[i]; if (st == 1) c = im->c[i]; }
        else { Obj* o = OBJ[a >> 32]; uint32_t off = (uint32_t)a; d = o->d[off]; st = o->st ? o->st[off] : 0; if (st == 1) c = o->sym[off]; }
    };
    struct BS { uint8_t da, sa, db, sb; Cell ca, cb; };
    size_t i = 0;
    while (i < all.size()) {
        // contiguous run
        size_t j = i; std::vector<BS> run;
        while (j < all.size() && all[j] == all[i] + (j - i)) { BS b{}; byteState(atA, all[j], b.da, b.sa, b.ca); byteState(atB, all[j], b.db, b.sb, b.cb); run.push_back(b); j++; }
        u64 base = all[i]; Obj* o = OBJ[base >> 32]; uint32_t boff = (uint32_t)base;
        size_t p = 0;
        auto same = [&](const BS& b) { if (b.sa != b.sb) return false; if (b.sa == 0) return b.da == b.db; if (b.sa == 2) return true; return b.ca.e == b.cb.e && b.ca.idx == b.cb.idx; };
        while (p < run.size()) {
            if (o->freed) { p++; continue; }
            // choose a chunk width
            unsigned n = 1;
            bool ga = run[p].sa == 1 && run[p].ca.idx == 0, gb = run[p].sb == 1 && run[p].cb.idx == 0;
            if (ga) n = std::max<unsigned>(n, run[p].ca.n);
            if (gb) n = std::max<unsigned>(n, run[p].cb.n);
            if (!ga && !gb && run[p].sa == 0 && run[p].sb == 0) {
                unsigned al = (boff + p) % 8 == 0 ? 8 : (boff + p) % 4 == 0 ? 4 : (boff + p) % 2 == 0 ? 2 : 1;
                for (n = al; n > 1; n /= 2) { bool ok = p + n <= run.size(); for (unsigned q = 1; ok && q < n; q++) if (run[p + q].sa || run[p + q].sb) ok = false; if (ok) break; }
            }
            if (p + n > run.size()) n = 1;
            auto load = [&](bool isA, Val& v) -> bool {
                // assemble n bytes of side
                bool unin = false, conc = true;
                for (unsigned q = 0; q < n; q++) { uint8_t s = isA ? run[p + q].sa : run[p + q].sb; if (s == 2) unin = true; if (s) conc = false; }
                if (unin) return false;
                if (conc) { u128 x = 0; for (unsigned q = 0; q < n; q++) x |= (u128)(isA ? run[p + q].da : run[p + q].db) << (8 * q); v = Val(x); return true; }
                Val r((u128)0);
                for (unsigned q = 0; q < n;) {
                    uint8_t s = isA ? run[p + q].sa : run[p + q].sb;
                    if (s == 0) { r = vAdd(r, Val((u128)(isA ? run[p + q].da : run[p + q].db) << (8 * q)), 8 * n); q++; continue; }
                    Cell c = isA ? run[p + q].ca : run[p + q].cb; unsigned q2 = q + 1;
                    while (q2 < n && (isA ? run[p + q2].sa : run[p + q2].sb) == 1 && (isA ? run[p + q2].ca : run[p + q2].cb).e == c.e && (isA ? run[p + q2].ca : run[p + q2].cb).idx == c.idx + (q2 - q)) q2++;
                    if (c.idx == 0 && c.n == q2 - q && q == 0 && q2 == n) { v = Val(c.e); return true; }
                    if (c.e->op == O_REAL) fail("merge: partial real");
                    r = vAdd(r, vMulC(vField(Val(c.e), c.e->w, 8 * c.idx, 8 * (q2 - q), 8 * n), (u128)1 << (8 * q), 8 * n), 8 * n);
                    q = q2;
                }
                v = r; return true;
            };
            bool allsame = true; for (unsigned q = 0; q < n; q++) if (!same(run[p + q])) allsame = false;
            journal(o, base + p, n);
            Val va, vb; bool la = load(true, va), lb = load(false, vb);
            if (!la && !lb) { if (!o->st) o->st = (uint8_t*)calloc(1, o->size); memset(o->st + boff + p, 2, n); }
            else if (!la || !lb) memStoreRaw(o, boff + p, la ? va : vb, n);  // the other side is indeterminate: any value is allowed
            else memStoreRaw(o, boff + p, allsame ? va : mergeVal(cond, va, vb, 8 * n), n);
            p += n;
        }
        i = j;
    }
    contAtJoin = A.how == R_JOIN;
    return A.how;
}

static u64 instBudgetTick = 0;
static int execFrom(Frame& fr, int bb, int prev, int stop, bool phisDone)
{
    Fn* f = fr.f;
    auto G = [&](int o) -> const Val& { return o >= 0 ? fr.R[o] : f->consts[-1 - o]; };
    auto GL = [&](int o, int j) -> const Val& { return o >= 0 ? fr.R[o + j] : f->consts[-1 - o + j]; };
    while (true) {
        if (!phisDone) doPhis(fr, bb, prev);
        phisDone = false;
        BB& B = f->bbs[bb];
        int next = -1;
        instBudgetTick += B.ins.size();
        if (instBudgetTick > 2000000) { ST->insts += instBudgetTick; instBudgetTick = 0; checkStop(); }
        for (auto& x : B.ins) {
            switch (x.op) {
            case X_BIN:
                if (x.n == 1) fr.R[x.dst] = binop(x.sub, G(x.a), G(x.b), x.w, x.flags);
                else for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = binop(x.sub, GL(x.a, j), GL(x.b, j), x.w, x.flags);
                break;
            case X_FBIN: for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = fbin(x.sub, GL(x.a, j), GL(x.b, j), (*x.lv)[0].kind); break;
            case X_FNEG: for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = fneg(GL(x.a, j), (*x.lv)[0].kind); break;
            case X_ICMP: for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = icmp(x.sub, GL(x.a, j), GL(x.b, j), x.w); break;
            case X_FCMP: for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = fcmp(x.sub, GL(x.a, j), GL(x.b, j), (*x.lv)[0].kind); break;
            case X_CAST:
                if (x.lv->size() == x.lv2->size()) { for (unsigned j = 0; j < x.n; j++) { Val v = castVal(x.sub, GL(x.a, j), (*x.lv2)[j], (*x.lv)[j]); fr.R[x.dst + j] = v; } }
                else {  // bitcast between vectors / wide ints of different element size
                    Val acc((u128)0); unsigned ws = (*x.lv2)[0].w, wd = (*x.lv)[0].w; unsigned total = ws * x.lv2->size();
                    if (total > 128) {
                        // group by the larger element
                        if (ws > wd) { unsigned per = ws / wd; for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = vExtract(GL(x.a, j / per), ws, (j % per) * wd, wd); }
                        else { unsigned per = wd / ws; for (unsigned j = 0; j < x.n; j++) { Val r((u128)0); for (unsigned q = 0; q < per; q++) r = vAdd(r, vMulC(vZext(GL(x.a, j * per + q), ws, wd), (u128)1 << (q * ws), wd), wd); fr.R[x.dst + j] = r; } }
                        break;
                    }
                    for (unsigned j = 0; j < x.lv2->size(); j++) acc = vAdd(acc, vMulC(vZext(GL(x.a, j), ws, total), (u128)1 << (j * ws), total), total);
                    for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = vExtract(acc, total, j * wd, wd);
                }
                break;
            case X_LOAD: {
                Val av = G(x.a);
                if (av.e) {
                    // table lookup with a symbolic index: ite chain over feasible offsets of one object
                    Evaluator ev(curModel); u64 a0 = (u64)ev.ev(av.e); u64 id = a0 >> 32;
                    bool done = false;
                    if (x.n == 1 && id && id < OBJ.size() && mergeOn) {
                        Expr* e = av.e;
                        // enumerate feasible addresses (bounded)
                        std::vector<u64> as; Val left((u128)1); Model m; bool ok = true;
                        std::vector<Expr*> save = PC;
                        u64 cand = a0;
                        while (true) {
                            as.push_back(cand);
                            if (as.size() > 64) { ok = false; break; }
                            left = vBit(O_AND, left, vNot(vEq(Val(e), Val((u128)cand), 64)), 1);
                            if (!left.e) { if (!left.c) break; ok = false; break; }
                            int q = feasible(left, &m);
                            if (q == 0) break;
                            if (q < 0) { ok = false; break; }
                            Evaluator e2(m); cand = (u64)e2.ev(e);
                        }
                        if (ok) {
                            unsigned w = (*x.lv)[0].w;
                            Val r; bool first = true;
                            for (size_t q = as.size(); q-- > 0;) {
                                Obj* oo = nullptr; u64 i2 = as[q] >> 32;
                                if (i2 == 0 || i2 >= OBJ.size() || OBJ[i2]->freed || (as[q] & 0xffffffff) + (w + 7) / 8 > OBJ[i2]->size) { doAssert(vNot(vEq(Val(e), Val((u128)as[q]), 64)), "memory error: load at invalid address"); continue; }
                                (void)oo;
                                Val v = memLoad(as[q], w);
                                r = first ? v : mergeVal(vEq(Val(e), Val((u128)as[q]), 64), v, r, w); first = false;
                            }
                            fr.R[x.dst] = r; done = true;
                        }
                    }
                    if (done) break;
                    av = Val(concretize(av, 64));
                }
                u64 a = (u64)av.c;
                for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = memLoad(a + (*x.lv)[j].off, (*x.lv)[j].kind == 'x' ? 80 : (*x.lv)[j].w);
                break; }
            case X_STORE: {
                Val av = G(x.a); u64 a = av.e ? (u64)concretize(av, 64) : (u64)av.c;
                if (x.n > 1 && (*x.lv)[0].w == 1) fail("store of i1 vector");
                for (unsigned j = 0; j < x.n; j++) memStore(a + (*x.lv)[j].off, GL(x.b, j), (*x.lv)[j].kind == 'x' ? 80 : (*x.lv)[j].w);
                break; }
            case X_GEP: {
                Val r = G(x.a);
                if (!r.e) r.c = (u64)(r.c + x.imm); else r = vAdd(r, Val((u128)x.imm), 64);
                for (size_t j = 0; j < x.ops.size(); j++) {
                    Val i = G(x.ops[j]); unsigned iw = x.imms[2 * j + 1];
                    if (iw < 64) i = vSext(i, iw, 64); else if (iw > 64) i = vTrunc(i, iw, 64);
                    if (!r.e && !i.e) r.c = (u64)(r.c + i.c * x.imms[2 * j]);
                    else r = vAdd2(r, i, x.imms[2 * j], 64);
                }
                fr.R[x.dst] = r;
                break; }
            case X_ALLOCA: {
                Val n = G(x.a); u64 cnt = n.e ? (u64)concretize(n, 64) : (u64)n.c;
                u64 a = newObj(x.imm * cnt, true, false, "local");
                fr.allocas.push_back(a >> 32);
                fr.R[x.dst] = Val((u128)a);
                break; }
            case X_SELECT:
                for (unsigned j = 0; j < x.n; j++) {
                    Val c = x.flags ? GL(x.c, j) : G(x.c);
                    Val a = GL(x.a, j), b = GL(x.b, j);
                    fr.R[x.dst + j] = c.e ? mergeVal(c, a, b, (*x.lv)[j].w) : (c.c & 1) ? a : b;
                }
                break;
            case X_COPY: for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = GL(x.a, j); break;
            case X_EXEL: { u64 i = (u64)concretize(G(x.b), 64); fr.R[x.dst] = GL(x.a, i); break; }
            case X_INSEL: { u64 i = (u64)concretize(G(x.c), 64); Val v = G(x.b); std::vector<Val> t; for (unsigned j = 0; j < x.n; j++) t.push_back(GL(x.a, j)); t.at(i) = v; for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = t[j]; break; }
            case X_SHUF: { std::vector<Val> t; for (unsigned j = 0; j < x.n; j++) { int m = x.ops[j]; t.push_back(m < 0 ? Val((u128)0) : (unsigned)m < x.w ? GL(x.a, m) : GL(x.b, m - x.w)); } for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = t[j]; break; }
            case X_EXTV: for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = GL(x.a, x.imm + j); break;
            case X_INSV: { std::vector<Val> t; for (unsigned j = 0; j < x.n; j++) t.push_back(GL(x.a, j)); for (unsigned j = 0; j < x.w; j++) t[x.imm + j] = GL(x.b, j); for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = t[j]; break; }
            case X_ATOMRMW: {
                u64 a = (u64)concretize(G(x.a), 64); Val old = memLoad(a, x.w), v = G(x.b), nv;
                switch (x.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = vAdd(old, v, x.w); break; case AtomicRMWInst::Sub: nv = vSub(old, v, x.w); break; default: fail("atomicrmw"); }
                memStore(a, nv, x.w); fr.R[x.dst] = old; break; }
            case X_CMPXCHG: {
                u64 a = (u64)concretize(G(x.a), 64); Val old = memLoad(a, x.w); Val e = vEq(old, G(x.b), x.w);
                bool t = decide(e); if (t) memStore(a, G(x.c), x.w); fr.R[x.dst] = old; fr.R[x.dst + 1] = Val((u128)t); break; }
            case X_BR: next = x.a; break;
            case X_CBR: {
                Val c = G(x.c);
                if (!c.e) { next = (c.c & 1) ? x.a : x.b; break; }
                if (x.a == x.b) { next = x.a; break; }
                if (mergeOn) {
                    needPD(f);
                    int j = B.ipdom;
                    bool cont = false;
                    int how = mergeBranch(fr, c, x.a, x.b, bb, j, cont);
                    if (how == R_RET) return R_RET;
                    // at join block, phis done
                    if (j == stop) return R_JOIN;
                    bb = j; phisDone = true; goto nextblock;
                }
                next = decide(c) ? x.a : x.b;
                break; }
            case X_SWITCH: {
                Val c = G(x.c); next = x.a;
                if (!c.e) { for (size_t j = 0; j < x.imms.size(); j++) if (((u64)c.c & maskw(x.w)) == x.imms[j]) { next = x.ops[j]; break; } }
                else for (size_t j = 0; j < x.imms.size(); j++) if (decide(vEq(c, Val((u128)x.imms[j]), x.w))) { next = x.ops[j]; break; }
                break; }
            case X_RET: fr.ret.clear(); for (unsigned j = 0; j < x.n; j++) fr.ret.push_back(GL(x.a, j)); return R_RET;
            case X_UNREACH: report(curModel, "undefined behaviour: unreachable code reached in " + f->name); break;
            case X_CALL: {
                if (x.flags & 1) { fail("inline assembly in %s", f->name.c_str()); }
                Function* F = x.callee;
                if (!F) {
                    u64 a = (u64)concretize(G(x.a), 64);
                    auto it = FADDR.find(a);
                    if (it == FADDR.end()) report(curModel, "call through an invalid function pointer");
                    F = it->second;
                }
                std::vector<Val> args;
                for (size_t j = 0; j < x.ops.size(); j++) for (u64 q = 0; q < x.imms[j]; q++) args.push_back(GL(x.ops[j], q));
                std::vector<Val> r;
                if (F->isDeclaration()) {
                    r.assign(x.n, Val((u128)0));
                    if (!external(F, x, args, r, F->getName().str())) fail("call to unmodelled external function %s", demangle(F->getName().str()).c_str());
                } else r = callFn(F, args);
                for (unsigned j = 0; j < x.n; j++) fr.R[x.dst + j] = r[j];
                if (x.normalBB >= 0) next = x.normalBB;
                break; }
            default: fail("unsupported instruction in %s", f->name.c_str());
            }
        }
        if (next < 0) fail("fell off block");
        prev = bb;
        if (next == stop) { doPhis(fr, next, prev); return R_JOIN; }
        bb = next;
    nextblock:;
    }
}
static std::vector<Val> callFn(Function* F, const std::vector<Val>& args)
{
    Fn* f = compileFn(F);
    ST->fn[f->idx]++;
    // a constructor run on first use belongs to the thread it runs in (thread_local) or is locked by the runtime
    struct Depth { int& d; bool on; ~Depth() { if (on) d--; } } tls{TLSINIT, f->tlsinit};
    if (tls.on) TLSINIT++;
    if (CALLS.size() > 4000) fail("call depth");
    CALLS.push_back(f->name);
    Frame fr; fr.f = f; fr.R.assign(f->nslots, Val((u128)0)); fr.prev = -1;
    if (args.size() < (f->args.empty() ? 0 : 1)) fail("args");
    for (size_t i = 0; i < args.size() && i < f->nslots; i++) fr.R[i] = args[i];
    execFrom(fr, 0, -1, -1, false);
    if (!JRN) for (u64 id : fr.allocas) if (!OBJ[id]->freed) freeObj(OBJ[id]);
    CALLS.pop_back();
    return fr.ret;
}

// ------------------------------------------------------------- externals
static Val freshInput(const std::string& nm0, unsigned w)
{
    int k = OCC[nm0]++;
    std::string nm = nm0 + "." + std::to_string(k);
    if (g_replay) { auto it = REPLAY.find(nm); return Val((it == REPLAY.end() ? (u128)0 : it->second) & maskw(w)); }
    Expr* v = newVar(nm, w);
    INPUTS.push_back({nm, w, Val(v)});
    return Val(v);
}
static bool ompCall(const std::string& n, std::vector<Val>& a, std::vector<Val>& r)
{
    auto C = [&](int i) -> u64 { return a[i].e ? (u64)concretize(a[i], 64) : (u64)a[i].c; };
    auto rd = [&](int i, unsigned w, bool sg) -> i128 { auto* P = PAR; PAR = nullptr; Val v = memLoad(C(i), w); PAR = P; u64 q = v.e ? (u64)concretize(v, w) : (u64)v.c; return sg ? (w == 64 ? (i128)(i64)q : (i128)(int32_t)q) : (i128)q; };
    auto wr = [&](int i, i128 q, unsigned w) { auto* P = PAR; PAR = nullptr; memStore(C(i), Val((u128)q & maskw(w)), w); PAR = P; };
    auto range = [&](i128 lo, i128 hi, i128 st) -> u64 { return st > 0 ? (hi < lo ? 0 : (u64)((hi - lo) / st) + 1) : st < 0 ? (lo < hi ? 0 : (u64)((lo - hi) / -st) + 1) : 0; };
    if (n == "__kmpc_fork_call") {
        if (JRN) fail("parallel loop inside a merged branch");
        if (PAR) fail("nested parallel loop");
        auto it = FADDR.find(C(2)); if (it == FADDR.end()) fail("parallel region without a body");
        Function* F = it->second;
        u64 g = newObj(8, false, false, "thread number"), b = newObj(8, false, false, "thread number"); OBJ[g >> 32]->own = OBJ[b >> 32]->own = 1;
        std::vector<Val> args{Val((u128)g), Val((u128)b)};
        for (size_t i = 3; i < a.size(); i++) args.push_back(a[i]);
        ParLoop P; P.base = OBJ.size();
        // a thread that gets no iteration: tells the trip count
        PAR = &P; P.iter = -1; callFn(F, args);
        if (!P.inited) fail("parallel region without a loop");
        u64 t = P.trip;
        bool rev = t > 1 && decide(vExtract(freshInput("schedule", 8), 8, 0, 1));
        for (u64 k = 0; k < t; k++) {
            P.iter = (int)(rev ? t - 1 - k : k); P.inited = P.dispatched = false; P.quiet = 0; P.base = OBJ.size();
            callFn(F, args);
        }
        PAR = nullptr;
        ST->asserts++;  // no two iterations conflict (report() has not been called)
        return true;
    }
    if (n.rfind("__kmpc_for_static_init_", 0) == 0) {  // loc gtid sched plast plower pupper pstride incr chunk
        bool w8 = n.find("_8") != std::string::npos, uns = n.back() == 'u'; unsigned w = w8 ? 64 : 32;
        if (!PAR) return true;
        if (PAR->inited) fail("two loops in one parallel region");
        i128 lo = rd(4, w, !uns), hi = rd(5, w, !uns), inc = w8 ? (i128)(i64)C(7) : (i128)(int32_t)C(7);
        u64 t = range(lo, hi, inc); PAR->inited = true; PAR->trip = t;
        int k = PAR->iter;
        if (k < 0 || (u64)k >= t) { wr(4, hi + inc, w); wr(5, hi, w); }
        else { wr(4, lo + k * inc, w); wr(5, lo + k * inc, w); }
        wr(6, inc * (i128)std::max<u64>(t, 1), w); wr(3, k >= 0 && (u64)k + 1 == t, 32);
        return true;
    }
    if (n.rfind("__kmpc_dispatch_init_", 0) == 0) {  // loc gtid sched lower upper stride chunk
        bool w8 = n.find("_8") != std::string::npos, uns = n.back() == 'u';
        auto sx = [&](u64 q) -> i128 { return w8 ? (uns ? (i128)q : (i128)(i64)q) : (uns ? (i128)(uint32_t)q : (i128)(int32_t)q); };
        if (!PAR) fail("dynamic loop outside a parallel region");
        if (PAR->inited) fail("two loops in one parallel region");
        PAR->inited = true; PAR->dlo = sx(C(3)); PAR->dinc = w8 ? (i128)(i64)C(5) : (i128)(int32_t)C(5); PAR->trip = range(PAR->dlo, sx(C(4)), PAR->dinc);
        return true;
    }
    if (n.rfind("__kmpc_dispatch_next_", 0) == 0) {  // loc gtid plast plower pupper pstride
        unsigned w = n.find("_8") != std::string::npos ? 64 : 32;
        int k = PAR ? PAR->iter : -1;
        if (k < 0 || PAR->dispatched) { r[0] = Val((u128)0); return true; }
        PAR->dispatched = true; i128 v = PAR->dlo + k * PAR->dinc;
        wr(3, v, w); wr(4, v, w); wr(5, PAR->dinc, w); if (C(2)) wr(2, (u64)k + 1 == PAR->trip, 32);
        r[0] = Val((u128)1); return true;
    }
    if (n == "__kmpc_critical" || n == "__kmpc_critical_with_hint" || n.rfind("__kmpc_reduce", 0) == 0) { if (PAR) PAR->quiet++; if (!r.empty()) r[0] = Val((u128)1); return true; }
    if (n == "__kmpc_end_critical" || n.rfind("__kmpc_end_reduce", 0) == 0) { if (PAR && PAR->quiet) PAR->quiet--; return true; }
    if (n == "__kmpc_single" || n == "__kmpc_master") { r[0] = Val((u128)(!PAR || PAR->iter == 0)); return true; }
    if (n == "__kmpc_global_thread_num" || n == "omp_get_thread_num") { r[0] = Val((u128)(uint32_t)(PAR && PAR->iter > 0 ? PAR->iter : 0)); return true; }
    if (n == "omp_get_num_threads") { r[0] = Val((u128)(PAR ? std::max<u64>(1, PAR->trip) : 1)); return true; }
    if (n == "omp_get_max_threads" || n == "omp_get_num_procs") { r[0] = Val((u128)8); return true; }
    if (n == "__kmpc_for_static_fini" || n.rfind("__kmpc_dispatch_fini", 0) == 0 || n == "__kmpc_barrier" || n == "__kmpc_push_num_threads" || n == "__kmpc_end_single" || n == "__kmpc_end_master" || n == "__kmpc_serialized_parallel" || n == "__kmpc_end_serialized_parallel" || n == "omp_set_num_threads") return true;
    return false;
}
static std::unordered_map<u64, u64> heapSize;
static bool external(Function* F, const Ins& x, std::vector<Val>& a, std::vector<Val>& r, const std::string& n)
{
    auto C = [&](int i) -> u64 { return a[i].e ? (u64)concretize(a[i], 64) : (u64)a[i].c; };
    if (x.intr || F->getIntrinsicID()) {
        unsigned id = F->getIntrinsicID(); unsigned w = x.w;
        unsigned nl = x.n;
        auto each = [&](auto fn) { for (unsigned j = 0; j < nl; j++) r[j] = fn(j); return true; };
        switch (id) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(C(0), C(1), C(2)); return true;
        case Intrinsic::memset: { u64 d = C(0), len = C(2); if (!len) return true; Obj* o = resolve(d, len, "memset"); if (PAR) parAccess(o, d, len, true); journal(o, d, len);
            if (a[1].e) { for (u64 i = 0; i < len; i++) memStoreRaw(o, (uint32_t)d + i, a[1], 1); }
            else { memset(o->d + (uint32_t)d, (int)a[1].c, len); if (o->st) memset(o->st + (uint32_t)d, 0, len); } return true; }
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: return true;
        case Intrinsic::stacksave: return true;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: r[0] = a[0]; return true;
        case Intrinsic::is_constant: r[0] = Val((u128)0); return true;
        case Intrinsic::objectsize: r[0] = Val(maskw(F->getReturnType()->getIntegerBitWidth())); return true;
        case Intrinsic::trap: report(curModel, "trap executed"); return true;
        case Intrinsic::uadd_with_overflow: { Val s = vAdd(a[0], a[1], w); r[0] = s; r[1] = vUlt(s, a[0], w); return true; }
        case Intrinsic::usub_with_overflow: r[0] = vSub(a[0], a[1], w); r[1] = vUlt(a[0], a[1], w); return true;
        case Intrinsic::umul_with_overflow: { if (w > 64) fail("umulo"); Val p = vMul(vZext(a[0], w, 2 * w), vZext(a[1], w, 2 * w), 2 * w); r[0] = vTrunc(p, 2 * w, w); r[1] = vNot(vEq(vExtract(p, 2 * w, w, w), Val((u128)0), w)); return true; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned W = 2 * w; if (W > 128) fail("saddo"); Val p = vSext(a[0], w, W), q = vSext(a[1], w, W); Val s = id == Intrinsic::sadd_with_overflow ? vAdd(p, q, W) : id == Intrinsic::ssub_with_overflow ? vSub(p, q, W) : vMul(p, q, W);
            r[0] = vTrunc(s, W, w); r[1] = vNot(vEq(vSext(r[0], w, W), s, W)); return true; }
        case Intrinsic::uadd_sat: return each([&](unsigned j) { Val s = vAdd(a[j], a[nl + j], w); return vIte(vUlt(s, a[j], w), Val(maskw(w)), s, w); });
        case Intrinsic::usub_sat: return each([&](unsigned j) { return vIte(vUlt(a[j], a[nl + j], w), Val((u128)0), vSub(a[j], a[nl + j], w), w); });
        case Intrinsic::umax: return each([&](unsigned j) { return vIte(vUlt(a[j], a[nl + j], w), a[nl + j], a[j], w); });
        case Intrinsic::umin: return each([&](unsigned j) { return vIte(vUlt(a[j], a[nl + j], w), a[j], a[nl + j], w); });
        case Intrinsic::smax: return each([&](unsigned j) { return vIte(vSlt(a[j], a[nl + j], w), a[nl + j], a[j], w); });
        case Intrinsic::smin: return each([&](unsigned j) { return vIte(vSlt(a[j], a[nl + j], w), a[j], a[nl + j], w); });
        case Intrinsic::abs: { r.resize(nl); for (unsigned j = 0; j < nl; j++) r[j] = vIte(vSlt(a[j], Val((u128)0), w), vNeg(a[j], w), a[j], w); return true; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            for (unsigned j = 0; j < nl; j++) {
                Val hi = a[j], lo = a[nl + j], s = a[2 * nl + j]; u64 k = (u64)(s.e ? concretize(s, w) : s.c) % w;
                if (id == Intrinsic::fshl) r[j] = k == 0 ? hi : vAdd(vShl(hi, Val((u128)k), w), vLshr(lo, Val((u128)(w - k)), w), w);
                else r[j] = k == 0 ? lo : vAdd(vShl(hi, Val((u128)(w - k)), w), vLshr(lo, Val((u128)k), w), w);
            }
            return true; }
        case Intrinsic::bswap: { for (unsigned j = 0; j < nl; j++) { Val q((u128)0); for (unsigned i = 0; i < w / 8; i++) q = vAdd(q, vMulC(vField(a[j], w, 8 * i, 8, w), (u128)1 << (w - 8 - 8 * i), w), w); r[j] = q; } return true; }
        case Intrinsic::bitreverse: { for (unsigned j = 0; j < nl; j++) { Val q((u128)0); for (unsigned i = 0; i < w; i++) q = vAdd(q, vMulC(vField(a[j], w, i, 1, w), (u128)1 << (w - 1 - i), w), w); r[j] = q; } return true; }
        case Intrinsic::ctpop: { for (unsigned j = 0; j < nl; j++) { Val q((u128)0); for (unsigned i = 0; i < w; i++) q = vAdd(q, vField(a[j], w, i, 1, w), w); r[j] = q; } return true; }
        case Intrinsic::ctlz: { for (unsigned j = 0; j < nl; j++) { Val q((u128)w); for (unsigned i = 0; i < w; i++) q = vIte(vExtract(a[j], w, i, 1), Val((u128)(w - 1 - i)), q, w); r[j] = q; } return true; }
        case Intrinsic::cttz: { for (unsigned j = 0; j < nl; j++) { Val q((u128)w); for (unsigned i = w; i-- > 0;) q = vIte(vExtract(a[j], w, i, 1), Val((u128)i), q, w); r[j] = q; } return true; }
        case Intrinsic::fmuladd: case Intrinsic::fma: {
            char k = (*x.lv)[0].kind;
            for (unsigned j = 0; j < nl; j++) {
                Val p = a[j], q = a[nl + j], s = a[2 * nl + j];
                if (isReal(p) || isReal(q) || isReal(s) || id == Intrinsic::fmuladd) r[j] = fbin(Instruction::FAdd, fbin(Instruction::FMul, p, q, k), s, k);
                else if (!p.e && !q.e && !s.e) r[j] = Val(fromD(__builtin_fma(asD(p.c), asD(q.c), asD(s.c))));
                else r[j] = Val(mk(O_FFMA, 64, {p, q, s}));
            }
            return true; }
        case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::trunc: case Intrinsic::sqrt: case Intrinsic::cos: case Intrinsic::sin: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::exp2: case Intrinsic::pow: case Intrinsic::roundeven: case Intrinsic::maxnum: case Intrinsic::minnum: case Intrinsic::copysign: case Intrinsic::powi: case Intrinsic::ldexp: {
            char k = (*x.lv)[0].kind;
            for (unsigned j = 0; j < nl; j++) {
                if (a[j].e) {
                    if (isReal(a[j])) { if (id == Intrinsic::round || id == Intrinsic::floor || id == Intrinsic::rint || id == Intrinsic::trunc || id == Intrinsic::ceil || id == Intrinsic::nearbyint) { r[j] = a[j]; continue; } fail("math function on an abstract real"); }
                    Op o; switch (id) { case Intrinsic::fabs: o = O_FABS; break; case Intrinsic::floor: o = O_FFLOOR; break; case Intrinsic::ceil: o = O_FCEIL; break; case Intrinsic::round: o = O_FROUND; break; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: o = O_FRINT; break; case Intrinsic::trunc: o = O_FTRUNC; break; case Intrinsic::sqrt: o = O_FSQRT; break; default: fail("symbolic math intrinsic"); }
                    r[j] = k == 'f' ? f32(Val(mk(o, 64, {f64(a[j])}))) : Val(mk(o, 64, {a[j]})); continue;
                }
                double v = k == 'd' ? asD(a[j].c) : asF(a[j].c), y = 0, z = 0; if (a.size() > nl) { z = asD(a[nl + j].c); }
                switch (id) { case Intrinsic::fabs: y = fabs(v); break; case Intrinsic::floor: y = floor(v); break; case Intrinsic::ceil: y = ceil(v); break; case Intrinsic::round: y = round(v); break; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: y = rint(v); break; case Intrinsic::trunc: y = trunc(v); break; case Intrinsic::sqrt: y = sqrt(v); break; case Intrinsic::cos: y = cos(v); break; case Intrinsic::sin: y = sin(v); break; case Intrinsic::exp: y = exp(v); break; case Intrinsic::log: y = log(v); break; case Intrinsic::log2: y = log2(v); break; case Intrinsic::exp2: y = exp2(v); break; case Intrinsic::pow: y = pow(v, z); break; case Intrinsic::maxnum: y = fmax(v, z); break; case Intrinsic::minnum: y = fmin(v, z); break; case Intrinsic::copysign: y = copysign(v, z); break;
                case Intrinsic::powi: y = pow(v, (int)(int32_t)(u64)a[nl].c); break; case Intrinsic::ldexp: y = ldexp(v, (int)(int32_t)(u64)a[nl].c); break; }
                r[j] = k == 'd' ? Val(fromD(y)) : Val(fromF((float)y));
            }
            return true; }
        default: fail("unmodelled intrinsic %s", n.c_str());
        }
    }
    // --- harness API ---
    if (n == "sym_int") { r[0] = vZext(freshInput(cstr(C(1)), (unsigned)C(0)), (unsigned)C(0), 64); return true; }
    if (n == "sym_double") { r[0] = freshInput(cstr(C(0)), 64); return true; }
    if (n == "sym_assume") { Val v = a[0]; if (x.w != 1) v = vNot(vEq(v, Val((u128)0), x.w)); assume(v); return true; }
    if (n == "sym_assert") { Val v = a[0]; if (x.w != 1) v = vNot(vEq(v, Val((u128)0), x.w)); doAssert(v, cstr(C(1))); return true; }
    if (n == "sym_assert_eq") {
        unsigned b = (unsigned)C(2); std::string msg = cstr(C(4));
        Val e = vEq(vTrunc(a[0], 64, b), vTrunc(a[1], 64, b), b);
        if (getenv("TFSYM_SHOW") && e.e) fprintf(stderr, "assert_eq not syntactic: %s\n%s\n", msg.c_str(), show(e, atoi(getenv("TFSYM_SHOW"))).c_str());
        if (e.e && evalBool(e.e, curModel)) {
            // a sum of parts over disjoint variables vanishes iff every part is constant
            Val d = mergeCof(vSub(vTrunc(a[0], 64, b), vTrunc(a[1], 64, b), b), b);
            // a factor common to every term may be dropped: the rest vanishing is enough
            while (d.e && d.e->op == O_SUM && d.e->t.size() > 1 && !d.e->cst) {
                auto has = [&](Expr* t, Expr* f) { if (t == f) return true; if (t->op == O_MUL) for (auto& q : t->k) if (q.e == f) return true; return false; };
                std::vector<Expr*> cand; Expr* t0 = d.e->t[0].a;
                if (t0->op == O_MUL) { for (auto& q : t0->k) if (q.e) cand.push_back(q.e); } else cand.push_back(t0);
                Expr* f = nullptr;
                for (auto* c : cand) { bool all = true; for (auto& t : d.e->t) if (!has(t.a, c)) { all = false; break; } if (all) { f = c; break; } }
                if (!f) break;
                Val g((u128)0);
                for (auto& t : d.e->t) {
                    Val r((u128)1); bool dropped = false;
                    if (t.a->op == O_MUL) { for (auto& q : t.a->k) { if (!dropped && q.e == f) { dropped = true; continue; } r = vMul(r, q, b); } }
                    g = vAdd2(g, r, t.c, b);
                }
                d = mergeCof(g, b);
            }
            if (!d.e && !(d.c & maskw(b))) { ST->asserts++; ST->asserts_const++; return true; }
            if (d.e && d.e->op == O_SUM && d.e->t.size() > 1) {
                std::unordered_map<u64, u64> par; std::function<u64(u64)> find = [&](u64 q) { auto it = par.find(q); if (it == par.end()) { par[q] = q; return q; } return it->second == q ? q : it->second = find(it->second); };
                const u64 TB = 1ull << 40;
                for (size_t i = 0; i < d.e->t.size(); i++) for (auto v : SV->vars(d.e->t[i].a)) par[find(TB + i)] = find(v);
                std::map<u64, Val> comp;
                for (size_t i = 0; i < d.e->t.size(); i++) { auto& c = comp[find(TB + i)]; c = vAdd2(c, Val(d.e->t[i].a), d.e->t[i].c, b); }
                if (comp.size() > 1) {
                    bool all = true;
                    Evaluator ev(curModel);
                    if (getenv("TFSYM_SHOW")) fprintf(stderr, "parts: %zu of %zu terms, value %llx\n", comp.size(), d.e->t.size(), (unsigned long long)(ev.ev(d.e) & maskw(b)));
                    if (ev.ev(d.e) & maskw(b)) all = false;
                    else for (auto& kv : comp) {
                        if (!kv.second.e) continue;
                        Val q = vEq(kv.second, Val(ev.ev(kv.second.e) & maskw(b)), b); Model m;
                        if (!q.e && (q.c & 1)) continue;
                        checkStop();
                        int r = q.e ? feasible(vNot(q), &m) : 1;
                        if (r == 0) continue;
                        if (r == 1 && q.e && !evalBool(e.e, m)) { ST->asserts++; report(m, msg); }
                        all = false; break;
                    }
                    if (all) { ST->asserts++; return true; }
                }
            }
        }
        doAssert(e, msg); return true; }
    // residues: sym_res(op, a, b, mult, mod, lo, hi, unsigned)  op 0: a, 1: a+b, 2: a-b, 3: a*b   (times mult)
    if (n == "sym_res") {
        unsigned op = (unsigned)C(0); u64 mult = C(3), p = C(4); i128 lo, hi; bool uns = C(7); if (uns) { lo = (i128)C(5); hi = (i128)C(6); } else { lo = (i64)C(5); hi = (i64)C(6); }
        RPoly A = rFrom(a[1], uns, p);
        if (op) { RPoly B = rFrom(a[2], uns, p); A = op == 1 ? rAdd(A, B, 1, p) : op == 2 ? rAdd(A, B, p - 1, p) : rMulP(A, B, p); }
        if (mult != 1) A = rScale(A, mult % p, p);
        r[0] = resFresh(std::move(A), p, lo, hi); return true; }
    if (n == "sym_assert_cong") {
        u64 p = C(2); bool uns = C(3); std::string msg = cstr(C(4));
        RPoly A = rAdd(rFrom(a[0], uns, p), rFrom(a[1], uns, p), p - 1, p);
        ST->asserts++;
        if (A.t.empty()) { ST->asserts_const++; return true; }
        // a nonzero polynomial modulo p: look for inputs where it does not vanish
        std::unordered_set<uint32_t> vs; for (auto& t : A.t) for (auto id : t.first) for (auto v : SV->vars(allExprs()[id])) vs.insert(v);
        for (int i = 0; i < 2000; i++) {
            Model q = curModel;
            if (i) for (auto v : vs) { q[v] = (i < 200 ? rnd() % 3 : rnd()) & maskw(allExprs()[v]->w); }
            Evaluator ev(q); bool ok = true;
            for (auto* pc : PC) if (!ev.ev(pc)) { ok = false; break; }
            if (ok && rEval(A, ev, p)) report(q, msg);
        }
        ST->inconclusive = 1; fprintf(stderr, "undecided congruence: %s\n", msg.c_str());
        if (getenv("TFSYM_RES")) { int q = 0; for (auto& t : A.t) { if (q++ > 6) break; fprintf(stderr, "  %llx", (unsigned long long)t.second); for (auto id : t.first) fprintf(stderr, " * %s", show(Val(allExprs()[id]), 4).c_str()); fprintf(stderr, "\n"); } }
        return true; }
    if (n == "sym_reach") {
        std::string s = cstr(C(0));
        for (int i = 0; i < 256; i++) {
            if (i < ST->nreach.load()) { if (s == ST->reach[i].name) { ST->reach[i].n++; return true; } continue; }
            // only the first process registers; racing registrations of the same name are merged by the driver
            int z = i; if (ST->nreach.compare_exchange_strong(z, i + 1)) { snprintf(ST->reach[i].name, 64, "%s", s.c_str()); ST->reach[i].n++; return true; }
        }
        return true; }
    if (n == "sym_concretize") { r[0] = Val(concretize(a[0], 64)); return true; }
    if (n == "sym_is_engine") { r[0] = Val((u128)1); return true; }
    if (n == "sym_merge") { r[0] = Val((u128)(polyIte ? 2 : mergeOn)); mergeOn = C(0); polyIte = C(0) == 2; return true; }
    if (n == "sym_fork") { bool o = mergeOn; (void)o; Val v = a[0]; if (x.w != 1) v = vNot(vEq(v, Val((u128)0), x.w)); r[0] = Val((u128)decide(v)); return true; }
    if (n == "sym_ite") { Val v = a[0]; if (x.w != 1) v = vNot(vEq(v, Val((u128)0), x.w)); r[0] = vIte(v, a[1], a[2], 64); return true; }
    if (n == "sym_and" || n == "sym_or" || n == "sym_implies") {
        auto B = [&](Val v) { return x.w == 1 ? v : vNot(vEq(v, Val((u128)0), x.w)); };
        Val p = B(a[0]), q = B(a[1]); Val z = n == "sym_and" ? vBit(O_AND, p, q, 1) : n == "sym_or" ? vBit(O_OR, p, q, 1) : vBit(O_OR, vNot(p), q, 1);
        r[0] = vZext(z, 1, F->getReturnType()->getIntegerBitWidth()); return true; }
    if (n == "sym_log") { fprintf(stderr, "log: %s", cstr(C(0)).c_str()); if (a[1].e) { Evaluator ev(curModel); fprintf(stderr, " <sym %s w%u t%zu> e.g. %llx\n", opname[a[1].e->op], a[1].e->w, a[1].e->t.size(), (unsigned long long)(u64)ev.ev(a[1].e)); } else fprintf(stderr, " %llx\n", (unsigned long long)(u64)a[1].c); return true; }
    if (n == "sym_is_symbolic") { r[0] = Val((u128)(a[0].e != nullptr)); return true; }
    if (n == "sym_real_i64") { r[0] = mkReal({vSext(a[0], 64, 128), Val((u128)0), 0}); return true; }
    if (n == "sym_real_u64") { r[0] = mkReal({vZext(a[0], 64, 128), Val((u128)0), 0}); return true; }
    if (n == "sym_real_mul_s") { Rl x = real(a[0]); r[0] = mkReal({x.Q, vMulC(x.P, 2, 128), x.k + 1}); return true; }  // * sqrt(1/2)
    if (n == "sym_real_half") { Rl x = real(a[0]); x.k++; r[0] = mkReal(x); return true; }
    if (n == "sym_real_low") { r[0] = vTrunc(realInt(a[0]), 128, 64); return true; }
    if (n == "sym_real_divtrunc") { Val q = realInt(a[0]); r[0] = vTrunc(vDiv(O_SDIV, q, Val((u128)C(1)), 128), 128, 64); return true; }
    if (n == "sym_real_divround") {  // round(x / d) with ties away from zero, d a power of two
        Val q = realInt(a[0]); u64 d = C(1); unsigned s = 0; while ((1ull << s) != d && s < 63) s++;
        Val h = vAdd(q, Val((u128)(d / 2)), 128);
        Val neg = vSlt(q, Val((u128)0), 128);
        // floor((q + d/2 - neg) / d)  (ties away from zero)
        Val t = d == 1 ? q : vAshr(vSub(h, vZext(neg, 1, 128), 128), Val((u128)s), 128);
        r[0] = vTrunc(t, 128, 64); return true; }
    if (n == "sym_polymul") {  // (double* res, const double* a, const double* b, uint64 n, int acc) negacyclic
        u64 R = C(0), A = C(1), B = C(2), N = C(3); int acc = (int)C(4);
        std::vector<Val> va(N), vb(N), vr(N, Val((u128)0));
        for (u64 i = 0; i < N; i++) { va[i] = realInt(memLoad(A + 8 * i, 64)); vb[i] = realInt(memLoad(B + 8 * i, 64)); if (acc) vr[i] = realInt(memLoad(R + 8 * i, 64)); }
        for (u64 k = 0; k < N; k++) {
            Val s = vr[k];
            for (u64 i = 0; i < N; i++) { u64 j = (k + N - i) % N; Val p = vMul(va[i], vb[j], 128); if (!p.e && !p.c) continue; s = i > k ? vSub(s, p, 128) : vAdd(s, p, 128); }
            memStore(R + 8 * k, mkReal({s, Val((u128)0), 0}), 64);
        }
        return true; }
    if (n == "sym_uf") {  // (id, n, args*...) -> 64-bit uninterpreted
        u64 idf = C(0), cnt = C(1), p = C(2); std::vector<Val> k; bool sym = false;
        for (u64 i = 0; i < cnt; i++) { Val v = memLoad(p + 8 * i, 64); if (v.e) sym = true; k.push_back(v); }
        (void)sym; r[0] = Val(mk(O_UF, 64, k, idf)); return true; }
    // --- C / C++ runtime ---
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t") { r[0] = Val((u128)newObj(C(0), true, true, "heap")); return true; }
    if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { r[0] = Val((u128)newObj(C(0), true, true, "heap")); return true; }
    if (n == "aligned_alloc" || n == "memalign") { r[0] = Val((u128)newObj(C(1), true, true, "heap")); return true; }
    if (n == "calloc") { r[0] = Val((u128)newObj(C(0) * C(1), false, true, "heap")); return true; }
    if (n == "posix_memalign") { u64 p = newObj(C(2), true, true, "heap"); memStore(C(0), Val((u128)p), 64); r[0] = Val((u128)0); return true; }
    if (n == "free" || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) {
        u64 p = C(0); if (!p) return true; u64 id = p >> 32;
        if ((p & 0xffffffff) || id >= OBJ.size() || !OBJ[id]->heap || OBJ[id]->freed) report(curModel, "memory error: invalid free");
        if (!JRN) freeObj(OBJ[id]); return true; }
    if (n == "memcpy" || n == "memmove") { memCopy(C(0), C(1), C(2)); r[0] = a[0]; return true; }
    if (n == "memset") { u64 d = C(0), len = C(2); r[0] = a[0]; if (!len) return true; Obj* o = resolve(d, len, "memset"); if (PAR) parAccess(o, d, len, true); journal(o, d, len); memset(o->d + (uint32_t)d, (int)C(1), len); if (o->st) memset(o->st + (uint32_t)d, 0, len); return true; }
    if (n == "memcmp" || n == "bcmp") {
        u64 p = C(0), q = C(1), len = C(2); Val eq((u128)1); bool sym = false;
        std::vector<Val> pa, pb;
        for (u64 i = 0; i < len; i++) { pa.push_back(memLoad(p + i, 8)); pb.push_back(memLoad(q + i, 8)); if (pa[i].e || pb[i].e) sym = true; }
        if (!sym) { int z = 0; for (u64 i = 0; i < len; i++) if (pa[i].c != pb[i].c) { z = pa[i].c < pb[i].c ? -1 : 1; break; } r[0] = Val((u128)(uint32_t)z); return true; }
        // word-wise where possible
        u64 i = 0;
        while (i < len) { unsigned st = i + 8 <= len ? 8 : i + 4 <= len ? 4 : i + 2 <= len ? 2 : 1; eq = vBit(O_AND, eq, vEq(memLoad(p + i, 8 * st), memLoad(q + i, 8 * st), 8 * st), 1); i += st; }
        Val lt((u128)0);
        for (u64 k = len; k-- > 0;) lt = vIte(vEq(pa[k], pb[k], 8), lt, vUlt(pa[k], pb[k], 8), 1);
        r[0] = vIte(eq, Val((u128)0), vIte(lt, Val((u128)0xffffffffu), Val((u128)1), 32), 32);
        return true; }
    if (n == "strlen") { r[0] = Val((u128)cstr(C(0)).size()); return true; }
    if (n == "strcmp") { int z = cstr(C(0)).compare(cstr(C(1))); r[0] = Val((u128)(uint32_t)(z < 0 ? -1 : z > 0)); return true; }
    if (n == "abort" || n == "_ZSt9terminatev") { report(curModel, "abort() called"); return true; }
    if (n == "exit") { throw PathEnd{0}; }
    if (n == "__assert_fail") { report(curModel, "library assertion failed: " + cstr(C(0))); return true; }
    if (n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "atexit") { r[0] = Val((u128)0); return true; }
    if (n == "__cxa_guard_acquire") { auto* P = PAR; PAR = nullptr; Val v = memLoad(C(0), 8); PAR = P; if (!v.e && v.c) r[0] = Val((u128)0); else { r[0] = Val((u128)1); GUARD++; } return true; }
    if (n == "__cxa_guard_release") { auto* P = PAR; PAR = nullptr; memStore(C(0), Val((u128)1), 8); PAR = P; if (GUARD) GUARD--; return true; }
    // --- OpenMP runtime: one iteration per thread ---
    if (n.rfind("__kmpc_", 0) == 0 || n.rfind("omp_", 0) == 0) return ompCall(n, a, r);
    if (n == "__cxa_allocate_exception") { r[0] = Val((u128)newObj(C(0), true, true, "exception")); return true; }
    if (n == "__cxa_throw" || n.rfind("_ZSt", 0) == 0 && n.find("__throw") != std::string::npos) { report(curModel, "exception thrown: " + demangle(n)); return true; }
    if (n == "__cxa_begin_catch" || n == "__cxa_end_catch" || n == "__cxa_free_exception" || n == "__gxx_personality_v0") return true;
    if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return true;
    if (n == "pthread_mutex_lock" || n == "pthread_mutex_unlock" || n == "__gthread_active_p" || n == "pthread_once") return true;
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush") return true;
    auto d1 = [&](double (*fn)(double)) { if (a[0].e) fail("symbolic argument to %s", n.c_str()); r[0] = Val(fromD(fn(asD(a[0].c)))); return true; };
    if (n == "round" || n == "floor" || n == "ceil" || n == "trunc" || n == "rint" || n == "nearbyint" || n == "fabs" || n == "sqrt") {
        if (a[0].e) { if (isReal(a[0])) { r[0] = a[0]; return true; } r[0] = Val(mk(n == "round" ? O_FROUND : n == "floor" ? O_FFLOOR : n == "ceil" ? O_FCEIL : n == "trunc" ? O_FTRUNC : n == "fabs" ? O_FABS : n == "sqrt" ? O_FSQRT : O_FRINT, 64, {a[0]})); return true; }
        return d1(n == "round" ? (double (*)(double))round : n == "floor" ? (double (*)(double))floor : n == "ceil" ? (double (*)(double))ceil : n == "trunc" ? (double (*)(double))trunc : n == "fabs" ? (double (*)(double))fabs : n == "sqrt" ? (double (*)(double))sqrt : (double (*)(double))rint);
    }
    if ((n == "roundf" || n == "floorf" || n == "ceilf" || n == "truncf" || n == "rintf" || n == "nearbyintf" || n == "fabsf") && a[0].e) {
        r[0] = f32(Val(mk(n == "roundf" ? O_FROUND : n == "floorf" ? O_FFLOOR : n == "ceilf" ? O_FCEIL : n == "truncf" ? O_FTRUNC : n == "fabsf" ? O_FABS : O_FRINT, 64, {f64(a[0])}))); return true;
    }
    if (n == "roundf" || n == "floorf" || n == "ceilf" || n == "truncf" || n == "rintf" || n == "fabsf") { float v = asF(a[0].c); r[0] = Val(fromF(n == "roundf" ? roundf(v) : n == "floorf" ? floorf(v) : n == "ceilf" ? ceilf(v) : n == "truncf" ? truncf(v) : n == "fabsf" ? fabsf(v) : rintf(v))); return true; }
    if (n == "sin") return d1(sin); if (n == "cos") return d1(cos); if (n == "exp") return d1(exp); if (n == "log") return d1(log); if (n == "log2") return d1(log2); if (n == "exp2") return d1(exp2); if (n == "tan") return d1(tan);
    if (n == "pow") { if (a[0].e || a[1].e) fail("symbolic pow"); r[0] = Val(fromD(pow(asD(a[0].c), asD(a[1].c)))); return true; }
    if (n == "fmod") { if (a[0].e || a[1].e) fail("symbolic fmod"); r[0] = Val(fromD(fmod(asD(a[0].c), asD(a[1].c)))); return true; }
    if (n == "modf") { if (a[0].e) fail("symbolic modf"); double ip; double fp = modf(asD(a[0].c), &ip); memStore(C(1), Val(fromD(ip)), 64); r[0] = Val(fromD(fp)); return true; }
    if (n == "ldexp") { if (a[0].e) fail("symbolic ldexp"); r[0] = Val(fromD(ldexp(asD(a[0].c), (int)(int32_t)(u64)a[1].c))); return true; }
    if (n == "_ZNSt13random_device9_M_getvalEv") { r[0] = Val((u128)0x12345678); return true; }
    if (n.rfind("_ZNSt13random_device", 0) == 0) return true;
    return false;
}

static bool resVar(Evaluator& ev, Expr* e, u128& out)
{
    auto it = RESDEF.find(e->id); if (it == RESDEF.end()) return false;
    out = rEval(it->second, ev, RESMOD[e->id]); return true;
}
int main(int argc, char** argv)
{
    g_varEval = resVar;
    std::vector<std::string> files; std::string entry = "harness", outp = "-"; std::string passes = "O1"; bool dump = false; unsigned qto = 60000; double wall = 600; int procs = 8; std::vector<std::string> noinl; std::vector<std::pair<std::string, std::string>> redirects;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (s == "-version") { puts("tfsym 1"); return 0; }
        if (s == "-e") entry = nx(); else if (s == "-o") outp = nx(); else if (s == "-O") passes = nx(); else if (s == "-d") dump = true;
        else if (s == "-qt") qto = (unsigned)(atof(nx().c_str()) * 1000); else if (s == "-t") wall = atof(nx().c_str()); else if (s == "-p") procs = atoi(nx().c_str());
        else if (s == "-strict") strictUB = true; else if (s == "-noinline") noinl.push_back(nx()); else if (s == "-mul") g_mulLimit = atoll(nx().c_str());
        else if (s == "-seed") { rngState ^= strtoull(nx().c_str(), 0, 10) * 0x9e3779b97f4a7c15ull; }
        else if (s == "-redirect") { std::string v = nx(); size_t p = v.rfind('='); redirects.push_back({v.substr(0, p), v.substr(p + 1)}); }
        else if (s == "-replay") { g_replay = true; FILE* q = fopen(nx().c_str(), "r"); if (!q) return 2; char line[4096], nm[2048]; unsigned w; unsigned long long v; while (fgets(line, sizeof line, q)) if (sscanf(line, "in %2000s %u %llu", nm, &w, &v) == 3) REPLAY[nm] = v; fclose(q); }
        else files.push_back(s);
    }
    ST = (Stats*)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ST->tokens = procs - 1;
    double t0 = now();
    deadline = t0 + wall;
    LLVMContext Ctx; SMDiagnostic err;
    std::unique_ptr<Module> M;
    for (auto& f : files) {
        auto m = parseIRFile(f, err, Ctx);
        if (!m) { err.print("tfsym", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link error\n"); return 2; }
    }
    Function* E = M->getFunction(entry);
    if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    static DataLayout dl = M->getDataLayout(); DL = &dl;
    for (auto& F : *M) if (!F.isDeclaration()) for (auto& p : noinl) if (demangle(F.getName().str()).find(p) != std::string::npos) { F.addFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline); }
    for (auto& rd : redirects) {
        Function* T = M->getFunction(rd.second);
        if (!T) { fprintf(stderr, "no redirect target %s\n", rd.second.c_str()); return 2; }
        std::vector<Function*> fs;
        for (auto& F : *M) if (demangle(F.getName().str()).find(rd.first) != std::string::npos || F.getName().contains(rd.first)) fs.push_back(&F);  // some names do not demangle
        for (auto* F : fs) { F->replaceAllUsesWith(T); }
    }
    // keep only the static initialisers of globals that the entry point can reach
    {
        auto* gc = M->getGlobalVariable("llvm.global_ctors");
        std::vector<Function*> roots;
        std::unordered_set<const Value*> reach; std::vector<const Value*> work;
        auto touch = [&](const Value* v) { if (isa<GlobalValue>(v) && reach.insert(v).second) work.push_back(v); };
        std::function<void(const Value*)> visitC = [&](const Value* v) {
            if (isa<GlobalValue>(v)) { touch(v); return; }
            if (auto* c = dyn_cast<Constant>(v)) for (auto& o : c->operands()) visitC(o.get());
        };
        auto drain = [&]() {
            while (!work.empty()) {
                auto* v = work.back(); work.pop_back();
                if (auto* f = dyn_cast<Function>(v)) { for (auto& b : *f) for (auto& i : b) for (auto& o : i.operands()) if (isa<Constant>(o.get())) visitC(o.get()); }
                else if (auto* g = dyn_cast<GlobalVariable>(v)) { if (g->hasInitializer()) visitC(g->getInitializer()); }
                else if (auto* al = dyn_cast<GlobalAlias>(v)) visitC(al->getAliasee());
            }
        };
        touch(E); drain();
        std::vector<Function*> cand; std::unordered_set<Function*> subs;
        std::vector<Constant*> entries;
        if (gc && gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(&*o); auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()); if (!fn) continue;
                if (fn->getName().starts_with("_GLOBAL__sub_I_")) { subs.insert(fn); for (auto& b : *fn) for (auto& i : b) if (auto* cb = dyn_cast<CallBase>(&i)) if (cb->getCalledFunction() && !cb->getCalledFunction()->isIntrinsic()) cand.push_back(cb->getCalledFunction()); }
                else cand.push_back(fn); }
        std::unordered_set<Function*> keep;
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto* f : cand) {
                if (keep.count(f)) continue;
                bool need = false;
                for (auto& b : *f) for (auto& i : b) for (auto& o : i.operands()) {
                    auto* base = o.get()->getType()->isPointerTy() ? o.get()->stripInBoundsConstantOffsets() : o.get();
                    if (auto* g = dyn_cast<GlobalVariable>(base)) if (!g->isConstant() && reach.count(g) && g->getName() != "__dso_handle") need = true;
                }
                if (need) { keep.insert(f); touch(f); drain(); ch = true; }
            }
        }
        for (auto* f : subs) for (auto& b : *f) for (auto it = b.begin(); it != b.end();) { auto* cb = dyn_cast<CallBase>(&*it++); if (cb && cb->getCalledFunction() && !cb->getCalledFunction()->isIntrinsic() && !keep.count(cb->getCalledFunction())) cb->eraseFromParent(); }
        if (gc && gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<Constant*> el;
            for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(&*o); auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts()); if (fn && (subs.count(fn) || keep.count(fn))) el.push_back(cast<Constant>(&*o)); }
            auto* at = ArrayType::get(ca->getType()->getElementType(), el.size());
            auto* ng = new GlobalVariable(*M, at, false, GlobalValue::AppendingLinkage, ConstantArray::get(at, el));
            gc->eraseFromParent(); ng->setName("llvm.global_ctors");
        }
        for (auto* v : reach) if (auto* f = dyn_cast<Function>(v)) if (!f->isDeclaration()) ENCODED.push_back(f->getName().str());
        std::sort(ENCODED.begin(), ENCODED.end());
        if (getenv("TFSYM_CTORS")) for (auto* f : keep) fprintf(stderr, "static initialiser kept: %s\n", f->getName().str().c_str());
    }
    {
        internalizeModule(*M, [&](const GlobalValue& g) { return g.getName() == entry; });
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false;
        PassBuilder PB(nullptr, PTO);
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(GlobalDCEPass());
        if (passes == "O1") MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1));
        else if (passes == "O2") MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O2));
        else { if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << toString(std::move(e)) << "\n"; return 2; } }
        MPM.run(*M, MAM);
    }
    if (dump) { M->print(errs(), nullptr); }
    E = M->getFunction(entry);
    for (auto& F : *M) if (!F.isDeclaration() && FNAMES.size() < (1 << 16) - 2) { FIDX[&F] = FNAMES.size(); FNAMES.push_back(demangle(F.getName().str())); }
    double tload = now() - t0;
    SV = new Solver(); SV->timeout_ms = qto;
    pid_t root = getpid();
    try {
        // static constructors
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, Function*>> cs;
            for (auto& o : ca->operands()) { auto* s = cast<ConstantStruct>(&*o); if (auto* fn = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), fn}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto& p, auto& q) { return p.first < q.first; });
            for (auto& p : cs) callFn(p.second, {});
        }
        callFn(E, {});
        ST->paths++;
    } catch (PathEnd& p) { if (p.kind == 1) ST->killed++; else if (p.kind == 0) ST->paths++; else if (p.kind == 2) ST->killed++; }
    ST->insts += instBudgetTick;
    // wait for children
    while (!kids.empty()) { reap(true); }
    if (holdsToken) ST->tokens++;
    if (getpid() != root) _exit(0);
    FILE* o = outp == "-" ? stdout : fopen(outp.c_str(), "w");
    auto esc = [](const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; };
    fprintf(o, "{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"merges\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"asserts\":%llu,\"asserts_const\":%llu,\"assumes\":%llu,\"instructions\":%llu,\"solver_s\":%.3f,\"load_s\":%.3f,\"wall_s\":%.3f,\"violated\":%d,\"error\":%d,\"inconclusive\":%d,\n",
        (unsigned long long)ST->paths, (unsigned long long)ST->killed, (unsigned long long)ST->forks, (unsigned long long)ST->merges, (unsigned long long)ST->queries, (unsigned long long)ST->sat, (unsigned long long)ST->unsat, (unsigned long long)ST->unknown, (unsigned long long)ST->asserts, (unsigned long long)ST->asserts_const, (unsigned long long)ST->assumes, (unsigned long long)ST->insts, ST->solver_us / 1e6, tload, now() - t0, ST->violated ? 1 : 0, ST->error ? 1 : 0, ST->inconclusive ? 1 : 0);
    fprintf(o, "\"reach\":{");
    std::map<std::string, u64> rc; for (int i = 0; i < ST->nreach; i++) rc[ST->reach[i].name] += ST->reach[i].n;
    bool first = true; for (auto& kv : rc) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", esc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
    fprintf(o, "},\n\"functions\":{");
    first = true; for (size_t i = 0; i < FNAMES.size() && i < (1 << 16); i++) if (ST->fn[i]) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", esc(FNAMES[i]).c_str(), (unsigned long long)ST->fn[i].load()); first = false; }
    fprintf(o, "},\n\"encoded\":["); for (size_t i = 0; i < ENCODED.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", esc(ENCODED[i]).c_str());
    fprintf(o, "],\n\"cex\":\"%s\",\n\"err\":\"%s\"}\n", ST->violated ? esc(ST->viol).c_str() : "", ST->error ? esc(ST->err).c_str() : "");
    if (o != stdout) fclose(o);
    return 0;
}
