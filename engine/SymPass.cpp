// Symbolic-execution instrumentation for Cantera: every double-valued operation of the real code
// also builds a node of an expression DAG (see runtime.cpp). Values, memory layout, virtual calls
// and containers stay native; only doubles (and comparisons of doubles) carry a symbolic shadow.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringMap.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "symops.h"
using namespace llvm;

namespace {

static const int MAXARGS = 32;

struct SymInstrument {
    Module& M;
    LLVMContext& C;
    Type *I1, *I32, *I64, *D, *V;
    PointerType* P;
    FunctionCallee fBin, fUn, fFcmp, fBool, fBranch, fLoad, fLoadI, fStore, fStoreI, fMemcpy, fMemset,
        fGetArg, fGetRet, fFptoi, fLost;
    GlobalVariable *gArgs, *gRet;
    StringMap<int> unary, binary;
    ConstantInt* Z;

    SymInstrument(Module& M) : M(M), C(M.getContext()) {
        I1 = Type::getInt1Ty(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C);
        D = Type::getDoubleTy(C); V = Type::getVoidTy(C); P = PointerType::getUnqual(C);
        Z = ConstantInt::get(Type::getInt32Ty(C), 0);
        fBin = M.getOrInsertFunction("__sym_bin", I32, I32, I32, I32, D, D, D, P);
        fUn = M.getOrInsertFunction("__sym_un", I32, I32, I32, D, D, P);
        fFcmp = M.getOrInsertFunction("__sym_fcmp", I32, I32, I32, I32, D, D, I32, P);
        fBool = M.getOrInsertFunction("__sym_bool", I32, I32, I32, I32, I32, I32, I32);
        fBranch = M.getOrInsertFunction("__sym_branch", V, I32, I32, P, I32);
        fLoad = M.getOrInsertFunction("__sym_load", I32, P, D);
        fLoadI = M.getOrInsertFunction("__sym_loadi", I32, P, I64);
        fStore = M.getOrInsertFunction("__sym_store", V, P, I32, D);
        fStoreI = M.getOrInsertFunction("__sym_storei", V, P, I32);
        fMemcpy = M.getOrInsertFunction("__sym_memcpy", V, P, P, I64);
        fMemset = M.getOrInsertFunction("__sym_memset", V, P, I64);
        fGetArg = M.getOrInsertFunction("__sym_getarg", I32, I32, D);
        fGetRet = M.getOrInsertFunction("__sym_getret", I32, I32, D);
        fFptoi = M.getOrInsertFunction("__sym_fptoi", V, I32, D, I64, P);
        fLost = M.getOrInsertFunction("__sym_lost", V, I32, P, P);
        gArgs = extArr("__sym_args", MAXARGS);
        gRet = extArr("__sym_ret", 4);
        for (auto& [n, op] : std::initializer_list<std::pair<const char*, int>>{
                 {"fabs", OP_ABS}, {"sqrt", OP_SQRT}, {"exp", OP_EXP}, {"log", OP_LOG}, {"log10", OP_LOG10},
                 {"sin", OP_SIN}, {"cos", OP_COS}, {"tan", OP_TAN}, {"asin", OP_ASIN}, {"acos", OP_ACOS},
                 {"atan", OP_ATAN}, {"sinh", OP_SINH}, {"cosh", OP_COSH}, {"tanh", OP_TANH},
                 {"cbrt", OP_CBRT}, {"expm1", OP_EXPM1}, {"log1p", OP_LOG1P}, {"floor", OP_FLOOR},
                 {"ceil", OP_CEIL}, {"trunc", OP_TRUNC}, {"round", OP_ROUND}, {"rint", OP_RINT},
                 {"nearbyint", OP_RINT}, {"exp2", OP_EXP2}, {"log2", OP_LOG2}, {"erf", OP_ERF},
                 {"tgamma", OP_TGAMMA}})
            unary[n] = op;
        for (auto& [n, op] : std::initializer_list<std::pair<const char*, int>>{
                 {"pow", OP_POW}, {"fmin", OP_FMIN}, {"fmax", OP_FMAX}, {"atan2", OP_ATAN2},
                 {"copysign", OP_COPYSIGN}, {"hypot", OP_HYPOT}, {"fmod", OP_FMOD}})
            binary[n] = op;
    }
    GlobalVariable* extArr(const char* n, int k) {
        auto* T = ArrayType::get(I32, k);
        if (auto* g = M.getGlobalVariable(n)) return g;
        return new GlobalVariable(M, T, false, GlobalValue::ExternalLinkage, nullptr, n);
    }
    Value* slot(IRBuilder<>& B, GlobalVariable* g, int i) {
        return B.CreateConstInBoundsGEP2_32(g->getValueType(), g, 0, i);
    }

    // ---- per function state
    Function* F = nullptr;
    Value* fnName = nullptr;
    DenseMap<Value*, Value*> sh;
    DenseMap<Value*, SmallVector<Value*, 4>> agg;
    int site = 0;

    Value* S(Value* v) {
        auto it = sh.find(v);
        return it == sh.end() ? (Value*)Z : it->second;
    }
    bool zero(Value* s) { return s == Z; }
    bool isD(Type* t) { return t->isDoubleTy(); }
    bool hasD(Type* t) {
        if (isD(t)) return true;
        if (auto* st = dyn_cast<StructType>(t)) {
            if (st->getNumElements() > 4) return false;
            for (auto* e : st->elements()) if (isD(e)) return true;
        }
        return false;
    }
    bool tracked64(Instruction* I) {
        if (!I->getType()->isIntegerTy(64)) return false;
        for (User* u : I->users()) {
            if (auto* s = dyn_cast<StoreInst>(u)) { if (s->getValueOperand() == I) return true; }
            else if (isa<PHINode>(u) || isa<SelectInst>(u)) return true;
            else if (auto* b = dyn_cast<BitCastInst>(u)) { if (isD(b->getType())) return true; }
        }
        return false;
    }
    void branchOn(IRBuilder<>& B, Value* c) {
        Value* s = S(c);
        if (zero(s)) return;
        B.CreateCall(fBranch, {s, B.CreateZExt(c, I32), fnName, ConstantInt::get(I32, site++)});
    }
    // after-the-definition builder
    IRBuilder<> after(Instruction* I) {
        return IRBuilder<>(I->getNextNode());
    }

    void run(Function& Fn) {
        F = &Fn; sh.clear(); agg.clear(); site = 0;
        // split normal edges of invokes that return doubles
        SmallVector<InvokeInst*, 8> inv;
        for (auto& I : instructions(Fn))
            if (auto* ii = dyn_cast<InvokeInst>(&I)) if (hasD(ii->getType())) inv.push_back(ii);
        for (auto* ii : inv) SplitEdge(ii->getParent(), ii->getNormalDest());

        std::vector<Instruction*> order;
        ReversePostOrderTraversal<Function*> rpo(&Fn);
        for (auto* BB : rpo) for (auto& I : *BB) order.push_back(&I);

        IRBuilder<> B0(&*Fn.getEntryBlock().getFirstNonPHIOrDbgOrAlloca());
        fnName = nullptr;
        {
            // private string constant with the function's name
            Constant* str = ConstantDataArray::getString(C, Fn.getName());
            auto* g = new GlobalVariable(M, str->getType(), true, GlobalValue::PrivateLinkage, str, "__sym_fn");
            fnName = g;
        }
        // arguments
        int k = 0;
        for (auto& A : Fn.args()) {
            if (!isD(A.getType())) continue;
            if (k < MAXARGS)
                sh[&A] = B0.CreateCall(fGetArg, {ConstantInt::get(I32, k), &A});
            k++;
        }
        // phi placeholders
        std::vector<PHINode*> phis;
        for (auto* I : order)
            if (auto* p = dyn_cast<PHINode>(I))
                if (isD(p->getType()) || p->getType()->isIntegerTy(1) || tracked64(p)) phis.push_back(p);
        for (auto* p : phis) {
            auto* s = PHINode::Create(I32, p->getNumIncomingValues(), "", p);
            sh[p] = s;
        }
        for (auto* I : order) visit(I);
        for (auto* p : phis) {
            auto* s = cast<PHINode>(sh[p]);
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
                s->addIncoming(S(p->getIncomingValue(i)), p->getIncomingBlock(i));
        }
    }

    void bin(Instruction* I, int op, Value* a, Value* b) {
        if (zero(S(a)) && zero(S(b))) return;
        auto B = after(I);
        sh[I] = B.CreateCall(fBin, {ConstantInt::get(I32, op), S(a), S(b), a, b, I, fnName});
    }
    void un(Instruction* I, int op, Value* a, IRBuilder<>* at = nullptr) {
        if (zero(S(a))) return;
        auto B = after(I);
        sh[I] = B.CreateCall(fUn, {ConstantInt::get(I32, op), S(a), a, I, fnName});
    }
    // concretise boolean operands (used in a way that leaves the boolean world)
    void concretise(Instruction* I) {
        for (auto& U : I->operands()) {
            Value* v = U.get();
            if (v->getType()->isIntegerTy(1) && !zero(S(v))) { IRBuilder<> B(I); branchOn(B, v); }
        }
    }

    void visit(Instruction* I) {
        if (auto* p = dyn_cast<PHINode>(I)) { (void)p; return; }
        if (auto* b = dyn_cast<BinaryOperator>(I)) {
            if (isD(b->getType())) {
                int op = 0;
                switch (b->getOpcode()) {
                case Instruction::FAdd: op = OP_ADD; break;
                case Instruction::FSub: op = OP_SUB; break;
                case Instruction::FMul: op = OP_MUL; break;
                case Instruction::FDiv: op = OP_DIV; break;
                case Instruction::FRem: op = OP_FMOD; break;
                default: return;
                }
                bin(I, op, b->getOperand(0), b->getOperand(1));
            } else if (b->getType()->isIntegerTy(1)) {
                Value *x = b->getOperand(0), *y = b->getOperand(1);
                if (zero(S(x)) && zero(S(y))) return;
                int op = 0;
                switch (b->getOpcode()) {
                case Instruction::And: op = OP_AND; break;
                case Instruction::Or: op = OP_OR; break;
                case Instruction::Xor: op = OP_XOR; break;
                default: concretise(I); return;
                }
                auto B = after(I);
                sh[I] = B.CreateCall(fBool, {ConstantInt::get(I32, op), S(x), S(y), B.CreateZExt(x, I32),
                                             B.CreateZExt(y, I32), B.CreateZExt(I, I32)});
            } else if (b->getType()->isIntegerTy(64)) {
                lostInt(I);
            }
            return;
        }
        if (auto* u = dyn_cast<UnaryOperator>(I)) {
            if (isD(u->getType())) un(I, OP_NEG, u->getOperand(0));
            return;
        }
        if (auto* f = dyn_cast<FCmpInst>(I)) {
            Value *x = f->getOperand(0), *y = f->getOperand(1);
            if (!isD(x->getType()) || (zero(S(x)) && zero(S(y)))) return;
            auto B = after(I);
            sh[I] = B.CreateCall(fFcmp, {ConstantInt::get(I32, (int)f->getPredicate()), S(x), S(y), x, y,
                                         B.CreateZExt(I, I32), fnName});
            return;
        }
        if (auto* s = dyn_cast<SelectInst>(I)) {
            IRBuilder<> B(I);
            branchOn(B, s->getCondition());
            Type* t = s->getType();
            if (isD(t) || t->isIntegerTy(1) || tracked64(s)) {
                Value *a = S(s->getTrueValue()), *b = S(s->getFalseValue());
                if (zero(a) && zero(b)) return;
                sh[I] = B.CreateSelect(s->getCondition(), a, b);
            }
            return;
        }
        if (auto* fr = dyn_cast<FreezeInst>(I)) {
            if (!zero(S(fr->getOperand(0)))) sh[I] = S(fr->getOperand(0));
            return;
        }
        if (auto* br = dyn_cast<BranchInst>(I)) {
            if (br->isConditional()) { IRBuilder<> B(I); branchOn(B, br->getCondition()); }
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(I)) {
            if (l->isVolatile()) return;
            if (isD(l->getType())) {
                auto B = after(I);
                sh[I] = B.CreateCall(fLoad, {l->getPointerOperand(), I});
            } else if (tracked64(l)) {
                auto B = after(I);
                sh[I] = B.CreateCall(fLoadI, {l->getPointerOperand(), I});
            }
            return;
        }
        if (auto* st = dyn_cast<StoreInst>(I)) {
            Value* v = st->getValueOperand();
            IRBuilder<> B(I);
            if (isD(v->getType()))
                B.CreateCall(fStore, {st->getPointerOperand(), S(v), v});
            else if (v->getType()->isIntegerTy(64) && isa<Instruction>(v) && !zero(S(v)))
                B.CreateCall(fStoreI, {st->getPointerOperand(), S(v)});
            else if (v->getType()->isIntegerTy(64) && isa<Constant>(v))
                B.CreateCall(fStoreI, {st->getPointerOperand(), Z});
            else concretise(I);
            return;
        }
        if (auto* bc = dyn_cast<BitCastInst>(I)) {
            Value* o = bc->getOperand(0);
            if (!zero(S(o))) {
                if (isD(bc->getType()) || bc->getType()->isIntegerTy(64)) sh[I] = S(o);
            }
            return;
        }
        if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
            Value* o = I->getOperand(0);
            if (isD(o->getType()) && !zero(S(o)) && I->getType()->getIntegerBitWidth() <= 64) {
                auto B = after(I);
                B.CreateCall(fFptoi, {S(o), o, B.CreateIntCast(I, I64, isa<FPToSIInst>(I)), fnName});
            }
            return;
        }
        if (isa<FPTruncInst>(I)) {
            Value* o = I->getOperand(0);
            if (isD(o->getType()) && !zero(S(o))) lost(I, S(o), "fptrunc");
            return;
        }
        if (auto* cb = dyn_cast<CallBase>(I)) { visitCall(cb); return; }
        if (auto* r = dyn_cast<ReturnInst>(I)) {
            Value* v = r->getReturnValue();
            if (!v) return;
            IRBuilder<> B(I);
            if (isD(v->getType())) B.CreateStore(S(v), slot(B, gRet, 0));
            else if (auto* t = dyn_cast<StructType>(v->getType()); t && hasD(t)) {
                auto it = agg.find(v);
                for (unsigned i = 0; i < t->getNumElements(); i++)
                    B.CreateStore(it == agg.end() ? Z : it->second[i], slot(B, gRet, i));
            } else concretise(I);
            return;
        }
        if (auto* iv = dyn_cast<InsertValueInst>(I)) {
            concretise(I);
            if (iv->getNumIndices() != 1 || !isa<StructType>(iv->getType()) || !hasD(iv->getType())) return;
            SmallVector<Value*, 4> a;
            auto it = agg.find(iv->getAggregateOperand());
            if (it != agg.end()) a = it->second;
            else a.assign(cast<StructType>(iv->getType())->getNumElements(), Z);
            if (isD(iv->getInsertedValueOperand()->getType()))
                a[iv->getIndices()[0]] = S(iv->getInsertedValueOperand());
            agg[I] = a;
            return;
        }
        if (auto* ev = dyn_cast<ExtractValueInst>(I)) {
            auto it = agg.find(ev->getAggregateOperand());
            if (it != agg.end() && ev->getNumIndices() == 1 && isD(ev->getType()))
                sh[I] = it->second[ev->getIndices()[0]];
            return;
        }
        if (isa<ICmpInst>(I) && I->getOperand(0)->getType()->isIntegerTy(64)) { lostInt(I); return; }
        concretise(I);
    }
    void lost(Instruction* I, Value* s, StringRef why) {
        IRBuilder<> B(I);
        B.CreateCall(fLost, {s, B.CreateGlobalStringPtr(why), fnName});
    }
    // bit-level use of a double's bits: report, do not silently drop (only for genuine bitcasts)
    void lostInt(Instruction* I) {
        for (auto& U : I->operands())
            if (auto* b = dyn_cast<BitCastInst>(U.get())) if (isD(b->getOperand(0)->getType()) && !zero(S(b)))
                lost(I, S(b), "bits");
    }

    void visitCall(CallBase* cb) {
        Function* callee = cb->getCalledFunction();
        if (auto* mi = dyn_cast<AnyMemTransferInst>(cb)) {
            IRBuilder<> B(cb);
            B.CreateCall(fMemcpy, {mi->getDest(), mi->getSource(), B.CreateIntCast(mi->getLength(), I64, false)});
            return;
        }
        if (auto* ms = dyn_cast<AnyMemSetInst>(cb)) {
            IRBuilder<> B(cb);
            B.CreateCall(fMemset, {ms->getDest(), B.CreateIntCast(ms->getLength(), I64, false)});
            return;
        }
        if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
            auto id = ii->getIntrinsicID();
            if (isD(ii->getType())) {
                int u = -1, b = -1;
                switch (id) {
                case Intrinsic::fabs: u = OP_ABS; break;
                case Intrinsic::sqrt: u = OP_SQRT; break;
                case Intrinsic::exp: u = OP_EXP; break;
                case Intrinsic::exp2: u = OP_EXP2; break;
                case Intrinsic::log: u = OP_LOG; break;
                case Intrinsic::log2: u = OP_LOG2; break;
                case Intrinsic::log10: u = OP_LOG10; break;
                case Intrinsic::sin: u = OP_SIN; break;
                case Intrinsic::cos: u = OP_COS; break;
                case Intrinsic::floor: u = OP_FLOOR; break;
                case Intrinsic::ceil: u = OP_CEIL; break;
                case Intrinsic::trunc: u = OP_TRUNC; break;
                case Intrinsic::round: u = OP_ROUND; break;
                case Intrinsic::rint: case Intrinsic::nearbyint: u = OP_RINT; break;
                case Intrinsic::pow: b = OP_POW; break;
                case Intrinsic::minnum: b = OP_FMIN; break;
                case Intrinsic::maxnum: b = OP_FMAX; break;
                case Intrinsic::copysign: b = OP_COPYSIGN; break;
                default: break;
                }
                if (u >= 0) { un(cb, u, cb->getArgOperand(0)); return; }
                if (b >= 0) { bin(cb, b, cb->getArgOperand(0), cb->getArgOperand(1)); return; }
                if (id == Intrinsic::powi) {
                    Value* e = cb->getArgOperand(1);
                    if (!zero(S(cb->getArgOperand(0)))) {
                        auto B = after(cb);
                        sh[cb] = B.CreateCall(fBin, {ConstantInt::get(I32, OP_POW), S(cb->getArgOperand(0)), Z,
                            cb->getArgOperand(0), B.CreateSIToFP(e, D), cb, fnName});
                    }
                    return;
                }
                if (id == Intrinsic::fma || id == Intrinsic::fmuladd) {
                    Value *a = cb->getArgOperand(0), *b2 = cb->getArgOperand(1), *c = cb->getArgOperand(2);
                    if (zero(S(a)) && zero(S(b2)) && zero(S(c))) return;
                    auto B = after(cb);
                    Value* m = B.CreateFMul(a, b2);
                    Value* sm = B.CreateCall(fBin, {ConstantInt::get(I32, OP_MUL), S(a), S(b2), a, b2, m, fnName});
                    sh[cb] = B.CreateCall(fBin, {ConstantInt::get(I32, OP_ADD), sm, S(c), m, c, cb, fnName});
                    return;
                }
                for (auto& A : cb->args())
                    if (isD(A->getType()) && !zero(S(A))) lost(cb, S(A), callee->getName());
            }
            return;
        }
        if (cb->isInlineAsm()) return;
        concretise(cb);
        StringRef name = callee ? callee->getName() : "";
        if (name.starts_with("__sym_")) return;
        if (callee && callee->isDeclaration() && isD(cb->getType())) {
            auto u = unary.find(name);
            if (u != unary.end() && cb->arg_size() == 1 && isa<CallInst>(cb)) { un(cb, u->second, cb->getArgOperand(0)); return; }
            auto b = binary.find(name);
            if (b != binary.end() && cb->arg_size() == 2 && isa<CallInst>(cb)) {
                bin(cb, b->second, cb->getArgOperand(0), cb->getArgOperand(1)); return; }
        }
        bool ext = callee && callee->isDeclaration() && !name.starts_with("_Z") && !name.starts_with("sym_");
        // arguments
        int k = 0;
        IRBuilder<> B(cb);
        for (auto& A : cb->args()) {
            if (!isD(A->getType())) continue;
            if (ext && !zero(S(A))) lost(cb, S(A), name);
            if (k < MAXARGS) B.CreateStore(S(A), slot(B, gArgs, k));
            k++;
        }
        if (!hasD(cb->getType()) || ext) return;
        Instruction* at;
        if (auto* ii = dyn_cast<InvokeInst>(cb)) at = &*ii->getNormalDest()->getFirstInsertionPt();
        else at = cb->getNextNode();
        if (isD(cb->getType())) {
            B.CreateStore(Z, slot(B, gRet, 0));
            IRBuilder<> A(at);
            sh[cb] = A.CreateCall(fGetRet, {Z, cb});
        } else {
            auto* st = cast<StructType>(cb->getType());
            IRBuilder<> A(at);
            SmallVector<Value*, 4> a;
            for (unsigned i = 0; i < st->getNumElements(); i++) {
                if (!isD(st->getElementType(i))) { a.push_back(Z); continue; }
                B.CreateStore(Z, slot(B, gRet, i));
                a.push_back(A.CreateCall(fGetRet, {ConstantInt::get(I32, i), A.CreateExtractValue(cb, i)}));
            }
            agg[cb] = a;
        }
    }
};

struct SymPass : PassInfoMixin<SymPass> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        SymInstrument si(M);
        std::vector<Function*> fs;
        for (auto& F : M)
            if (!F.isDeclaration() && !F.getName().starts_with("__sym_")) fs.push_back(&F);
        for (auto* F : fs) si.run(*F);
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder& PB) {
        PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SymPass()); });
    }};
}
