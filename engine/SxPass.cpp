// LLVM 18 pass: rewrites every floating-point operation of a module into a call of the symbolic
// runtime (sxrt.cpp).  Values that are only moved (loads, stores, memcpy, arguments, returns,
// selects on concrete conditions) are left alone: a symbolic double is a tagged quiet NaN.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <map>
#include <set>
using namespace llvm;

namespace {
struct SxPass : PassInfoMixin<SxPass> {
    Module* M = nullptr;
    Type *D, *F, *I32, *I1;
    unsigned long n_inst = 0;

    FunctionCallee fn(StringRef name, Type* ret, ArrayRef<Type*> args) {
        return M->getOrInsertFunction(name, FunctionType::get(ret, args, false));
    }
    static bool isFP(Type* t) { return t->isDoubleTy() || t->isFloatTy(); }
    static bool isFPV(Type* t) {
        if (auto* v = dyn_cast<FixedVectorType>(t)) return isFP(v->getElementType());
        return isFP(t);
    }

    Value* up(IRBuilder<>& B, Value* v) {  // to double
        if (v->getType()->isFloatTy()) return B.CreateCall(fn("sx_fpext", D, {F}), {v});
        return v;
    }
    Value* down(IRBuilder<>& B, Value* v, Type* t) {
        if (t->isFloatTy()) return B.CreateCall(fn("sx_fptrunc", F, {D}), {v});
        return v;
    }
    Value* call(IRBuilder<>& B, StringRef name, ArrayRef<Value*> ops, Type* t) {
        SmallVector<Value*, 4> a;
        SmallVector<Type*, 4> ty;
        for (auto* o : ops) {
            if (isFP(o->getType())) {
                a.push_back(up(B, o));
                ty.push_back(D);
            } else {
                a.push_back(o);
                ty.push_back(o->getType());
            }
        }
        return down(B, B.CreateCall(fn(name, D, ty), a), t);
    }
    // apply elementwise for vectors
    template <class Fun>
    Value* vec(IRBuilder<>& B, Type* t, ArrayRef<Value*> ops, Fun f) {
        auto* vt = dyn_cast<FixedVectorType>(t);
        if (!vt) return f(ops, t);
        Value* res = PoisonValue::get(vt);
        for (unsigned i = 0; i < vt->getNumElements(); ++i) {
            SmallVector<Value*, 4> e;
            for (auto* o : ops)
                e.push_back(o->getType()->isVectorTy() ? B.CreateExtractElement(o, (uint64_t)i) : o);
            res = B.CreateInsertElement(res, f(e, vt->getElementType()), (uint64_t)i);
        }
        return res;
    }

    // sign tests through the bit pattern: icmp slt (X, 0) / sgt (X, -1), X = i64 bits of a double or the xor of two
    bool signBits(Instruction* I) {
        auto* C = dyn_cast<ICmpInst>(I);
        if (!C || !C->getOperand(0)->getType()->isIntegerTy(64)) return false;
        auto* K = dyn_cast<ConstantInt>(C->getOperand(1));
        if (!K) return false;
        bool lt = C->getPredicate() == ICmpInst::ICMP_SLT && K->isZero();
        bool gt = C->getPredicate() == ICmpInst::ICMP_SGT && K->isMinusOne();
        if (!lt && !gt) return false;
        auto* I64 = Type::getInt64Ty(M->getContext());
        IRBuilder<> B(C);
        auto leaf = [&](Value* v) { return isa<BitCastInst>(v) || isa<LoadInst>(v); };
        auto wrap = [&](Value* v) -> Value* {
            if (!leaf(v)) return v;
            return B.CreateCall(fn("sx_sbits", I64, {I64}), {v});
        };
        Value* x = C->getOperand(0);
        if (leaf(x)) {
            C->setOperand(0, wrap(x));
            return true;
        }
        auto* X = dyn_cast<BinaryOperator>(x);
        if (X && X->getOpcode() == Instruction::Xor && leaf(X->getOperand(0)) && leaf(X->getOperand(1))) {
            C->setOperand(0, B.CreateXor(wrap(X->getOperand(0)), wrap(X->getOperand(1))));
            return true;
        }
        return false;
    }

    bool runOn(Function& Fn) {
        SmallVector<Instruction*, 256> work;
        for (auto& I : instructions(Fn)) work.push_back(&I);
        std::set<Instruction*> dead;
        // select fusion first
        for (auto* I : work) {
            auto* S = dyn_cast<SelectInst>(I);
            if (!S || !isFP(S->getType())) continue;
            auto* C = dyn_cast<FCmpInst>(S->getCondition());
            if (!C || !isFP(C->getOperand(0)->getType())) continue;
            IRBuilder<> B(S);
            Value* r = call(B, "sx_select",
                            {ConstantInt::get(I32, C->getPredicate()), C->getOperand(0), C->getOperand(1),
                             S->getTrueValue(), S->getFalseValue()},
                            S->getType());
            S->replaceAllUsesWith(r);
            dead.insert(S);
            ++n_inst;
        }
        for (auto* I : dead) I->eraseFromParent();
        for (auto* I : work) {
            if (dead.count(I)) continue;
            if (isa<ICmpInst>(I)) {
                if (signBits(I)) ++n_inst;
                continue;
            }
            Value* r = nullptr;
            IRBuilder<> B(I);
            Type* t = I->getType();
            if (auto* BO = dyn_cast<BinaryOperator>(I)) {
                if (!isFPV(t)) continue;
                const char* nm = nullptr;
                switch (BO->getOpcode()) {
                    case Instruction::FAdd: nm = "sx_add"; break;
                    case Instruction::FSub: nm = "sx_sub"; break;
                    case Instruction::FMul: nm = "sx_mul"; break;
                    case Instruction::FDiv: nm = "sx_div"; break;
                    case Instruction::FRem: nm = "sx_fmod"; break;
                    default: break;
                }
                if (!nm) continue;
                r = vec(B, t, {BO->getOperand(0), BO->getOperand(1)},
                        [&](ArrayRef<Value*> o, Type* et) { return call(B, nm, o, et); });
            } else if (auto* U = dyn_cast<UnaryOperator>(I)) {
                if (U->getOpcode() != Instruction::FNeg || !isFPV(t)) continue;
                r = vec(B, t, {U->getOperand(0)}, [&](ArrayRef<Value*> o, Type* et) { return call(B, "sx_neg", o, et); });
            } else if (auto* C = dyn_cast<FCmpInst>(I)) {
                if (!isFPV(C->getOperand(0)->getType())) continue;
                if (C->use_empty()) {
                    C->eraseFromParent();
                    continue;
                }
                auto pred = ConstantInt::get(I32, C->getPredicate());
                r = vec(B, t, {C->getOperand(0), C->getOperand(1)}, [&](ArrayRef<Value*> o, Type*) -> Value* {
                    Value *a = up(B, o[0]), *b = up(B, o[1]);
                    return B.CreateTrunc(B.CreateCall(fn("sx_fcmp", I32, {I32, D, D}), {pred, a, b}), I1);
                });
            } else if (auto* CI = dyn_cast<CastInst>(I)) {
                Value* op = CI->getOperand(0);
                switch (CI->getOpcode()) {
                    case Instruction::FPTrunc:
                        if (t->isFloatTy() && op->getType()->isDoubleTy())
                            r = B.CreateCall(fn("sx_fptrunc", F, {D}), {op});
                        break;
                    case Instruction::FPExt:
                        if (op->getType()->isFloatTy() && t->isDoubleTy())
                            r = B.CreateCall(fn("sx_fpext", D, {F}), {op});
                        else if (op->getType()->isDoubleTy()) {
                            Value* c = B.CreateCall(fn("sx_concrete", D, {D}), {op});
                            CI->setOperand(0, c);
                        }
                        break;
                    case Instruction::FPToSI:
                    case Instruction::FPToUI:
                        if (isFP(op->getType())) {
                            Value* c = B.CreateCall(fn("sx_toint", D, {D}), {up(B, op)});
                            if (op->getType()->isFloatTy()) c = B.CreateFPTrunc(c, F);
                            CI->setOperand(0, c);
                        }
                        break;
                    default: break;
                }
                if (!r) continue;
            } else if (auto* CB = dyn_cast<CallBase>(I)) {
                Function* callee = CB->getCalledFunction();
                if (!callee) continue;
                std::string nm;
                unsigned nargs = 1;
                if (callee->isIntrinsic()) {
                    switch (callee->getIntrinsicID()) {
                        case Intrinsic::fabs: nm = "sx_fabs"; break;
                        case Intrinsic::sqrt: nm = "sx_sqrt"; break;
                        case Intrinsic::pow: nm = "sx_pow"; nargs = 2; break;
                        case Intrinsic::powi: nm = "sx_powi"; nargs = 2; break;
                        case Intrinsic::sin: nm = "sx_sin"; break;
                        case Intrinsic::cos: nm = "sx_cos"; break;
                        case Intrinsic::exp: nm = "sx_exp"; break;
                        case Intrinsic::log: nm = "sx_log"; break;
                        case Intrinsic::floor: nm = "sx_floor"; break;
                        case Intrinsic::ceil: nm = "sx_ceil"; break;
                        case Intrinsic::rint:
                        case Intrinsic::nearbyint:
                        case Intrinsic::round: nm = "sx_round"; break;
                        case Intrinsic::trunc: nm = "sx_trunc"; break;
                        case Intrinsic::minnum: nm = "sx_fmin"; nargs = 2; break;
                        case Intrinsic::maxnum: nm = "sx_fmax"; nargs = 2; break;
                        case Intrinsic::minimum: nm = "sx_fmin"; nargs = 2; break;
                        case Intrinsic::maximum: nm = "sx_fmax"; nargs = 2; break;
                        case Intrinsic::copysign: nm = "sx_copysign"; nargs = 2; break;
                        case Intrinsic::fma:
                        case Intrinsic::fmuladd: nm = "sx_fma"; nargs = 3; break;
                        case Intrinsic::is_fpclass:
                            if (isFP(CB->getArgOperand(0)->getType())) {
                                Value* a = up(B, CB->getArgOperand(0));
                                r        = B.CreateTrunc(
                                    B.CreateCall(fn("sx_fpclass", I32, {D, I32}), {a, CB->getArgOperand(1)}), I1);
                            }
                            break;
                        default:
                            if (isFPV(t) && callee->getName().contains("vector.reduce")) {
                                errs() << "sxpass: unsupported " << callee->getName() << "\n";
                                exit(9);
                            }
                            continue;
                    }
                    if (!r && !isFPV(t)) continue;
                } else {
                    if (!callee->isDeclaration()) continue;
                    static const std::map<std::string, unsigned> libm = {
                        {"sqrt", 1},  {"pow", 2},  {"hypot", 2}, {"fabs", 1},     {"sin", 1},   {"cos", 1},
                        {"tan", 1},   {"tanh", 1}, {"cosh", 1},  {"sinh", 1},     {"exp", 1},   {"log", 1},
                        {"log10", 1}, {"floor", 1}, {"ceil", 1}, {"round", 1},    {"trunc", 1}, {"fmod", 2},
                        {"atan", 1},  {"asin", 1}, {"acos", 1},  {"atan2", 2},    {"fmin", 2},  {"fmax", 2},
                        {"cbrt", 1},  {"tgamma", 1}, {"copysign", 2}};
                    auto it = libm.find(callee->getName().str());
                    if (it == libm.end() || !t->isDoubleTy()) continue;
                    nm    = "sx_" + it->first;
                    nargs = it->second;
                }
                if (!r) {
                    SmallVector<Value*, 4> ops;
                    for (unsigned i = 0; i < nargs; ++i) ops.push_back(CB->getArgOperand(i));
                    r = vec(B, t, ops, [&](ArrayRef<Value*> o, Type* et) { return call(B, nm, o, et); });
                }
                if (auto* inv = dyn_cast<InvokeInst>(CB)) {
                    BranchInst::Create(inv->getNormalDest(), inv);
                    inv->getUnwindDest()->removePredecessor(inv->getParent());
                }
            } else
                continue;
            ++n_inst;
            if (!I->use_empty()) I->replaceAllUsesWith(r);
            I->eraseFromParent();
        }
        return true;
    }

    PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&) {
        M   = &Mod;
        D   = Type::getDoubleTy(Mod.getContext());
        F   = Type::getFloatTy(Mod.getContext());
        I32 = Type::getInt32Ty(Mod.getContext());
        I1  = Type::getInt1Ty(Mod.getContext());
        std::vector<Function*> fs;
        for (auto& f : Mod)
            if (!f.isDeclaration()) fs.push_back(&f);
        std::string names;
        unsigned nf = 0;
        for (auto* f : fs) {
            f->removeFnAttr(Attribute::Memory);
            // instrumented functions may fork, diverge and write runtime state: drop the attributes
            // that would let later passes move, merge or delete their calls
            for (auto a : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WillReturn, Attribute::NoSync,
                           Attribute::Speculatable})
                f->removeFnAttr(a);
            unsigned long before = n_inst;
            runOn(*f);
            if (n_inst > before) ++nf;
        }
        if (const char* p = getenv("SX_PASS_LOG")) {
            std::error_code ec;
            raw_fd_ostream os(p, ec);
            os << nf << " " << n_inst << "\n";
        }
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
}

// Names of the functions reachable (direct calls) from the harness before any inlining.
struct SxList : PassInfoMixin<SxList> {
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
        const char* p = getenv("SX_PASS_LOG");
        if (!p) return PreservedAnalyses::all();
        std::set<Function*> seen;
        std::vector<Function*> st;
        if (auto* h = M.getFunction("sx_harness"))
            st.push_back(h);
        else
            for (auto& f : M)
                if (!f.isDeclaration()) st.push_back(&f);
        while (!st.empty()) {
            auto* f = st.back();
            st.pop_back();
            if (f->isDeclaration() || !seen.insert(f).second) continue;
            for (auto& I : instructions(*f)) {
                for (auto& o : I.operands())
                    if (auto* c = dyn_cast<Function>(o.get())) st.push_back(c);
            }
        }
        std::error_code ec;
        raw_fd_ostream os(std::string(p) + ".fn", ec);
        for (auto* f : seen) os << f->getName() << "\n";
        return PreservedAnalyses::all();
    }
    static bool isRequired() { return true; }
};

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
    return {LLVM_PLUGIN_API_VERSION, "sx", "0.1", [](PassBuilder& PB) {
                PB.registerPipelineStartEPCallback(
                    [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxList()); });
                PB.registerOptimizerLastEPCallback(
                    [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
            }};
}
