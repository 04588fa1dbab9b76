// LLVM pass plugin: rewrites every double-precision operation of the code under
// test into a call of the symbolic runtime (symrt.cpp).  Memory, control flow,
// virtual dispatch, allocation and exceptions stay native.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <set>
#include <map>
using namespace llvm;

namespace {
bool isFP(Type *T) { return T->isFPOrFPVectorTy(); }

struct CoverPass : PassInfoMixin<CoverPass> {
  // counts every project function that really executes (before inlining)
  PreservedAnalyses run(Module &M, ModuleAnalysisManager &) {
    LLVMContext &C = M.getContext();
    auto *I8 = Type::getInt8Ty(C);
    auto *PT = PointerType::getUnqual(C);
    FunctionCallee F = M.getOrInsertFunction("sym_fn", Type::getVoidTy(C), PT, PT);
    std::vector<Function *> W;
    for (auto &Fn : M)
      if (!Fn.isDeclaration()) {
        StringRef n = Fn.getName();
        if (n.contains("N3BFL") || n.contains("N13MatrixWrapper") || n.contains("NK3BFL") || n.contains("NK13MatrixWrapper"))
          if (!n.contains("St6vector") || n.starts_with("_ZN3BFL") || n.starts_with("_ZNK3BFL") || n.starts_with("_ZN13Mat") || n.starts_with("_ZNK13Mat"))
            if (n.starts_with("_ZN3BFL") || n.starts_with("_ZNK3BFL") || n.starts_with("_ZN13Mat") || n.starts_with("_ZNK13Mat"))
              W.push_back(&Fn);
      }
    for (auto *Fn : W) {
      IRBuilder<> B(&*Fn->getEntryBlock().getFirstInsertionPt());
      auto *G = new GlobalVariable(M, I8, false, GlobalValue::InternalLinkage, ConstantInt::get(I8, 0));
      B.CreateCall(F, {B.CreateGlobalStringPtr(Fn->getName()), G});
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};

struct SymPass : PassInfoMixin<SymPass> {
  Module *M;
  Type *D, *I32, *I64, *V;
  FunctionCallee fn(const char *n, Type *R, ArrayRef<Type *> A) {
    return M->getOrInsertFunction(n, FunctionType::get(R, A, false));
  }
  std::set<std::string> Warn;
  PreservedAnalyses run(Module &Mod, ModuleAnalysisManager &) {
    M = &Mod;
    LLVMContext &C = Mod.getContext();
    D = Type::getDoubleTy(C); I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); V = Type::getVoidTy(C);
    static const std::map<std::string, int> libm1 = {
      {"sqrt",1},{"exp",1},{"log",1},{"fabs",1},{"floor",1},{"ceil",1},{"sin",1},{"cos",1},{"tan",1},{"asin",1},{"acos",1},
      {"atan",1},{"sinh",1},{"cosh",1},{"tanh",1},{"log10",1},{"log2",1},{"exp2",1},{"expm1",1},{"log1p",1},{"round",1},{"trunc",1},{"rint",1},{"nearbyint",1},
      {"erf",1},{"tgamma",1},{"lgamma",1},{"cbrt",1},
      {"pow",2},{"atan2",2},{"fmod",2},{"hypot",2},{"fmax",2},{"fmin",2},{"copysign",2},{"remainder",2},
      {"lround",-1},{"lrint",-1},{"llround",-1}};
    for (auto &F : Mod) {
      if (F.isDeclaration()) continue;
      std::vector<Instruction *> W;
      for (auto &I : instructions(F)) W.push_back(&I);
      for (auto *I : W) {
        IRBuilder<> B(I);
        bool touches = isFP(I->getType());
        for (auto &O : I->operands()) if (isFP(O->getType())) touches = true;
        if (!touches) continue;
        auto bad = [&](const char *why) {
          std::string s; raw_string_ostream os(s); I->print(os);
          errs() << "sympass: UNSUPPORTED " << why << " in " << F.getName() << ": " << s << "\n";
        };
        auto repl = [&](Value *N) { I->replaceAllUsesWith(N); I->eraseFromParent(); };
        unsigned op = I->getOpcode();
        switch (op) {
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
          if (I->getType() != D) { bad("fp type"); break; }
          const char *n = op == Instruction::FAdd ? "sym_add" : op == Instruction::FSub ? "sym_sub" : op == Instruction::FMul ? "sym_mul" : op == Instruction::FDiv ? "sym_div" : "sym_fmod";
          repl(B.CreateCall(fn(n, D, {D, D}), {I->getOperand(0), I->getOperand(1)}));
          break; }
        case Instruction::FNeg:
          if (I->getType() != D) { bad("fp type"); break; }
          repl(B.CreateCall(fn("sym_neg", D, {D}), {I->getOperand(0)})); break;
        case Instruction::FCmp: {
          auto *FC = cast<FCmpInst>(I);
          if (FC->getOperand(0)->getType() != D) { bad("fcmp type"); break; }
          Value *r = B.CreateCall(fn("sym_fcmp", I32, {I32, D, D}), {ConstantInt::get(I32, FC->getPredicate()), FC->getOperand(0), FC->getOperand(1)});
          repl(B.CreateTrunc(r, I->getType())); break; }
        case Instruction::FPToSI: case Instruction::FPToUI: {
          if (I->getOperand(0)->getType() != D || I->getType()->isVectorTy()) { bad("fpto"); break; }
          Value *r = B.CreateCall(fn(op == Instruction::FPToSI ? "sym_fptosi" : "sym_fptoui", I64, {D}), {I->getOperand(0)});
          repl(B.CreateTruncOrBitCast(r, I->getType())); break; }
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt:
          if (I->getType() != D) bad("tofp"); break;
        case Instruction::FPTrunc:
          Warn.insert("fptrunc in " + F.getName().str()); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto *CB = cast<CallBase>(I);
          Function *CF = CB->getCalledFunction();
          if (!CF) break;
          if (auto *II = dyn_cast<IntrinsicInst>(I)) {
            Intrinsic::ID id = II->getIntrinsicID();
            const char *n = nullptr; int ar = 1;
            switch (id) {
            case Intrinsic::fabs: n = "sym_fabs"; break;
            case Intrinsic::sqrt: n = "sym_sqrt"; break;
            case Intrinsic::exp: n = "sym_exp"; break;
            case Intrinsic::log: n = "sym_log"; break;
            case Intrinsic::sin: n = "sym_sin"; break;
            case Intrinsic::cos: n = "sym_cos"; break;
            case Intrinsic::floor: n = "sym_floor"; break;
            case Intrinsic::ceil: n = "sym_ceil"; break;
            case Intrinsic::round: n = "sym_round"; break;
            case Intrinsic::trunc: n = "sym_trunc"; break;
            case Intrinsic::rint: case Intrinsic::nearbyint: n = "sym_rint"; break;
            case Intrinsic::exp2: n = "sym_exp2"; break;
            case Intrinsic::log2: n = "sym_log2"; break;
            case Intrinsic::log10: n = "sym_log10"; break;
            case Intrinsic::pow: n = "sym_pow"; ar = 2; break;
            case Intrinsic::copysign: n = "sym_copysign"; ar = 2; break;
            case Intrinsic::minnum: case Intrinsic::minimum: n = "sym_fmin"; ar = 2; break;
            case Intrinsic::maxnum: case Intrinsic::maximum: n = "sym_fmax"; ar = 2; break;
            case Intrinsic::powi: {
              if (I->getType() != D) { bad("powi"); break; }
              repl(B.CreateCall(fn("sym_powi", D, {D, I32}), {II->getArgOperand(0), II->getArgOperand(1)})); goto done; }
            case Intrinsic::fmuladd: case Intrinsic::fma: {
              if (I->getType() != D) { bad("fma"); break; }
              Value *m = B.CreateCall(fn("sym_mul", D, {D, D}), {II->getArgOperand(0), II->getArgOperand(1)});
              repl(B.CreateCall(fn("sym_add", D, {D, D}), {m, II->getArgOperand(2)})); goto done; }
            case Intrinsic::is_fpclass: {
              if (II->getArgOperand(0)->getType() != D) { bad("fpclass"); break; }
              Value *r = B.CreateCall(fn("sym_fpclass", I32, {D, I32}), {II->getArgOperand(0), II->getArgOperand(1)});
              repl(B.CreateTrunc(r, B.getInt1Ty())); goto done; }
            default:
              if (II->isAssumeLikeIntrinsic()) break;
              bad("intrinsic");
            }
            if (n) {
              if (I->getType() != D) { bad("intrinsic type"); break; }
              if (ar == 1) repl(B.CreateCall(fn(n, D, {D}), {II->getArgOperand(0)}));
              else repl(B.CreateCall(fn(n, D, {D, D}), {II->getArgOperand(0), II->getArgOperand(1)}));
            }
            done: break;
          }
          StringRef nm = CF->getName();
          auto it = libm1.find(nm.str());
          if (it != libm1.end() && CF->isDeclaration()) {
            std::string sn = "sym_" + nm.str();
            FunctionCallee nf = M->getOrInsertFunction(sn, CF->getFunctionType());
            CB->setCalledFunction(nf);
            // math attributes (memory(none)...) no longer hold: comparisons may fork
            CB->setAttributes(AttributeList());
          } else if (CF->isDeclaration() && !nm.starts_with("sym_") && !nm.starts_with("_ZN3BFL") && !nm.starts_with("_ZNK3BFL") && !nm.starts_with("_ZN13Mat") && !nm.starts_with("_ZNK13Mat")) {
            Warn.insert("external " + nm.str());
          }
          break; }
        case Instruction::BitCast:
          Warn.insert("bitcast in " + F.getName().str()); break;
        default: break;
        }
      }
    }
    for (auto &w : Warn) errs() << "sympass: note " << w << "\n";
    return PreservedAnalyses::none();
  }
  static bool isRequired() { return true; }
};
}

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sympass", "1", [](PassBuilder &PB) {
    PB.registerPipelineStartEPCallback([](ModulePassManager &MPM, OptimizationLevel) { MPM.addPass(CoverPass()); });
    PB.registerOptimizerLastEPCallback([](ModulePassManager &MPM, OptimizationLevel) {
      ScalarizerPassOptions o; o.ScalarizeLoadStore = true;
      MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(o)));
      MPM.addPass(SymPass());
    });
  }};
}
