// symfp: rewrites every double-precision floating-point operation of an LLVM
// module into a call to the symbolic runtime (rt.cpp).  Non-floating-point code
// is left alone and runs natively.  Usage: symfp in.bc out.bc report.txt
//
// report.txt receives one line per function that contained at least one
// rewritten operation:  <mangled name>\t<number of operations>.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

int main(int argc, char** argv) {
    if (argc < 4) { errs() << "usage: symfp in out report\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("symfp", errs()); return 2; }
    Type *D = Type::getDoubleTy(ctx), *I32 = Type::getInt32Ty(ctx),
         *I64 = Type::getInt64Ty(ctx), *F = Type::getFloatTy(ctx);
    auto fn = [&](const std::string& n, Type* r, std::vector<Type*> a) {
        return M->getOrInsertFunction(n, FunctionType::get(r, a, false));
    };
    // libm entry points with a symbolic model: name -> arity
    const std::map<std::string,int> libm = {
        {"sqrt",1},{"sin",1},{"cos",1},{"tan",1},{"exp",1},{"log",1},{"log10",1},{"log2",1},
        {"fabs",1},{"floor",1},{"ceil",1},{"round",1},{"trunc",1},{"rint",1},{"nearbyint",1},
        {"asin",1},{"acos",1},{"atan",1},{"sinh",1},{"cosh",1},{"tanh",1},{"cbrt",1},{"exp2",1},{"expm1",1},{"log1p",1},
        {"pow",2},{"fmod",2},{"atan2",2},{"fmin",2},{"fmax",2},{"hypot",2},{"copysign",2},{"fdim",2},{"fma",3}};
    std::error_code ec; raw_fd_ostream rep(argv[3], ec);
    unsigned unsupported = 0;
    for (Function& Fn : *M) {
        if (Fn.isDeclaration()) continue;
        if (Fn.getName().starts_with("__sym_")) continue;
        unsigned n = 0;
        std::vector<Instruction*> all;
        for (auto& BB : Fn) for (auto& I : BB) all.push_back(&I);
        for (Instruction* I : all) {
            IRBuilder<> B(I);
            Value* R = nullptr;
            if (auto* bo = dyn_cast<BinaryOperator>(I)) {
                if (!bo->getType()->isFPOrFPVectorTy()) continue;
                if (bo->getType() != D) { if (bo->getType()!=F && !bo->getType()->isX86_FP80Ty()) { errs() << "symfp: unsupported vector FP op in " << Fn.getName() << "\n"; unsupported++; } continue; }
                const char* nm = nullptr;
                switch (bo->getOpcode()) {
                    case Instruction::FAdd: nm = "__sym_fadd"; break;
                    case Instruction::FSub: nm = "__sym_fsub"; break;
                    case Instruction::FMul: nm = "__sym_fmul"; break;
                    case Instruction::FDiv: nm = "__sym_fdiv"; break;
                    case Instruction::FRem: nm = "__sym_fmod"; break;
                    default: continue;
                }
                R = B.CreateCall(fn(nm, D, {D, D}), {bo->getOperand(0), bo->getOperand(1)});
            } else if (auto* uo = dyn_cast<UnaryOperator>(I)) {
                if (uo->getType() != D) continue;
                R = B.CreateCall(fn("__sym_fneg", D, {D}), {uo->getOperand(0)});
            } else if (auto* fc = dyn_cast<FCmpInst>(I)) {
                if (fc->getOperand(0)->getType() != D) continue;
                Value* c = B.CreateCall(fn("__sym_fcmp", I32, {I32, D, D}),
                    {ConstantInt::get(I32, (int)fc->getPredicate()), fc->getOperand(0), fc->getOperand(1)});
                R = B.CreateICmpNE(c, ConstantInt::get(I32, 0));
            } else if (isa<FPToSIInst>(I) || isa<FPToUIInst>(I)) {
                if (I->getOperand(0)->getType() != D) continue;
                Value* c = B.CreateCall(fn(isa<FPToSIInst>(I) ? "__sym_fptosi" : "__sym_fptoui", I64, {D, I32}),
                    {I->getOperand(0), ConstantInt::get(I32, I->getType()->getIntegerBitWidth())});
                R = B.CreateIntCast(c, I->getType(), isa<FPToSIInst>(I));
            } else if (isa<FPTruncInst>(I)) {
                if (I->getOperand(0)->getType() != D || I->getType() != F) continue;
                R = B.CreateCall(fn("__sym_fptrunc", F, {D}), {I->getOperand(0)});
            } else if (isa<FPExtInst>(I)) {
                if (I->getOperand(0)->getType() != D) continue;
                // double -> long double: must be concrete
                Value* c = B.CreateCall(fn("__sym_concrete", D, {D}), {I->getOperand(0)});
                I->setOperand(0, c); n++; continue;
            } else if (auto* ci = dyn_cast<CallBase>(I)) {
                Function* cf = ci->getCalledFunction();
                if (!cf) continue;
                std::string name = cf->getName().str();
                if (auto* ii = dyn_cast<IntrinsicInst>(I)) {
                    switch (ii->getIntrinsicID()) {
                        case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil:
                        case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log:
                        case Intrinsic::pow: case Intrinsic::fma: case Intrinsic::fmuladd: case Intrinsic::minnum:
                        case Intrinsic::maxnum: case Intrinsic::copysign: case Intrinsic::round: case Intrinsic::trunc:
                        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::log10: case Intrinsic::log2:
                        case Intrinsic::exp2: {
                            if (ii->getType() != D) continue;
                            std::string base = Intrinsic::getBaseName(ii->getIntrinsicID()).str().substr(5);
                            if (base == "minnum") base = "fmin"; if (base == "maxnum") base = "fmax";
                            if (base == "fmuladd") base = "fmuladd";
                            std::vector<Value*> args(ci->arg_begin(), ci->arg_end());
                            std::vector<Type*> tys(args.size(), D);
                            R = B.CreateCall(fn("__sym_" + base, D, tys), args);
                            break;
                        }
                        case Intrinsic::is_fpclass: {
                            if (ii->getArgOperand(0)->getType() != D) continue;
                            Value* c = B.CreateCall(fn("__sym_fpclass", I32, {D, I32}),
                                {ii->getArgOperand(0), ii->getArgOperand(1)});
                            R = B.CreateICmpNE(c, ConstantInt::get(I32, 0));
                            break;
                        }
                        default: continue;
                    }
                } else if (name == "_ZSt3maxIdERKT_S2_S2_" || name == "_ZSt3minIdERKT_S2_S2_") {
                    std::vector<Value*> args(ci->arg_begin(), ci->arg_end());
                    Type* P = PointerType::get(ctx, 0);
                    R = B.CreateCall(fn(name[6] == 'a' ? "__sym_std_max" : "__sym_std_min", P, {P, P}), args);
                } else if (cf->isDeclaration() && name == "lround") {
                    R = B.CreateCall(fn("__sym_lround", I64, {D}), {ci->getArgOperand(0)});
                } else if (cf->isDeclaration() && (name == "isnan" || name == "__isnan")) {
                    R = B.CreateCall(fn("__sym_isnan", I32, {D}), {ci->getArgOperand(0)});
                } else if (cf->isDeclaration() && libm.count(name) && ci->getType() == D) {
                    std::vector<Value*> args(ci->arg_begin(), ci->arg_end());
                    std::vector<Type*> tys(args.size(), D);
                    R = B.CreateCall(fn("__sym_" + name, D, tys), args);
                } else continue;
                if (auto* inv = dyn_cast<InvokeInst>(I)) {   // libm never throws
                    BranchInst* br = B.CreateBr(inv->getNormalDest()); (void)br;
                    inv->getUnwindDest()->removePredecessor(inv->getParent());
                }
            } else continue;
            I->replaceAllUsesWith(R);
            I->eraseFromParent();
            n++;
        }
        if (n) rep << Fn.getName() << "\t" << n << "\n";
    }
    // text form of a number: a symbolic value is written as a token and read back (also through function pointers)
    for (auto& p : std::map<std::string, std::string>{{"_ZNSolsEd", "__sym_ostream_double"}, {"strtod", "__sym_strtod"}})
        if (Function* f = M->getFunction(p.first)) if (f->isDeclaration()) f->replaceAllUsesWith(M->getOrInsertFunction(p.second, f->getFunctionType()).getCallee());
    if (unsupported) return 3;
    if (verifyModule(*M, &errs())) { errs() << "symfp: broken module\n"; return 2; }
    raw_fd_ostream out(argv[2], ec, sys::fs::OF_None);
    WriteBitcodeToFile(*M, out);
    return 0;
}
