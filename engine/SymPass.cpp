// LLVM pass: instruments IR of the real sources so that every scalar SSA value
// carries a shadow expression id (0 = concrete), see DESIGN.md.
#include "ops.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <fstream>
#include <set>
using namespace llvm;

namespace {
const unsigned MAXARGS = 96, MAXRET = 32;

bool startsWithAny(const std::string& s, std::initializer_list<const char*> l)
{
    for (auto p : l)
        if (s.rfind(p, 0) == 0)
            return true;
    return false;
}

// demangled-name prefixes of library code that is executed natively (never
// carries symbolic data that matters: text formatting / streams / locale)
bool isOpaqueName(StringRef mangled, std::string& dem)
{
    dem = demangle(mangled.str());
    std::string d = dem;
    // a unit may ask for some of it to be executed symbolically after all
    static const char* tr = getenv("SYM_TRANSPARENT");
    if (tr)
    {
        std::string l = tr;
        size_t p = 0;
        while (p < l.size())
        {
            size_t e = l.find(';', p);
            if (e == std::string::npos)
                e = l.size();
            std::string x = l.substr(p, e - p);
            if (!x.empty() && d.find(x) != std::string::npos &&
                d.find(x) < 80)
                return false;
            p = e + 1;
        }
    }
    // strip a leading return type of templates: crude but only used for sinks
    static const char* pats[] = {
        "std::ostream::", "std::istream::", "std::iostream::",
        "std::ostream& std::ostream::", "std::istream& std::istream::",
        "std::basic_ostream<", "std::basic_istream<", "std::basic_iostream<",
        "std::basic_ios<", "std::ios_base", "std::basic_streambuf<",
        "std::basic_filebuf<", "std::__cxx11::basic_stringbuf<",
        "std::basic_ofstream<", "std::basic_ifstream<", "std::basic_fstream<",
        "std::__cxx11::basic_ostringstream<", "std::__cxx11::basic_istringstream<",
        "std::__cxx11::basic_stringstream<", "std::num_put<", "std::num_get<",
        "std::__basic_file", "std::ctype<", "std::locale", "std::__use_cache<",
        "std::__pad<", "std::__numpunct", "std::numpunct",
        "std::__add_grouping", "std::__int_to_char", "std::__verify_grouping",
        "std::istreambuf_iterator<", "std::ostreambuf_iterator<",
        "std::__convert_from_v", "__gnu_cxx::char_traits<"};
    for (auto p : pats)
        if (d.rfind(p, 0) == 0)
            return true;
    static const char* tpl[] = {" std::__ostream_insert<", " std::operator<< <",
                                " std::operator>><", " std::operator>> <",
                                " std::endl<", " std::flush<", " std::use_facet<",
                                " std::ends<", " std::__ostream_write<", " std::__ostream_fill<",
                                " std::has_facet<", " std::getline<", " std::ws<",
                                " std::__check_facet<", " std::__use_cache<"};
    for (auto p : tpl)
    {
        auto pos = d.find(p);
        if (pos != std::string::npos && d.rfind("std::basic_", 0) == 0)
            return true;
        if (pos != std::string::npos && pos < 60)
            return true;
    }
    if (startsWithAny(d, {"bool std::has_facet<", "std::operator<<("}))
        return true;
    // stubs' text sinks
    if (d.find("sym_opaque::") != std::string::npos)
        return true;
    return false;
}

struct SymPass : PassInfoMixin<SymPass>
{
    Module* M;
    Type *I1, *I8, *I32, *I64, *Ptr, *Void;
    GlobalVariable *ArgG, *RetG, *CalleeG, *ByvalG;
    FunctionCallee FBin, FCmp, FCast, FIte, FLoad, FStore, FBranch, FPtr, FDiv,
        FText, FExt, FClear, FBelow, FFn, FCopySh, FCheckMem, FMemcpy, FMemset, FSelPtr, FUnop, FConc;
    std::set<Function*> opaque;
    std::set<Function*> todo;

    static bool isRequired() { return true; }

    bool scalar(Type* T)
    {
        if (T->isPointerTy() || T->isDoubleTy())
            return true;
        if (auto* IT = dyn_cast<IntegerType>(T))
            return IT->getBitWidth() <= 64;
        return false;
    }
    unsigned width(Type* T)
    {
        if (auto* IT = dyn_cast<IntegerType>(T))
            return IT->getBitWidth();
        return 64;
    }
    // number of leaf slots
    unsigned slots(Type* T)
    {
        if (auto* ST = dyn_cast<StructType>(T))
        {
            unsigned n = 0;
            for (auto* E : ST->elements())
                n += slots(E);
            return n;
        }
        if (auto* AT = dyn_cast<ArrayType>(T))
            return AT->getNumElements() * slots(AT->getElementType());
        return 1;
    }
    Type* shTy(Type* T)
    {
        if (auto* ST = dyn_cast<StructType>(T))
        {
            std::vector<Type*> v;
            for (auto* E : ST->elements())
                v.push_back(shTy(E));
            return StructType::get(M->getContext(), v);
        }
        if (auto* AT = dyn_cast<ArrayType>(T))
            return ArrayType::get(shTy(AT->getElementType()),
                                  AT->getNumElements());
        return I32;
    }
    Constant* zeroSh(Type* T) { return Constant::getNullValue(shTy(T)); }

    PreservedAnalyses run(Module& Mod, ModuleAnalysisManager&)
    {
        M = &Mod;
        auto& C = M->getContext();
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        Ptr = PointerType::getUnqual(C);
        Void = Type::getVoidTy(C);
        ArgG = new GlobalVariable(*M, ArrayType::get(I32, MAXARGS), false,
                                  GlobalValue::ExternalLinkage, nullptr,
                                  "__sym_arg");
        RetG = new GlobalVariable(*M, ArrayType::get(I32, MAXRET), false,
                                  GlobalValue::ExternalLinkage, nullptr,
                                  "__sym_ret");
        CalleeG = new GlobalVariable(*M, Ptr, false,
                                     GlobalValue::ExternalLinkage, nullptr,
                                     "__sym_callee");
        ByvalG = new GlobalVariable(*M, ArrayType::get(Ptr, MAXARGS), false,
                                    GlobalValue::ExternalLinkage, nullptr,
                                    "__sym_byval");
        auto fn = [&](const char* n, Type* r, std::vector<Type*> a) {
            return M->getOrInsertFunction(n, FunctionType::get(r, a, false));
        };
        FBin = fn("__sym_bin", I32, {I32, I32, I32, I64, I32, I64});
        FUnop = fn("__sym_un", I32, {I32, I32});
        FCmp = fn("__sym_cmp", I32, {I32, I32, I32, I64, I32, I64});
        FCast = fn("__sym_cast", I32, {I32, I32, I32, I32});
        FIte = fn("__sym_ite", I32, {I32, I32, I64, I32, I64, I32});
        FLoad = fn("__sym_load", I32, {Ptr, I32, I32});
        FStore = fn("__sym_store", Void, {Ptr, I32, I32, I64});
        FBranch = fn("__sym_branch", I1, {I32, I1});
        FPtr = fn("__sym_ptr", Ptr, {I32, Ptr});
        FConc = fn("__sym_conc", I64, {I32, I64, I32});
        FDiv = fn("__sym_divisor", I64, {I32, I64, I32});
        FText = fn("__sym_text", I64, {Ptr, I32, I64, I32, I32});
        FExt = fn("__sym_ext_check", Void, {Ptr, I32});
        FClear = fn("__sym_clear", Void, {Ptr, I64});
        FBelow = fn("__sym_below", Void, {});
        FFn = fn("__sym_fn", Void, {I32, Ptr});
        FCopySh = fn("__sym_copy_shadow", Void, {Ptr, Ptr, I64});
        FCheckMem = fn("__sym_check_mem", Void, {Ptr, I64, Ptr});
        FMemcpy = fn("__sym_memmove", Void, {Ptr, Ptr, I64});
        FMemset = fn("__sym_memset", Void, {Ptr, I32, I64, I64});

        // hooks: __symhook_<mangled> replaces <mangled>
        std::vector<std::pair<Function*, Function*>> hooks;
        for (Function& F : *M)
            if (F.getName().starts_with("__symhook_"))
            {
                if (Function* T = M->getFunction(
                        F.getName().drop_front(strlen("__symhook_"))))
                    hooks.push_back({T, &F});
            }
        for (auto& [T, H] : hooks)
        {
            T->replaceAllUsesWith(H);
        }

        // locale facets are identified by the library's own id objects
        for (GlobalVariable& G : M->globals())
            if (G.hasInitializer() && G.getName().starts_with("_ZNSt") &&
                G.getName().ends_with("2idE"))
            {
                G.setInitializer(nullptr);
                G.setLinkage(GlobalValue::ExternalLinkage);
                G.setComdat(nullptr);
                G.setConstant(false);
            }
            else if (G.getName().starts_with("_ZGVNSt") &&
                     G.getName().ends_with("2idE"))
                G.setLinkage(GlobalValue::InternalLinkage), G.setComdat(nullptr);

        std::vector<Function*> fns;
        for (Function& F : *M)
        {
            if (F.isDeclaration())
                continue;
            std::string d;
            if (isOpaqueName(F.getName(), d))
            {
                opaque.insert(&F);
                continue;
            }
            if (F.hasFnAttribute(Attribute::Naked))
                continue;
            if (F.hasAvailableExternallyLinkage())
                continue;
            fns.push_back(&F);
        }
        for (auto* F : fns)
            todo.insert(F);
        unsigned idx = 0;
        std::vector<std::string> names;
        for (auto* F : fns)
        {
            instrument(*F, idx++);
            names.push_back(F->getName().str());
        }
        // function-name table for the runtime
        std::string all;
        for (auto& n : names)
            all += n + "\n";
        auto* init = ConstantDataArray::getString(C, all);
        auto* GV = new GlobalVariable(*M, init->getType(), true,
                                      GlobalValue::ExternalLinkage, init,
                                      "__sym_fn_names");
        (void)GV;
        new GlobalVariable(*M, I32, true, GlobalValue::ExternalLinkage,
                           ConstantInt::get(I32, idx), "__sym_fn_count");
        return PreservedAnalyses::none();
    }

    // -------- per function state
    DenseMap<Value*, Value*> sh;
    std::vector<std::pair<PHINode*, PHINode*>> phis;

    Value* S(Value* V)
    {
        if (isa<Constant>(V) || isa<MetadataAsValue>(V) || isa<InlineAsm>(V) ||
            isa<BasicBlock>(V))
            return zeroSh(V->getType());
        auto it = sh.find(V);
        if (it != sh.end())
            return it->second;
        return zeroSh(V->getType());
    }
    bool isZero(Value* s)
    {
        auto* c = dyn_cast<Constant>(s);
        return c && c->isNullValue();
    }
    Value* as64(IRBuilder<>& B, Value* V)
    {
        Type* T = V->getType();
        if (T->isPointerTy())
            return B.CreatePtrToInt(V, I64);
        if (T->isDoubleTy())
            return B.CreateBitCast(V, I64);
        if (T == I64)
            return V;
        if (T->isIntegerTy())
            return B.CreateZExtOrTrunc(V, I64);
        return ConstantInt::get(I64, 0);
    }
    Value* c32(unsigned v) { return ConstantInt::get(I32, v); }
    Value* cname(IRBuilder<>& B, StringRef n)
    {
        return B.CreateGlobalStringPtr(n, "symname", 0, M);
    }
    Value* bin(IRBuilder<>& B, unsigned op, unsigned w, Value* sa, Value* a,
               Value* sb, Value* b)
    {
        if (isZero(sa) && isZero(sb))
            return c32(0);
        return B.CreateCall(FBin, {c32(op), c32(w), sa, a, sb, b});
    }

    void extCheckVal(IRBuilder<>& B, Value* V, StringRef name)
    {
        Value* s = S(V);
        if (isZero(s))
            return;
        extCheckSh(B, s, s->getType(), name);
    }
    void extCheckSh(IRBuilder<>& B, Value* s, Type* T, StringRef name)
    {
        if (T == I32)
        {
            B.CreateCall(FExt, {cname(B, name), s});
            return;
        }
        unsigned n = T->isStructTy() ? T->getStructNumElements()
                                     : T->getArrayNumElements();
        for (unsigned i = 0; i < n; i++)
        {
            Value* e = B.CreateExtractValue(s, i);
            extCheckSh(B, e, e->getType(), name);
        }
    }
    void storeFlat(IRBuilder<>& B, Value* s, GlobalVariable* G, unsigned& idx,
                   unsigned max)
    {
        Type* T = s->getType();
        if (T == I32)
        {
            if (idx < max)
                B.CreateStore(s, B.CreateConstInBoundsGEP2_32(
                                     G->getValueType(), G, 0, idx));
            idx++;
            return;
        }
        unsigned n = T->isStructTy() ? T->getStructNumElements()
                                     : T->getArrayNumElements();
        for (unsigned i = 0; i < n; i++)
        {
            if (isZero(s))
                storeFlat(B,
                          Constant::getNullValue(
                              T->isStructTy() ? T->getStructElementType(i)
                                              : T->getArrayElementType()),
                          G, idx, max);
            else
                storeFlat(B, B.CreateExtractValue(s, i), G, idx, max);
        }
    }
    Value* loadFlat(IRBuilder<>& B, Type* T, GlobalVariable* G, unsigned& idx,
                    unsigned max)
    {
        if (T == I32)
        {
            Value* r = c32(0);
            if (idx < max)
                r = B.CreateLoad(I32, B.CreateConstInBoundsGEP2_32(
                                          G->getValueType(), G, 0, idx));
            idx++;
            return r;
        }
        Value* agg = PoisonValue::get(T);
        unsigned n = T->isStructTy() ? T->getStructNumElements()
                                     : T->getArrayNumElements();
        for (unsigned i = 0; i < n; i++)
        {
            Type* E = T->isStructTy() ? T->getStructElementType(i)
                                      : T->getArrayElementType();
            agg = B.CreateInsertValue(agg, loadFlat(B, E, G, idx, max), i);
        }
        return agg;
    }

    // load/store of arbitrary first-class type's shadows
    Value* loadSh(IRBuilder<>& B, Type* T, Value* P, uint64_t off = 0)
    {
        auto& DL = M->getDataLayout();
        if (scalar(T))
        {
            Value* Q = off ? B.CreateConstGEP1_64(I8, P, off) : P;
            return B.CreateCall(
                FLoad, {Q, c32(DL.getTypeStoreSize(T)), c32(width(T))});
        }
        if (auto* ST = dyn_cast<StructType>(T))
        {
            auto* SL = DL.getStructLayout(ST);
            Value* agg = PoisonValue::get(shTy(T));
            for (unsigned i = 0; i < ST->getNumElements(); i++)
                agg = B.CreateInsertValue(
                    agg,
                    loadSh(B, ST->getElementType(i), P,
                           off + SL->getElementOffset(i)),
                    i);
            return agg;
        }
        if (auto* AT = dyn_cast<ArrayType>(T))
        {
            uint64_t es = DL.getTypeAllocSize(AT->getElementType());
            Value* agg = PoisonValue::get(shTy(T));
            for (unsigned i = 0; i < AT->getNumElements(); i++)
                agg = B.CreateInsertValue(
                    agg, loadSh(B, AT->getElementType(), P, off + i * es), i);
            return agg;
        }
        Value* Q = off ? B.CreateConstGEP1_64(I8, P, off) : P;
        B.CreateCall(FCheckMem,
                     {Q, ConstantInt::get(I64, DL.getTypeStoreSize(T)),
                      cname(B, "load of unsupported type")});
        return c32(0);
    }
    void storeSh(IRBuilder<>& B, Type* T, Value* P, Value* V, Value* s,
                 uint64_t off = 0)
    {
        auto& DL = M->getDataLayout();
        Value* Q = off ? B.CreateConstGEP1_64(I8, P, off) : P;
        if (scalar(T))
        {
            B.CreateCall(FStore, {Q, c32(DL.getTypeStoreSize(T)), s,
                                  as64(B, V)});
            return;
        }
        if (auto* ST = dyn_cast<StructType>(T))
        {
            auto* SL = DL.getStructLayout(ST);
            for (unsigned i = 0; i < ST->getNumElements(); i++)
                storeSh(B, ST->getElementType(i), P,
                        B.CreateExtractValue(V, i), B.CreateExtractValue(s, i),
                        off + SL->getElementOffset(i));
            return;
        }
        if (auto* AT = dyn_cast<ArrayType>(T))
        {
            uint64_t es = DL.getTypeAllocSize(AT->getElementType());
            for (unsigned i = 0; i < AT->getNumElements(); i++)
                storeSh(B, AT->getElementType(), P, B.CreateExtractValue(V, i),
                        B.CreateExtractValue(s, i), off + i * es);
            return;
        }
        B.CreateCall(FClear,
                     {Q, ConstantInt::get(I64, DL.getTypeStoreSize(T))});
    }

    void instrument(Function& F, unsigned idx)
    {
        sh.clear();
        phis.clear();
        std::vector<Instruction*> work;
        // blocks in RPO-ish order so operands (except phis) come first
        ReversePostOrderTraversal<Function*> RPO(&F);
        std::vector<BasicBlock*> blocks(RPO.begin(), RPO.end());
        for (auto* BB : blocks)
            for (auto& I : *BB)
                work.push_back(&I);

        // prologue
        {
            IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt());
            // after allocas
            Instruction* ip = &*F.getEntryBlock().getFirstInsertionPt();
            while (isa<AllocaInst>(ip))
                ip = ip->getNextNode();
            B.SetInsertPoint(ip);
            B.CreateCall(FFn, {c32(idx), &F});
            unsigned slot = 0;
            for (auto& A : F.args())
            {
                if (A.hasByValAttr())
                {
                    Value* src = B.CreateLoad(
                        Ptr, B.CreateConstInBoundsGEP2_32(
                                 ByvalG->getValueType(), ByvalG, 0,
                                 std::min(slot, MAXARGS - 1)));
                    B.CreateCall(
                        FCopySh,
                        {&A, src,
                         ConstantInt::get(I64, M->getDataLayout().getTypeAllocSize(
                                                   A.getParamByValType()))});
                    slot++;
                    continue;
                }
                sh[&A] = loadFlat(B, shTy(A.getType()), ArgG, slot, MAXARGS);
            }
        }

        for (auto* I : work)
            visit(*I);
        for (auto& [P, SP] : phis)
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                SP->addIncoming(S(P->getIncomingValue(i)),
                                P->getIncomingBlock(i));
    }

    void visit(Instruction& I)
    {
        Type* T = I.getType();
        auto& DL = M->getDataLayout();
        switch (I.getOpcode())
        {
            case Instruction::Alloca:
            {
                auto& A = cast<AllocaInst>(I);
                Instruction* ip = I.getNextNode();
                while (isa<AllocaInst>(ip))
                    ip = ip->getNextNode();
                IRBuilder<> B(ip);
                Value* n = ConstantInt::get(
                    I64, DL.getTypeAllocSize(A.getAllocatedType()));
                if (A.isArrayAllocation())
                    n = B.CreateMul(n, B.CreateZExtOrTrunc(A.getArraySize(), I64));
                B.CreateCall(FClear, {&A, n});
                return;
            }
            case Instruction::PHI:
            {
                auto& P = cast<PHINode>(I);
                IRBuilder<> B(&I);
                auto* SP = B.CreatePHI(shTy(T), P.getNumIncomingValues());
                sh[&I] = SP;
                phis.push_back({&P, SP});
                return;
            }
            case Instruction::Load:
            {
                auto& L = cast<LoadInst>(I);
                fixPtr(I, 0, L.getPointerOperand());
                IRBuilder<> B(&I);
                sh[&I] = loadSh(B, T, L.getPointerOperand());
                return;
            }
            case Instruction::Store:
            {
                auto& St = cast<StoreInst>(I);
                fixPtr(I, 1, St.getPointerOperand());
                IRBuilder<> B(&I);
                Value* V = St.getValueOperand();
                storeSh(B, V->getType(), St.getPointerOperand(), V, S(V));
                return;
            }
            case Instruction::GetElementPtr:
                return visitGEP(cast<GetElementPtrInst>(I));
            case Instruction::ICmp:
            case Instruction::FCmp:
            {
                auto& Cm = cast<CmpInst>(I);
                Value *a = I.getOperand(0), *b = I.getOperand(1);
                if (!scalar(a->getType()))
                {
                    IRBuilder<> B(&I);
                    extCheckVal(B, a, "cmp of unsupported type");
                    extCheckVal(B, b, "cmp of unsupported type");
                    return;
                }
                Value *sa = S(a), *sb = S(b);
                if (isZero(sa) && isZero(sb))
                    return;
                IRBuilder<> B(&I);
                sh[&I] = B.CreateCall(
                    FCmp, {c32(Cm.getPredicate()), c32(width(a->getType())), sa,
                           as64(B, a), sb, as64(B, b)});
                return;
            }
            case Instruction::Select:
                return visitSelect(cast<SelectInst>(I));
            case Instruction::Freeze:
                sh[&I] = S(I.getOperand(0));
                return;
            case Instruction::ExtractValue:
            {
                auto& E = cast<ExtractValueInst>(I);
                Value* s = S(E.getAggregateOperand());
                if (isZero(s))
                    return;
                IRBuilder<> B(&I);
                sh[&I] = B.CreateExtractValue(s, E.getIndices());
                return;
            }
            case Instruction::InsertValue:
            {
                auto& E = cast<InsertValueInst>(I);
                Value* s = S(E.getAggregateOperand());
                Value* v = S(E.getInsertedValueOperand());
                if (isZero(s) && isZero(v))
                    return;
                IRBuilder<> B(&I);
                sh[&I] = B.CreateInsertValue(s, v, E.getIndices());
                return;
            }
            case Instruction::Br:
            {
                auto& Br = cast<BranchInst>(I);
                if (!Br.isConditional())
                    return;
                Value* s = S(Br.getCondition());
                if (isZero(s))
                    return;
                IRBuilder<> B(&I);
                Br.setCondition(B.CreateCall(FBranch, {s, Br.getCondition()}));
                return;
            }
            case Instruction::Switch:
            {
                auto& Sw = cast<SwitchInst>(I);
                Value* s = S(Sw.getCondition());
                if (isZero(s))
                    return;
                IRBuilder<> B(&I);
                Value* v = B.CreateCall(
                    FConc, {s, as64(B, Sw.getCondition()),
                            c32(width(Sw.getCondition()->getType()))});
                Sw.setCondition(
                    B.CreateTrunc(v, Sw.getCondition()->getType()));
                return;
            }
            case Instruction::Ret:
            {
                auto& R = cast<ReturnInst>(I);
                // musttail: leave callee's ret shadows
                if (auto* Prev = I.getPrevNode())
                    if (auto* CI = dyn_cast<CallInst>(Prev))
                        if (CI->isMustTailCall())
                            return;
                if (!R.getReturnValue())
                    return;
                IRBuilder<> B(&I);
                unsigned idx = 0;
                storeFlat(B, S(R.getReturnValue()), RetG, idx, MAXRET);
                return;
            }
            case Instruction::Call:
            case Instruction::Invoke:
                return visitCall(cast<CallBase>(I));
            case Instruction::AtomicRMW:
            case Instruction::AtomicCmpXchg:
            {
                IRBuilder<> B(&I);
                for (auto& O : I.operands())
                    if (!isa<Constant>(O))
                        extCheckVal(B, O, "atomic operand");
                Value* P = I.getOperand(0);
                Type* VT = I.getOperand(1)->getType();
                B.CreateCall(FCheckMem,
                             {P, ConstantInt::get(I64, DL.getTypeStoreSize(VT)),
                              cname(B, "atomic op on symbolic memory")});
                return;
            }
            case Instruction::FNeg:
            {
                Value* s = S(I.getOperand(0));
                if (isZero(s))
                    return;
                IRBuilder<> B(&I);
                if (!T->isDoubleTy())
                    return extCheckVal(B, I.getOperand(0), "fneg type");
                sh[&I] = B.CreateCall(FUnop, {c32(OP_FNEG), s});
                return;
            }
            default:
                break;
        }
        if (auto* BO = dyn_cast<BinaryOperator>(&I))
        {
            Value *a = BO->getOperand(0), *b = BO->getOperand(1);
            Value *sa = S(a), *sb = S(b);
            if (isZero(sa) && isZero(sb))
                return;
            IRBuilder<> B(&I);
            if (!scalar(T))
            {
                extCheckVal(B, a, "binop type");
                extCheckVal(B, b, "binop type");
                return;
            }
            unsigned op = 0;
            switch (BO->getOpcode())
            {
                case Instruction::Add: op = OP_ADD; break;
                case Instruction::Sub: op = OP_SUB; break;
                case Instruction::Mul: op = OP_MUL; break;
                case Instruction::UDiv: op = OP_UDIV; break;
                case Instruction::SDiv: op = OP_SDIV; break;
                case Instruction::URem: op = OP_UREM; break;
                case Instruction::SRem: op = OP_SREM; break;
                case Instruction::And: op = OP_AND; break;
                case Instruction::Or: op = OP_OR; break;
                case Instruction::Xor: op = OP_XOR; break;
                case Instruction::Shl: op = OP_SHL; break;
                case Instruction::LShr: op = OP_LSHR; break;
                case Instruction::AShr: op = OP_ASHR; break;
                case Instruction::FAdd: op = OP_FADD; break;
                case Instruction::FSub: op = OP_FSUB; break;
                case Instruction::FMul: op = OP_FMUL; break;
                case Instruction::FDiv: op = OP_FDIV; break;
                case Instruction::FRem: op = OP_FREM; break;
                default: break;
            }
            bool isdiv = op >= OP_UDIV && op <= OP_SREM;
            if (isdiv && !isZero(sb))
            {
                // the native computation must not trap on a stale divisor
                Value* d = B.CreateCall(FDiv, {sb, as64(B, b), c32(width(T))});
                BO->setOperand(1, B.CreateTrunc(d, b->getType()));
            }
            if (isdiv && !isZero(sa) && isZero(sb) == false && isa<Instruction>(a))
            {
            }
            sh[&I] = bin(B, op, width(T), sa, as64(B, a), sb, as64(B, b));
            return;
        }
        if (auto* CI = dyn_cast<CastInst>(&I))
        {
            Value* s = S(CI->getOperand(0));
            if (isZero(s))
                return;
            IRBuilder<> B(&I);
            Type* FT = CI->getSrcTy();
            if (!scalar(FT) || !scalar(T))
                return extCheckVal(B, CI->getOperand(0),
                                   "cast of unsupported type");
            unsigned op = 0;
            switch (CI->getOpcode())
            {
                case Instruction::Trunc: op = OP_TRUNC; break;
                case Instruction::ZExt: op = OP_ZEXT; break;
                case Instruction::SExt: op = OP_SEXT; break;
                case Instruction::SIToFP: op = OP_SITOFP; break;
                case Instruction::UIToFP: op = OP_UITOFP; break;
                case Instruction::FPToSI: op = OP_FPTOSI; break;
                case Instruction::FPToUI: op = OP_FPTOUI; break;
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::BitCast:
                    if (width(FT) == width(T))
                    {
                        sh[&I] = s;
                        return;
                    }
                    op = width(FT) > width(T) ? OP_TRUNC : OP_ZEXT;
                    break;
                default:
                    return extCheckVal(B, CI->getOperand(0), "cast op");
            }
            sh[&I] = B.CreateCall(FCast,
                                  {c32(op), c32(width(FT)), c32(width(T)), s});
            return;
        }
        // anything else: operands must be concrete
        if (!I.isTerminator() || isa<ResumeInst>(I))
        {
            IRBuilder<> B(&I);
            for (auto& O : I.operands())
                if (!isa<Constant>(O) && !isa<BasicBlock>(O))
                    extCheckVal(B, O, std::string("unsupported instruction ") +
                                          I.getOpcodeName());
        }
    }

    void fixPtr(Instruction& I, unsigned opno, Value* P)
    {
        Value* s = S(P);
        if (isZero(s))
            return;
        IRBuilder<> B(&I);
        I.setOperand(opno, B.CreateCall(FPtr, {s, P}));
    }

    void visitGEP(GetElementPtrInst& G)
    {
        auto& DL = M->getDataLayout();
        if (G.getType()->isVectorTy())
            return;
        bool any = !isZero(S(G.getPointerOperand()));
        for (auto& O : G.indices())
            if (!isZero(S(O)))
                any = true;
        if (!any)
            return;
        IRBuilder<> B(&G);
        Value* s = S(G.getPointerOperand());
        Value* v = as64(B, G.getPointerOperand());
        for (auto GTI = gep_type_begin(G), GTE = gep_type_end(G); GTI != GTE;
             ++GTI)
        {
            Value* idx = GTI.getOperand();
            if (auto* ST = GTI.getStructTypeOrNull())
            {
                uint64_t off = DL.getStructLayout(ST)->getElementOffset(
                    cast<ConstantInt>(idx)->getZExtValue());
                if (!off)
                    continue;
                Value* o = ConstantInt::get(I64, off);
                s = bin(B, OP_ADD, 64, s, v, c32(0), o);
                v = B.CreateAdd(v, o);
                continue;
            }
            uint64_t es = DL.getTypeAllocSize(GTI.getIndexedType());
            if (auto* CI = dyn_cast<ConstantInt>(idx))
            {
                if (CI->isZero())
                    continue;
                Value* o = ConstantInt::get(I64, CI->getSExtValue() * es);
                s = bin(B, OP_ADD, 64, s, v, c32(0), o);
                v = B.CreateAdd(v, o);
                continue;
            }
            Value* is = S(idx);
            unsigned w = width(idx->getType());
            if (w < 64 && !isZero(is))
                is = B.CreateCall(FCast, {c32(OP_SEXT), c32(w), c32(64), is});
            Value* iv = B.CreateSExtOrTrunc(idx, I64);
            Value* sc = ConstantInt::get(I64, es);
            if (es != 1)
            {
                is = bin(B, OP_MUL, 64, is, iv, c32(0), sc);
                iv = B.CreateMul(iv, sc);
            }
            s = bin(B, OP_ADD, 64, s, v, is, iv);
            v = B.CreateAdd(v, iv);
        }
        sh[&G] = s;
    }

    void visitSelect(SelectInst& SI)
    {
        Value* sc = S(SI.getCondition());
        Value *a = SI.getTrueValue(), *b = SI.getFalseValue();
        Type* T = SI.getType();
        if (SI.getCondition()->getType() != I1)
        {
            IRBuilder<> B(&SI);
            extCheckVal(B, SI.getCondition(), "vector select");
            extCheckVal(B, a, "vector select");
            extCheckVal(B, b, "vector select");
            return;
        }
        Value *sa = S(a), *sb = S(b);
        if (isZero(sc) && isZero(sa) && isZero(sb))
            return;
        IRBuilder<> B(&SI);
        // integers (incl. i1): build an ite; doubles, pointers, aggregates: fork
        if (!isZero(sc) && T->isIntegerTy() && scalar(T))
        {
            Value* r = B.CreateCall(
                FIte, {sc, sa, as64(B, a), sb, as64(B, b), c32(width(T))});
            // when the condition is concrete, plain select of shadows
            Value* isc = B.CreateICmpEQ(sc, c32(0));
            sh[&SI] = B.CreateSelect(
                isc, B.CreateSelect(SI.getCondition(), sa, sb), r);
            return;
        }
        if (!isZero(sc))
            SI.setCondition(B.CreateCall(FBranch, {sc, SI.getCondition()}));
        if (!isZero(sa) || !isZero(sb))
        {
            if (sa->getType() == sb->getType())
                sh[&SI] = B.CreateSelect(SI.getCondition(), sa, sb);
        }
    }

    // ---- calls
    bool modelled(StringRef n)
    {
        static StringSet<> s = {
            "memcpy", "memmove", "memset", "memcmp", "bcmp", "strlen", "strcmp",
            "strncmp", "memchr", "pow", "floor", "ceil", "round", "trunc",
            "fmod", "sqrt", "exp", "log", "fmin", "fmax", "fabs", "rint",
            "nearbyint", "lround", "llround", "abs", "labs", "llabs", "malloc",
            "calloc", "realloc", "free", "_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm",
            "_ZdaPv", "_ZdaPvm", "wmemset", "isnan", "isinf",
            "_ZnwmSt11align_val_t", "_ZdlPvmSt11align_val_t",
            "_ZdlPvSt11align_val_t", "__cxa_allocate_exception"};
        return s.count(n) > 0;
    }
    bool ignored(StringRef n, const std::string& dem)
    {
        static StringSet<> s = {"printf", "fprintf", "puts", "putchar", "fputs",
                                "fwrite", "__cxa_throw", "__cxa_begin_catch",
                                "__cxa_end_catch", "__cxa_atexit", "abort",
                                "exit", "__assert_fail", "_exit"};
        if (s.count(n))
            return true;
        std::string d;
        return isOpaqueName(n, d);
    }

    void visitCall(CallBase& CB)
    {
        if (CB.isInlineAsm())
        {
            IRBuilder<> B(&CB);
            for (auto& A : CB.args())
                extCheckVal(B, A, "inline asm");
            return;
        }
        Function* F = CB.getCalledFunction();
        if (!F)
            F = dyn_cast<Function>(
                CB.getCalledOperand()->stripPointerCastsAndAliases());
        if (F && F->isIntrinsic())
            return visitIntrinsic(CB, F);
        if (!F)
        {
            // symbolic function pointer
            Value* s = S(CB.getCalledOperand());
            if (!isZero(s))
            {
                IRBuilder<> B(&CB);
                CB.setCalledOperand(
                    B.CreateCall(FPtr, {s, CB.getCalledOperand()}));
            }
        }
        StringRef n = F ? F->getName() : "";
        bool internal = !F || todo.count(F) || n.starts_with("sym_") ||
                        n.starts_with("__symapi_");
        if (F && !internal && modelled(n))
        {
            FunctionCallee R = M->getOrInsertFunction(("__model_" + n).str(),
                                                      F->getFunctionType());
            CB.setCalledFunction(R);
            internal = true;
        }
        IRBuilder<> B(&CB);
        if (!internal)
        {
            std::string dem = demangle(n.str());
            B.CreateCall(FBelow, {});
            // numbers turned into text by a stream
            if ((dem.rfind("std::ostream::", 0) == 0 ||
                 dem.rfind("std::ostream& std::ostream::", 0) == 0) &&
                (dem.find("operator<<") != std::string::npos ||
                 dem.find("_M_insert<") != std::string::npos) &&
                CB.arg_size() == 2 && scalar(CB.getArgOperand(1)->getType()))
            {
                Value* A = CB.getArgOperand(1);
                Type* T = A->getType();
                Value* s = S(A);
                if (!isZero(s))
                {
                    Value* r = B.CreateCall(
                        FText, {CB.getArgOperand(0), s, as64(B, A),
                                c32(width(T)), c32(T->isDoubleTy())});
                    if (T->isDoubleTy())
                        r = B.CreateBitCast(r, T);
                    else if (T->isPointerTy())
                        r = B.CreateIntToPtr(r, T);
                    else
                        r = B.CreateZExtOrTrunc(r, T);
                    CB.setArgOperand(1, r);
                }
                return;
            }
            if (!ignored(n, dem) && !opaque.count(F))
                for (auto& A : CB.args())
                    extCheckVal(B, A, dem);
            return;
        }
        unsigned slot = 0, ai = 0;
        unsigned fixed = CB.getFunctionType()->getNumParams();
        for (auto& A : CB.args())
        {
            if (ai >= fixed)
            {
                extCheckVal(B, A, "variadic argument");
                ai++;
                continue;
            }
            if (CB.isByValArgument(ai))
            {
                B.CreateStore(A, B.CreateConstInBoundsGEP2_32(
                                     ByvalG->getValueType(), ByvalG, 0,
                                     std::min(slot, MAXARGS - 1)));
                slot++;
            }
            else
                storeFlat(B, S(A), ArgG, slot, MAXARGS);
            ai++;
        }
        B.CreateStore(CB.getCalledOperand(), CalleeG);
        Type* RT = CB.getType();
        bool mt = isa<CallInst>(CB) && cast<CallInst>(CB).isMustTailCall();
        if (RT->isVoidTy() || mt)
            return;
        // zero the ret slots, then read after
        unsigned idx = 0;
        storeFlat(B, zeroSh(RT), RetG, idx, MAXRET);
        Instruction* ip;
        if (auto* II = dyn_cast<InvokeInst>(&CB))
        {
            BasicBlock* ND = II->getNormalDest();
            if (!ND->getSinglePredecessor())
            {
                // should not happen: critical edges are split beforehand
                ND = SplitEdge(II->getParent(), ND);
            }
            ip = &*ND->getFirstInsertionPt();
            // place before any use in ND but after phis
        }
        else
            ip = CB.getNextNode();
        IRBuilder<> A(ip);
        idx = 0;
        sh[&CB] = loadFlat(A, shTy(RT), RetG, idx, MAXRET);
    }

    void visitIntrinsic(CallBase& CB, Function* F)
    {
        IRBuilder<> B(&CB);
        auto arg = [&](unsigned i) { return CB.getArgOperand(i); };
        Type* T = CB.getType();
        auto setAfter = [&](Value* v) { sh[&CB] = v; };
        auto un = [&](unsigned op) {
            Value* s = S(arg(0));
            if (isZero(s))
                return;
            if (!T->isDoubleTy())
                return extCheckVal(B, arg(0), F->getName());
            setAfter(B.CreateCall(FUnop, {c32(op), s}));
        };
        auto minmax = [&](CmpInst::Predicate p) {
            Value *sa = S(arg(0)), *sb = S(arg(1));
            if (isZero(sa) && isZero(sb))
                return;
            unsigned w = width(T);
            Value* c = B.CreateCall(FCmp, {c32(p), c32(w), sa,
                                           as64(B, arg(0)), sb, as64(B, arg(1))});
            Value* cc = CmpInst::isIntPredicate(p)
                            ? B.CreateICmp(p, arg(0), arg(1))
                            : B.CreateFCmp(p, arg(0), arg(1));
            Value* r = B.CreateCall(FIte, {c, sa, as64(B, arg(0)), sb,
                                           as64(B, arg(1)), c32(w)});
            setAfter(B.CreateSelect(B.CreateICmpEQ(c, c32(0)),
                                    B.CreateSelect(cc, sa, sb), r));
        };
        switch (F->getIntrinsicID())
        {
            case Intrinsic::memcpy:
            case Intrinsic::memmove:
            case Intrinsic::memcpy_inline:
            {
                concArg(B, CB, 0);
                concArg(B, CB, 1);
                concArg(B, CB, 2);
                B.CreateCall(FMemcpy, {arg(0), arg(1),
                                       B.CreateZExtOrTrunc(arg(2), I64)});
                return;
            }
            case Intrinsic::memset:
            case Intrinsic::memset_inline:
            {
                concArg(B, CB, 0);
                concArg(B, CB, 2);
                B.CreateCall(FMemset,
                             {arg(0), S(arg(1)), as64(B, arg(1)),
                              B.CreateZExtOrTrunc(arg(2), I64)});
                return;
            }
            case Intrinsic::lifetime_start:
            {
                auto* CI = dyn_cast<ConstantInt>(arg(0));
                if (CI && CI->getSExtValue() > 0)
                {
                    IRBuilder<> A(CB.getNextNode());
                    A.CreateCall(FClear, {arg(1), CI});
                }
                return;
            }
            case Intrinsic::lifetime_end:
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::assume:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::invariant_start:
            case Intrinsic::invariant_end:
            case Intrinsic::eh_typeid_for:
            case Intrinsic::trap:
            case Intrinsic::stacksave:
            case Intrinsic::stackrestore:
            case Intrinsic::vastart:
            case Intrinsic::vaend:
            case Intrinsic::objectsize:
            case Intrinsic::is_constant:
            case Intrinsic::prefetch:
            case Intrinsic::threadlocal_address:
                return;
            case Intrinsic::expect:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
            case Intrinsic::ptr_annotation:
                setAfter(S(arg(0)));
                return;
            case Intrinsic::fabs: return un(OP_FABS);
            case Intrinsic::floor: return un(OP_FLOOR);
            case Intrinsic::ceil: return un(OP_FCEIL);
            case Intrinsic::trunc: return un(OP_FTRUNC);
            case Intrinsic::round: return un(OP_FROUND);
            case Intrinsic::rint:
            case Intrinsic::nearbyint: return un(OP_FRINT);
            case Intrinsic::sqrt: return un(OP_FSQRT);
            case Intrinsic::exp: return un(OP_FEXP);
            case Intrinsic::log: return un(OP_FLOG);
            case Intrinsic::pow:
                if (T->isDoubleTy())
                    setAfter(bin(B, OP_FPOW, 64, S(arg(0)), as64(B, arg(0)),
                                 S(arg(1)), as64(B, arg(1))));
                return;
            case Intrinsic::smax: return minmax(CmpInst::ICMP_SGT);
            case Intrinsic::smin: return minmax(CmpInst::ICMP_SLT);
            case Intrinsic::umax: return minmax(CmpInst::ICMP_UGT);
            case Intrinsic::umin: return minmax(CmpInst::ICMP_ULT);
            case Intrinsic::is_fpclass:
            {
                Value* s = S(arg(0));
                if (isZero(s))
                    return;
                if (!arg(0)->getType()->isDoubleTy())
                    return extCheckVal(B, arg(0), F->getName());
                FunctionCallee FC = M->getOrInsertFunction(
                    "__sym_fpclass",
                    FunctionType::get(I32, {I32, I32}, false));
                setAfter(B.CreateCall(FC, {s, arg(1)}));
                return;
            }
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::smul_with_overflow:
            case Intrinsic::umul_with_overflow:
            {
                Value *sa = S(arg(0)), *sb = S(arg(1));
                if (isZero(sa) && isZero(sb))
                    return;
                unsigned w = width(arg(0)->getType());
                unsigned k = 0, op = OP_ADD;
                switch (F->getIntrinsicID())
                {
                    case Intrinsic::sadd_with_overflow: k = 0; op = OP_ADD; break;
                    case Intrinsic::uadd_with_overflow: k = 1; op = OP_ADD; break;
                    case Intrinsic::ssub_with_overflow: k = 2; op = OP_SUB; break;
                    case Intrinsic::usub_with_overflow: k = 3; op = OP_SUB; break;
                    case Intrinsic::smul_with_overflow: k = 4; op = OP_MUL; break;
                    default: k = 5; op = OP_MUL; break;
                }
                Value* r = bin(B, op, w, sa, as64(B, arg(0)), sb, as64(B, arg(1)));
                FunctionCallee FC = M->getOrInsertFunction(
                    "__sym_ovf", FunctionType::get(
                                     I32, {I32, I32, I32, I64, I32, I64}, false));
                Value* o = B.CreateCall(FC, {c32(k), c32(w), sa, as64(B, arg(0)),
                                             sb, as64(B, arg(1))});
                Value* agg = PoisonValue::get(shTy(T));
                agg = B.CreateInsertValue(agg, r, 0u);
                agg = B.CreateInsertValue(agg, o, 1u);
                setAfter(agg);
                return;
            }
            case Intrinsic::abs:
            {
                Value* s = S(arg(0));
                if (isZero(s))
                    return;
                unsigned w = width(T);
                Value* neg = bin(B, OP_SUB, w, c32(0), ConstantInt::get(I64, 0),
                                 s, as64(B, arg(0)));
                Value* c = B.CreateCall(
                    FCmp, {c32(CmpInst::ICMP_SLT), c32(w), s, as64(B, arg(0)),
                           c32(0), ConstantInt::get(I64, 0)});
                Value* nv = B.CreateNeg(arg(0));
                Value* r = B.CreateCall(FIte, {c, neg, as64(B, nv), s,
                                               as64(B, arg(0)), c32(w)});
                setAfter(B.CreateSelect(B.CreateICmpEQ(c, c32(0)), c32(0), r));
                return;
            }
            case Intrinsic::minnum:
            case Intrinsic::maxnum:
            {
                FunctionCallee FC = M->getOrInsertFunction(
                    F->getIntrinsicID() == Intrinsic::minnum ? "__model_fmin"
                                                             : "__model_fmax",
                    F->getFunctionType());
                CB.setCalledFunction(FC);
                unsigned slot = 0;
                storeFlat(B, S(arg(0)), ArgG, slot, MAXARGS);
                storeFlat(B, S(arg(1)), ArgG, slot, MAXARGS);
                B.CreateStore(CB.getCalledOperand(), CalleeG);
                IRBuilder<> A(CB.getNextNode());
                unsigned idx = 0;
                sh[&CB] = loadFlat(A, I32, RetG, idx, MAXRET);
                return;
            }
            default:
                for (auto& A : CB.args())
                    if (!A->getType()->isMetadataTy())
                        extCheckVal(B, A, F->getName());
        }
    }
    void concArg(IRBuilder<>& B, CallBase& CB, unsigned i)
    {
        Value* A = CB.getArgOperand(i);
        Value* s = S(A);
        if (isZero(s))
            return;
        if (A->getType()->isPointerTy())
            CB.setArgOperand(i, B.CreateCall(FPtr, {s, A}));
        else
            CB.setArgOperand(
                i, B.CreateZExtOrTrunc(
                       B.CreateCall(FConc, {s, as64(B, A),
                                            c32(width(A->getType()))}),
                       A->getType()));
    }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "SymPass", "1", [](PassBuilder& PB) {
                PB.registerPipelineParsingCallback(
                    [](StringRef N, ModulePassManager& MPM,
                       ArrayRef<PassBuilder::PipelineElement>) {
                        if (N != "sympass")
                            return false;
                        MPM.addPass(SymPass());
                        return true;
                    });
            }};
}
