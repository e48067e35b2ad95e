// symins: instruments LLVM bitcode so that every instruction also computes, in
// shadow values, the symbolic expression of its result (see rt.cpp for the
// runtime which builds the expressions and asks the SMT solver).
//
// usage: symins in.bc out.bc defined-symbols.txt
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InstVisitor.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <fstream>
#include <set>
#include <string>
#include <map>
#include "ops.h"

using namespace llvm;

static std::set<std::string> defined;
using Leaves = SmallVector<Value*, 2>;

struct Leaf { Type* ty; uint64_t off; };

struct Ins {
    Module& M; LLVMContext& C; DataLayout const& DL;
    Type *voidT, *i1, *i32, *i64, *ptr;
    Constant* null;
    GlobalVariable *gParams, *gRets, *gCallee, *gRetFn;
    std::map<std::string, FunctionCallee> rt;
    int siteCounter = 0;
    uint32_t modHash;

    explicit Ins(Module& M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
        voidT = Type::getVoidTy(C); i1 = Type::getInt1Ty(C); i32 = Type::getInt32Ty(C);
        i64 = Type::getInt64Ty(C); ptr = PointerType::get(C, 0);
        null = ConstantPointerNull::get(cast<PointerType>(ptr));
        auto g = [&](char const* n, Type* t) {
            return new GlobalVariable(M, t, false, GlobalValue::ExternalLinkage, nullptr, n);
        };
        gParams = g("__sym_params", ArrayType::get(ptr, 256));
        gRets = g("__sym_rets", ArrayType::get(ptr, 64));
        gCallee = g("__sym_callee", ptr);
        gRetFn = g("__sym_retfn", ptr);
        modHash = std::hash<std::string>{}(M.getSourceFileName()) & 0x7fff;
    }

    FunctionCallee fn(StringRef n, Type* r, ArrayRef<Type*> a) {
        auto& f = rt[n.str()];
        if (!f) f = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
        return f;
    }

    void flatten(Type* t, uint64_t off, SmallVectorImpl<Leaf>& out) {
        if (auto* s = dyn_cast<StructType>(t)) {
            if (!s->isSized()) return;
            auto* sl = DL.getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); ++i)
                flatten(s->getElementType(i), off + sl->getElementOffset(i), out);
        } else if (auto* a = dyn_cast<ArrayType>(t)) {
            auto sz = DL.getTypeAllocSize(a->getElementType());
            for (uint64_t i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), off + i * sz, out);
        } else if (auto* v = dyn_cast<FixedVectorType>(t)) {
            auto bits = DL.getTypeSizeInBits(v->getElementType()).getFixedValue();
            for (unsigned i = 0; i < v->getNumElements(); ++i)
                out.push_back({v->getElementType(), off + i * bits / 8});
        } else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) {
        } else {
            out.push_back({t, off});
        }
    }
    SmallVector<Leaf, 2> leavesOf(Type* t) { SmallVector<Leaf, 2> r; flatten(t, 0, r); return r; }

    bool supported(Type* t) {
        if (t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) return true;
        return t->isIntegerTy() && t->getIntegerBitWidth() <= 64;
    }
    unsigned widthOf(Type* t) {
        if (t->isPointerTy()) return 64;
        return t->getPrimitiveSizeInBits().getFixedValue();
    }

    // ---- per function state
    DenseMap<Value*, Leaves> sh;
    std::vector<std::pair<PHINode*, SmallVector<PHINode*, 2>>> phis;

    Leaves shadow(Value* v) {
        auto it = sh.find(v);
        if (it != sh.end()) return it->second;
        auto l = leavesOf(v->getType());
        return Leaves(l.size(), null);
    }
    bool allNull(Leaves const& l) { for (auto* v : l) if (v != null) return false; return true; }

    // concrete value of leaf i of v
    Value* leafVal(IRBuilder<>& B, Value* v, unsigned i) {
        Type* t = v->getType();
        if (!t->isAggregateType() && !t->isVectorTy()) return v;
        if (t->isVectorTy()) return B.CreateExtractElement(v, (uint64_t)i);
        // aggregate: find the path
        SmallVector<unsigned, 4> path;
        unsigned idx = i;
        Type* cur = t;
        while (cur->isAggregateType()) {
            unsigned n = cur->isStructTy() ? cur->getStructNumElements() : cur->getArrayNumElements();
            for (unsigned k = 0; k < n; ++k) {
                Type* e = cur->isStructTy() ? cur->getStructElementType(k) : cur->getArrayElementType();
                unsigned cnt = leavesOf(e).size();
                if (idx < cnt) { path.push_back(k); cur = e; break; }
                idx -= cnt;
            }
        }
        Value* r = B.CreateExtractValue(v, path);
        if (cur->isVectorTy()) r = B.CreateExtractElement(r, (uint64_t)idx);
        return r;
    }
    Value* bits(IRBuilder<>& B, Value* v) {
        Type* t = v->getType();
        if (t->isPointerTy()) return B.CreatePtrToInt(v, i64);
        if (t->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, i32), i64);
        if (t->isDoubleTy()) return B.CreateBitCast(v, i64);
        if (t->isIntegerTy()) {
            if (t->getIntegerBitWidth() == 64) return v;
            if (t->getIntegerBitWidth() < 64) return B.CreateZExt(v, i64);
            return B.CreateTrunc(v, i64);
        }
        return ConstantInt::get(i64, 0);
    }
    Value* leafBits(IRBuilder<>& B, Value* v, unsigned i) { return bits(B, leafVal(B, v, i)); }
    Value* c32(uint32_t x) { return ConstantInt::get(i32, x); }
    Value* c64(uint64_t x) { return ConstantInt::get(i64, x); }

    void concretize(IRBuilder<>& B, Value* v) {
        auto s = shadow(v);
        auto lv = leavesOf(v->getType());
        for (unsigned i = 0; i < s.size(); ++i) {
            if (s[i] == null) continue;
            B.CreateCall(fn("__sym_conc", voidT, {ptr, i64, i32}), {s[i], leafBits(B, v, i), c32(widthOf(lv[i].ty))});
        }
    }
    // splits the block before I so that the code made by f only runs when cond is true
    void set(Value* v, Leaves l) { sh[v] = std::move(l); }

    void fallback(Instruction* I) {
        IRBuilder<> B(I);
        for (auto& op : I->operands()) if (!isa<BasicBlock>(op) && !isa<MetadataAsValue>(op)) concretize(B, op);
    }

    IRBuilder<> after(Instruction* I) {
        if (auto* inv = dyn_cast<InvokeInst>(I)) {
            return IRBuilder<>(&*inv->getNormalDest()->getFirstInsertionPt());
        }
        return IRBuilder<>(I->getNextNode());
    }

    void binary(Instruction* I) {
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        auto lv = leavesOf(I->getType());
        auto sa = shadow(a), sb = shadow(b);
        if (allNull(sa) && allNull(sb)) return;
        if (!supported(lv[0].ty)) return fallback(I);
        int op; bool fp = false;
        switch (I->getOpcode()) {
        case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break;
        case Instruction::Mul: op = O_MUL; break; case Instruction::UDiv: op = O_UDIV; break;
        case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break;
        case Instruction::SRem: op = O_SREM; break; case Instruction::Shl: op = O_SHL; break;
        case Instruction::LShr: op = O_LSHR; break; case Instruction::AShr: op = O_ASHR; break;
        case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break;
        case Instruction::Xor: op = O_XOR; break;
        case Instruction::FAdd: op = O_FADD; fp = true; break; case Instruction::FSub: op = O_FSUB; fp = true; break;
        case Instruction::FMul: op = O_FMUL; fp = true; break; case Instruction::FDiv: op = O_FDIV; fp = true; break;
        default: return fallback(I);
        }
        (void)fp;
        IRBuilder<> B(I);
        Leaves r;
        for (unsigned i = 0; i < lv.size(); ++i) {
            if (sa[i] == null && sb[i] == null) { r.push_back(null); continue; }
            r.push_back(B.CreateCall(fn("__sym_bin", ptr, {i32, i32, ptr, ptr, i64, i64}),
                {c32(op), c32(widthOf(lv[i].ty)), sa[i], sb[i], leafBits(B, a, i), leafBits(B, b, i)}));
        }
        set(I, r);
    }
    Value* emitBin(IRBuilder<>& B, int op, unsigned w, Value* sa, Value* sb, Value* va, Value* vb) {
        if (sa == null && sb == null) return null;
        return B.CreateCall(fn("__sym_bin", ptr, {i32, i32, ptr, ptr, i64, i64}), {c32(op), c32(w), sa, sb, va, vb});
    }
    Value* emitUn(IRBuilder<>& B, int op, unsigned sw, unsigned dw, Value* sa, Value* va) {
        if (sa == null) return null;
        return B.CreateCall(fn("__sym_un", ptr, {i32, i32, i32, ptr, i64}), {c32(op), c32(sw), c32(dw), sa, va});
    }

    void compare(CmpInst* I) {
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        auto lv = leavesOf(a->getType());
        auto sa = shadow(a), sb = shadow(b);
        if (allNull(sa) && allNull(sb)) return;
        if (!supported(lv[0].ty)) return fallback(I);
        IRBuilder<> B(I);
        Leaves r;
        for (unsigned i = 0; i < lv.size(); ++i) {
            if (sa[i] == null && sb[i] == null) { r.push_back(null); continue; }
            r.push_back(B.CreateCall(fn("__sym_cmp", ptr, {i32, i32, ptr, ptr, i64, i64}),
                {c32(I->getPredicate()), c32(widthOf(lv[i].ty)), sa[i], sb[i], leafBits(B, a, i), leafBits(B, b, i)}));
        }
        set(I, r);
    }

    void castI(CastInst* I) {
        Value* a = I->getOperand(0);
        auto sl = leavesOf(a->getType()), dl = leavesOf(I->getType());
        auto sa = shadow(a);
        if (allNull(sa)) return;
        IRBuilder<> B(I);
        if (I->getOpcode() == Instruction::BitCast) {
            if (sl.size() == dl.size()) { set(I, sa); return; }
            if (sl.size() > 1 && dl.size() == 1 && supported(dl[0].ty)) {      // pack
                Value* acc = null; Value* accV = nullptr; unsigned accW = 0;
                for (unsigned i = 0; i < sl.size(); ++i) {
                    unsigned w = widthOf(sl[i].ty); Value* v = leafBits(B, a, i);
                    if (!accV) { acc = sa[i]; accV = v; accW = w; continue; }
                    acc = B.CreateCall(fn("__sym_concat", ptr, {i32, i32, ptr, ptr, i64, i64}),
                                       {c32(w), c32(accW), sa[i], acc, v, accV});
                    accV = B.CreateOr(B.CreateShl(v, c64(accW)), accV); accW += w;
                }
                set(I, {acc}); return;
            }
            if (sl.size() == 1 && dl.size() > 1) {
                Leaves r; unsigned lo = 0;
                for (auto& d : dl) {
                    unsigned w = widthOf(d.ty);
                    r.push_back(B.CreateCall(fn("__sym_extract", ptr, {ptr, i32, i32}), {sa[0], c32(lo), c32(w)}));
                    lo += w;
                }
                set(I, r); return;
            }
            return fallback(I);
        }
        if (sl.size() != dl.size() || !supported(sl[0].ty) || !supported(dl[0].ty)) return fallback(I);
        int op;
        switch (I->getOpcode()) {
        case Instruction::Trunc: op = O_TRN; break; case Instruction::ZExt: op = O_ZEXT; break;
        case Instruction::SExt: op = O_SEXT; break; case Instruction::FPToUI: op = O_F2UI; break;
        case Instruction::FPToSI: op = O_F2SI; break; case Instruction::UIToFP: op = O_UI2F; break;
        case Instruction::SIToFP: op = O_SI2F; break; case Instruction::FPTrunc: op = O_FTRUNC; break;
        case Instruction::FPExt: op = O_FEXT; break;
        case Instruction::PtrToInt: op = widthOf(dl[0].ty) < 64 ? O_TRN : O_NOP; break;
        case Instruction::IntToPtr: op = widthOf(sl[0].ty) < 64 ? O_ZEXT : O_NOP; break;
        default: return fallback(I);
        }
        Leaves r;
        for (unsigned i = 0; i < sl.size(); ++i) {
            if (op == O_NOP) r.push_back(sa[i]);
            else r.push_back(emitUn(B, op, widthOf(sl[i].ty), widthOf(dl[i].ty), sa[i], leafBits(B, a, i)));
        }
        set(I, r);
    }

    void selectI(SelectInst* I) {
        Value *c = I->getCondition(), *a = I->getTrueValue(), *b = I->getFalseValue();
        auto sc = shadow(c), sa = shadow(a), sb = shadow(b);
        if (allNull(sc) && allNull(sa) && allNull(sb)) return;
        auto lv = leavesOf(I->getType());
        IRBuilder<> B(I);
        Leaves r;
        for (unsigned i = 0; i < lv.size(); ++i) {
            unsigned ci = c->getType()->isVectorTy() ? i : 0;
            if (!supported(lv[i].ty)) { concretize(B, c); return; }
            r.push_back(B.CreateCall(fn("__sym_select", ptr, {i32, ptr, i64, ptr, ptr, i64, i64}),
                {c32(widthOf(lv[i].ty)), sc[ci], leafBits(B, c, ci), sa[i], sb[i], leafBits(B, a, i), leafBits(B, b, i)}));
        }
        set(I, r);
    }

    void loadI(LoadInst* I) {
        auto lv = leavesOf(I->getType());
        auto sp = shadow(I->getPointerOperand());
        Value* p = I->getPointerOperand();
        IRBuilder<> B(I);
        B.CreateCall(fn("__sym_access", voidT, {ptr, ptr, i64, i32}),
                     {p, sp[0], c64(DL.getTypeStoreSize(I->getType())), c32(0)});
        Leaves r;
        for (auto& l : lv) {
            if (!supported(l.ty)) {
                B.CreateCall(fn("__sym_concmem", voidT, {ptr, i64}), {p, c64(DL.getTypeStoreSize(I->getType()))});
                r.push_back(null); continue;
            }
            Value* q = l.off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), p, l.off) : p;
            r.push_back(B.CreateCall(fn("__sym_load", ptr, {ptr, i32}), {q, c32(widthOf(l.ty))}));
        }
        set(I, r);
    }
    void storeI(StoreInst* I) {
        Value *v = I->getValueOperand(), *p = I->getPointerOperand();
        auto lv = leavesOf(v->getType());
        auto sv = shadow(v), sp = shadow(p);
        IRBuilder<> B(I);
        uint64_t size = DL.getTypeStoreSize(v->getType());
        B.CreateCall(fn("__sym_access", voidT, {ptr, ptr, i64, i32}), {p, sp[0], c64(size), c32(1)});
        if (allNull(sv)) {
            B.CreateCall(fn("__sym_clear", voidT, {ptr, i64}), {p, c64(size)});
            return;
        }
        for (unsigned i = 0; i < lv.size(); ++i) {
            if (!supported(lv[i].ty)) { concretize(B, v); B.CreateCall(fn("__sym_clear", voidT, {ptr, i64}), {p, c64(size)}); return; }
            Value* q = lv[i].off ? B.CreateConstInBoundsGEP1_64(Type::getInt8Ty(C), p, lv[i].off) : p;
            B.CreateCall(fn("__sym_store", voidT, {ptr, ptr, i64, i32}),
                         {q, sv[i], leafBits(B, v, i), c32(widthOf(lv[i].ty))});
        }
    }

    void gepI(GetElementPtrInst* I) {
        if (I->getType()->isVectorTy()) return fallback(I);
        Value* base = I->getPointerOperand();
        Leaves s = shadow(base);
        bool any = s[0] != null;
        for (auto& ix : I->indices()) if (!allNull(shadow(ix))) any = true;
        if (!any) return;
        IRBuilder<> B(I);
        Value* acc = s[0];
        Value* accV = B.CreatePtrToInt(base, i64);
        for (auto gti = gep_type_begin(I), e = gep_type_end(I); gti != e; ++gti) {
            Value* ix = gti.getOperand();
            if (auto* st = gti.getStructTypeOrNull()) {
                uint64_t off = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                if (!off) continue;
                acc = emitBin(B, O_ADD, 64, acc, null, accV, c64(off));
                accV = B.CreateAdd(accV, c64(off));
            } else {
                uint64_t scale = DL.getTypeAllocSize(gti.getIndexedType());
                Value* si = shadow(ix)[0];
                unsigned w = ix->getType()->getIntegerBitWidth();
                Value* v = B.CreateSExtOrTrunc(ix, i64);
                if (w < 64) si = emitUn(B, O_SEXT, w, 64, si, bits(B, ix));
                Value* ps = emitBin(B, O_MUL, 64, si, null, v, c64(scale));
                Value* pv = B.CreateMul(v, c64(scale));
                acc = emitBin(B, O_ADD, 64, acc, ps, accV, pv);
                accV = B.CreateAdd(accV, pv);
            }
        }
        set(I, {acc});
    }

    void extractValue(ExtractValueInst* I) {
        auto s = shadow(I->getAggregateOperand());
        if (allNull(s)) return;
        unsigned first = leafIndex(I->getAggregateOperand()->getType(), I->getIndices());
        unsigned n = leavesOf(I->getType()).size();
        set(I, Leaves(s.begin() + first, s.begin() + first + n));
    }
    unsigned leafIndex(Type* t, ArrayRef<unsigned> idx) {
        unsigned r = 0;
        for (unsigned k : idx) {
            for (unsigned j = 0; j < k; ++j)
                r += leavesOf(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()).size();
            t = t->isStructTy() ? t->getStructElementType(k) : t->getArrayElementType();
        }
        return r;
    }
    void insertValue(InsertValueInst* I) {
        auto s = shadow(I->getAggregateOperand());
        auto v = shadow(I->getInsertedValueOperand());
        if (allNull(s) && allNull(v)) return;
        unsigned first = leafIndex(I->getType(), I->getIndices());
        for (unsigned i = 0; i < v.size(); ++i) s[first + i] = v[i];
        set(I, s);
    }
    void extractElement(ExtractElementInst* I) {
        auto s = shadow(I->getVectorOperand());
        if (allNull(s) && allNull(shadow(I->getIndexOperand()))) return;
        if (auto* c = dyn_cast<ConstantInt>(I->getIndexOperand())) set(I, {s[c->getZExtValue()]});
        else fallback(I);
    }
    void insertElement(InsertElementInst* I) {
        auto s = shadow(I->getOperand(0)), v = shadow(I->getOperand(1));
        if (allNull(s) && allNull(v) && allNull(shadow(I->getOperand(2)))) return;
        if (auto* c = dyn_cast<ConstantInt>(I->getOperand(2))) { s[c->getZExtValue()] = v[0]; set(I, s); }
        else fallback(I);
    }
    void shuffle(ShuffleVectorInst* I) {
        auto a = shadow(I->getOperand(0)), b = shadow(I->getOperand(1));
        if (allNull(a) && allNull(b)) return;
        Leaves r;
        for (int m : I->getShuffleMask()) {
            if (m < 0) r.push_back(null);
            else if ((unsigned)m < a.size()) r.push_back(a[m]);
            else r.push_back(b[m - a.size()]);
        }
        set(I, r);
    }

    bool intrinsic(CallBase* I, Intrinsic::ID id) {
        IRBuilder<> B(I);
        auto un = [&](int op) {
            auto lv = leavesOf(I->getType());
            auto s = shadow(I->getArgOperand(0));
            Leaves r;
            for (unsigned i = 0; i < lv.size(); ++i) {
                if (!supported(lv[i].ty)) { fallback(I); return; }
                unsigned w = widthOf(lv[i].ty);
                r.push_back(emitUn(B, op, w, w, s[i], leafBits(B, I->getArgOperand(0), i)));
            }
            set(I, r);
        };
        auto bin = [&](int op) {
            auto lv = leavesOf(I->getType());
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
            auto s = shadow(a), t = shadow(b);
            Leaves r;
            for (unsigned i = 0; i < lv.size(); ++i) {
                if (!supported(lv[i].ty)) { fallback(I); return; }
                r.push_back(emitBin(B, op, widthOf(lv[i].ty), s[i], t[i], leafBits(B, a, i), leafBits(B, b, i)));
            }
            set(I, r);
        };
        switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::lifetime_end: case Intrinsic::assume:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing:
        case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for:
        case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::threadlocal_address:
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::vastart: case Intrinsic::vaend:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end:
            return true;
        case Intrinsic::lifetime_start:
            if (auto* n = dyn_cast<ConstantInt>(I->getArgOperand(0))) {
                if (n->getSExtValue() > 0) { B.CreateCall(fn("__sym_fresh", voidT, {ptr, i64}), {I->getArgOperand(1), c64(n->getZExtValue())}); }
            }
            return true;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy:
            set(I, shadow(I->getArgOperand(0))); return true;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove:
            B.CreateCall(fn("__sym_memcpy", voidT, {ptr, ptr, i64, ptr, ptr, ptr}),
                {I->getArgOperand(0), I->getArgOperand(1), B.CreateZExtOrTrunc(I->getArgOperand(2), i64),
                 shadow(I->getArgOperand(0))[0], shadow(I->getArgOperand(1))[0], shadow(I->getArgOperand(2))[0]});
            return true;
        case Intrinsic::memset: case Intrinsic::memset_inline:
            B.CreateCall(fn("__sym_memset", voidT, {ptr, i64, i64, ptr, ptr, ptr}),
                {I->getArgOperand(0), B.CreateZExt(I->getArgOperand(1), i64), B.CreateZExtOrTrunc(I->getArgOperand(2), i64),
                 shadow(I->getArgOperand(0))[0], shadow(I->getArgOperand(1))[0], shadow(I->getArgOperand(2))[0]});
            return true;
        case Intrinsic::smax: bin(O_SMAX); return true; case Intrinsic::smin: bin(O_SMIN); return true;
        case Intrinsic::umax: bin(O_UMAX); return true; case Intrinsic::umin: bin(O_UMIN); return true;
        case Intrinsic::usub_sat: bin(O_USUBSAT); return true;
        case Intrinsic::uadd_sat: bin(O_UADDSAT); return true;
        case Intrinsic::abs: un(O_ABS); return true;
        case Intrinsic::fabs: un(O_FABS); return true; case Intrinsic::sqrt: un(O_FSQRT); return true;
        case Intrinsic::floor: un(O_FFLOOR); return true; case Intrinsic::ceil: un(O_FCEIL); return true;
        case Intrinsic::trunc: un(O_FRTZ); return true; case Intrinsic::round: un(O_FROUND); return true;
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: un(O_FRNE); return true;
        case Intrinsic::fmuladd: {
            auto lv = leavesOf(I->getType());
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *c = I->getArgOperand(2);
            auto s = shadow(a), t = shadow(b), u = shadow(c);
            Leaves r;
            for (unsigned i = 0; i < lv.size(); ++i) {
                unsigned w = widthOf(lv[i].ty);
                Value* p = emitBin(B, O_FMUL, w, s[i], t[i], leafBits(B, a, i), leafBits(B, b, i));
                Value* pv = bits(B, B.CreateFMul(leafVal(B, a, i), leafVal(B, b, i)));
                r.push_back(emitBin(B, O_FADD, w, p, u[i], pv, leafBits(B, c, i)));
            }
            set(I, r); return true;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
            Value *s = shadow(a)[0], *t = shadow(b)[0];
            if (s == null && t == null) return true;
            unsigned w = widthOf(a->getType());
            int op = id == Intrinsic::uadd_with_overflow ? 0 : id == Intrinsic::usub_with_overflow ? 1 :
                     id == Intrinsic::sadd_with_overflow ? 2 : id == Intrinsic::ssub_with_overflow ? 3 :
                     id == Intrinsic::umul_with_overflow ? 4 : 5;
            static int const base[] = {O_ADD, O_SUB, O_ADD, O_SUB, O_MUL, O_MUL};
            Value* ov = B.CreateCall(fn("__sym_ovf", ptr, {i32, i32, ptr, ptr, i64, i64}),
                                     {c32(op), c32(w), s, t, bits(B, a), bits(B, b)});
            Value* r = emitBin(B, base[op], w, s, t, bits(B, a), bits(B, b));
            set(I, {r, ov});
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr:
            fallback(I); return true;
        default: break;
        }
        fallback(I);
        return true;
    }

    static bool isModelled(StringRef n) { return n.starts_with("sym_"); }

    void callI(CallBase* I) {
        if (I->isInlineAsm()) return fallback(I);
        Function* F = dyn_cast<Function>(I->getCalledOperand()->stripPointerCasts());
        if (F && F->isIntrinsic()) { intrinsic(I, F->getIntrinsicID()); return; }
        // library functions with a model of their own
        if (F && F->isDeclaration()) {
            StringRef n = F->getName();
            static std::map<std::string, int> const un = {
                {"fabs", O_FABS}, {"fabsf", O_FABS}, {"sqrt", O_FSQRT}, {"sqrtf", O_FSQRT}, {"floor", O_FFLOOR},
                {"floorf", O_FFLOOR}, {"ceil", O_FCEIL}, {"ceilf", O_FCEIL}, {"trunc", O_FRTZ}, {"truncf", O_FRTZ},
                {"round", O_FROUND}, {"roundf", O_FROUND}};
            auto it = un.find(n.str());
            if (it != un.end()) {
                IRBuilder<> B(I);
                unsigned w = widthOf(I->getType());
                set(I, {emitUn(B, it->second, w, w, shadow(I->getArgOperand(0))[0], leafBits(B, I->getArgOperand(0), 0))});
                return;
            }
            static std::map<std::string, std::string> const redirect = {
                {"malloc", "__sym_malloc"}, {"free", "__sym_free"}, {"calloc", "__sym_calloc"}, {"realloc", "__sym_realloc"},
                {"posix_memalign", "__sym_posix_memalign"}, {"aligned_alloc", "__sym_aligned_alloc"},
                {"memcpy", "sym_memcpy"}, {"memmove", "sym_memmove"}, {"memset", "sym_memset"},
                {"memcmp", "sym_memcmp"}, {"bcmp", "sym_memcmp"}, {"strlen", "sym_strlen"}, {"memchr", "sym_memchr"},
                {"hypot", "sym_hypot"}, {"hypotf", "sym_hypotf"}, {"cabs", "sym_cabs"}, {"cabsf", "sym_cabsf"}};
            auto rd = redirect.find(n.str());
            if (rd != redirect.end()) {
                auto callee = M.getOrInsertFunction(rd->second, F->getFunctionType());
                I->setCalledFunction(callee);
                F = cast<Function>(callee.getCallee());
            }
        }
        bool instrumented = F && (!F->isDeclaration() || defined.count(F->getName().str()) || isModelled(F->getName()));
        bool external = F && !instrumented;
        IRBuilder<> B(I);
        Value* target = I->getCalledOperand();
        if (external) {
            emitExternal(I, F->getName());
            B.CreateStore(null, gCallee);
            return;
        }
        if (!F) B.CreateCall(fn("__sym_icall", voidT, {ptr}), {target});
        // parameters
        bool any = false; unsigned slot = 0;
        for (unsigned i = 0; i < I->arg_size(); ++i) {
            if (I->isByValArgument(i)) { any = true; continue; }
            if (!allNull(shadow(I->getArgOperand(i)))) any = true;
        }
        if (!any) B.CreateStore(null, gCallee);
        else {
            for (unsigned i = 0; i < I->arg_size(); ++i) {
                Value* a = I->getArgOperand(i);
                if (I->isByValArgument(i)) { storeSlot(B, gParams, slot++, a); continue; }
                for (auto* s : shadow(a)) { if (slot < 256) storeSlot(B, gParams, slot, s); ++slot; }
            }
            B.CreateStore(target, gCallee);
        }
        if (!F) {                                   // indirect: concretise if the target is not instrumented
            if (any) {
                B.CreateCall(fn("__sym_icall_args", voidT, {ptr, i32}), {target, c32(slot)});
            }
        }
        auto lv = leavesOf(I->getType());
        if (lv.empty()) return;
        if (auto* ci = dyn_cast<CallInst>(I)) if (ci->isMustTailCall()) return;
        pendingRets.push_back(I);
        // created later (block may be split); reserve placeholders now
        IRBuilder<> A = after(I);
        Value* rf = A.CreateLoad(ptr, gRetFn);
        Value* ok = A.CreateICmpEQ(rf, target);
        Leaves r;
        for (unsigned i = 0; i < lv.size(); ++i) {
            Value* s = A.CreateLoad(ptr, slotPtr(A, gRets, i));
            r.push_back(A.CreateSelect(ok, s, null));
        }
        set(I, r);
    }
    std::vector<CallBase*> pendingRets;
    Value* slotPtr(IRBuilder<>& B, GlobalVariable* g, unsigned i) {
        return B.CreateConstInBoundsGEP2_64(g->getValueType(), g, 0, i);
    }
    void storeSlot(IRBuilder<>& B, GlobalVariable* g, unsigned i, Value* v) { B.CreateStore(v, slotPtr(B, g, i)); }

    std::map<std::string, Constant*> strs;
    Constant* str(IRBuilder<>& B, StringRef s) {
        auto& c = strs[s.str()];
        if (!c) c = B.CreateGlobalString(s, "sym.str", 0, &M);
        return c;
    }

    void emitExternal(CallBase* I, StringRef name) {
        IRBuilder<> B(I);
        for (unsigned i = 0; i < I->arg_size(); ++i) {
            Value* a = I->getArgOperand(i);
            if (isa<Constant>(a) && !isa<GlobalVariable>(a)) continue;
            if (a->getType()->isPointerTy()) {
                B.CreateCall(fn("__sym_ext_ptr", voidT, {ptr, ptr, ptr}), {str(B, name), a, shadow(a)[0]});
            } else {
                auto s = shadow(a); auto lv = leavesOf(a->getType());
                for (unsigned k = 0; k < s.size(); ++k) {
                    if (s[k] == null) continue;
                    B.CreateCall(fn("__sym_ext_val", voidT, {ptr, ptr, i64, i32}),
                                 {str(B, name), s[k], leafBits(B, a, k), c32(widthOf(lv[k].ty))});
                }
            }
        }
    }

    void visit(Instruction* I) {
        if (auto* b = dyn_cast<BinaryOperator>(I)) return binary(b);
        if (auto* u = dyn_cast<UnaryOperator>(I)) {
            auto s = shadow(u->getOperand(0));
            if (allNull(s)) return;
            auto lv = leavesOf(u->getType());
            IRBuilder<> B(I);
            Leaves r;
            for (unsigned i = 0; i < s.size(); ++i) {
                unsigned w = widthOf(lv[i].ty);
                r.push_back(emitUn(B, O_FNEG, w, w, s[i], leafBits(B, u->getOperand(0), i)));
            }
            return set(I, r);
        }
        if (auto* c = dyn_cast<CmpInst>(I)) return compare(c);
        if (auto* c = dyn_cast<CastInst>(I)) return castI(c);
        if (auto* c = dyn_cast<SelectInst>(I)) return selectI(c);
        if (auto* c = dyn_cast<LoadInst>(I)) return loadI(c);
        if (auto* c = dyn_cast<StoreInst>(I)) return storeI(c);
        if (auto* c = dyn_cast<GetElementPtrInst>(I)) return gepI(c);
        if (auto* c = dyn_cast<ExtractValueInst>(I)) return extractValue(c);
        if (auto* c = dyn_cast<InsertValueInst>(I)) return insertValue(c);
        if (auto* c = dyn_cast<ExtractElementInst>(I)) return extractElement(c);
        if (auto* c = dyn_cast<InsertElementInst>(I)) return insertElement(c);
        if (auto* c = dyn_cast<ShuffleVectorInst>(I)) return shuffle(c);
        if (auto* c = dyn_cast<FreezeInst>(I)) return set(I, shadow(c->getOperand(0)));
        if (auto* c = dyn_cast<CallBase>(I)) return callI(c);
        if (auto* c = dyn_cast<BranchInst>(I)) {
            if (!c->isConditional()) return;
            auto s = shadow(c->getCondition());
            if (s[0] == null) return;
            IRBuilder<> B(I);
            B.CreateCall(fn("__sym_branch", voidT, {i32, ptr, i64}),
                         {c32((modHash << 16) | (++siteCounter & 0xffff)), s[0], B.CreateZExt(c->getCondition(), i64)});
            return;
        }
        if (auto* c = dyn_cast<SwitchInst>(I)) {
            auto s = shadow(c->getCondition());
            if (s[0] == null) return;
            IRBuilder<> B(I);
            std::vector<uint64_t> cases;
            for (auto& k : c->cases()) cases.push_back(k.getCaseValue()->getZExtValue());
            auto* arr = ConstantDataArray::get(C, cases);
            auto* g = new GlobalVariable(M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "sym.cases");
            B.CreateCall(fn("__sym_switch", voidT, {i32, ptr, i64, i32, ptr, i32}),
                {c32((modHash << 16) | (++siteCounter & 0xffff)), s[0], bits(B, c->getCondition()),
                 c32(widthOf(c->getCondition()->getType())), g, c32(cases.size())});
            return;
        }
        if (auto* c = dyn_cast<ReturnInst>(I)) {
            if (!c->getReturnValue()) return;
            auto s = shadow(c->getReturnValue());
            if (auto* ci = dyn_cast<CallInst>(c->getReturnValue())) if (ci->isMustTailCall()) return;
            IRBuilder<> B(I);
            if (allNull(s)) { B.CreateStore(null, gRetFn); return; }
            for (unsigned i = 0; i < s.size(); ++i) storeSlot(B, gRets, i, s[i]);
            B.CreateStore(c->getFunction(), gRetFn);
            return;
        }
        if (auto* a = dyn_cast<AllocaInst>(I)) {
            if (auto* n = dyn_cast<ConstantInt>(a->getArraySize())) {
                allocas.push_back({a, DL.getTypeAllocSize(a->getAllocatedType()) * n->getZExtValue()});
            }
            return;
        }
        if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
            IRBuilder<> B(I);
            Value* p = I->getOperand(0);
            fallback(I);
            B.CreateCall(fn("__sym_concmem", voidT, {ptr, i64}), {p, c64(8)});
            return;
        }
        if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) return;
        fallback(I);
    }
    std::vector<std::pair<AllocaInst*, uint64_t>> allocas;

    void run(Function& F) {
        sh.clear(); phis.clear(); allocas.clear(); pendingRets.clear();
        removeUnreachableBlocks(F);
        // every invoke gets a normal destination of its own, for the code after the call
        for (auto& BB : make_early_inc_range(F)) {
            if (auto* inv = dyn_cast<InvokeInst>(BB.getTerminator())) {
                if (!inv->getNormalDest()->getSinglePredecessor()) SplitEdge(&BB, inv->getNormalDest());
                else if (isa<PHINode>(inv->getNormalDest()->front())) {
                    FoldSingleEntryPHINodes(inv->getNormalDest());
                }
            }
        }
        BasicBlock& E = F.getEntryBlock();
        Instruction* first = &*E.getFirstNonPHIOrDbgOrAlloca();
        IRBuilder<> B(first);
        std::vector<BasicBlock*> order;
        { ReversePostOrderTraversal<Function*> rpo(&F); for (auto* b : rpo) order.push_back(b); }
        std::vector<std::vector<Instruction*>> insts;
        for (auto* b : order) { insts.emplace_back(); for (auto& i : *b) insts.back().push_back(&i); }
        B.CreateCall(fn("__sym_enter", voidT, {ptr}), {str(B, F.getName())});
        // parameters
        if (F.arg_size()) {
            Value* match = nullptr; unsigned slot = 0;
            Value* cal = B.CreateLoad(ptr, gCallee);
            match = B.CreateICmpEQ(cal, &F);
            for (auto& a : F.args()) {
                if (a.hasByValAttr()) {
                    Value* src = B.CreateSelect(match, B.CreateLoad(ptr, slotPtr(B, gParams, slot++)), null);
                    B.CreateCall(fn("__sym_byval", voidT, {ptr, ptr, i64}), {&a, src, c64(DL.getTypeAllocSize(a.getParamByValType()))});
                    continue;
                }
                Leaves r;
                for (auto& l : leavesOf(a.getType())) {
                    (void)l;
                    if (slot < 256) r.push_back(B.CreateSelect(match, B.CreateLoad(ptr, slotPtr(B, gParams, slot)), null));
                    else r.push_back(null);
                    ++slot;
                }
                set(&a, r);
            }
            B.CreateStore(null, gCallee);
        }
        for (auto* b : order) for (auto& i : b->phis()) {
            Leaves r; SmallVector<PHINode*, 2> ps;
            IRBuilder<> PB(&i);
            for (unsigned k = 0; k < leavesOf(i.getType()).size(); ++k) {
                auto* p = PB.CreatePHI(ptr, i.getNumIncomingValues());
                ps.push_back(p); r.push_back(p);
            }
            set(&i, r);
            phis.push_back({&i, ps});
        }
        for (auto& v : insts) for (auto* i : v) if (!isa<PHINode>(i)) visit(i);
        for (auto& pr : phis) {
            for (unsigned n = 0; n < pr.first->getNumIncomingValues(); ++n) {
                auto s = shadow(pr.first->getIncomingValue(n));
                for (unsigned k = 0; k < s.size(); ++k) pr.second[k]->addIncoming(s[k], pr.first->getIncomingBlock(n));
            }
        }
        for (auto& a : allocas) {
            IRBuilder<> AB(a.first->getParent() == &E ? &*E.getFirstNonPHIOrDbgOrAlloca() : a.first->getNextNode());
            AB.CreateCall(fn("__sym_alloca", voidT, {ptr, i64}), {a.first, c64(a.second)});
        }
        // a call which is not a tail call any more (code follows it)
        for (auto& BB : F) for (auto& I : BB) if (auto* c = dyn_cast<CallInst>(&I)) if (c->isTailCall() && !c->isMustTailCall()) c->setTailCall(false);
    }
};

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    { std::ifstream f(argv[3]); std::string s; while (std::getline(f, s)) defined.insert(s); }
    LLVMContext C; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, C);
    if (!M) { err.print(argv[0], errs()); return 2; }
    std::vector<Function*> fs;
    for (auto& F : *M) {
        // bodies of extern templates (std::string, ...): keep and instrument them
        if (F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::LinkOnceODRLinkage);
        if (!F.isDeclaration()) fs.push_back(&F);
    }
    Ins ins(*M);
    for (auto* F : fs) {
        // attributes which the added code would break
        F->removeFnAttr(Attribute::Memory);
        F->removeFnAttr(Attribute::NoUnwind); F->setDoesNotThrow();
        F->removeFnAttr(Attribute::NoUnwind);
        for (auto a : {Attribute::NoFree, Attribute::NoSync, Attribute::WillReturn, Attribute::NoRecurse, Attribute::MustProgress, Attribute::NoCallback}) F->removeFnAttr(a);
    }
    for (auto& F : *M) if (F.isDeclaration() && !F.isIntrinsic()) {
        F.removeFnAttr(Attribute::Memory);
        for (auto a : {Attribute::NoFree, Attribute::NoSync, Attribute::WillReturn, Attribute::NoCallback}) F.removeFnAttr(a);
    }
    for (auto* F : fs) for (auto& BB : *F) for (auto& I : BB) if (auto* c = dyn_cast<CallBase>(&I)) c->removeFnAttr(Attribute::Memory);
    for (auto* F : fs) ins.run(*F);
    // table of the instrumented functions, for indirect calls
    std::vector<Constant*> tab;
    for (auto* F : fs) tab.push_back(F);
    if (!tab.empty()) {
        auto* at = ArrayType::get(ins.ptr, tab.size());
        auto* g = new GlobalVariable(*M, at, false, GlobalValue::InternalLinkage, ConstantArray::get(at, tab), "sym.fns");
        g->setSection("symfns");
        appendToUsed(*M, {g});
    }
    if (verifyModule(*M, &errs())) { errs() << "symins: invalid module " << argv[1] << "\n"; return 3; }
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    WriteBitcodeToFile(*M, os);
    return 0;
}
