// LLVM IR loader and interpreter with byte-granular shadow memory.
#include <ostream>
#include <ios>
#include "rt.h"
#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <unordered_map>
#include <functional>
#include <new>
using namespace llvm; using std::vector; using std::string;

// ============================================================ memory
static const u64 ARENA = 0x100000000000ull, SHADOW = 0x180000000000ull, ASIZE = 1ull << 31;
static const u64 GLOB = ARENA + 4096, GLOBSZ = 64ull << 20, STK = ARENA + (128ull << 20), STKSZ = 128ull << 20, HEAP = ARENA + (512ull << 20);
static const u64 FNBASE = 0x0F0000000000ull;
static u64 globTop = GLOB, stkTop = STK, heapTop = HEAP, heapStart = HEAP, globSnapTop = GLOB;
static vector<u8> globSnap; static vector<u8> globShadowSnap;
static inline bool inArena(u64 a) { return a - ARENA < ASIZE; }
static inline u8* shp(u64 a) { return (u8*)(a - ARENA + SHADOW); }
struct Range { u64 lo, hi; bool w; }; static vector<Range> ext; // external readable ranges
static bool inNative = false;
enum { SH_BAD = 0, SH_OK = 1, SH_UNINIT = 2, SH_FREED = 3 };
static u64 heapAlloc(u64 n, bool init) {
    u64 a = heapTop + 32; // red zone with header
    u64 sz = (n + 15) & ~15ull;
    if (a + sz + 64 > ARENA + ASIZE) throw PathEnd{End::Limit, "arena exhausted"};
    *(u64*)(a - 16) = n; *(u64*)(a - 8) = 0xA110C8ED;
    memset(shp(a), init ? SH_OK : SH_UNINIT, n); if (init) memset((void*)a, 0, n); else memset((void*)a, 0xBE, n);
    heapTop = a + sz + 16; return a;
}
[[noreturn]] static void memErr(const char* what) { reportEvent("memory", string(what), true); abort(); }
static void heapFree(u64 a) {
    if (!a) return;
    if (a < HEAP || a >= heapTop || *(u64*)(a - 8) != 0xA110C8ED) memErr("invalid free");
    if (*shp(a) == SH_FREED && *(u64*)(a - 16)) memErr("double free");
    memset(shp(a), SH_FREED, *(u64*)(a - 16));
}
void* operator new(size_t n) { if (inNative) return (void*)heapAlloc(n, true); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (inArena((u64)p)) { memset(shp((u64)p), SH_FREED, *(u64*)((u64)p - 16)); return; } free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

static bool extOk(u64 a, u64 n, bool w) { for (auto& r : ext) if (a >= r.lo && a + n <= r.hi && (!w || r.w)) return true; return false; }
static string ptrMsg(const char* what, u64 a, u64 n) {
    const char* k = "wild address";
    if (inArena(a)) { u8 s = SH_OK; for (u64 i = 0; i < n; i++) if (*shp(a + i) != SH_OK) { s = *shp(a + i); break; } k = s == SH_FREED ? "freed memory" : s == SH_UNINIT ? "uninitialised memory" : "out of bounds"; }
    else if (a < 4096) k = "null pointer";
    return string(what) + " of " + std::to_string(n) + " bytes: " + k;
}
static inline void checkRead(u64 a, u64 n) {
    if (inArena(a)) {
        const u8* s = shp(a); bool un = false;
        if (n == 8) { u64 v; memcpy(&v, s, 8); if (v == 0x0101010101010101ull) return; }
        for (u64 i = 0; i < n; i++) { if (s[i] == SH_OK) continue; if (s[i] == SH_UNINIT) { un = true; continue; } memErr(ptrMsg("read", a, n).c_str()); }
        if (un) { // the optimiser may load a string's capacity before it knows whether there is one
            if (currentLocation().compare(0, 14, "basic_string.h") != 0 && currentLocation().compare(0, 13, "stl_bvector.h") != 0) reportEvent("uninit", ptrMsg("read", a, n), false);
            for (u64 i = 0; i < n; i++) if (s[i] == SH_UNINIT) { *shp(a + i) = SH_OK; *(u8*)(a + i) = 0; } }
        return;
    }
    if (!extOk(a, n, false)) memErr(ptrMsg("read", a, n).c_str());
}
static inline void checkWrite(u64 a, u64 n) {
    if (inArena(a)) {
        u8* s = shp(a);
        for (u64 i = 0; i < n; i++) if (s[i] == SH_BAD || s[i] == SH_FREED) memErr(ptrMsg("write", a, n).c_str());
        memset(s, SH_OK, n); return;
    }
    if (!extOk(a, n, true)) memErr(ptrMsg("write", a, n).c_str());
}
// addressable check without initialisation semantics (memcpy)
static void checkAddr(u64 a, u64 n, const char* what, bool w) {
    if (!n) return;
    if (inArena(a)) { const u8* s = shp(a); for (u64 i = 0; i < n; i++) if (s[i] == SH_BAD || s[i] == SH_FREED) memErr(ptrMsg(what, a, n).c_str()); return; }
    if (!extOk(a, n, w)) memErr(ptrMsg(what, a, n).c_str());
}
static void markInit(u64 a) { // mark the whole object containing a
    if (!inArena(a) || *shp(a) == SH_BAD || *shp(a) == SH_FREED) return;
    u64 lo = a, hi = a; while (*shp(lo - 1) == SH_UNINIT || *shp(lo - 1) == SH_OK) lo--; while (*shp(hi) == SH_UNINIT || *shp(hi) == SH_OK) hi++;
    memset(shp(lo), SH_OK, hi - lo);
}
static void memCopy(u64 d, u64 s, u64 n) {
    if (!n) return;
    checkAddr(s, n, "read", false); checkAddr(d, n, "write", true);
    memmove((void*)d, (void*)s, n);
    if (inArena(d)) { if (inArena(s)) memmove(shp(d), shp(s), n); else memset(shp(d), SH_OK, n); }
}

// ============================================================ bytecode
enum Op : u8 { O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR, O_ICMP, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FCMP,
    O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_SELECT, O_CALL, O_RET, O_BR, O_CBR, O_SWITCH, O_UNREACH, O_TRUNC, O_ZEXT, O_SEXT, O_F2I, O_I2F, O_LPAD, O_RESUME, O_UNSUP, O_FREM, O_F32, O_LDF, O_STF };
struct Ins { Op op; u8 w; u8 f; u8 f2; i32 d, a, b, c; i64 imm; void* x; const Instruction* I; };
struct Edge { int pc; vector<std::pair<i32, i32>> cp; };
struct GepT { i64 off; vector<std::pair<i32, std::pair<i64, u8>>> idx; };
struct CallT { Function* F; i32 callee; vector<i32> args; vector<u8> kind; // kind 0 int 1 double 2 unsupported
    bool indirect; Edge *norm = nullptr, *unw = nullptr; u8 retKind; int nret; int builtin; void* native; u8 retW; vector<u8> argW; };
struct SwT { vector<std::pair<u64, Edge>> cases; Edge def; };
struct LpT { bool cleanup; vector<u64> catches; };
struct Fn { Function* F; vector<Ins> code; vector<u64> consts; int nregs = 0, nargs = 0; bool compiled = false; string name; bool run = false; bool slsm = false; };
static Module* Mod; static const DataLayout* DL;
static vector<Fn*> fns; static std::unordered_map<const Function*, int> fnIx;
static std::unordered_map<const GlobalValue*, u64> gaddr;
std::vector<std::string> executedFns();

typedef std::function<u64(vector<u64>&, CallT&)> Builtin;
static vector<Builtin> builtins; static std::unordered_map<string, int> builtinIx;
static u64 maxInstr = 50000000;

static u64 fnAddr(const Function* F);
static u64 constVal64(const Constant* C);
static u64 globalAddr(const GlobalValue* G) {
    auto it = gaddr.find(G); if (it != gaddr.end()) return it->second;
    if (auto* F = dyn_cast<Function>(G)) { u64 a = fnAddr(F); gaddr[G] = a; return a; }
    if (auto* Al = dyn_cast<GlobalAlias>(G)) return globalAddr(cast<GlobalValue>(Al->getAliasee()->stripPointerCasts()));
    auto* V = cast<GlobalVariable>(G);
    if (V->hasInitializer()) {
        u64 sz = DL->getTypeAllocSize(V->getValueType()); u64 al = std::max<u64>(16, V->getAlign().valueOrOne().value());
        globTop = (globTop + 32 + al - 1) / al * al; u64 a = globTop; globTop += sz + 16; gaddr[G] = a; return a;
    }
    void* p = dlsym(RTLD_DEFAULT, V->getName().str().c_str());
    if (!p) { fprintf(stderr, "unresolved global %s\n", V->getName().str().c_str()); }
    if (p && V->getValueType()->isSized()) ext.push_back({(u64)p, (u64)p + DL->getTypeAllocSize(V->getValueType()), false}); // e.g. stderr
    gaddr[G] = (u64)p; return (u64)p;
}
static u64 fnAddr(const Function* F) {
    if (F->isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, F->getName().str().c_str()); if (p) return (u64)p; }
    auto it = fnIx.find(F);
    if (it == fnIx.end()) { Fn* f = new Fn; f->F = const_cast<Function*>(F); fns.push_back(f); fnIx[F] = fns.size() - 1; it = fnIx.find(F); }
    return FNBASE + 16ull * it->second;
}
static Fn* getFn(Function* F) { fnAddr(F); auto it = fnIx.find(F); if (it == fnIx.end()) return nullptr; return fns[it->second]; }
static void flatten(Type* T, vector<Type*>& out) {
    if (auto* S = dyn_cast<StructType>(T)) for (auto* e : S->elements()) flatten(e, out);
    else if (auto* Ar = dyn_cast<ArrayType>(T)) for (u64 i = 0; i < Ar->getNumElements(); i++) flatten(Ar->getElementType(), out);
    else if (!T->isVoidTy()) out.push_back(T);
}
static int nslots(Type* T) { vector<Type*> v; flatten(T, v); return v.size(); }
static u8 tw(Type* T) { if (T->isPointerTy()) return 64; if (auto* I = dyn_cast<IntegerType>(T)) return I->getBitWidth() > 64 ? 255 : I->getBitWidth(); if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; return 255; }
static u64 gepConst(const GEPOperator* G) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); abort(); } return constVal64(cast<Constant>(G->getPointerOperand())) + off.getSExtValue(); }
static u64 constVal64(const Constant* C) {
    if (auto* I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) return I->getValue().getLoBits(64).getZExtValue(); return I->getZExtValue(); }
    if (auto* F = dyn_cast<ConstantFP>(C)) { if (F->getType()->isDoubleTy()) return F->getValueAPF().bitcastToAPInt().getZExtValue(); if (F->getType()->isFloatTy()) return asU((double)F->getValueAPF().convertToFloat()); return 0; } // float registers hold the value as a double
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return 0;
    if (auto* G = dyn_cast<GlobalValue>(C)) return globalAddr(G);
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
        switch (E->getOpcode()) {
        case Instruction::GetElementPtr: return gepConst(cast<GEPOperator>(E));
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal64(E->getOperand(0));
        case Instruction::Sub: return constVal64(E->getOperand(0)) - constVal64(E->getOperand(1));
        case Instruction::Add: return constVal64(E->getOperand(0)) + constVal64(E->getOperand(1));
        case Instruction::Trunc: return constVal64(E->getOperand(0)) & ((1ull << tw(E->getType())) - 1);
        default: break;
        }
    }
    fprintf(stderr, "unhandled constant: "); C->print(errs()); fprintf(stderr, "\n"); return 0;
}
static void constSlots(const Constant* C, vector<u64>& out) {
    Type* T = C->getType();
    if (T->isStructTy() || T->isArrayTy()) {
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) constSlots(C->getAggregateElement(i), out);
    } else out.push_back(constVal64(C));
}
static void writeInit(u64 a, const Constant* C) {
    Type* T = C->getType(); u64 sz = DL->getTypeStoreSize(T);
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) { memset((void*)a, 0, DL->getTypeAllocSize(T)); return; }
    if (auto* D = dyn_cast<ConstantDataSequential>(C)) { StringRef s = D->getRawDataValues(); memcpy((void*)a, s.data(), s.size()); return; }
    if (auto* S = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) writeInit(a + L->getElementOffset(i), S->getOperand(i)); return; }
    if (auto* Ar = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(Ar->getType()->getElementType()); for (unsigned i = 0; i < Ar->getNumOperands(); i++) writeInit(a + i * es, Ar->getOperand(i)); return; }
    if (auto* V = dyn_cast<ConstantVector>(C)) { u64 es = DL->getTypeAllocSize(V->getType()->getElementType()); for (unsigned i = 0; i < V->getNumOperands(); i++) writeInit(a + i * es, V->getOperand(i)); return; }
    if (auto* F = dyn_cast<ConstantFP>(C)) { APInt b = F->getValueAPF().bitcastToAPInt(); memcpy((void*)a, b.getRawData(), sz); return; }
    if (auto* I = dyn_cast<ConstantInt>(C)) { memcpy((void*)a, I->getValue().getRawData(), sz); return; }
    u64 v = constVal64(C); memcpy((void*)a, &v, sz);
}

// ---- compile a function
struct Comp {
    Fn* f; std::unordered_map<const Value*, i32> slot; std::unordered_map<const BasicBlock*, int> bbPc;
    vector<std::pair<Edge*, std::pair<const BasicBlock*, const BasicBlock*>>> edges;
    std::map<u64, i32> cpool; int next = 0;
    i32 cst(u64 v) { auto it = cpool.find(v); if (it != cpool.end()) return it->second; f->consts.push_back(v); i32 r = ~(i32)(f->consts.size() - 1); cpool[v] = r; return r; }
    i32 alloc(const Value* v) { auto it = slot.find(v); if (it != slot.end()) return it->second; i32 s = next; next += std::max(1, nslots(v->getType())); slot[v] = s; return s; }
    i32 opn(const Value* v, int k = 0) {
        if (auto* C = dyn_cast<Constant>(v)) {
            if (C->getType()->isStructTy() || C->getType()->isArrayTy()) { vector<u64> o; constSlots(C, o); return cst(o[k]); }
            return cst(constVal64(C));
        }
        if (isa<MetadataAsValue>(v)) return cst(0);
        return alloc(v) + k;
    }
    Edge* edge(const BasicBlock* from, const BasicBlock* to) { Edge* e = new Edge; edges.push_back({e, {from, to}}); return e; }
    Ins& emit(Op op, const Instruction* I) { Ins n{}; n.op = op; n.I = I; f->code.push_back(n); return f->code.back(); }
    void unsup(const Instruction* I) { emit(O_UNSUP, I); }
    void round32(i32 d, const Instruction* I) { Ins& n = emit(O_F32, I); n.a = n.d = d; }
    void go() {
        Function* F = f->F; for (auto& A : F->args()) alloc(&A); f->nargs = next;
        for (auto& BB : *F) {
            bbPc[&BB] = f->code.size();
            for (auto& I : BB) if (!isa<PHINode>(I)) ins(I); else alloc(&I);
        }
        for (auto& e : edges) {
            e.first->pc = bbPc[e.second.second];
            for (auto& P : e.second.second->phis()) {
                Value* v = P.getIncomingValueForBlock(e.second.first); int n = std::max(1, nslots(P.getType()));
                for (int k = 0; k < n; k++) { i32 s = isa<UndefValue>(v) ? cst(0) : opn(v, k), d = alloc(&P) + k; if (s != d) e.first->cp.push_back({d, s}); }
            }
        }
        f->nregs = next;
    }
    void ins(const Instruction& I) {
        Type* T = I.getType();
        if (T->isVectorTy()) { unsup(&I); alloc(&I); return; }
        if (auto* BO = dyn_cast<BinaryOperator>(&I)) {
            Op op; bool fp = T->isDoubleTy() || T->isFloatTy();
            switch (BO->getOpcode()) {
            case Instruction::Add: op = O_ADD; break; case Instruction::Sub: op = O_SUB; break; case Instruction::Mul: op = O_MUL; break;
            case Instruction::UDiv: op = O_UDIV; break; case Instruction::SDiv: op = O_SDIV; break; case Instruction::URem: op = O_UREM; break; case Instruction::SRem: op = O_SREM; break;
            case Instruction::Shl: op = O_SHL; break; case Instruction::LShr: op = O_LSHR; break; case Instruction::AShr: op = O_ASHR; break;
            case Instruction::And: op = O_AND; break; case Instruction::Or: op = O_OR; break; case Instruction::Xor: op = O_XOR; break;
            case Instruction::FAdd: op = O_FADD; break; case Instruction::FSub: op = O_FSUB; break; case Instruction::FMul: op = O_FMUL; break; case Instruction::FDiv: op = O_FDIV; break; case Instruction::FRem: op = O_FREM; break;
            default: unsup(&I); alloc(&I); return;
            }
            if (op >= O_FADD && op != O_ICMP && !fp) { unsup(&I); alloc(&I); return; }
            if (tw(T) == 255) { unsup(&I); alloc(&I); return; }
            i32 a = opn(I.getOperand(0)), b = opn(I.getOperand(1)); Ins& n = emit(op, &I); n.w = tw(T); n.a = a; n.b = b; i32 d = n.d = alloc(&I); if (T->isFloatTy()) round32(d, &I); return;
        }
        switch (I.getOpcode()) {
        case Instruction::FNeg: { if (!T->isDoubleTy() && !T->isFloatTy()) { unsup(&I); alloc(&I); return; } i32 a = opn(I.getOperand(0)); Ins& n = emit(O_FNEG, &I); n.a = a; n.d = alloc(&I); return; }
        case Instruction::ICmp: { auto* C = cast<ICmpInst>(&I); if (C->getOperand(0)->getType()->isVectorTy()|| tw(C->getOperand(0)->getType())==255) { unsup(&I); alloc(&I); return; } i32 a = opn(C->getOperand(0)), b = opn(C->getOperand(1)); Ins& n = emit(O_ICMP, &I); n.w = tw(C->getOperand(0)->getType()); n.f = C->getPredicate(); n.a = a; n.b = b; n.d = alloc(&I); return; }
        case Instruction::FCmp: { auto* C = cast<FCmpInst>(&I); if (!C->getOperand(0)->getType()->isDoubleTy() && !C->getOperand(0)->getType()->isFloatTy()) { unsup(&I); alloc(&I); return; }
            int p; bool un = false; 
            switch (C->getPredicate()) { case CmpInst::FCMP_OEQ: p = 0; break; case CmpInst::FCMP_UEQ: p = 0; un = true; break; case CmpInst::FCMP_ONE: p = 1; break; case CmpInst::FCMP_UNE: p = 1; un = true; break;
            case CmpInst::FCMP_OLT: p = 2; break; case CmpInst::FCMP_ULT: p = 2; un = true; break; case CmpInst::FCMP_OLE: p = 3; break; case CmpInst::FCMP_ULE: p = 3; un = true; break;
            case CmpInst::FCMP_OGT: p = 4; break; case CmpInst::FCMP_UGT: p = 4; un = true; break; case CmpInst::FCMP_OGE: p = 5; break; case CmpInst::FCMP_UGE: p = 5; un = true; break; case CmpInst::FCMP_ORD: p = 6; break; case CmpInst::FCMP_UNO: p = 7; break; default: p = 8; }
            i32 a = opn(C->getOperand(0)), b = opn(C->getOperand(1)); Ins& n = emit(O_FCMP, &I); n.f = p; n.f2 = un; n.a = a; n.b = b; n.d = alloc(&I); return; }
        case Instruction::Load: { auto* L = cast<LoadInst>(&I); vector<Type*> fl; flatten(T, fl); if (fl.size() != 1 || T->isStructTy() || tw(T) == 255) { // aggregate load
                if (T->isStructTy()) { auto* SL = DL->getStructLayout(cast<StructType>(T)); i32 a = opn(L->getPointerOperand()); i32 d = alloc(&I); for (unsigned k = 0; k < T->getStructNumElements(); k++) { Ins& n = emit(O_LOAD, &I); n.w = tw(T->getStructElementType(k)); n.a = a; n.d = d + k; n.imm = SL->getElementOffset(k); n.f = (n.w + 7) / 8; if (T->getStructElementType(k)->isFloatTy()) { Ins& m = emit(O_LDF, &I); m.a = m.d = d + k; } } return; }
                unsup(&I); alloc(&I); return; }
            i32 a = opn(L->getPointerOperand()); Ins& n = emit(O_LOAD, &I); n.w = tw(T); n.f = DL->getTypeStoreSize(T); n.a = a; i32 d = n.d = alloc(&I); if (T->isFloatTy()) { Ins& m = emit(O_LDF, &I); m.a = m.d = d; } return; }
        case Instruction::Store: { auto* S = cast<StoreInst>(&I); Type* V = S->getValueOperand()->getType(); 
            if (V->isStructTy()) { auto* SL = DL->getStructLayout(cast<StructType>(V)); for (unsigned k = 0; k < V->getStructNumElements(); k++) { i32 a = opn(S->getPointerOperand()), b = opn(S->getValueOperand(), k); if (V->getStructElementType(k)->isFloatTy()) { Ins& m = emit(O_STF, &I); m.a = b; b = m.d = next++; } Ins& n = emit(O_STORE, &I); n.w = tw(V->getStructElementType(k)); n.f = (n.w + 7) / 8; n.a = a; n.b = b; n.imm = SL->getElementOffset(k); } return; }
            if (tw(V) == 255) { if (auto* CI = dyn_cast<Constant>(S->getValueOperand())) if (CI->isNullValue()) { u64 sz = DL->getTypeStoreSize(V); for (u64 o = 0; o < sz; o += 8) { i32 a = opn(S->getPointerOperand()), b = cst(0); Ins& n = emit(O_STORE, &I); n.w = 64; n.f = std::min<u64>(8, sz - o); n.a = a; n.b = b; n.imm = o; } return; } unsup(&I); return; }
            i32 a = opn(S->getPointerOperand()), b = opn(S->getValueOperand()); if (V->isFloatTy()) { Ins& m = emit(O_STF, &I); m.a = b; b = m.d = next++; } Ins& n = emit(O_STORE, &I); n.w = tw(V); n.f = DL->getTypeStoreSize(V); n.a = a; n.b = b; n.f2 = isa<UndefValue>(S->getValueOperand()); return; }
        case Instruction::GetElementPtr: {
            auto* G = cast<GetElementPtrInst>(&I); GepT* t = new GepT; t->off = 0; i32 base = opn(G->getPointerOperand());
            for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                if (auto* ST = it.getStructTypeOrNull()) { t->off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
                i64 sc = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* CI = dyn_cast<ConstantInt>(it.getOperand())) { t->off += CI->getSExtValue() * sc; continue; }
                t->idx.push_back({opn(it.getOperand()), {sc, tw(it.getOperand()->getType())}});
            }
            Ins& n = emit(O_GEP, &I); n.a = base; n.d = alloc(&I); n.imm = t->off; n.x = t; n.f = t->idx.size(); if (n.f == 1) { n.b = t->idx[0].first; n.c = (i32)t->idx[0].second.first; n.w = t->idx[0].second.second; } return; }
        case Instruction::Alloca: { auto* Al = cast<AllocaInst>(&I); i32 cnt = opn(Al->getArraySize()); Ins& n = emit(O_ALLOCA, &I); n.imm = DL->getTypeAllocSize(Al->getAllocatedType()); n.a = cnt; n.d = alloc(&I); return; }
        case Instruction::Select: { i32 c = opn(I.getOperand(0)); int k = nslots(T); i32 d = alloc(&I); for (int j = 0; j < k; j++) { i32 a = opn(I.getOperand(1), j), b = opn(I.getOperand(2), j); Ins& n = emit(O_SELECT, &I); n.c = c; n.a = a; n.b = b; n.d = d + j; n.w = tw(T); } return; }
        case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
        case Instruction::Ret: { auto* R = cast<ReturnInst>(&I); Value* v = R->getReturnValue(); int k = v ? nslots(v->getType()) : 0; i32 a = k ? opn(v, 0) : 0; 
            if (k > 1 && isa<Constant>(v)) { // copy constants to consecutive slots
                i32 s = next; next += k; for (int j = 0; j < k; j++) { i32 c = opn(v, j); Ins& n = emit(O_MOV, &I); n.a = c; n.d = s + j; } a = s; }
            Ins& n = emit(O_RET, &I); n.a = a; n.imm = k; return; }
        case Instruction::Br: { auto* Bn = cast<BranchInst>(&I); if (Bn->isUnconditional()) { Edge* e = edge(I.getParent(), Bn->getSuccessor(0)); Ins& n = emit(O_BR, &I); n.x = e; return; }
            i32 c = opn(Bn->getCondition()); Edge* e = edge(I.getParent(), Bn->getSuccessor(0)); Edge* e2 = edge(I.getParent(), Bn->getSuccessor(1)); Ins& n = emit(O_CBR, &I); n.a = c; n.x = e; n.imm = (i64)e2; return; }
        case Instruction::Switch: { auto* S = cast<SwitchInst>(&I); SwT* t = new SwT; i32 c = opn(S->getCondition()); t->cases.reserve(S->getNumCases());
            for (auto& cs : S->cases()) t->cases.push_back({cs.getCaseValue()->getZExtValue(), Edge()});
            int k = 0; for (auto& cs : S->cases()) { edges.push_back({&t->cases[k].second, {I.getParent(), cs.getCaseSuccessor()}}); k++; }
            edges.push_back({&t->def, {I.getParent(), S->getDefaultDest()}}); Ins& n = emit(O_SWITCH, &I); n.a = c; n.x = t; return; }
        case Instruction::Unreachable: emit(O_UNREACH, &I); return;
        case Instruction::Trunc: { i32 a = opn(I.getOperand(0)); if (tw(I.getOperand(0)->getType()) == 255) { unsup(&I); alloc(&I); return; } Ins& n = emit(O_TRUNC, &I); n.a = a; n.w = tw(T); n.d = alloc(&I); return; }
        case Instruction::ZExt: { i32 a = opn(I.getOperand(0)); if (tw(T) == 255) { unsup(&I); alloc(&I); return; } Ins& n = emit(O_ZEXT, &I); n.a = a; n.w = tw(I.getOperand(0)->getType()); n.d = alloc(&I); return; }
        case Instruction::SExt: { i32 a = opn(I.getOperand(0)); if (tw(T) == 255) { unsup(&I); alloc(&I); return; } Ins& n = emit(O_SEXT, &I); n.a = a; n.w = tw(I.getOperand(0)->getType()); n.f = tw(T); n.d = alloc(&I); return; }
        case Instruction::FPTrunc: case Instruction::FPExt: { Type* S = I.getOperand(0)->getType(); bool tr = I.getOpcode() == Instruction::FPTrunc; if (!(tr ? S : T)->isDoubleTy() || !(tr ? T : S)->isFloatTy()) { unsup(&I); alloc(&I); return; }
            i32 a = opn(I.getOperand(0)); Ins& n = emit(tr ? O_F32 : O_MOV, &I); n.a = a; n.d = alloc(&I); return; }
        case Instruction::FPToSI: case Instruction::FPToUI: { if (!I.getOperand(0)->getType()->isDoubleTy() && !I.getOperand(0)->getType()->isFloatTy()) { unsup(&I); alloc(&I); return; } i32 a = opn(I.getOperand(0)); Ins& n = emit(O_F2I, &I); n.a = a; n.w = tw(T); n.f = I.getOpcode() == Instruction::FPToUI; n.d = alloc(&I); return; }
        case Instruction::SIToFP: case Instruction::UIToFP: { if (!T->isDoubleTy() && !T->isFloatTy()) { unsup(&I); alloc(&I); return; } i32 a = opn(I.getOperand(0)); Ins& n = emit(O_I2F, &I); n.a = a; n.w = tw(I.getOperand(0)->getType()); n.f = I.getOpcode() == Instruction::UIToFP; i32 d = n.d = alloc(&I); if (T->isFloatTy()) round32(d, &I); return; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
            if (tw(T) == 255 && nslots(T) == 1) { unsup(&I); alloc(&I); return; }
            if (I.getOpcode() == Instruction::BitCast && T->isFloatTy() != I.getOperand(0)->getType()->isFloatTy()) { i32 a = opn(I.getOperand(0)); Ins& n = emit(T->isFloatTy() ? O_LDF : O_STF, &I); n.a = a; n.d = alloc(&I); return; }
            i32 a = opn(I.getOperand(0)); int k = std::max(1, nslots(T)); i32 d = alloc(&I); for (int j = 0; j < k; j++) { Ins& n = emit(O_MOV, &I); n.a = a < 0 ? opn(I.getOperand(0), j) : a + j; n.d = d + j; } return; }
        case Instruction::ExtractValue: { auto* E = cast<ExtractValueInst>(&I); int off = aggOff(E->getAggregateOperand()->getType(), E->getIndices()); int k = std::max(1, nslots(T)); i32 d = alloc(&I); for (int j = 0; j < k; j++) { i32 a = opn(E->getAggregateOperand(), off + j); Ins& n = emit(O_MOV, &I); n.a = a; n.d = d + j; } return; }
        case Instruction::InsertValue: { auto* E = cast<InsertValueInst>(&I); int off = aggOff(T, E->getIndices()); int k = nslots(T), m = nslots(E->getInsertedValueOperand()->getType()); i32 d = alloc(&I);
            for (int j = 0; j < k; j++) { i32 a = (j >= off && j < off + m) ? opn(E->getInsertedValueOperand(), j - off) : (isa<UndefValue>(E->getAggregateOperand()) ? cst(0) : opn(E->getAggregateOperand(), j)); Ins& n = emit(O_MOV, &I); n.a = a; n.d = d + j; } return; }
        case Instruction::LandingPad: { auto* L = cast<LandingPadInst>(&I); LpT* t = new LpT; t->cleanup = L->isCleanup(); for (unsigned k = 0; k < L->getNumClauses(); k++) if (L->isCatch(k)) t->catches.push_back(constVal64(L->getClause(k))); Ins& n = emit(O_LPAD, &I); n.x = t; n.d = alloc(&I); return; }
        case Instruction::Resume: emit(O_RESUME, &I); return;
        default: unsup(&I); alloc(&I); return;
        }
    }
    int aggOff(Type* T, ArrayRef<unsigned> ix) { int off = 0; for (unsigned i : ix) { if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) off += nslots(S->getElementType(k)); T = S->getElementType(i); } else { Type* E = T->getArrayElementType(); off += i * nslots(E); T = E; } } return off; }
    void call(const CallBase& C) {
        CallT* t = new CallT; t->F = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts()); t->indirect = !t->F; t->builtin = -1; t->native = nullptr;
        if (auto* GA = dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) { t->F = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts()); t->indirect = !t->F; }
        if (C.isInlineAsm()) { unsup(&C); alloc(&C); return; }
        if (t->F) {
            string nm = t->F->getName().str();
            if (nm.compare(0, 9, "llvm.dbg.") == 0 || nm.compare(0, 13, "llvm.lifetime") == 0 || nm == "llvm.assume" || nm.compare(0, 27, "llvm.experimental.noalias.s") == 0 || nm.compare(0, 12, "llvm.invaria") == 0) { if (!C.getType()->isVoidTy()) alloc(&C); return; }
            if (t->F->isDeclaration() || builtinIx.count(nm)) {
                auto it = builtinIx.find(nm); if (it == builtinIx.end()) { // prefix-matched intrinsics
                    static const char* pre[] = {"llvm.memcpy.", "llvm.memmove.", "llvm.memset.", "llvm.smax.", "llvm.smin.", "llvm.umax.", "llvm.umin.", "llvm.abs.", "llvm.ctlz.", "llvm.cttz.", "llvm.ctpop.", "llvm.usub.sat.", "llvm.uadd.sat.", "llvm.umul.with.overflow.", "llvm.uadd.with.overflow.", "llvm.usub.with.overflow.", "llvm.objectsize.", "llvm.is.constant.", "llvm.expect.", "llvm.fshl.", "llvm.fshr.", "llvm.bswap.", "llvm.threadlocal", "llvm.load.relative", "llvm.ucmp"};
                    for (auto* p : pre) if (nm.compare(0, strlen(p), p) == 0) it = builtinIx.find(p);
                }
                if (it != builtinIx.end()) t->builtin = it->second; else t->native = dlsym(RTLD_DEFAULT, nm.c_str());
            }
        }
        for (auto& A : C.args()) { Type* T = A->getType(); if (T->isMetadataTy()) { continue; } int k = std::max(1, nslots(T)); for (int j = 0; j < k; j++) { t->args.push_back(opn(A.get(), j)); t->kind.push_back(T->isDoubleTy() ? 1 : (tw(T) == 255 && k == 1) || T->isFloatTy() ? 2 : 0); t->argW.push_back(tw(T)); } }
        if (t->native && C.getType()->isFloatTy()) { unsup(&C); alloc(&C); return; }
        t->callee = t->indirect ? opn(C.getCalledOperand()) : 0; t->nret = nslots(C.getType()); t->retKind = C.getType()->isDoubleTy() ? 1 : C.getType()->isVoidTy() ? 0 : 2; t->retW = tw(C.getType());
        i32 d = C.getType()->isVoidTy() ? -1 : alloc(&C);
        if (auto* V = dyn_cast<InvokeInst>(&C)) { t->norm = edge(C.getParent(), V->getNormalDest()); t->unw = edge(C.getParent(), V->getUnwindDest()); }
        Ins& n = emit(O_CALL, &C); n.x = t; n.d = d;
    }
};

// ============================================================ execution
struct Frame { Fn* f; int pc; u32 base; u64 stk; u64 va = 0; };
static vector<Frame> frames; static vector<u64> regs(1 << 20);
static u64 instrCount = 0; static const Ins* curIns = nullptr; static Fn* curFn = nullptr;
static struct { u64 obj = 0, ti = 0; } exc; static vector<std::pair<u64, u64>> caught; static vector<u64> typeIds;
static bool exitOk = false; static std::map<string, i64> params; bool finished = false;

string currentLocation() {
    string s;
    for (int k = (int)frames.size() - 1, n = 0; k >= 0 && n < 6; k--, n++) {
        const Frame& fr = frames[k]; const Instruction* I = (k == (int)frames.size() - 1 && curIns) ? curIns->I : fr.f->code[fr.pc ? fr.pc - 1 : 0].I;
        if (n) s += " <- ";
        if (I && I->getDebugLoc()) { auto* L = I->getDebugLoc().get(); s += L->getFilename().str().substr(L->getFilename().str().rfind('/') + 1) + ":" + std::to_string(L->getLine()); while ((L = L->getInlinedAt())) s += "(" + L->getFilename().str().substr(L->getFilename().str().rfind('/') + 1) + ":" + std::to_string(L->getLine()) + ")"; }
        else s += fr.f->name;
    }
    return s;
}
static inline u64 maskw(u64 v, u8 w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline i64 sx(u64 v, u8 w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
[[noreturn]] static void unsupported(const string& s) { throw PathEnd{End::Unsupported, s + " at " + currentLocation()}; }

static u64 nativeCall(void* fn, vector<u64>& a, CallT& t, double* fret, u64* ret2) {
    u64 iv[16] = {0}; double dv[8] = {0}; int ni = 0, nd = 0;
    for (size_t k = 0; k < a.size(); k++) {
        if (t.kind[k] == 2) unsupported("native call argument type: " + (t.F ? t.F->getName().str() : string("?")));
        if (isBox(a[k])) { if (t.kind[k] == 1) unsupported("native call with symbolic argument: " + (t.F ? t.F->getName().str() : string("?"))); a[k] = decide(a[k]); }
        if (t.kind[k] == 1) dv[nd++] = asD(a[k]); else { iv[ni++] = a[k]; }
    }
    for (int k = 0; k < ni; k++) markInit(iv[k]);
    typedef u64 (*FI)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64);
    typedef double (*FD)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64);
    struct R2 { u64 a, b; }; typedef R2 (*FR)(u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, u64, u64, u64, u64);
    u64 r = 0; inNative = true;
    try {
        if (t.retKind == 1) *fret = ((FD)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], iv[6], iv[7], iv[8], iv[9]);
        else if (t.nret == 2) { R2 q = ((FR)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], iv[6], iv[7], iv[8], iv[9]); r = q.a; *ret2 = q.b; }
        else r = ((FI)fn)(iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], dv[0], dv[1], dv[2], dv[3], dv[4], dv[5], dv[6], dv[7], iv[6], iv[7], iv[8], iv[9]);
        inNative = false;
    } catch (PathEnd&) { inNative = false; throw; } catch (...) { inNative = false; reportEvent("exception", "library exception from " + (t.F ? t.F->getName().str() : string("?")), true); }
    for (int k = 0; k < ni; k++) markInit(iv[k]);
    return r;
}
static string cstr(u64 p) { string s; for (;;) { checkRead(p, 1); char c = *(char*)p++; if (!c) return s; s += c; } }

static bool unwindTo();   // after exc set; returns false if uncaught
static void doThrow() {
    // pop frames until an invoke with matching landing pad
    while (!frames.empty()) {
        Frame& fr = frames.back(); Ins& ci = fr.f->code[fr.pc - 1];
        if (ci.op == O_CALL) {
            CallT* t = (CallT*)ci.x;
            if (t->unw) {
                // does the landing pad take it?
                Edge* e = t->unw; int pc = e->pc; while (fr.f->code[pc].op != O_LPAD) pc++;
                LpT* lp = (LpT*)fr.f->code[pc].x; bool take = lp->cleanup;
                for (u64 c : lp->catches) if (c == 0) take = true; else { u64 ti = exc.ti; while (ti) { if (ti == c) { take = true; break; } static u64 si = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE") + 16; if (*(u64*)ti == si) ti = *(u64*)(ti + 16); else break; } }
                if (take) {
                    u32 b = fr.base; vector<u64> tmp; for (auto& c : e->cp) tmp.push_back(c.second >= 0 ? regs[b + c.second] : fr.f->consts[~c.second]); size_t k = 0; for (auto& c : e->cp) regs[b + c.first] = tmp[k++];
                    fr.pc = e->pc; return;
                }
            }
        }
        memset(shp(fr.stk), SH_FREED, stkTop - fr.stk); stkTop = fr.stk; frames.pop_back();
    }
    throw PathEnd{End::Violation, "uncaught"};
}
static u64 typeId(u64 ti) { for (size_t i = 0; i < typeIds.size(); i++) if (typeIds[i] == ti) return i + 1; typeIds.push_back(ti); return typeIds.size(); }

static void enter(Fn* f) {
    if (!f->compiled) { f->compiled = true; f->name = llvm::demangle(f->F->getName().str()); f->slsm = f->name.find("slsm::") != string::npos && f->name.find("std::") != 0; Comp c; c.f = f; c.go(); }
    f->run = true;
    u32 base = frames.empty() ? 0 : frames.back().base + frames.back().f->nregs;
    if (base + f->nregs + 64 > regs.size()) throw PathEnd{End::Limit, "stack depth"};
    if (frames.size() > 2000) throw PathEnd{End::Limit, "recursion"};
    frames.push_back(Frame{f, 0, base, stkTop, 0});
}
static inline void takeEdge(Edge* e, Frame& fr, u64* R, const u64* C) {
    size_t n = e->cp.size();
    if (n == 1) R[e->cp[0].first] = e->cp[0].second >= 0 ? R[e->cp[0].second] : C[~e->cp[0].second];
    else if (n) { static u64 tmp[4096]; for (size_t k = 0; k < n; k++) { i32 s = e->cp[k].second; tmp[k] = s >= 0 ? R[s] : C[~s]; } for (size_t k = 0; k < n; k++) R[e->cp[k].first] = tmp[k]; }
    fr.pc = e->pc;
}
static u64 intOp(const Ins& n, u64 a, u64 b) {
    u8 w = n.w;
    if (isBox(a) || isBox(b)) {
        if (w == 1) switch (n.op) { case O_AND: return bAnd(a, b); case O_OR: return bOr(a, b); case O_XOR: case O_ADD: case O_SUB: return bXor(a, b); default: break; }
        unsupported("integer operation on a symbolic value");
    }
    switch (n.op) {
    case O_ADD: return maskw(a + b, w); case O_SUB: return maskw(a - b, w); case O_MUL: return maskw(a * b, w);
    case O_UDIV: if (!b) memErr("integer division by zero"); return a / b; case O_UREM: if (!b) memErr("integer division by zero"); return a % b;
    case O_SDIV: if (!b) memErr("integer division by zero"); if (sx(b, w) == -1) return maskw(-a, w); return maskw((u64)(sx(a, w) / sx(b, w)), w);
    case O_SREM: if (!b) memErr("integer division by zero"); if (sx(b, w) == -1) return 0; return maskw((u64)(sx(a, w) % sx(b, w)), w);
    case O_SHL: return b >= w ? 0 : maskw(a << b, w); case O_LSHR: return b >= w ? 0 : a >> b; case O_ASHR: return maskw((u64)(sx(a, w) >> (b >= w ? w - 1 : b)), w);
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b; default: abort();
    }
}
static u64 icmp(u8 p, u8 w, u64 a, u64 b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w); case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); default: return sx(a, w) <= sx(b, w);
    }
}
// single precision: registers hold the value as a double; in memory a symbolic one is a signalling NaN with an index
static vector<u64> f32Boxes; static std::map<u64, u64> f32Memo;
static inline bool isF32Box(u32 u) { return (u & 0xFFF00000u) == 0x7FA00000u && (u & 0xFFFFF) < f32Boxes.size(); }
static u64 round32(u64 v) {
    if (!isBox(v)) return asU((double)(float)asD(v));
    auto it = f32Memo.find(v); if (it != f32Memo.end()) return it->second;
    u64 r = dRound32(v); f32Memo[v] = r; f32Memo[r] = r; return r;
}
static void run(Fn* entry) {
    frames.clear(); stkTop = STK; enter(entry);
    while (true) {
        Frame& fr = frames.back(); Fn* f = fr.f; u64* R = &regs[fr.base]; const u64* C = f->consts.data();
        #define V(o) ((o) >= 0 ? R[o] : C[~(o)])
        for (;;) {
            const Ins& n = f->code[fr.pc++]; curIns = &n;
            if (++instrCount > maxInstr) { reportEvent("limit", "no termination within " + std::to_string(maxInstr) + " instructions", false); throw PathEnd{End::Limit, "instruction limit"}; }
            switch (n.op) {
            case O_MOV: R[n.d] = V(n.a); break;
            case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR: R[n.d] = intOp(n, V(n.a), V(n.b)); break;
            case O_ICMP: { u64 a = V(n.a), b = V(n.b); if (isBox(a) || isBox(b)) { if (n.w == 1 && n.f == CmpInst::ICMP_NE) { R[n.d] = bXor(a, b); break; } if (n.w == 1 && n.f == CmpInst::ICMP_EQ) { R[n.d] = bNot(bXor(a, b)); break; } unsupported("icmp on a symbolic value"); } R[n.d] = icmp(n.f, n.w, a, b); break; }
            case O_FADD: { u64 a = V(n.a), b = V(n.b); R[n.d] = isBox(a) || isBox(b) ? dAdd(a, b) : asU(asD(a) + asD(b)); break; }
            case O_FSUB: { u64 a = V(n.a), b = V(n.b); R[n.d] = isBox(a) || isBox(b) ? dSub(a, b) : asU(asD(a) - asD(b)); break; }
            case O_FMUL: { u64 a = V(n.a), b = V(n.b); R[n.d] = isBox(a) || isBox(b) ? dMul(a, b) : asU(asD(a) * asD(b)); break; }
            case O_FDIV: { u64 a = V(n.a), b = V(n.b); R[n.d] = isBox(a) || isBox(b) ? dDiv(a, b) : asU(asD(a) / asD(b)); break; }
            case O_FREM: { u64 a = V(n.a), b = V(n.b); if (isBox(a) || isBox(b)) { u64 q = dFloor(dDiv(a, b), 2); R[n.d] = dSub(a, dMul(q, b)); break; } R[n.d] = asU(fmod(asD(a), asD(b))); break; }
            case O_FNEG: { u64 a = V(n.a); R[n.d] = isBox(a) ? dNeg(a) : a ^ (1ull << 63); break; }
            case O_FCMP: { u64 a = V(n.a), b = V(n.b);
                if (isBox(a) || isBox(b)) { if (n.f == 8) unsupported("fcmp predicate"); R[n.d] = dCmp(n.f, n.f2, a, b); }
                else { double x = asD(a), y = asD(b); bool un = std::isnan(x) || std::isnan(y), r; if (n.f == 6) r = !un; else if (n.f == 7) r = un; else if (un) r = n.f2; else switch (n.f) { case 0: r = x == y; break; case 1: r = x != y; break; case 2: r = x < y; break; case 3: r = x <= y; break; case 4: r = x > y; break; default: r = x >= y; } R[n.d] = r; }
                break; }
            case O_LOAD: { u64 a = V(n.a) + n.imm; checkRead(a, n.f); u64 v = 0; memcpy(&v, (void*)a, n.f);
                if (n.f < 8 && inArena(a)) { u64 al = a & ~7ull, wv; memcpy(&wv, (void*)al, 8); if (isSymD(wv) && *(u64*)shp(al) == 0x0101010101010101ull) unsupported("partial load of a symbolic double"); }
                R[n.d] = maskw(v, n.w); break; }
            case O_STORE: { u64 a = V(n.a) + n.imm, v = V(n.b); if (isSymB(v)) v = decide(v); checkWrite(a, n.f); memcpy((void*)a, &v, n.f); break; }
            case O_GEP: { u64 a = V(n.a) + n.imm; if (n.f == 1) a += (u64)(sx(V(n.b), n.w) * (i64)n.c); else if (n.f) { GepT* t = (GepT*)n.x; for (auto& ix : t->idx) a += (u64)(sx(V(ix.first), ix.second.second) * ix.second.first); } R[n.d] = a; break; }
            case O_ALLOCA: { u64 sz = n.imm * V(n.a); u64 a = (stkTop + 32 + 15) & ~15ull; if (a + sz + 64 > STK + STKSZ) throw PathEnd{End::Limit, "stack"}; memset(shp(stkTop), SH_BAD, a - stkTop); memset(shp(a), SH_UNINIT, sz); stkTop = a + ((sz + 15) & ~15ull) + 16; memset(shp(a + sz), SH_BAD, stkTop - a - sz); R[n.d] = a; break; }
            case O_SELECT: { u64 c = V(n.c), a = V(n.a), b = V(n.b); if (isSymB(c)) { if (a == b) { R[n.d] = a; break; } if (n.w == 1) { R[n.d] = bOr(bAnd(c, a), bAnd(bNot(c), b)); break; } c = decide(c); } R[n.d] = c & 1 ? a : b; break; }
            case O_BR: takeEdge((Edge*)n.x, fr, R, C); break;
            case O_CBR: { u64 c = V(n.a); bool t = isSymB(c) ? decide(c) : (c & 1); takeEdge(t ? (Edge*)n.x : (Edge*)n.imm, fr, R, C); break; }
            case O_SWITCH: { SwT* t = (SwT*)n.x; u64 v = V(n.a); if (isBox(v)) unsupported("switch"); Edge* e = &t->def; for (auto& c : t->cases) if (c.first == v) { e = &c.second; break; } takeEdge(e, fr, R, C); break; }
            case O_UNREACH: memErr("unreachable code executed");
            case O_TRUNC: { u64 a = V(n.a); if (isBox(a)) unsupported("trunc of a symbolic value"); R[n.d] = maskw(a, n.w); break; }
            case O_ZEXT: { u64 a = V(n.a); if (isSymB(a)) a = decide(a); R[n.d] = a; break; }
            case O_SEXT: { u64 a = V(n.a); if (isSymB(a)) a = decide(a); R[n.d] = maskw((u64)sx(a, n.w), n.f); break; }
            case O_F2I: { u64 a = V(n.a); if (isBox(a)) R[n.d] = maskw((u64)dToInt(a), n.w); else { double d = asD(a); R[n.d] = maskw(n.f ? (d < 0 ? (u64)(i64)d : (u64)d) : (u64)(i64)d, n.w); } break; }
            case O_I2F: { u64 a = V(n.a); if (isSymB(a)) a = decide(a); if (isBox(a)) unsupported("i2f"); R[n.d] = asU(n.f ? (double)a : (double)sx(a, n.w)); break; }
            case O_LPAD: { LpT* t = (LpT*)n.x; u64 sel = 0; for (u64 c : t->catches) { if (c == 0) { sel = typeId(0); break; } u64 ti = exc.ti; bool m = false; while (ti) { if (ti == c) { m = true; break; } static u64 si = (u64)dlsym(RTLD_DEFAULT, "_ZTVN10__cxxabiv120__si_class_type_infoE") + 16; if (*(u64*)ti == si) ti = *(u64*)(ti + 16); else break; } if (m) { sel = typeId(c); break; } } R[n.d] = exc.obj; R[n.d + 1] = sel; break; }
            case O_F32: R[n.d] = round32(V(n.a)); break;
            case O_LDF: { u32 u = (u32)V(n.a); if (isF32Box(u)) { R[n.d] = f32Boxes[u & 0xFFFFF]; break; } float x; memcpy(&x, &u, 4); R[n.d] = asU((double)x); break; }
            case O_STF: { u64 v = V(n.a); if (isBox(v)) { if (f32Boxes.size() >= 0xFFFFF) unsupported("symbolic floats in memory"); f32Boxes.push_back(v); R[n.d] = 0x7FA00000u | (f32Boxes.size() - 1); break; } float x = (float)asD(v); u32 u; memcpy(&u, &x, 4); R[n.d] = u; break; }
            case O_RESUME: doThrow(); goto reframe;
            case O_UNSUP: { string s; raw_string_ostream os(s); n.I->print(os); unsupported("unsupported instruction " + s.substr(0, 120)); }
            case O_RET: {
                u64 rv[16]; int k = n.imm; for (int j = 0; j < k && j < 16; j++) rv[j] = n.a >= 0 ? R[n.a + j] : C[~n.a];
                if (stkTop > fr.stk) memset(shp(fr.stk), SH_FREED, stkTop - fr.stk); stkTop = fr.stk; frames.pop_back();
                if (frames.empty()) return;
                Frame& up = frames.back(); const Ins& ci = up.f->code[up.pc - 1]; u64* UR = &regs[up.base];
                if (ci.d >= 0) for (int j = 0; j < k; j++) UR[ci.d + j] = rv[j];
                CallT* t = (CallT*)ci.x; if (t->norm) takeEdge(t->norm, up, UR, up.f->consts.data());
                goto reframe; }
            case O_CALL: {
                CallT* t = (CallT*)n.x; Function* F = t->F; void* nat = t->native; int bi = t->builtin;
                if (t->indirect) { u64 p = V(t->callee); if (p >= FNBASE && p < FNBASE + 16 * fns.size()) { F = fns[(p - FNBASE) / 16]->F; if (F->isDeclaration()) { string nm = F->getName().str(); auto it = builtinIx.find(nm); if (it != builtinIx.end()) bi = it->second; else nat = dlsym(RTLD_DEFAULT, nm.c_str()); } } else { if (p < 4096 || inArena(p)) memErr("call through invalid function pointer"); nat = (void*)p;
                    static std::unordered_map<u64, int> byAddr; if (byAddr.empty()) { for (auto& kv : builtinIx) if (kv.first.compare(0, 4, "sym_") && kv.first.compare(0, 5, "llvm.")) if (void* q = dlsym(RTLD_DEFAULT, kv.first.c_str())) byAddr.emplace((u64)q, kv.second); byAddr.emplace(0, -1); }
                    auto ba = byAddr.find(p); if (ba != byAddr.end()) bi = ba->second; } }
                if (F && !F->isDeclaration() && bi < 0) {
                    Fn* g = getFn(F); enter(g); Frame& nf = frames.back(); u64* NR = &regs[nf.base]; u64* OR = &regs[frames[frames.size() - 2].base]; size_t na = std::min<size_t>(t->args.size(), g->nargs);
                    for (size_t k = 0; k < na; k++) { i32 o = t->args[k]; NR[k] = o >= 0 ? OR[o] : C[~o]; }
                    if (F->isVarArg() && t->args.size() > na) { // the variable arguments, one slot each
                        u64 sz = 8 * (t->args.size() - na), a = (stkTop + 32 + 15) & ~15ull; if (a + sz + 64 > STK + STKSZ) throw PathEnd{End::Limit, "stack"};
                        memset(shp(stkTop), SH_BAD, a - stkTop); memset(shp(a), SH_OK, sz); stkTop = a + ((sz + 15) & ~15ull);
                        for (size_t k = na; k < t->args.size(); k++) { if (t->kind[k] == 2) unsupported("variable argument"); i32 o = t->args[k]; ((u64*)a)[k - na] = o >= 0 ? OR[o] : C[~o]; }
                        nf.va = a;
                    }
                    goto reframe;
                }
                vector<u64> av(t->args.size()); for (size_t k = 0; k < av.size(); k++) av[k] = V(t->args[k]);
                u64 r = 0, r2 = 0; double fd = 0;
                if (bi >= 0) { size_t depth = frames.size(); i64 pc0 = fr.pc; r = builtins[bi](av, *t); if (finished) return; if (frames.size() != depth || frames.back().pc != pc0) goto reframe; if (t->nret == 2) r2 = av.size() ? av[0] : 0; }
                else if (nat) { r = nativeCall(nat, av, *t, &fd, &r2); if (t->retKind == 1) r = asU(fd); else r = maskw(r, t->retW == 255 ? 64 : t->retW); }
                else unsupported("call to unknown function " + (F ? F->getName().str() : string("?")));
                { Frame& f2 = frames.back(); u64* R2 = &regs[f2.base]; if (n.d >= 0) { R2[n.d] = r; if (t->nret == 2) R2[n.d + 1] = r2; } if (t->norm) { takeEdge(t->norm, f2, R2, C); } }
                break; }
            }
        }
        reframe:;
    }
}

// ============================================================ builtins
// Text form of a symbolic value: a number that names the value and the precision it was printed with.
// fix: digits after the point; !fix: significant digits.
static bool magicOut(u64 v, bool fix, int prec, string& out) {
    if (!isSymD(v)) return false; u32 id = boxId(v); if (id > 998000) unsupported("text output of a symbolic value: id");
    prec = std::max(0, std::min(prec, 17)); char b[64]; snprintf(b, sizeof b, "%ue%d", id + 1000, fix ? 250 - 10 * prec : -90 - 10 * prec); out = b; return true;
}
static bool magicIn(double d, u64& v) {
    if (!(d > 0) || !std::isfinite(d)) return false; int e = (int)std::floor(std::log10(d) + 1e-12);
    bool fix; int E; if (e >= 70 && e <= 260) { fix = true; E = (e - 3) / 10 * 10; } else if (e <= -80 && e >= -270) { fix = false; E = -((-(e - 3) + 9) / 10 * 10); } else return false;
    if (e - E < 3 || e - E > 5) return false;
    long double id = (long double)d * powl(10.0L, -E), r = std::round(id); if (fabsl(id / r - 1) > 1e-9L) return false;
    int prec = fix ? (250 - E) / 10 : (-90 - E) / 10; if (prec < 0 || prec > 17) return false;
    u64 x = boxD((u32)r - 1000); double t = 0.5 * pow(10, fix ? -prec : 1 - prec); if (!fix) t *= magnitude(x);
    v = symRounded(x, t); return true;
}
static string formatStr(const string& fmt, vector<u64>& a, size_t k, CallT& t) {
    string out;
    for (size_t i = 0; i < fmt.size(); i++) {
        if (fmt[i] != '%') { out += fmt[i]; continue; }
        size_t j = i + 1; if (fmt[j] == '%') { out += '%'; i = j; continue; }
        while (j < fmt.size() && !strchr("diouxXeEfFgGcsp", fmt[j])) j++;
        string sp = fmt.substr(i, j - i + 1); char c = fmt[j]; char buf[1024]; u64 v = k < a.size() ? a[k++] : 0; i = j;
        if (strchr("eEfFgG", c)) { string m; size_t dot = sp.find('.'); int pr = dot == string::npos ? 6 : sp[dot + 1] == '*' ? -1 : atoi(sp.c_str() + dot + 1);
            if (sp.find('*') != string::npos) unsupported("format width argument");
            if (magicOut(v, strchr("fF", c), strchr("fF", c) ? pr : strchr("eE", c) ? pr + 1 : std::max(1, pr), m)) out += m; else { snprintf(buf, sizeof buf, sp.c_str(), asD(v)); out += buf; } continue; }
        else if (c == 's') { string s = cstr(v); out += s; continue; }
        else if (c == 'c') snprintf(buf, sizeof buf, "%c", (int)v);
        else { if (isBox(v)) unsupported("format"); if (sp.find('l') != string::npos || sp.find('z') != string::npos) snprintf(buf, sizeof buf, sp.c_str(), v); else snprintf(buf, sizeof buf, sp.c_str(), (int)v); }
        out += buf;
    }
    return out;
}
static void addB(const string& n, Builtin b) { builtins.push_back(b); builtinIx[n] = builtins.size() - 1; }
static u64 unaryM(u64 v, double (*f)(double), const char* nm) { if (isBox(v)) return dFun(nm, v); return asU(f(asD(v))); }
static void setupBuiltins() {
    typedef vector<u64>& Ar; 
    addB("_Znwm", [](Ar a, CallT&) -> u64 { if (a[0] > (64u << 20)) memErr("oversized allocation"); return heapAlloc(a[0], false); });
    builtinIx["_Znam"] = builtinIx["_Znwm"]; builtinIx["malloc"] = builtinIx["_Znwm"];
    addB("_ZdlPv", [](Ar a, CallT&) -> u64 { heapFree(a[0]); return 0; });
    for (auto* s : {"_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t"}) builtinIx[s] = builtinIx["_ZdlPv"];
    addB("llvm.memcpy.", [](Ar a, CallT&) -> u64 { memCopy(a[0], a[1], a[2]); return a[0]; });
    for (auto* s : {"llvm.memmove.", "memcpy", "memmove"}) builtinIx[s] = builtinIx["llvm.memcpy."];
    addB("llvm.memset.", [](Ar a, CallT&) -> u64 { checkAddr(a[0], a[2], "write", true); memset((void*)a[0], (int)a[1], a[2]); if (inArena(a[0])) memset(shp(a[0]), SH_OK, a[2]); return a[0]; });
    builtinIx["memset"] = builtinIx["llvm.memset."];
    addB("llvm.smax.", [](Ar a, CallT& t) -> u64 { return sx(a[0], t.retW) > sx(a[1], t.retW) ? a[0] : a[1]; });
    addB("llvm.smin.", [](Ar a, CallT& t) -> u64 { return sx(a[0], t.retW) < sx(a[1], t.retW) ? a[0] : a[1]; });
    addB("llvm.umax.", [](Ar a, CallT&) -> u64 { return std::max(a[0], a[1]); });
    addB("llvm.umin.", [](Ar a, CallT&) -> u64 { return std::min(a[0], a[1]); });
    addB("llvm.abs.", [](Ar a, CallT& t) -> u64 { i64 v = sx(a[0], t.retW); return maskw((u64)(v < 0 ? -v : v), t.retW); });
    addB("llvm.ctlz.", [](Ar a, CallT& t) -> u64 { u64 c = 0; for (int i = t.retW - 1; i >= 0 && !((a[0] >> i) & 1); i--) c++; return c; });
    addB("llvm.cttz.", [](Ar a, CallT& t) -> u64 { u64 c = 0; for (int i = 0; i < t.retW && !((a[0] >> i) & 1); i++) c++; return c; });
    addB("llvm.ctpop.", [](Ar a, CallT&) -> u64 { return __builtin_popcountll(a[0]); });
    addB("llvm.usub.sat.", [](Ar a, CallT&) -> u64 { return a[0] > a[1] ? a[0] - a[1] : 0; });
    addB("llvm.uadd.sat.", [](Ar a, CallT& t) -> u64 { u64 s = maskw(a[0] + a[1], t.retW); return s < a[0] ? maskw(~0ull, t.retW) : s; });
    addB("llvm.umul.with.overflow.", [](Ar a, CallT& t) -> u64 { u128 p = (u128)a[0] * a[1]; u8 w = t.argW[0]; u64 r = maskw((u64)p, w); bool o = w >= 64 ? (p >> 64) != 0 : (p >> w) != 0; a[0] = o; return r; });
    addB("llvm.uadd.with.overflow.", [](Ar a, CallT& t) -> u64 { u64 r = maskw(a[0] + a[1], t.argW[0]); a[0] = r < a[0]; return r; });
    addB("llvm.usub.with.overflow.", [](Ar a, CallT& t) -> u64 { u64 r = maskw(a[0] - a[1], t.argW[0]); a[0] = a[0] < a[1]; return r; });
    addB("llvm.objectsize.", [](Ar, CallT&) -> u64 { return ~0ull; });
    addB("llvm.is.constant.", [](Ar, CallT&) -> u64 { return 0; });
    addB("llvm.expect.", [](Ar a, CallT&) -> u64 { return a[0]; });
    addB("llvm.fshl.", [](Ar a, CallT& t) -> u64 { u8 w = t.retW; u64 s = a[2] % w; return s ? maskw((a[0] << s) | (a[1] >> (w - s)), w) : a[0]; });
    addB("llvm.fabs.f64", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? dAbs(a[0]) : a[0] & ~(1ull << 63); }); builtinIx["fabs"] = builtinIx["llvm.fabs.f64"];
    addB("llvm.sqrt.f64", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? dSqrt(a[0]) : asU(sqrt(asD(a[0]))); }); builtinIx["sqrt"] = builtinIx["llvm.sqrt.f64"];
    addB("llvm.floor.f64", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? dFloor(a[0], 0) : asU(floor(asD(a[0]))); }); builtinIx["floor"] = builtinIx["llvm.floor.f64"];
    addB("llvm.ceil.f64", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? dFloor(a[0], 1) : asU(ceil(asD(a[0]))); }); builtinIx["ceil"] = builtinIx["llvm.ceil.f64"];
    addB("llvm.trunc.f64", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? dFloor(a[0], 2) : asU(trunc(asD(a[0]))); }); builtinIx["trunc"] = builtinIx["llvm.trunc.f64"];
    addB("llvm.round.f64", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? dFloor(a[0], 3) : asU(round(asD(a[0]))); }); builtinIx["round"] = builtinIx["llvm.round.f64"];
    addB("lround", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? (u64)dToInt(dFloor(a[0], 3)) : (u64)lround(asD(a[0])); });
    addB("llvm.fmuladd.f64", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1]) || isBox(a[2])) return dAdd(dMul(a[0], a[1]), a[2]); return asU(asD(a[0]) * asD(a[1]) + asD(a[2])); });
    addB("llvm.fma.f64", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1]) || isBox(a[2])) { if (fpMode) unsupported("fma in floating-point mode"); return dAdd(dMul(a[0], a[1]), a[2]); } return asU(fma(asD(a[0]), asD(a[1]), asD(a[2]))); }); builtinIx["fma"] = builtinIx["llvm.fma.f64"];
    addB("llvm.nearbyint.f64", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? dNearest(a[0]) : asU(nearbyint(asD(a[0]))); });
    for (auto* s : {"nearbyint", "rint", "llvm.rint.f64", "llvm.roundeven.f64", "roundeven"}) builtinIx[s] = builtinIx["llvm.nearbyint.f64"];
    addB("lrint", [](Ar a, CallT&) -> u64 { return isBox(a[0]) ? (u64)dToInt(dNearest(a[0])) : (u64)(i64)nearbyint(asD(a[0])); });
    for (auto* s : {"llrint", "llvm.lrint.i64.f64", "llvm.llrint.i64.f64"}) builtinIx[s] = builtinIx["lrint"];
    for (auto* s : {"llround", "llvm.lround.i64.f64", "llvm.llround.i64.f64"}) builtinIx[s] = builtinIx["lround"];
    addB("fdim", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1])) return decide(dCmp(2, false, a[1], a[0])) ? dSub(a[0], a[1]) : 0; return asU(fdim(asD(a[0]), asD(a[1]))); });
    addB("modf", [](Ar a, CallT&) -> u64 { checkAddr(a[1], 8, "write", true); u64 t = isBox(a[0]) ? dFloor(a[0], 2) : asU(trunc(asD(a[0]))); *(u64*)a[1] = t; if (inArena(a[1])) memset(shp(a[1]), SH_OK, 8); return isBox(a[0]) ? dSub(a[0], t) : asU(asD(a[0]) - asD(t)); });
    addB("fmod", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1])) { u64 q = dFloor(dDiv(a[0], a[1]), 2); return dSub(a[0], dMul(q, a[1])); } return asU(fmod(asD(a[0]), asD(a[1]))); });
    addB("remainder", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1])) return dSub(a[0], dMul(dNearest(dDiv(a[0], a[1])), a[1])); return asU(remainder(asD(a[0]), asD(a[1]))); });
    addB("llvm.maxnum.f64", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1])) return decide(dCmp(4, false, a[0], a[1])) ? a[0] : a[1]; return asU(fmax(asD(a[0]), asD(a[1]))); }); builtinIx["fmax"] = builtinIx["llvm.maxnum.f64"];
    addB("llvm.minnum.f64", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1])) return decide(dCmp(2, false, a[0], a[1])) ? a[0] : a[1]; return asU(fmin(asD(a[0]), asD(a[1]))); }); builtinIx["fmin"] = builtinIx["llvm.minnum.f64"];
    addB("llvm.copysign.f64", [](Ar a, CallT&) -> u64 { u64 x = isBox(a[0]) ? dAbs(a[0]) : a[0] & ~(1ull << 63); bool neg = isBox(a[1]) ? decide(dCmp(2, false, a[1], 0)) : (a[1] >> 63); return neg ? (isBox(x) ? dNeg(x) : x ^ (1ull << 63)) : x; }); builtinIx["copysign"] = builtinIx["llvm.copysign.f64"];
    addB("hypot", [](Ar a, CallT&) -> u64 { if (isBox(a[0]) || isBox(a[1])) return dSqrt(dAdd(dMul(a[0], a[0]), dMul(a[1], a[1]))); return asU(hypot(asD(a[0]), asD(a[1]))); });
    addB("pow", [](Ar a, CallT&) -> u64 { if (!isBox(a[0]) && !isBox(a[1])) return asU(pow(asD(a[0]), asD(a[1]))); if (!isBox(a[1])) { double e = asD(a[1]); if (e == 2) return dMul(a[0], a[0]); if (e == 3) return dMul(a[0], dMul(a[0], a[0])); if (e == 1) return a[0]; if (e == 0.5) return dSqrt(a[0]); if (e == 0) return asU(1.0); if (e == -1) return dDiv(asU(1.0), a[0]); if (e == -2) return dDiv(asU(1.0), dMul(a[0], a[0])); } unsupported("pow"); return 0; }); builtinIx["llvm.pow.f64"] = builtinIx["pow"];
    addB("llvm.powi.f64.i32", [](Ar a, CallT&) -> u64 { int e = (int)a[1]; if (!isBox(a[0])) return asU(__builtin_powi(asD(a[0]), e)); u64 r = asU(1.0); for (int i = 0; i < abs(e); i++) r = dMul(r, a[0]); return e < 0 ? dDiv(asU(1.0), r) : r; });
    addB("log", [](Ar a, CallT&) -> u64 { return unaryM(a[0], log, "log"); }); builtinIx["llvm.log.f64"] = builtinIx["log"];
    addB("exp", [](Ar a, CallT&) -> u64 { return unaryM(a[0], exp, "exp"); }); builtinIx["llvm.exp.f64"] = builtinIx["exp"];
    addB("sin", [](Ar a, CallT&) -> u64 { return unaryM(a[0], sin, "sin"); }); builtinIx["llvm.sin.f64"] = builtinIx["sin"];
    addB("cos", [](Ar a, CallT&) -> u64 { return unaryM(a[0], cos, "cos"); }); builtinIx["llvm.cos.f64"] = builtinIx["cos"];
    for (auto* b : {"sqrt", "fabs", "floor", "ceil", "trunc", "round", "fmuladd", "fma", "nearbyint", "rint", "roundeven", "maxnum", "minnum", "copysign", "pow", "log", "exp", "sin", "cos"}) { // single precision
        auto it = builtinIx.find(string("llvm.") + b + ".f64"); if (it == builtinIx.end()) continue; int ix = it->second;
        addB(string("llvm.") + b + ".f32", [ix](Ar a, CallT& t) -> u64 { Builtin f = builtins[ix]; return round32(f(a, t)); });
        string c = string(b) == "maxnum" ? "fmax" : string(b) == "minnum" ? "fmin" : b; builtinIx[c + "f"] = builtinIx[string("llvm.") + b + ".f32"];
    }
    for (auto* b : {"hypot", "fmod", "fdim", "remainder"}) { int ix = builtinIx[b]; addB(string(b) + "f", [ix](Ar a, CallT& t) -> u64 { Builtin f = builtins[ix]; return round32(f(a, t)); }); }
    addB("llvm.trap", [](Ar, CallT&) -> u64 { memErr("trap"); });
    addB("llvm.is.fpclass.f64", [](Ar a, CallT&) -> u64 { if (isBox(a[0])) { if (!(a[1] & 0x1f8)) return 0; if ((a[1] & 0x1f8) == 0x1f8) return 1; unsupported("fpclass"); } double d = asD(a[0]); int c = std::fpclassify(d); u64 m = c == FP_NAN ? 3 : c == FP_INFINITE ? (d < 0 ? 4 : 512) : c == FP_ZERO ? (std::signbit(d) ? 32 : 64) : c == FP_SUBNORMAL ? (d < 0 ? 16 : 128) : (d < 0 ? 8 : 256); return (m & a[1]) != 0; });
    addB("llvm.stacksave.p0", [](Ar, CallT&) -> u64 { return stkTop; }); addB("llvm.stackrestore.p0", [](Ar, CallT&) -> u64 { return 0; });
    builtinIx["llvm.stacksave"] = builtinIx["llvm.stacksave.p0"]; builtinIx["llvm.stackrestore"] = builtinIx["llvm.stackrestore.p0"];
    addB("llvm.eh.typeid.for", [](Ar a, CallT&) -> u64 { return typeId(a[0]); }); builtinIx["llvm.eh.typeid.for.p0"] = builtinIx["llvm.eh.typeid.for"];
    addB("__cxa_atexit", [](Ar, CallT&) -> u64 { return 0; });
    addB("__cxa_guard_acquire", [](Ar a, CallT&) -> u64 { checkRead(a[0], 1); return *(u8*)a[0] == 0; });
    addB("__cxa_guard_release", [](Ar a, CallT&) -> u64 { *(u8*)a[0] = 1; return 0; });
    addB("__cxa_allocate_exception", [](Ar a, CallT&) -> u64 { return heapAlloc(a[0], false); });
    addB("__cxa_free_exception", [](Ar, CallT&) -> u64 { return 0; });
    addB("__cxa_throw", [](Ar a, CallT&) -> u64 { exc.obj = a[0]; exc.ti = a[1]; bool has = false; for (auto& fr : frames) { Ins& ci = fr.f->code[fr.pc - 1]; if (ci.op == O_CALL && ((CallT*)ci.x)->unw) has = true; } if (!has) reportEvent("exception", "uncaught exception", true); try { doThrow(); } catch (PathEnd&) { throw PathEnd{End::Violation, "uncaught exception"}; } return 0; });
    addB("__cxa_begin_catch", [](Ar a, CallT&) -> u64 { caught.push_back({exc.obj, exc.ti}); return a[0]; });
    addB("__cxa_get_exception_ptr", [](Ar a, CallT&) -> u64 { return a[0]; });
    addB("__cxa_end_catch", [](Ar, CallT&) -> u64 { if (!caught.empty()) caught.pop_back(); return 0; });
    addB("__cxa_rethrow", [](Ar, CallT&) -> u64 { exc.obj = caught.back().first; exc.ti = caught.back().second; doThrow(); return 0; });
    addB("exit", [](Ar a, CallT&) -> u64 { if (!exitOk) reportEvent("exit", "unexpected termination of the process with status " + std::to_string((int)a[0]), true); throw PathEnd{End::Exit, "exit"}; });
    builtinIx["_exit"] = builtinIx["exit"]; builtinIx["_Exit"] = builtinIx["exit"]; builtinIx["quick_exit"] = builtinIx["exit"];
    addB("abort", [](Ar, CallT&) -> u64 { reportEvent("exit", "abort", true); return 0; });
    for (auto* s : {"__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual", "__clang_call_terminate"}) builtinIx[s] = builtinIx["abort"];
    for (auto* s : {"_ZSt20__throw_length_errorPKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt21__throw_runtime_errorPKc"}) {
        string n = s; addB(n, [n](Ar, CallT&) -> u64 { reportEvent("exception", llvm::demangle(n), true); return 0; }); }
    addB("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](Ar a, CallT&) -> u64 { reportEvent("memory", "failed container precondition: " + cstr(a[3]), true); return 0; });
    // ---- formatted output
    addB("fprintf", [](Ar a, CallT& t) -> u64 { string s = formatStr(cstr(a[1]), a, 2, t); if ((FILE*)a[0] == stderr) return s.size(); inNative = false; fwrite(s.data(), 1, s.size(), (FILE*)a[0]); return s.size(); });
    addB("printf", [](Ar, CallT&) -> u64 { return 0; }); builtinIx["puts"] = builtinIx["printf"]; builtinIx["putchar"] = builtinIx["printf"];
    addB("snprintf", [](Ar a, CallT& t) -> u64 { string s = formatStr(cstr(a[2]), a, 3, t); u64 n = std::min<u64>(a[1], s.size() + 1); checkAddr(a[0], n, "write", true); if (n) { memcpy((void*)a[0], s.c_str(), n); ((char*)a[0])[n - 1] = 0; memset(shp(a[0]), SH_OK, n); } return s.size(); });
    addB("sprintf", [](Ar a, CallT& t) -> u64 { string s = formatStr(cstr(a[1]), a, 2, t); checkAddr(a[0], s.size() + 1, "write", true); memcpy((void*)a[0], s.c_str(), s.size() + 1); memset(shp(a[0]), SH_OK, s.size() + 1); return s.size(); });
    // va_list: every argument is taken from the overflow area
    addB("llvm.va_start", [](Ar a, CallT&) -> u64 { checkAddr(a[0], 24, "write", true); u32* l = (u32*)a[0]; l[0] = 48; l[1] = 176; ((u64*)a[0])[1] = frames.back().va; ((u64*)a[0])[2] = 0; memset(shp(a[0]), SH_OK, 24); return 0; });
    addB("llvm.va_end", [](Ar, CallT&) -> u64 { return 0; }); addB("llvm.va_copy", [](Ar a, CallT&) -> u64 { memCopy(a[0], a[1], 24); return 0; });
    for (auto* s : {"llvm.va_start", "llvm.va_end", "llvm.va_copy"}) builtinIx[string(s) + ".p0"] = builtinIx[s];
    static auto fromList = [](u64 va, const string& fmt) { checkAddr(va, 24, "read", false); vector<u64> r; u64 p = ((u64*)va)[1]; for (size_t i = 0; i < fmt.size(); i++) if (fmt[i] == '%') { if (fmt[i + 1] == '%') { i++; continue; } checkAddr(p, 8, "read", false); r.push_back(*(u64*)p); p += 8; } return r; };
    addB("vfprintf", [](Ar a, CallT& t) -> u64 { string f = cstr(a[1]); vector<u64> v = fromList(a[2], f); string s = formatStr(f, v, 0, t); if ((FILE*)a[0] == stderr || (FILE*)a[0] == stdout) return s.size(); inNative = false; fwrite(s.data(), 1, s.size(), (FILE*)a[0]); return s.size(); });
    addB("vprintf", [](Ar, CallT&) -> u64 { return 0; });
    addB("vsnprintf", [](Ar a, CallT& t) -> u64 { string f = cstr(a[2]); vector<u64> v = fromList(a[3], f); string s = formatStr(f, v, 0, t); u64 n = std::min<u64>(a[1], s.size() + 1); checkAddr(a[0], n, "write", true); if (n) { memcpy((void*)a[0], s.c_str(), n); ((char*)a[0])[n - 1] = 0; memset(shp(a[0]), SH_OK, n); } return s.size(); });
    addB("vsprintf", [](Ar a, CallT& t) -> u64 { string f = cstr(a[1]); vector<u64> v = fromList(a[2], f); string s = formatStr(f, v, 0, t); checkAddr(a[0], s.size() + 1, "write", true); memcpy((void*)a[0], s.c_str(), s.size() + 1); memset(shp(a[0]), SH_OK, s.size() + 1); return s.size(); });
    addB("fwrite", [](Ar a, CallT&) -> u64 { if ((FILE*)a[3] == stderr || (FILE*)a[3] == stdout) return a[2]; checkAddr(a[0], a[1] * a[2], "read", false); return fwrite((void*)a[0], a[1], a[2], (FILE*)a[3]); });
    addB("fputc", [](Ar a, CallT&) -> u64 { if ((FILE*)a[1] == stderr || (FILE*)a[1] == stdout) return a[0]; return fputc((int)a[0], (FILE*)a[1]); });
    addB("fputs", [](Ar a, CallT&) -> u64 { string s = cstr(a[0]); if ((FILE*)a[1] == stderr || (FILE*)a[1] == stdout) return 1; return fputs(s.c_str(), (FILE*)a[1]); });
    addB("fclose", [](Ar a, CallT&) -> u64 { return fclose((FILE*)a[0]); });
    addB("fopen", [](Ar a, CallT&) -> u64 { string p = cstr(a[0]); string m = cstr(a[1]); if (p.find("..") != string::npos || p.compare(0, 5, "/proc") == 0 || (p.size() && p[0] == '/')) unsupported("fopen outside the scratch directory: " + p); return (u64)fopen(p.c_str(), m.c_str()); });
    addB("_ZNSo9_M_insertIdEERSoT_", [](Ar a, CallT& t) -> u64 {
        string m; if (isSymD(a[1])) { std::ostream* o = (std::ostream*)a[0]; auto fl = o->flags() & std::ios::floatfield; int pr = o->precision(); if (magicOut(a[1], fl == std::ios::fixed, fl == std::ios::fixed ? pr : fl == std::ios::scientific ? pr + 1 : std::max(1, pr), m)) { *o << m; return a[0]; } }
        double fr; u64 r2; return nativeCall(dlsym(RTLD_DEFAULT, "_ZNSo9_M_insertIdEERSoT_"), a, t, &fr, &r2); });
    addB("_ZNSi10_M_extractIdEERSiRT_", [](Ar a, CallT& t) -> u64 { double fr; u64 r2; u64 dst = a[1]; checkAddr(dst, 8, "write", true); u64 r = nativeCall(dlsym(RTLD_DEFAULT, "_ZNSi10_M_extractIdEERSiRT_"), a, t, &fr, &r2); u64 q; double d; memcpy(&d, (void*)dst, 8); if (magicIn(d, q)) memcpy((void*)dst, &q, 8); return r; });
    addB("strtod", [](Ar a, CallT&) -> u64 { char* e; double d = strtod((char*)a[0], &e); if (a[1]) { checkWrite(a[1], 8); *(u64*)a[1] = (u64)e; memset(shp(a[1]), SH_OK, 8); } u64 v; if (magicIn(d, v)) return v; return asU(d); });
    // scanf family: the targets of %lf may have received the name of a symbolic value
    for (auto* s : {"fscanf", "sscanf", "__isoc99_fscanf", "__isoc99_sscanf", "__isoc23_fscanf", "__isoc23_sscanf"}) { string n = s; addB(s, [n](Ar a, CallT& t) -> u64 {
        string f = cstr(a[1]); size_t k = 2; double fr; u64 r2; struct T { u64 p; size_t n; bool d; }; vector<T> ts;
        for (size_t i = 0; i < f.size(); i++) if (f[i] == '%') { size_t j = i + 1; if (f[j] == '%') { i = j; continue; } bool skip = f[j] == '*'; if (skip) j++; while (j < f.size() && (isdigit(f[j]) || strchr("lhLzjt", f[j]))) j++; string m = f.substr(i, j - i); bool l = m.find('l') != string::npos || m.find('z') != string::npos, h = m.find('h') != string::npos; char c = f[j]; if (c == '[') { while (j < f.size() && f[j] != ']') j++; }
            if (!skip) { if (k >= a.size()) unsupported("scanf arguments"); if (strchr("eEfFgGa", c)) ts.push_back({a[k], l ? 8u : 4u, l}); else if (strchr("diouxX", c)) ts.push_back({a[k], l ? 8u : h ? 2u : 4u, false}); else if (c != 'n') unsupported("scanf conversion"); k++; } i = j; }
        for (auto& x : ts) checkAddr(x.p, x.n, "write", true);
        u64 r = nativeCall(dlsym(RTLD_DEFAULT, "fscanf") && n[0] != 's' && n.find("sscanf") == string::npos ? dlsym(RTLD_DEFAULT, "fscanf") : dlsym(RTLD_DEFAULT, "sscanf"), a, t, &fr, &r2);
        for (size_t i = 0; i < ts.size() && (i64)i < (i64)(int)r; i++) if (inArena(ts[i].p)) { memset(shp(ts[i].p), SH_OK, ts[i].n); u64 q; double d; if (ts[i].d) { memcpy(&d, (void*)ts[i].p, 8); if (magicIn(d, q)) memcpy((void*)ts[i].p, &q, 8); } }
        return (u32)r; }); }
    addB("atof", [](Ar a, CallT&) -> u64 { double d = atof((char*)a[0]); u64 v; if (magicIn(d, v)) return v; return asU(d); });
    // std::ofstream/ifstream open paths go through basic_filebuf::open natively, relative to the scratch cwd
    // ---- harness API
    addB("sym_double", [](Ar a, CallT&) -> u64 { string n = cstr(a[0]); i64 ix = (i32)a[1]; if (ix >= 0) n += std::to_string(ix); return symInput(n, asD(a[2]), asD(a[3])); });
    addB("sym_choice", [](Ar a, CallT&) -> u64 { string n = cstr(a[0]); i64 ix = (i32)a[1]; if (ix >= 0) n += std::to_string(ix); i64 k = (i32)a[2]; return (u64)maskw(symChoice(n, k), 32); });
    addB("sym_assume", [](Ar a, CallT&) -> u64 { symAssume(a[0]); return 0; });
    addB("sym_check", [](Ar a, CallT&) -> u64 { symCheck(a[0], cstr(a[1]), 1); return 0; });
    addB("sym_near", [](Ar a, CallT&) -> u64 { // |x-y| <= tol
        u64 x = a[0], y = a[1], tol = a[2]; string l = cstr(a[3]);
        if (!isSymD(x) && !std::isfinite(asD(x))) { symCheck(0, l + " (not finite)", 1); return 0; }
        if (!isSymD(y) && !std::isfinite(asD(y))) { symCheck(0, l + " (not finite)", 1); return 0; }
        if (!isBox(x) && !isBox(y)) { symCheck(fabs(asD(x) - asD(y)) <= asD(tol), l, 1); return 0; }
        u64 d = dSub(x, y); if (!isBox(d) && asD(d) == 0 && (isSymD(x) || isSymD(y))) symConfirm(x, y, l);
        u64 big = asU(asD(tol) * 1e4), ntol = asU(-asD(tol)), nbig = asU(-asD(tol) * 1e4);
        u64 s = bAnd(dCmp(3, false, d, big), dCmp(5, false, d, nbig)); u64 b = bAnd(dCmp(3, false, d, tol), dCmp(5, false, d, ntol));
        symCheck(b, l, s); return 0; });
    addB("sym_cover", [](Ar a, CallT&) -> u64 { symCover(cstr(a[0])); return 0; });
    addB("sym_param", [](Ar a, CallT&) -> u64 { string n = cstr(a[0]); auto it = params.find(n); return maskw(it == params.end() ? a[1] : (u64)it->second, 32); });
    addB("sym_expect_exit", [](Ar a, CallT&) -> u64 { exitOk = a[0] != 0; return 0; });
    addB("sym_and", [](Ar a, CallT&) -> u64 { return bAnd(a[0], a[1]); }); addB("sym_or", [](Ar a, CallT&) -> u64 { return bOr(a[0], a[1]); }); addB("sym_not", [](Ar a, CallT&) -> u64 { return bNot(a[0]); });
    addB("sym_lt", [](Ar a, CallT&) -> u64 { if (!isBox(a[0]) && !isBox(a[1])) return asD(a[0]) < asD(a[1]); return dCmp(2, false, a[0], a[1]); });
    addB("sym_le", [](Ar a, CallT&) -> u64 { if (!isBox(a[0]) && !isBox(a[1])) return asD(a[0]) <= asD(a[1]); return dCmp(3, false, a[0], a[1]); });
    addB("sym_eq", [](Ar a, CallT&) -> u64 { if (!isBox(a[0]) && !isBox(a[1])) return asD(a[0]) == asD(a[1]); return dCmp(0, false, a[0], a[1]); });
    addB("sym_isfinite", [](Ar a, CallT&) -> u64 { return isBox(a[0]) || std::isfinite(asD(a[0])); });
    addB("sym_fork", [](Ar a, CallT&) -> u64 { return decide(a[0]); });
    addB("sym_symbolic", [](Ar, CallT&) -> u64 { return 1; });
    addB("sym_fun", [](Ar a, CallT&) -> u64 { string n = cstr(a[0]); return isBox(a[1]) ? dFun(n.c_str(), a[1]) : a[1]; });
    addB("sym_print", [](Ar a, CallT&) -> u64 { fprintf(stderr, "[sym] %s = %s\n", cstr(a[0]).c_str(), showD(a[1]).c_str()); return 0; });
}

// ============================================================ setup and API
static Fn* entryFn; static int fdBase = -1;
static int phdrCb(struct dl_phdr_info* info, size_t, void*) {
    string nm = info->dlpi_name ? info->dlpi_name : "";
    if (nm.find("libstdc++") != string::npos || nm.find("libc.so") != string::npos || nm.find("libm.so") != string::npos)
        for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_LOAD) { u64 lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr; ext.push_back({lo, lo + info->dlpi_phdr[i].p_memsz, (info->dlpi_phdr[i].p_flags & PF_W) != 0}); }
    return 0;
}
bool interpLoad(const string& bc, const std::map<string, i64>& pr, u64 maxI) {
    params = pr; maxInstr = maxI;
    if (mmap((void*)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)ARENA) { perror("arena"); return false; }
    if (mmap((void*)SHADOW, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)SHADOW) { perror("shadow"); return false; }
    dl_iterate_phdr(phdrCb, nullptr);
    ext.push_back({(u64)__builtin_frame_address(0) - 4096, (u64)__builtin_frame_address(0), false});
    { int* e = &errno; ext.push_back({(u64)e, (u64)e + 4, true}); }
    setupBuiltins();
    static LLVMContext Ctx; SMDiagnostic Err; auto M = parseIRFile(bc, Err, Ctx); if (!M) { Err.print("sx", errs()); return false; }
    Mod = M.release(); DL = &Mod->getDataLayout();
    for (auto& G : Mod->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) globalAddr(&G);
    for (auto& G : Mod->globals()) if (G.hasInitializer() && !G.getName().starts_with("llvm.")) { u64 a = gaddr[&G]; u64 sz = DL->getTypeAllocSize(G.getValueType()); memset(shp(a), SH_OK, sz); writeInit(a, G.getInitializer()); }
    Function* E = Mod->getFunction("sym_main"); if (!E) { fprintf(stderr, "no sym_main\n"); return false; } entryFn = getFn(E);
    // global constructors (concrete)
    rtBeginPath({});
    if (auto* GC = Mod->getGlobalVariable("llvm.global_ctors")) if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer())) for (auto& o : CA->operands()) { auto* S = cast<ConstantStruct>(o.get()); if (auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) { try { run(getFn(F)); } catch (PathEnd& e) { fprintf(stderr, "global ctor %s failed: %s\n", F->getName().str().c_str(), e.msg.c_str()); } } }
    heapStart = heapTop; globSnapTop = globTop;
    globSnap.assign((u8*)GLOB, (u8*)globTop); globShadowSnap.assign(shp(GLOB), shp(globTop));
    fdBase = dup(0); close(fdBase);
    return true;
}
u64 interpInstrs() { return instrCount; }
void interpRun() {
    memcpy((void*)GLOB, globSnap.data(), globSnap.size()); memcpy(shp(GLOB), globShadowSnap.data(), globShadowSnap.size());
    if (heapTop > heapStart) memset(shp(heapStart), SH_BAD, heapTop - heapStart + 64); heapTop = heapStart; stkTop = STK;
    static u64 stkHigh = STK; (void)stkHigh; memset(shp(STK), SH_BAD, 1 << 20);
    instrCount = 0; exitOk = false; finished = false; caught.clear(); f32Boxes.clear(); f32Memo.clear(); typeIds.clear(); curIns = nullptr; inNative = false;
    run(entryFn);
}
void interpCleanup() { inNative = false; frames.clear(); curIns = nullptr; if (fdBase > 0) closefrom(fdBase); }
vector<string> executedFns() { vector<string> r; for (auto* f : fns) if (f->run && f->slsm) r.push_back(f->name); return r; }
