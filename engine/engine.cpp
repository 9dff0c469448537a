// Symbolic executor for LLVM IR: concrete host memory with a shadow of symbolic cells.
#include "engine.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalIFunc.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <cxxabi.h>
#include <typeinfo>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <exception>

using namespace llvm;

Shared* SH; z3::context* Z; double g_deadline; std::string g_out; int g_tier = 0; long g_maxpaths = 20000; unsigned g_qtimeout = 5000;
double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec*1e-6; }
static u64 g_steps = 0, g_maxsteps = 3000000000ull;
static bool g_trace = false;

// ------------------------------------------------------------------ memory
static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 34;   // 16 GB of address space
static u64 heap_top, heap_end, stk_base, stk_top, stk_end, glob_top;
static uint8_t* mshadow;                 // one byte per 8 bytes: number of valid leading bytes
struct ShPage { Sym* cell[4096]; uint8_t sz[4096]; unsigned n = 0; ShPage() { memset(cell,0,sizeof cell); memset(sz,0,sizeof sz); } };
static ShPage** shpages;                 // per 4K page of arena
static std::unordered_map<u64,u64> heap_sz;
static bool in_engine = true;

struct MemErr { std::string what; };

static inline bool in_arena(u64 a) { return a - ARENA < ARENA_SZ; }
static void mark(u64 a, u64 n, bool valid) {
    u64 s = (a - ARENA) >> 3, full = n >> 3;
    memset(mshadow + s, valid ? 8 : 0, full);
    if (n & 7) mshadow[s+full] = valid ? (n & 7) : 0;
}
static void arena_init() {
    void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    mshadow = (uint8_t*)mmap(0, ARENA_SZ >> 3, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    shpages = (ShPage**)mmap(0, (ARENA_SZ >> 12)*8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    glob_top = ARENA + 64;
    stk_base = stk_top = ARENA + (1ull << 32); stk_end = stk_base + (1ull << 30);
    heap_top = stk_end + 4096; heap_end = ARENA + ARENA_SZ;
}
static u64 glob_alloc(u64 n, u64 al) {
    if (al < 16) al = 16;
    glob_top = (glob_top + al - 1) / al * al;
    u64 a = glob_top; glob_top += ((n + 7) & ~7ull) + 16;
    mark(a, n, true); return a;
}
static void sh_clear(u64 a, u64 n);
static std::unordered_map<u64, std::vector<u64>> freelist;
static u64 heap_alloc(u64 n, u64 al = 16) {
    if (n > (2ull << 30)) return 0;
    if (al < 16) al = 16;
    u64 sz = (n + 15 + 16) & ~15ull;
    u64 a;
    auto& fl = freelist[sz];
    if (al == 16 && fl.size() > 256) { a = fl.front(); fl.erase(fl.begin()); }
    else { heap_top = (heap_top + al - 1)/al*al; a = heap_top; heap_top += sz; if (heap_top > heap_end) throw PathEnd{"unsupported","heap exhausted"}; }
    mark(a, n, true);
    memset((void*)a, 0xCB, n);
    heap_sz[a] = n;
    return a;
}
static void heap_free(u64 a) {
    if (!a) return;
    auto it = heap_sz.find(a);
    if (it == heap_sz.end()) throw MemErr{"invalid or double free"};
    u64 n = it->second; heap_sz.erase(it);
    sh_clear(a, n); mark(a, n, false);
    freelist[(n + 15 + 16) & ~15ull].push_back(a);
}
// native code inside this process may free memory that interpreted code allocated
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*);
extern "C" void free(void* p) { if (p && in_arena((u64)p)) { try { heap_free((u64)p); } catch (...) {} return; } __libc_free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }

static inline void mem_check(u64 a, u64 n, const char* what) {
    if (__builtin_expect(in_arena(a), 1)) {
        u64 s = (a - ARENA) >> 3; unsigned off = a & 7;
        if (off + n <= 8) { if (mshadow[s] >= off + n) return; }
        else {
            bool ok = mshadow[s] == 8; u64 e = a + n; s++;
            while (ok && ((s << 3) + ARENA) + 8 <= e) { ok = mshadow[s] == 8; s++; }
            if (ok) { unsigned rest = e - ((s << 3) + ARENA); if (rest == 0 || mshadow[s] >= rest) return; }
        }
        throw MemErr{std::string(what) + " outside of any live object"};
    }
    if (a < 65536) throw MemErr{std::string(what) + " through null pointer"};
}
static void sh_set(u64 a, Sym* s, unsigned sz) {
    if (!in_arena(a)) throw Unsupported("symbolic value stored to native memory");
    u64 pg = (a - ARENA) >> 12;
    if (!shpages[pg]) shpages[pg] = new ShPage();
    ShPage* p = shpages[pg]; unsigned o = a & 4095;
    s->rc++; p->cell[o] = s; p->sz[o] = sz; p->n++;
}
static inline ShPage* sh_page(u64 a) { return shpages[(a - ARENA) >> 12]; }
static z3::expr sym_bv(Sym* s) {
    if (s->k == Sym::BV) return *s->e;
    if (s->k == Sym::BOOL) return z3::ite(bool_expr(s), Z->bv_val(1, 8), Z->bv_val(0, 8));
    throw Unsupported("bytes of a symbolic real");
}
static void sh_drop(u64 a) { ShPage* p = sh_page(a); unsigned o = a & 4095; Sym* s = p->cell[o]; p->cell[o] = nullptr; p->sz[o] = 0; p->n--; if (--s->rc == 0) delete s; }
// remove symbolic cells overlapping [a,a+n); partially overlapped bit-vector cells are split into bytes
static void sh_clear(u64 a, u64 n) {
    if (!in_arena(a) || n == 0) return;
    u64 lo = a >= ARENA + 7 ? a - 7 : ARENA;
    u64 x = lo;
    while (x < a + n) {
        ShPage* p = sh_page(x);
        u64 pe = (x & ~4095ull) + 4096;
        if (!p || p->n == 0) { x = pe; continue; }
        u64 e = std::min(pe, a + n);
        for (; x < e; x++) {
            unsigned o = x & 4095;
            if (!p->cell[o]) continue;
            unsigned sz = p->sz[o];
            if (x + sz <= a) continue;
            if (x >= a && x + sz <= a + n) { sh_drop(x); continue; }
            Sym* s = p->cell[o]; s->rc++;
            sh_drop(x);
            if (s->k != Sym::REAL) {
                z3::expr b = sym_bv(s);
                for (unsigned i = 0; i < sz; i++) if (x+i < a || x+i >= a+n) { V v = bv_v(b.extract(8*i+7, 8*i)); if (v.s) sh_set(x+i, v.s, 1); else *(uint8_t*)(x+i) = v.c; }
            }
            if (--s->rc == 0) delete s;
        }
    }
}
static bool sh_any(u64 a, u64 n) {
    if (!in_arena(a) || n == 0) return false;
    u64 x = a >= ARENA + 7 ? a - 7 : ARENA;
    while (x < a + n) {
        ShPage* p = sh_page(x); u64 pe = (x & ~4095ull) + 4096;
        if (!p || p->n == 0) { x = pe; continue; }
        u64 e = std::min(pe, a + n);
        for (; x < e; x++) { unsigned o = x & 4095; if (p->cell[o] && x + p->sz[o] > a) return true; }
    }
    return false;
}
static V mem_load(u64 a, unsigned sz, bool fp) {
    if (in_arena(a)) {
        ShPage* p = sh_page(a);
        bool maybe = (p && p->n) ;
        if (!maybe && (a & 4095) < 7 && a >= ARENA + 4096) { ShPage* q = sh_page(a - 7); maybe = q && q->n; }
        if (!maybe && ((a + sz - 1) >> 12) != (a >> 12)) { ShPage* q = sh_page(a + sz - 1); maybe = q && q->n; }
        if (maybe) {
            unsigned o = a & 4095;
            if (p && p->cell[o] && p->sz[o] == sz) return V(p->cell[o]);
            if (sh_any(a, sz)) {
                // compose bytes
                std::optional<z3::expr> r;
                for (int i = sz - 1; i >= 0; i--) {
                    u64 x = a + i; z3::expr b = Z->bv_val((unsigned)*(uint8_t*)x, 8);
                    for (int k = 0; k < 8; k++) {
                        u64 y = x - k; if (y < ARENA) break;
                        ShPage* q = sh_page(y); if (!q) continue;
                        unsigned oo = y & 4095;
                        if (q->cell[oo] && y + q->sz[oo] > x) { b = sym_bv(q->cell[oo]).extract(8*k+7, 8*k); break; }
                    }
                    r = r ? z3::concat(*r, b) : b;
                }
                return bv_v(*r);
            }
        }
    }
    u64 v = 0;
    switch (sz) { case 1: v = *(uint8_t*)a; break; case 2: { uint16_t t; memcpy(&t,(void*)a,2); v = t; break; }
        case 4: { uint32_t t; memcpy(&t,(void*)a,4); v = t; break; } case 8: memcpy(&v,(void*)a,8); break;
        default: memcpy(&v, (void*)a, std::min(sz,8u)); }
    return V(v);
}
static void mem_store(u64 a, const V& v, unsigned sz) {
    if (in_arena(a)) {
        ShPage* p = sh_page(a);
        bool maybe = (p && p->n);
        if (!maybe && (a & 4095) < 7 && a >= ARENA + 4096) { ShPage* q = sh_page(a - 7); maybe = q && q->n; }
        if (!maybe && ((a + sz - 1) >> 12) != (a >> 12)) { ShPage* q = sh_page(a + sz - 1); maybe = q && q->n; }
        if (maybe) sh_clear(a, sz);
    }
    u64 c = v.c;
    switch (sz) { case 1: *(uint8_t*)a = c; break; case 2: memcpy((void*)a,&c,2); break; case 4: memcpy((void*)a,&c,4); break; case 8: memcpy((void*)a,&c,8); break; default: memcpy((void*)a,&c,std::min(sz,8u)); }
    if (v.s) sh_set(a, v.s, sz);
}
static void mem_copy(u64 d, u64 s, u64 n) {
    if (n == 0 || d == s) return;
    mem_check(s, n, "read"); mem_check(d, n, "write");
    std::vector<std::pair<u64,V>> cells; std::vector<unsigned> szs;
    if (sh_any(s, n)) {
        // split partially covered cells at the borders
        u64 lo = s - 7;
        for (u64 x = lo; x < s + n; x++) {
            if (!in_arena(x)) continue;
            ShPage* p = sh_page(x); if (!p || !p->n) { u64 nx = (x & ~4095ull) + 4095; x = nx; continue; }
            unsigned o = x & 4095; if (!p->cell[o]) continue;
            unsigned sz = p->sz[o];
            if (x + sz <= s) continue;
            if (x >= s && x + sz <= s + n) { cells.push_back({x - s, V(p->cell[o])}); szs.push_back(sz); continue; }
            z3::expr b = sym_bv(p->cell[o]);
            for (unsigned i = 0; i < sz; i++) if (x+i >= s && x+i < s+n) { cells.push_back({x+i-s, bv_v(b.extract(8*i+7,8*i))}); szs.push_back(1); }
        }
    }
    sh_clear(d, n);
    memmove((void*)d, (void*)s, n);
    for (size_t i = 0; i < cells.size(); i++) mem_store(d + cells[i].first, cells[i].second, szs[i]);
}

// ------------------------------------------------------------------ types and decoded functions
enum SK : uint8_t { S_INT, S_DBL, S_FLT, S_PTR, S_FP80 };
struct Scal { SK k; uint16_t bits; uint32_t off; uint16_t bytes; };
struct TI { std::vector<Scal> s; u64 size; };
static Module* M; static const DataLayout* DL;
static std::unordered_map<Type*, TI*> tis;
static void flat(Type* t, u64 off, std::vector<Scal>& o) {
    if (auto* it = dyn_cast<IntegerType>(t)) { unsigned b = it->getBitWidth();
        if (b > 64) { unsigned nb = (b+63)/64; for (unsigned i = 0; i < nb; i++) o.push_back({S_INT, 64, (uint32_t)(off+8*i), 8}); if (b != 128) throw Unsupported("wide integer"); }
        else o.push_back({S_INT, (uint16_t)b, (uint32_t)off, (uint16_t)((b+7)/8)}); }
    else if (t->isDoubleTy()) o.push_back({S_DBL,64,(uint32_t)off,8});
    else if (t->isFloatTy()) o.push_back({S_FLT,32,(uint32_t)off,4});
    else if (t->isPointerTy()) o.push_back({S_PTR,64,(uint32_t)off,8});
    else if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), o); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i*es, o); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { 
        auto* et = vt->getElementType();
        if (et->isIntegerTy() && et->getIntegerBitWidth() % 8) { for (unsigned i = 0; i < vt->getNumElements(); i++) o.push_back({S_INT,(uint16_t)et->getIntegerBitWidth(),(uint32_t)(off+i),1}); }
        else { u64 es = DL->getTypeStoreSize(et); for (unsigned i = 0; i < vt->getNumElements(); i++) flat(et, off + i*es, o); } }
    else if (t->isX86_FP80Ty()) o.push_back({S_FP80,80,(uint32_t)off,16});
    else if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) {}
    else throw Unsupported("type");
}
static TI* ti(Type* t) {
    auto it = tis.find(t); if (it != tis.end()) return it->second;
    TI* x = new TI(); flat(t, 0, x->s); x->size = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 0;
    tis[t] = x; return x;
}
struct DI { Instruction* I; unsigned opc; int dst = -1; TI* t = nullptr; TI* t0 = nullptr; std::vector<int> ops; i64 cst = 0; std::vector<std::pair<int,i64>> gep; std::vector<int> bbs; std::vector<u64> cases;
    std::vector<std::pair<int,int>> phi; int unwind = -1; Function* callee = nullptr; std::string cname; int kind = 0; bool fast = false; };
struct DBlk { int first, nphi; };
struct DF { Function* F; std::vector<DI> ins; std::vector<DBlk> blks; std::vector<V> consts; int nregs = 0; std::vector<int> args; bool bad = false; std::string badmsg; u64 hits = 0; };
static std::unordered_map<Function*, DF*> dfs;
static std::unordered_map<u64, Function*> faddr;            // address -> function
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, std::string> ext_name;       // address -> external symbol name

static u64 const_addr(const GlobalValue* g);
static void const_bytes(const Constant* c, uint8_t* p);
static u64 func_addr(const Function* f) {
    auto it = gaddr.find(f); if (it != gaddr.end()) return it->second;
    u64 a;
    if (f->isDeclaration()) {
        a = (u64)dlsym(RTLD_DEFAULT, f->getName().str().c_str());
        if (!a) { a = glob_alloc(16, 16); }
        ext_name[a] = f->getName().str();
    } else { a = glob_alloc(16, 16); faddr[a] = const_cast<Function*>(f); }
    gaddr[f] = a; return a;
}
static std::vector<std::pair<const GlobalVariable*, u64>> pending_init;
static u64 const_addr(const GlobalValue* g) {
    if (auto* f = dyn_cast<Function>(g)) return func_addr(f);
    if (auto* al = dyn_cast<GlobalAlias>(g)) {
        auto* ao = al->getAliaseeObject();
        if (auto* f = dyn_cast<Function>(ao)) return func_addr(f);
        return const_addr(ao);
    }
    auto* gv = cast<GlobalVariable>(g);
    auto it = gaddr.find(gv); if (it != gaddr.end()) return it->second;
    u64 a;
    if (gv->isDeclaration()) {
        a = (u64)dlsym(RTLD_DEFAULT, gv->getName().str().c_str());
        if (!a) a = glob_alloc(DL->getTypeAllocSize(gv->getValueType()), 16);
        gaddr[gv] = a;
    } else {
        a = glob_alloc(std::max<u64>(1, DL->getTypeAllocSize(gv->getValueType())), gv->getAlign() ? gv->getAlign()->value() : 16);
        gaddr[gv] = a;
        pending_init.push_back({gv, a});
    }
    return a;
}
static u64 const_int(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() <= 64 ? ci->getZExtValue() : ci->getValue().getRawData()[0];
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto* g = dyn_cast<GlobalValue>(c)) return const_addr(g);
    if (auto* f = dyn_cast<ConstantFP>(c)) { return f->getValueAPF().bitcastToAPInt().getRawData()[0]; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
            u64 v = const_int(ce->getOperand(0)); unsigned b = DL->getTypeSizeInBits(ce->getType()); return b < 64 ? v & ((1ull<<b)-1) : v; }
        case Instruction::GetElementPtr: {
            APInt off(64, 0); auto* go = cast<GEPOperator>(ce);
            if (!go->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep");
            return const_int(cast<Constant>(go->getPointerOperand())) + off.getSExtValue(); }
        case Instruction::Add: return const_int(ce->getOperand(0)) + const_int(ce->getOperand(1));
        case Instruction::Sub: return const_int(ce->getOperand(0)) - const_int(ce->getOperand(1));
        case Instruction::Trunc: { u64 v = const_int(ce->getOperand(0)); unsigned b = ce->getType()->getIntegerBitWidth(); return b < 64 ? v & ((1ull<<b)-1) : v; }
        case Instruction::ICmp: { auto* cc = cast<ConstantExpr>(ce); u64 a = const_int(cc->getOperand(0)), b = const_int(cc->getOperand(1)); return cc->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b; }
        }
        throw Unsupported("constant expression");
    }
    throw Unsupported("constant");
}
static void const_bytes(const Constant* c, uint8_t* p) {
    Type* t = c->getType(); u64 sz = DL->getTypeAllocSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) { memset(p, 0, sz); return; }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { auto r = cds->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) const_bytes(cs->getOperand(i), p + sl->getElementOffset(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) const_bytes(ca->getOperand(i), p + i*es); return; }
    if (auto* cv = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) const_bytes(cv->getOperand(i), p + i*es); return; }
    if (auto* ci = dyn_cast<ConstantInt>(c)) { memcpy(p, ci->getValue().getRawData(), std::min<u64>(sz, ci->getValue().getNumWords()*8)); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { auto ai = cf->getValueAPF().bitcastToAPInt(); memcpy(p, ai.getRawData(), std::min<u64>(sz, ai.getNumWords()*8)); return; }
    u64 v = const_int(c); memcpy(p, &v, std::min<u64>(8, sz));
}
static void flush_init() {
    while (!pending_init.empty()) { auto x = pending_init.back(); pending_init.pop_back(); if (x.first->hasInitializer()) const_bytes(x.first->getInitializer(), (uint8_t*)x.second); }
}
static DF* decode(Function* F) {
    auto it = dfs.find(F); if (it != dfs.end()) return it->second;
    DF* d = new DF(); d->F = F; dfs[F] = d;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbi;
    int n = 0;
    auto alloc = [&](const Value* v) { int s = n; slot[v] = s; n += ti(v->getType())->s.size(); return s; };
    try {
        for (auto& a : F->args()) d->args.push_back(alloc(&a));
        int bi = 0; for (auto& b : *F) bbi[&b] = bi++;
        for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) alloc(&i);
        auto op = [&](const Value* v) -> int {
            auto s = slot.find(v); if (s != slot.end()) return s->second;
            if (auto* c = dyn_cast<Constant>(v)) {
                TI* t = ti(c->getType()); int base = d->consts.size();
                if (t->s.size() == 1 && t->s[0].k != S_FP80) d->consts.push_back(V(const_int(c)));
                else if (t->s.size() >= 1) {
                    std::vector<uint8_t> buf(t->size + 16, 0);
                    if (c->getType()->isVectorTy() && c->getType()->getScalarType()->isIntegerTy() && c->getType()->getScalarSizeInBits() % 8) {
                        for (unsigned k = 0; k < t->s.size(); k++) { Constant* e = c->getAggregateElement(k); d->consts.push_back(V(e ? const_int(e) : 0)); }
                        int r = ~base; slot[v] = r; return r;
                    }
                    const_bytes(c, buf.data());
                    for (auto& s : t->s) { u64 x = 0; memcpy(&x, buf.data()+s.off, std::min<int>(8,s.bytes)); d->consts.push_back(V(x)); }
                } else d->consts.push_back(V());
                int r = ~base; slot[v] = r; return r;
            }
            if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { d->consts.push_back(V()); return ~(int)(d->consts.size()-1); }
            throw Unsupported("operand");
        };
        for (auto& b : *F) {
            DBlk blk; blk.first = d->ins.size(); blk.nphi = 0;
            for (auto& i : b) {
                if (isa<DbgInfoIntrinsic>(&i)) continue;
                DI x; x.I = &i; x.opc = i.getOpcode(); x.t = ti(i.getType());
                if (!i.getType()->isVoidTy()) x.dst = slot[&i];
                if (auto* ph = dyn_cast<PHINode>(&i)) { blk.nphi++; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) x.phi.push_back({bbi[ph->getIncomingBlock(k)], op(ph->getIncomingValue(k))}); }
                else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                    if (g->getType()->isVectorTy()) throw Unsupported("vector gep");
                    x.ops.push_back(op(g->getPointerOperand()));
                    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                        Value* idx = gi.getOperand();
                        if (auto* st = gi.getStructTypeOrNull()) x.cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                        else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) x.cst += ci->getSExtValue()*(i64)es; else { x.gep.push_back({op(idx), (i64)es}); x.cases.push_back(idx->getType()->getIntegerBitWidth()); } }
                    }
                }
                else if (auto* br = dyn_cast<BranchInst>(&i)) { if (br->isConditional()) x.ops.push_back(op(br->getCondition())); for (unsigned k = 0; k < br->getNumSuccessors(); k++) x.bbs.push_back(bbi[br->getSuccessor(k)]); }
                else if (auto* sw = dyn_cast<SwitchInst>(&i)) { x.ops.push_back(op(sw->getCondition())); x.bbs.push_back(bbi[sw->getDefaultDest()]); for (auto& c : sw->cases()) { x.cases.push_back(c.getCaseValue()->getZExtValue()); x.bbs.push_back(bbi[c.getCaseSuccessor()]); } x.t0 = ti(sw->getCondition()->getType()); }
                else if (auto* cb = dyn_cast<CallBase>(&i)) {
                    for (unsigned k = 0; k < cb->arg_size(); k++) x.ops.push_back(op(cb->getArgOperand(k)));
                    x.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (!x.callee) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) x.callee = dyn_cast<Function>(ga->getAliaseeObject());
                    if (!x.callee) x.cst = op(cb->getCalledOperand());
                    else x.cname = x.callee->getName().str();
                    if (auto* iv = dyn_cast<InvokeInst>(&i)) { x.bbs.push_back(bbi[iv->getNormalDest()]); x.bbs.push_back(bbi[iv->getUnwindDest()]); }
                }
                else if (auto* al = dyn_cast<AllocaInst>(&i)) { x.cst = DL->getTypeAllocSize(al->getAllocatedType()); x.ops.push_back(op(al->getArraySize())); x.cases.push_back(al->getAlign().value()); }
                else if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
                    x.ops.push_back(op(ev->getAggregateOperand()));
                    Type* t = ev->getAggregateOperand()->getType(); int o = 0;
                    for (unsigned ix : ev->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) o += ti(st->getElementType(q))->s.size(); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); o += ix*ti(at->getElementType())->s.size(); t = at->getElementType(); } }
                    x.cst = o;
                }
                else if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
                    x.ops.push_back(op(iv->getAggregateOperand())); x.ops.push_back(op(iv->getInsertedValueOperand()));
                    x.t0 = ti(iv->getInsertedValueOperand()->getType());
                    Type* t = iv->getAggregateOperand()->getType(); int o = 0;
                    for (unsigned ix : iv->indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) o += ti(st->getElementType(q))->s.size(); t = st->getElementType(ix); } else { auto* at = cast<ArrayType>(t); o += ix*ti(at->getElementType())->s.size(); t = at->getElementType(); } }
                    x.cst = o;
                }
                else {
                    for (auto& u : i.operands()) x.ops.push_back(op(u.get()));
                    if (i.getNumOperands()) x.t0 = ti(i.getOperand(0)->getType());
                    if (auto* c = dyn_cast<CmpInst>(&i)) x.kind = c->getPredicate();
                    if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) for (int m : sv->getShuffleMask()) x.bbs.push_back(m);
                }
                d->ins.push_back(std::move(x));
            }
            d->blks.push_back(blk);
        }
    } catch (Unsupported& u) { d->bad = true; d->badmsg = u.what(); }
    d->nregs = n;
    flush_init();
    return d;
}

// ------------------------------------------------------------------ helpers on values
static inline u64 mask(u64 v, unsigned b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
static inline i64 sext(u64 v, unsigned b) { return b >= 64 ? (i64)v : (i64)(v << (64-b)) >> (64-b); }
static z3::expr bv_of(const V& v, unsigned w) {
    if (!v.s) return Z->bv_val((uint64_t)mask(v.c, w), w);
    if (v.s->k == Sym::BV) { if (v.s->w == w) return *v.s->e; if (v.s->w > w) return v.s->e->extract(w-1,0); return z3::zext(*v.s->e, w - v.s->w); }
    if (v.s->k == Sym::BOOL) return z3::ite(bool_expr(v.s), Z->bv_val(1, w), Z->bv_val(0, w));
    throw Unsupported("real used as bit-vector");
}
static z3::expr b_of(const V& v) {
    if (!v.s) return Z->bool_val(v.c & 1);
    if (v.s->k == Sym::BV) return v.s->e->extract(0,0) == Z->bv_val(1,1);
    return bool_expr(v.s);
}
void dump_pc();
static RF rf_of(const V& v, SK k) {
    if (v.s) { if (v.s->k != Sym::REAL) throw Unsupported("integer bits used as real"); return v.s->rf; }
    double d = k == S_FLT ? (double)bits2f(v.c) : bits2d(v.c);
    if (!std::isfinite(d)) { if (getenv("VP_CONC")) dump_pc(); throw Unsupported("non-finite constant in symbolic arithmetic"); };
    return rf_double(d);
}
static bool eigen_skip_zero();
static std::string where();
static bool decide_v(const V& v) {
    if (!v.s) return v.c & 1;
    if (v.s->k == Sym::BOOL) {
        if (v.s->cmp && (v.s->cmp->rel == R_EQ || v.s->cmp->rel == R_NE) && eigen_skip_zero()) return v.s->cmp->rel == R_NE;
        static bool tr = getenv("VP_TRACE"); long f0 = SH->forks; bool r = decide(v.s);
        if (tr && SH->forks != f0) std::cerr << "fork " << getpid() << " " << where() << "\n";
        return r;
    }
    return decide_expr(b_of(v));
}
static u64 conc(const V& v, unsigned w) {
    if (!v.s) return v.c;
    if (v.s->k == Sym::BOOL) return decide(v.s);
    if (v.s->k == Sym::BV) return concretize(*v.s->e, v.s->w);
    throw Unsupported("real used as integer");
}
// orient a rational function comparison: returns polynomial with the sign of r
static Poly sign_poly(const RF& r) {
    Poly n = r.num;
    for (auto& d : r.den) if (d.second % 2) { if (sign_of(d.first) < 0) n = neg(n); }
    return n;
}
static V fcmp_rf(unsigned pred, const RF& a, const RF& b) {
    switch (pred) {
    case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: return V(u64(0));
    case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return V(u64(1));
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return cmp_v(rf_sub(a,b).num, R_EQ);
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return cmp_v(rf_sub(a,b).num, R_NE);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return cmp_v(sign_poly(rf_sub(a,b)), R_GT);
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return cmp_v(sign_poly(rf_sub(a,b)), R_GE);
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return cmp_v(sign_poly(rf_sub(b,a)), R_GT);
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return cmp_v(sign_poly(rf_sub(b,a)), R_GE);
    }
    throw Unsupported("fcmp");
}
static RF f_abs(const RF& a) { if (a.is_const()) return a.num.cst() < 0 ? rf_neg(a) : a; return sign_of(sign_poly(a)) < 0 ? rf_neg(a) : a; }
static RF f_sqrt(const RF& a) {
    if (a.num.zero()) return a;
    // signs of denominator factors
    bool flip = false;
    Poly N = a.num;
    for (auto& d : a.den) {
        int s = sign_of(d.first);
        if (d.second % 2) N = mul(N, d.first);
        unsigned half = (d.second + 1)/2;
        if (s < 0 && half % 2) flip = !flip;
    }
    mpq_class c; Poly P = primitive(N, c); Poly q;
    RF r;
    if (c > 0 && !P.is_const() && poly_sqrt(P, q)) {
        RF rc = rf_sqrt(rf_const(c));
        RF aq = f_abs(rf_poly(q));
        r = rf_mul(rc, aq);
        for (auto& d : a.den) { RF dd; dd.num = Poly::constant(1); dd.den.push_back({d.first, (d.second+1)/2}); r = rf_mul(r, dd); }
    } else r = rf_sqrt(a);
    return flip ? rf_neg(r) : r;
}
static V fbin(unsigned opc, const V& a, const V& b, SK k) {
    if (!a.s && !b.s) {
        if (k == S_DBL) { double x = bits2d(a.c), y = bits2d(b.c), r;
            switch (opc) { case Instruction::FAdd: r = x+y; break; case Instruction::FSub: r = x-y; break; case Instruction::FMul: r = x*y; break; case Instruction::FDiv: r = x/y; break; default: r = std::fmod(x,y); }
            return V(d2bits(r)); }
        if (k == S_FLT) { float x = bits2f(a.c), y = bits2f(b.c), r;
            switch (opc) { case Instruction::FAdd: r = x+y; break; case Instruction::FSub: r = x-y; break; case Instruction::FMul: r = x*y; break; case Instruction::FDiv: r = x/y; break; default: r = std::fmod(x,y); }
            return V(f2bits(r)); }
        throw Unsupported("long double");
    }
    // cheap identities avoid dragging constants through the normal form
    auto isz = [&](const V& v){ return !v.s && (k == S_DBL ? bits2d(v.c) == 0 : bits2f(v.c) == 0); };
    auto iso = [&](const V& v){ return !v.s && (k == S_DBL ? bits2d(v.c) == 1 : bits2f(v.c) == 1); };
    switch (opc) {
    case Instruction::FAdd: if (isz(a)) return b; if (isz(b)) return a; return real_v(rf_add(rf_of(a,k), rf_of(b,k)));
    case Instruction::FSub: if (isz(b)) return a; return real_v(rf_sub(rf_of(a,k), rf_of(b,k)));
    case Instruction::FMul: if (isz(a)) return a; if (isz(b)) return b; if (iso(a)) return b; if (iso(b)) return a; return real_v(rf_mul(rf_of(a,k), rf_of(b,k)));
    case Instruction::FDiv: {
        if (iso(b)) return a;
        RF rb = rf_of(b,k);
        if (rb.num.zero()) { SH->zero_div++; throw PathEnd{"done","division by zero constant"}; }
        return real_v(rf_div(rf_of(a,k), rb)); }
    }
    throw Unsupported("frem on symbolic real");
}
static V ibin(unsigned opc, const V& a, const V& b, unsigned w, Instruction* I) {
    if (!a.s && !b.s) {
        u64 x = mask(a.c,w), y = mask(b.c,w), r = 0;
        switch (opc) {
        case Instruction::Add: r = x+y; break; case Instruction::Sub: r = x-y; break; case Instruction::Mul: r = x*y; break;
        case Instruction::And: r = x&y; break; case Instruction::Or: r = x|y; break; case Instruction::Xor: r = x^y; break;
        case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
        case Instruction::AShr: r = y >= w ? (sext(x,w) < 0 ? ~0ull : 0) : (u64)(sext(x,w) >> y); break;
        case Instruction::UDiv: if (!y) throw MemErr{"integer division by zero"}; r = x/y; break;
        case Instruction::URem: if (!y) throw MemErr{"integer division by zero"}; r = x%y; break;
        case Instruction::SDiv: if (!y) throw MemErr{"integer division by zero"}; if (sext(y,w) == -1) r = 0-x; else r = sext(x,w)/sext(y,w); break;
        case Instruction::SRem: if (!y) throw MemErr{"integer division by zero"}; if (sext(y,w) == -1) r = 0; else r = sext(x,w)%sext(y,w); break;
        default: throw Unsupported("binop");
        }
        return V(mask(r,w));
    }
    if ((a.s && a.s->k == Sym::REAL) || (b.s && b.s->k == Sym::REAL)) {
        const V& r = a.s && a.s->k == Sym::REAL ? a : b; const V& o = &r == &a ? b : a;
        if (!o.s && w == 64) {
            if (opc == Instruction::And && o.c == 0x7fffffffffffffffull) return real_v(f_abs(r.s->rf));
            if (opc == Instruction::Xor && o.c == 0x8000000000000000ull) return real_v(rf_neg(r.s->rf));
        }
        throw Unsupported("integer operation on a symbolic real");
    }
    bool ab = (a.s && a.s->k == Sym::BOOL) || (b.s && b.s->k == Sym::BOOL);
    if (w == 1 && ab) {
        // keep polynomial information for simple cases
        if (opc == Instruction::Xor && (!a.s || !b.s)) {
            const V& s = a.s ? a : b; u64 c = a.s ? b.c : a.c;
            if (!(c & 1)) return s;
            if (s.s->cmp) { auto& cm = *s.s->cmp; switch (cm.rel) { case R_EQ: return cmp_v(cm.p, R_NE); case R_NE: return cmp_v(cm.p, R_EQ); case R_GT: return cmp_v(neg(cm.p), R_GE); case R_GE: return cmp_v(neg(cm.p), R_GT); } }
        }
        z3::expr x = b_of(a), y = b_of(b);
        switch (opc) {
        case Instruction::And: case Instruction::Mul: return bool_v(x && y);
        case Instruction::Or: return bool_v(x || y);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return bool_v(x != y);
        }
        throw Unsupported("bool op");
    }
    z3::expr x = bv_of(a,w), y = bv_of(b,w);
    if (opc == Instruction::SDiv || opc == Instruction::SRem) {
        if (b.s) { V nz = bool_v(y != Z->bv_val(0,w)); if (!decide_v(nz)) throw MemErr{"integer division by zero"}; }
        else if (!b.c) throw MemErr{"integer division by zero"};
    }
    // operands of known small range: same operation on fewer bits
    if (opc == Instruction::Add || opc == Instruction::Sub || opc == Instruction::Mul || opc == Instruction::SDiv || opc == Instruction::SRem) {
        unsigned kx = bv_bits(x), ky = bv_bits(y);
        unsigned k = opc == Instruction::Mul ? kx + ky : std::max(kx, ky) + 1;
        if (k < w) {
            z3::expr p = x.extract(k-1, 0).simplify(), q = y.extract(k-1, 0).simplify();
            z3::expr r = opc == Instruction::Add ? p+q : opc == Instruction::Sub ? p-q : opc == Instruction::Mul ? p*q : opc == Instruction::SDiv ? p/q : z3::srem(p,q);
            return bv_v(z3::sext(r, w-k));
        }
    }
    switch (opc) {
    case Instruction::Add: return bv_v(x+y); case Instruction::Sub: return bv_v(x-y); case Instruction::Mul: return bv_v(x*y);
    case Instruction::And: return bv_v(x&y); case Instruction::Or: return bv_v(x|y); case Instruction::Xor: return bv_v(x^y);
    case Instruction::Shl: return bv_v(z3::shl(x,y)); case Instruction::LShr: return bv_v(z3::lshr(x,y)); case Instruction::AShr: return bv_v(z3::ashr(x,y));
    default: {
        if (b.s) { V nz = bool_v(y != Z->bv_val(0,w)); if (!decide_v(nz)) throw MemErr{"integer division by zero"}; }
        else if (!b.c) throw MemErr{"integer division by zero"};
        switch (opc) { case Instruction::UDiv: return bv_v(z3::udiv(x,y)); case Instruction::URem: return bv_v(z3::urem(x,y)); case Instruction::SDiv: return bv_v(x/y); case Instruction::SRem: return bv_v(z3::srem(x,y)); }
    } }
    throw Unsupported("binop");
}
static V icmp(unsigned p, const V& a, const V& b, unsigned w) {
    if (!a.s && !b.s) {
        u64 x = mask(a.c,w), y = mask(b.c,w); i64 sx = sext(x,w), sy = sext(y,w);
        switch (p) { case CmpInst::ICMP_EQ: return V(u64(x==y)); case CmpInst::ICMP_NE: return V(u64(x!=y)); case CmpInst::ICMP_UGT: return V(u64(x>y)); case CmpInst::ICMP_UGE: return V(u64(x>=y)); case CmpInst::ICMP_ULT: return V(u64(x<y)); case CmpInst::ICMP_ULE: return V(u64(x<=y));
            case CmpInst::ICMP_SGT: return V(u64(sx>sy)); case CmpInst::ICMP_SGE: return V(u64(sx>=sy)); case CmpInst::ICMP_SLT: return V(u64(sx<sy)); case CmpInst::ICMP_SLE: return V(u64(sx<=sy)); }
    }
    if ((a.s && a.s->k == Sym::REAL)) {
        if (!b.s && p == CmpInst::ICMP_SLT && b.c == 0) return cmp_v(neg(sign_poly(a.s->rf)), R_GT);
        if (!b.s && p == CmpInst::ICMP_SGT && b.c == ~0ull) return cmp_v(sign_poly(a.s->rf), R_GE);
        throw Unsupported("integer comparison of a symbolic real");
    }
    if (w == 1) { z3::expr x = b_of(a), y = b_of(b); if (p == CmpInst::ICMP_EQ) return bool_v(x == y); if (p == CmpInst::ICMP_NE) return bool_v(x != y);
        if (p == CmpInst::ICMP_ULT) return bool_v(!x && y); if (p == CmpInst::ICMP_UGT) return bool_v(x && !y); if (p == CmpInst::ICMP_ULE) return bool_v(!x || y); if (p == CmpInst::ICMP_UGE) return bool_v(x || !y); }
    z3::expr x = bv_of(a,w), y = bv_of(b,w);
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE || CmpInst::isSigned((CmpInst::Predicate)p)) {
        unsigned k = std::max(bv_bits(x), bv_bits(y));
        if (k < w) { x = x.extract(k-1, 0).simplify(); y = y.extract(k-1, 0).simplify(); }
    }
    switch (p) { case CmpInst::ICMP_EQ: return bool_v(x==y); case CmpInst::ICMP_NE: return bool_v(x!=y); case CmpInst::ICMP_UGT: return bool_v(z3::ugt(x,y)); case CmpInst::ICMP_UGE: return bool_v(z3::uge(x,y)); case CmpInst::ICMP_ULT: return bool_v(z3::ult(x,y)); case CmpInst::ICMP_ULE: return bool_v(z3::ule(x,y));
        case CmpInst::ICMP_SGT: return bool_v(x>y); case CmpInst::ICMP_SGE: return bool_v(x>=y); case CmpInst::ICMP_SLT: return bool_v(x<y); case CmpInst::ICMP_SLE: return bool_v(x<=y); }
    throw Unsupported("icmp");
}
static V fcmp(unsigned p, const V& a, const V& b, SK k) {
    if (!a.s && !b.s) {
        double x = k == S_FLT ? bits2f(a.c) : bits2d(a.c), y = k == S_FLT ? bits2f(b.c) : bits2d(b.c);
        if (k == S_FP80) throw Unsupported("long double");
        bool un = x != x || y != y, r;
        switch (p) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_OEQ: r = x==y; break; case CmpInst::FCMP_UEQ: r = un||x==y; break; case CmpInst::FCMP_ONE: r = !un&&x!=y; break; case CmpInst::FCMP_UNE: r = un||x!=y; break;
            case CmpInst::FCMP_OGT: r = x>y; break; case CmpInst::FCMP_UGT: r = un||x>y; break; case CmpInst::FCMP_OGE: r = x>=y; break; case CmpInst::FCMP_UGE: r = un||x>=y; break;
            case CmpInst::FCMP_OLT: r = x<y; break; case CmpInst::FCMP_ULT: r = un||x<y; break; case CmpInst::FCMP_OLE: r = x<=y; break; default: r = un||x<=y; }
        return V(u64(r));
    }
    // comparison against infinity / NaN constants
    for (int side = 0; side < 2; side++) { const V& c = side ? b : a; if (!c.s) { double d = k == S_FLT ? bits2f(c.c) : bits2d(c.c); if (!std::isfinite(d)) { V z(k == S_FLT ? f2bits(0) : d2bits(0)); return side ? fcmp(p, z, c, k) : fcmp(p, c, z, k); } } }
    return fcmp_rf(p, rf_of(a,k), rf_of(b,k));
}

// ------------------------------------------------------------------ exceptions in interpreted code
struct IExc { u64 obj; u64 tinfo; std::exception_ptr nat; };
struct ExcRec { u64 obj, tinfo; u64 dtor; int refs; std::exception_ptr nat; };
static std::map<u64, ExcRec> excs; static std::vector<u64> caught;
static bool type_matches(u64 thrown, u64 catcher, u64& obj) {
    if (catcher == 0) return true;
    if (thrown == catcher) return true;
    const std::type_info* t = (const std::type_info*)thrown; const std::type_info* c = (const std::type_info*)catcher;
    void* o = (void*)obj;
    if (c->__do_catch(t, &o, 1)) { obj = (u64)o; return true; }
    return false;
}

// ------------------------------------------------------------------ interpreter
static V* regstack; static size_t regtop = 0, regmax = 1 << 24;
static std::vector<Function*> callstack;
static int depth = 0;
static void call_function(Function* f, const std::vector<V>& args, std::vector<V>& ret);
static void call_external(const std::string& name, u64 addr, CallBase* cb, std::vector<V>& args, std::vector<V>& ret, TI* rt);
// Eigen's triangular solves skip a multiple of x when x == 0; skipping and not skipping give the same result,
// so the test is not a decision of the code under test and the general branch is taken for every value.
static bool eigen_skip_zero() {
    auto n = callstack.back()->getName();
    return n.contains("triangular_solve") || n.contains("triangular_solver");
}
static std::string where() {
    std::string s; int n = 0;
    for (int i = callstack.size()-1; i >= 0 && n < 7; i--, n++) { std::string d = llvm::demangle(callstack[i]->getName().str()); if (d.size() > 110) d = d.substr(0,110) + "..."; s += (n ? " < " : "") + d; }
    return s;
}
static V sel(const V& c, const V& a, const V& b, const Scal& s);
static void intrinsic(DI& x, std::vector<V>& a, V* R);

static void exec(DF* d, V* R, std::vector<V>& ret) {
    int bb = 0, prev = -1; u64 stk0 = stk_top;
    auto get = [&](int o) -> const V& { return o >= 0 ? R[o] : d->consts[~o]; };
    IExc cur{0,0,nullptr};
    std::vector<V> args;
    while (true) {
        DBlk& B = d->blks[bb];
        int pc_ = B.first;
        if (B.nphi) {
            std::vector<V> tmp;
            for (int k = 0; k < B.nphi; k++) { DI& x = d->ins[pc_+k]; int o = 0; bool f = false; for (auto& p : x.phi) if (p.first == prev) { o = p.second; f = true; break; } if (!f) throw Unsupported("phi"); for (size_t q = 0; q < x.t->s.size(); q++) tmp.push_back(o >= 0 ? R[o+q] : d->consts[(~o)+q]); }
            size_t z = 0;
            for (int k = 0; k < B.nphi; k++) { DI& x = d->ins[pc_+k]; for (size_t q = 0; q < x.t->s.size(); q++) R[x.dst+q] = std::move(tmp[z++]); }
            pc_ += B.nphi;
        }
        while (true) {
            DI& x = d->ins[pc_++];
            if ((++g_steps & 0xFFFFF) == 0) { if (now() > g_deadline) { SH->deadline_hit++; throw PathEnd{"deadline",""}; } if (SH->stop) throw PathEnd{"stopped",""}; if (g_steps > g_maxsteps) throw PathEnd{"steps","step limit (possible non-termination)"}; }
            auto getn = [&](int o, size_t q) -> const V& { return o >= 0 ? R[o+q] : d->consts[(~o)+q]; };
            switch (x.opc) {
            case Instruction::Ret: {
                ret.clear();
                if (!x.ops.empty()) for (size_t q = 0; q < x.t0->s.size(); q++) ret.push_back(getn(x.ops[0], q));
                if (stk_top != stk0) { sh_clear(stk0, stk_top - stk0); memset(mshadow + ((stk0-ARENA)>>3), 0, (stk_top - stk0) >> 3); stk_top = stk0; }
                return; }
            case Instruction::Br: {
                int nb;
                if (x.ops.empty()) nb = x.bbs[0]; else { const V& c = get(x.ops[0]); nb = (c.s ? decide_v(c) : (c.c & 1)) ? x.bbs[0] : x.bbs[1]; }
                prev = bb; bb = nb; goto nextblock; }
            case Instruction::Switch: {
                const V& c = get(x.ops[0]); int nb = x.bbs[0];
                if (!c.s) { for (size_t k = 0; k < x.cases.size(); k++) if (x.cases[k] == c.c) { nb = x.bbs[k+1]; break; } }
                else { unsigned w = x.t0->s[0].bits; z3::expr e = bv_of(c,w); for (size_t k = 0; k < x.cases.size(); k++) if (decide_v(bool_v(e == Z->bv_val((uint64_t)x.cases[k], w)))) { nb = x.bbs[k+1]; break; } }
                prev = bb; bb = nb; goto nextblock; }
            case Instruction::Unreachable: throw MemErr{"reached unreachable code"};
            case Instruction::Alloca: {
                u64 n = x.cst * conc(get(x.ops[0]), 64); u64 al = std::max<u64>(16, x.cases[0]);
                stk_top = (stk_top + 16 + al - 1)/al*al; u64 a = stk_top; stk_top += ((n + 7) & ~7ull) + 16;
                stk_top = (stk_top + 15) & ~15ull;
                if (stk_top > stk_end) throw PathEnd{"steps","stack exhausted (possible non-termination)"};
                mark(a, n, true); memset((void*)a, 0xCD, n);
                R[x.dst] = V(a); break; }
            case Instruction::Load: {
                u64 a = conc(get(x.ops[0]), 64);
                for (size_t q = 0; q < x.t->s.size(); q++) { auto& s = x.t->s[q]; if (s.k == S_FP80) throw Unsupported("long double"); mem_check(a + s.off, s.bytes, "read"); V v = mem_load(a + s.off, s.bytes, s.k == S_DBL); if (!v.s && s.k == S_INT && s.bits < 64) v.c = mask(v.c, s.bits); R[x.dst+q] = std::move(v); }
                break; }
            case Instruction::Store: {
                u64 a = conc(get(x.ops[1]), 64);
                for (size_t q = 0; q < x.t0->s.size(); q++) { auto& s = x.t0->s[q]; if (s.k == S_FP80) throw Unsupported("long double"); mem_check(a + s.off, s.bytes, "write");
                    const V& v = getn(x.ops[0], q);
                    if (v.s && v.s->k == Sym::BOOL && s.bytes >= 1) { V b = bv_v(bv_of(v, 8*s.bytes)); mem_store(a + s.off, b, s.bytes); }
                    else mem_store(a + s.off, v, s.bytes); }
                break; }
            case Instruction::GetElementPtr: {
                const V& b = get(x.ops[0]); u64 a = conc(b,64) + x.cst;
                for (size_t k = 0; k < x.gep.size(); k++) { const V& v = get(x.gep[k].first); u64 i = v.s ? conc(v, x.cases[k]) : v.c; a += (u64)(sext(i, x.cases[k]) * x.gep[k].second); }
                R[x.dst] = V(a); break; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
                for (size_t q = 0; q < x.t->s.size(); q++) { R[x.dst+q] = fbin(x.opc, getn(x.ops[0],q), getn(x.ops[1],q), x.t->s[q].k); } break;
            case Instruction::FNeg: for (size_t q = 0; q < x.t->s.size(); q++) { const V& v = getn(x.ops[0],q); SK k = x.t->s[q].k; if (v.s) R[x.dst+q] = real_v(rf_neg(rf_of(v,k))); else R[x.dst+q] = k == S_FLT ? V(f2bits(-bits2f(v.c))) : V(d2bits(-bits2d(v.c))); } break;
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
                if (x.I->getType()->isIntegerTy(128)) {
                    const V &a0 = getn(x.ops[0],0), &a1 = getn(x.ops[0],1), &b0 = getn(x.ops[1],0), &b1 = getn(x.ops[1],1);
                    if (a0.s||a1.s||b0.s||b1.s) {
                        if (x.opc == Instruction::Or && !b0.s && !b1.s && b0.c == 0 && b1.c == 0) { R[x.dst] = a0; R[x.dst+1] = a1; break; }
                        if (x.opc == Instruction::Or && !a0.s && !a0.c) { if (!b1.s && !b1.c) { V l = b0, h = a1; R[x.dst] = l; R[x.dst+1] = h; break; } }
                        if (x.opc == Instruction::Or && !b0.s && !b0.c) { if (!a1.s && !a1.c) { V l = a0, h = b1; R[x.dst] = l; R[x.dst+1] = h; break; } }
                        if (x.opc == Instruction::LShr && !b0.s && b0.c == 64) { V h = a1; R[x.dst] = h; R[x.dst+1] = V(); break; }
                        if (x.opc == Instruction::Shl && !b0.s && b0.c == 64) { V l = a0; R[x.dst] = V(); R[x.dst+1] = l; break; }
                        throw Unsupported("symbolic 128-bit arithmetic");
                    }
                    unsigned __int128 A = ((unsigned __int128)a1.c << 64) | a0.c, Bq = ((unsigned __int128)b1.c << 64) | b0.c, r;
                    switch (x.opc) { case Instruction::Add: r = A+Bq; break; case Instruction::Sub: r = A-Bq; break; case Instruction::Mul: r = A*Bq; break; case Instruction::And: r = A&Bq; break; case Instruction::Or: r = A|Bq; break; case Instruction::Xor: r = A^Bq; break; case Instruction::Shl: r = A << (unsigned)Bq; break; case Instruction::LShr: r = A >> (unsigned)Bq; break; case Instruction::UDiv: r = A/Bq; break; case Instruction::URem: r = A%Bq; break; default: throw Unsupported("i128"); }
                    R[x.dst] = V((u64)r); R[x.dst+1] = V((u64)(r >> 64)); break;
                }
                for (size_t q = 0; q < x.t->s.size(); q++) { R[x.dst+q] = ibin(x.opc, getn(x.ops[0],q), getn(x.ops[1],q), x.t->s[q].bits, x.I); } break; }
            case Instruction::ICmp:
                if (x.I->getOperand(0)->getType()->isIntegerTy(128)) throw Unsupported("i128 compare");
                for (size_t q = 0; q < x.t->s.size(); q++) R[x.dst+q] = icmp(x.kind, getn(x.ops[0],q), getn(x.ops[1],q), x.t0->s[q].bits); break;
            case Instruction::FCmp: for (size_t q = 0; q < x.t->s.size(); q++) R[x.dst+q] = fcmp(x.kind, getn(x.ops[0],q), getn(x.ops[1],q), x.t0->s[q].k); break;
            case Instruction::Select: {
                bool vec = x.I->getOperand(0)->getType()->isVectorTy();
                if (!vec) {
                    const V& c = get(x.ops[0]);
                    if (!c.s) { int o = (c.c & 1) ? x.ops[1] : x.ops[2]; for (size_t q = 0; q < x.t->s.size(); q++) R[x.dst+q] = getn(o,q); }
                    else if (x.t->s.size() == 1) { V r = sel(c, getn(x.ops[1],0), getn(x.ops[2],0), x.t->s[0]); R[x.dst] = r; }
                    else { int o = decide_v(c) ? x.ops[1] : x.ops[2]; for (size_t q = 0; q < x.t->s.size(); q++) R[x.dst+q] = getn(o,q); }
                } else for (size_t q = 0; q < x.t->s.size(); q++) { V r = sel(getn(x.ops[0],q), getn(x.ops[1],q), getn(x.ops[2],q), x.t->s[q]); R[x.dst+q] = r; }
                break; }
            case Instruction::Trunc: for (size_t q = 0; q < x.t->s.size(); q++) {
                if (x.I->getOperand(0)->getType()->isIntegerTy(128)) { V v = getn(x.ops[0],0); if (v.s && v.s->k == Sym::REAL && x.t->s[0].bits == 64) { R[x.dst] = v; break; } if (v.s) R[x.dst] = bv_v(bv_of(v, 64).extract(x.t->s[0].bits-1,0)); else R[x.dst] = V(mask(v.c, x.t->s[0].bits)); break; }
                const V& v = getn(x.ops[0],q); unsigned w = x.t->s[q].bits;
                if (!v.s) R[x.dst+q] = V(mask(v.c,w));
                else if (w == 1) R[x.dst+q] = bool_v(b_of(v));
                else R[x.dst+q] = bv_v(bv_of(v, x.t0->s[q].bits).extract(w-1,0)); } break;
            case Instruction::ZExt: 
                if (x.I->getType()->isIntegerTy(128)) { V v = getn(x.ops[0],0); R[x.dst] = v; R[x.dst+1] = V(); break; }
                for (size_t q = 0; q < x.t->s.size(); q++) { const V& v = getn(x.ops[0],q); unsigned w = x.t->s[q].bits; if (!v.s) R[x.dst+q] = V(v.c); else R[x.dst+q] = bv_v(bv_of(v, w)); } break;
            case Instruction::SExt: 
                if (x.I->getType()->isIntegerTy(128)) { V v = getn(x.ops[0],0); if (v.s) throw Unsupported("sext i128"); i64 y = sext(v.c, x.t0->s[0].bits); R[x.dst] = V((u64)y); R[x.dst+1] = V(y < 0 ? ~0ull : 0ull); break; }
                for (size_t q = 0; q < x.t->s.size(); q++) { const V& v = getn(x.ops[0],q); unsigned w = x.t->s[q].bits, w0 = x.t0->s[q].bits; if (!v.s) R[x.dst+q] = V(mask((u64)sext(v.c, w0), w)); else R[x.dst+q] = bv_v(w > w0 ? z3::sext(bv_of(v,w0), w-w0) : bv_of(v,w0)); } break;
            case Instruction::FPTrunc: case Instruction::FPExt: for (size_t q = 0; q < x.t->s.size(); q++) { const V& v = getn(x.ops[0],q); SK a = x.t0->s[q].k, b = x.t->s[q].k; if (a == S_FP80 || b == S_FP80) throw Unsupported("long double"); if (v.s) R[x.dst+q] = v; else if (a == b) R[x.dst+q] = v; else R[x.dst+q] = b == S_FLT ? V(f2bits((float)bits2d(v.c))) : V(d2bits((double)bits2f(v.c))); } break;
            case Instruction::SIToFP: case Instruction::UIToFP: for (size_t q = 0; q < x.t->s.size(); q++) {
                const V& v0 = getn(x.ops[0],q); unsigned w = x.t0->s[q].bits; u64 c = v0.s ? conc(v0, w) : v0.c;
                double dd = x.opc == Instruction::SIToFP ? (double)sext(c,w) : (double)mask(c,w);
                if (x.t->s[q].k == S_FP80) throw Unsupported("long double");
                R[x.dst+q] = x.t->s[q].k == S_FLT ? V(f2bits(x.opc == Instruction::SIToFP ? (float)sext(c,w) : (float)mask(c,w))) : V(d2bits(dd)); } break;
            case Instruction::FPToSI: case Instruction::FPToUI: for (size_t q = 0; q < x.t->s.size(); q++) {
                const V& v = getn(x.ops[0],q); SK k = x.t0->s[q].k; double dd; if (k == S_FP80) throw Unsupported("long double");
                if (v.s) { RF r = rf_of(v,k); for (auto& f : r.den) if (f.second % 2 && sign_of(f.first) < 0) { /* flip below */ }
                    bool negv = sign_of(sign_poly(r)) < 0; RF a = negv ? rf_neg(r) : r; RF b = rf_poly(a.num); Poly n = a.num; RF c; c.num = n; c.den = a.den; 
                    for (auto& f : c.den) if (f.second % 2 && sign_of(f.first) < 0) { c.num = neg(c.num); f.first = neg(f.first); }
                    dd = concretize_floor(c); if (negv) dd = -dd; }
                else dd = k == S_FLT ? bits2f(v.c) : bits2d(v.c);
                R[x.dst+q] = V(mask(x.opc == Instruction::FPToSI ? (u64)(i64)dd : (u64)dd, x.t->s[q].bits)); } break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: { V v = get(x.ops[0]); if (v.s) v = V(conc(v,64)); v.c = mask(v.c, std::min<unsigned>(64, x.t->s[0].bits)); R[x.dst] = v; break; }
            case Instruction::BitCast: {
                if (x.t->s.size() == x.t0->s.size()) { for (size_t q = 0; q < x.t->s.size(); q++) { V v = getn(x.ops[0],q); R[x.dst+q] = v; } }
                else { std::vector<uint8_t> buf(x.t0->size+16,0); for (size_t q = 0; q < x.t0->s.size(); q++) { const V& v = getn(x.ops[0],q); if (v.s) throw Unsupported("bitcast"); memcpy(buf.data()+x.t0->s[q].off, &v.c, x.t0->s[q].bytes); } for (size_t q = 0; q < x.t->s.size(); q++) { u64 c = 0; memcpy(&c, buf.data()+x.t->s[q].off, x.t->s[q].bytes); R[x.dst+q] = V(c); } }
                break; }
            case Instruction::Freeze: for (size_t q = 0; q < x.t->s.size(); q++) { V v = getn(x.ops[0],q); R[x.dst+q] = v; } break;
            case Instruction::ExtractValue: for (size_t q = 0; q < x.t->s.size(); q++) { V v = getn(x.ops[0], x.cst + q); R[x.dst+q] = v; } break;
            case Instruction::InsertValue: { std::vector<V> tmp; for (size_t q = 0; q < x.t->s.size(); q++) tmp.push_back(getn(x.ops[0],q)); for (size_t q = 0; q < x.t0->s.size(); q++) tmp[x.cst+q] = getn(x.ops[1],q); for (size_t q = 0; q < tmp.size(); q++) R[x.dst+q] = tmp[q]; break; }
            case Instruction::ExtractElement: { u64 i = conc(get(x.ops[1]),64); V v = getn(x.ops[0], i); R[x.dst] = v; break; }
            case Instruction::InsertElement: { u64 i = conc(get(x.ops[2]),64); std::vector<V> tmp; for (size_t q = 0; q < x.t->s.size(); q++) tmp.push_back(getn(x.ops[0],q)); tmp[i] = get(x.ops[1]); for (size_t q = 0; q < tmp.size(); q++) R[x.dst+q] = tmp[q]; break; }
            case Instruction::ShuffleVector: { size_t n = x.t0->s.size(); std::vector<V> tmp; for (int m : x.bbs) tmp.push_back(m < 0 ? V() : (size_t)m < n ? getn(x.ops[0],m) : getn(x.ops[1],m-n)); for (size_t q = 0; q < tmp.size(); q++) R[x.dst+q] = tmp[q]; break; }
            case Instruction::LandingPad: {
                auto* lp = cast<LandingPadInst>(x.I);
                u64 obj = cur.obj; u64 selv = 0; bool found = false;
                for (unsigned k = 0; k < lp->getNumClauses() && !found; k++) {
                    if (lp->isCatch(k)) { u64 t = const_int(lp->getClause(k)); flush_init(); if (type_matches(cur.tinfo, t, obj)) { selv = t ? t : 1; found = true; } }
                    else { found = true; selv = (u64)-1; }
                }
                excs[cur.obj].obj = cur.obj;
                R[x.dst] = V(cur.obj); R[x.dst+1] = V(mask(selv, 32));
                break; }
            case Instruction::Resume: { IExc e = cur; u64 o = get(x.ops[0]).c; e.obj = o; auto it = excs.find(o); if (it != excs.end()) { e.tinfo = it->second.tinfo; e.nat = it->second.nat; } 
                if (stk_top != stk0) { sh_clear(stk0, stk_top - stk0); memset(mshadow + ((stk0-ARENA)>>3), 0, (stk_top - stk0) >> 3); stk_top = stk0; } throw e; }
            case Instruction::AtomicRMW: { auto* rw = cast<AtomicRMWInst>(x.I); u64 a = conc(get(x.ops[0]),64); auto& s = x.t->s[0]; mem_check(a,s.bytes,"write"); V old = mem_load(a,s.bytes,false); V nv; const V& b = get(x.ops[1]);
                switch (rw->getOperation()) { case AtomicRMWInst::Add: nv = ibin(Instruction::Add, old, b, s.bits, x.I); break; case AtomicRMWInst::Sub: nv = ibin(Instruction::Sub, old, b, s.bits, x.I); break; case AtomicRMWInst::Xchg: nv = b; break; case AtomicRMWInst::Or: nv = ibin(Instruction::Or, old, b, s.bits, x.I); break; case AtomicRMWInst::And: nv = ibin(Instruction::And, old, b, s.bits, x.I); break; default: throw Unsupported("atomicrmw"); }
                mem_store(a,nv,s.bytes); R[x.dst] = old; break; }
            case Instruction::AtomicCmpXchg: { u64 a = conc(get(x.ops[0]),64); unsigned by = x.t->s[0].bytes; V old = mem_load(a,by,false); bool eq = decide_v(icmp(CmpInst::ICMP_EQ, old, get(x.ops[1]), x.t->s[0].bits)); if (eq) mem_store(a, get(x.ops[2]), by); R[x.dst] = old; R[x.dst+1] = V(u64(eq)); break; }
            case Instruction::Fence: break;
            case Instruction::VAArg: throw Unsupported("va_arg");
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(x.I);
                args.clear();
                for (size_t k = 0; k < x.ops.size(); k++) { size_t n = ti(cb->getArgOperand(k)->getType())->s.size(); for (size_t q = 0; q < n; q++) args.push_back(getn(x.ops[k], q)); }
                std::vector<V> r;
                try {
                    if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) { StringRef as = StringRef(ia->getAsmString()).trim(); if ((as.empty() || as.starts_with("#")) && x.t->s.empty()) goto called; throw Unsupported("inline assembly"); }
                    Function* f = x.callee; 
                    if (!f) {
                        u64 a = conc(get((int)x.cst),64);
                        auto it = faddr.find(a);
                        if (it != faddr.end()) f = it->second;
                        else { auto e = ext_name.find(a); std::string nm = e != ext_name.end() ? e->second : std::string(); 
                            if (nm.empty()) { Dl_info di; if (a < 65536) throw MemErr{"call through null pointer"}; if (!in_arena(a) && dladdr((void*)a, &di)) nm = di.dli_sname ? di.dli_sname : "?"; else throw MemErr{"call through invalid pointer"}; }
                            call_external(nm, a, cb, args, r, x.t); }
                    }
                    if (f) {
                        if (f->isIntrinsic()) { intrinsic(x, args, R); goto called; }
                        if (f->isDeclaration() || f->getName().starts_with("vp_") || f->getName().starts_with("_ZN9__gnu_cxx12__to_xstring")) call_external(f->getName().str(), f->isDeclaration() ? func_addr(f) : 0, cb, args, r, x.t);
                        else call_function(f, args, r);
                    }
                    for (size_t q = 0; q < x.t->s.size() && q < r.size(); q++) R[x.dst+q] = r[q];
                } catch (IExc& e) {
                    if (x.opc != Instruction::Invoke) {
                        if (stk_top != stk0) { sh_clear(stk0, stk_top - stk0); memset(mshadow + ((stk0-ARENA)>>3), 0, (stk_top - stk0) >> 3); stk_top = stk0; }
                        throw;
                    }
                    cur = e; prev = bb; bb = x.bbs[1]; goto nextblock;
                }
            called:
                if (x.opc == Instruction::Invoke) { prev = bb; bb = x.bbs[0]; goto nextblock; }
                break; }
            default: throw Unsupported(std::string("instruction ") + x.I->getOpcodeName());
            }
        }
        nextblock:;
    }
}
static V sel(const V& c, const V& a, const V& b, const Scal& s) {
    if (!c.s) return (c.c & 1) ? a : b;
    if (!a.s && !b.s && a.c == b.c) return a;
    if (s.k == S_DBL || s.k == S_FLT || s.k == S_PTR || (a.s && a.s->k == Sym::REAL) || (b.s && b.s->k == Sym::REAL)) {
        if (a.s && a.s == b.s) return a;
        return decide_v(c) ? a : b;
    }
    if (s.bits == 1) return bool_v(z3::ite(b_of(c), b_of(a), b_of(b)));
    return bv_v(z3::ite(b_of(c), bv_of(a, s.bits), bv_of(b, s.bits)));
}
static void call_function(Function* f, const std::vector<V>& args, std::vector<V>& ret) {
    DF* d = decode(f);
    if (d->bad) throw Unsupported(d->badmsg + " in " + llvm::demangle(f->getName().str()));
    d->hits++;
    if (++depth > 12000) throw PathEnd{"steps","call depth limit (possible non-termination)"};
    if (regtop + d->nregs > regmax) throw PathEnd{"steps","register stack exhausted"};
    V* R = regstack + regtop; regtop += d->nregs;
    callstack.push_back(f);
    size_t k = 0; int slot = 0;
    for (auto& a : f->args()) {
        size_t n = ti(a.getType())->s.size(); int s0 = d->args[slot++];
        if (a.hasByValAttr()) {
            u64 sz = DL->getTypeAllocSize(a.getParamByValType());
            u64 cpy = heap_alloc(sz); mem_copy(cpy, args[k].c, sz); R[s0] = V(cpy); k++; continue;   // leaked copy, never freed
        }
        for (size_t q = 0; q < n; q++) R[s0+q] = args[k++];
    }
    struct Clean { V* R; int n; ~Clean() { for (int i = 0; i < n; i++) { R[i].rel(); R[i].c = 0; } regtop -= n; depth--; } };
    {
        Clean cl{R, d->nregs};
        try { exec(d, R, ret); } catch (IExc&) { callstack.pop_back(); throw; }
    }
    callstack.pop_back();
}

// ------------------------------------------------------------------ intrinsics, math and externals
static V mathfn(const std::string& fn, const std::vector<V>& a, SK k) {
    bool sym = false; for (auto& v : a) if (v.s) sym = true;
    auto out = [&](double d) { return k == S_FLT ? V(f2bits((float)d)) : V(d2bits(d)); };
    auto in = [&](int i) { return k == S_FLT ? (double)bits2f(a[i].c) : bits2d(a[i].c); };
    if (!sym) {
        if (fn == "sqrt") return out(std::sqrt(in(0))); if (fn == "fabs") return out(std::fabs(in(0)));
        if (fn == "sin") return out(std::sin(in(0))); if (fn == "cos") return out(std::cos(in(0))); if (fn == "tan") return out(std::tan(in(0)));
        if (fn == "exp") return out(std::exp(in(0))); if (fn == "log") return out(std::log(in(0))); if (fn == "log10") return out(std::log10(in(0))); if (fn == "log2") return out(std::log2(in(0))); if (fn == "exp2") return out(std::exp2(in(0)));
        if (fn == "pow") return out(std::pow(in(0), in(1))); if (fn == "floor") return out(std::floor(in(0))); if (fn == "ceil") return out(std::ceil(in(0))); if (fn == "trunc") return out(std::trunc(in(0))); if (fn == "round") return out(std::round(in(0))); if (fn == "rint" || fn == "nearbyint") return out(std::rint(in(0)));
        if (fn == "fmin") return out(std::fmin(in(0),in(1))); if (fn == "fmax") return out(std::fmax(in(0),in(1))); if (fn == "copysign") return out(std::copysign(in(0),in(1)));
        if (fn == "fma") return out(std::fma(in(0),in(1),in(2))); if (fn == "hypot") return out(std::hypot(in(0),in(1))); if (fn == "atan2") return out(std::atan2(in(0),in(1))); if (fn == "atan") return out(std::atan(in(0))); if (fn == "acos") return out(std::acos(in(0))); if (fn == "asin") return out(std::asin(in(0)));
        if (fn == "sinh") return out(std::sinh(in(0))); if (fn == "cosh") return out(std::cosh(in(0))); if (fn == "tanh") return out(std::tanh(in(0))); if (fn == "cbrt") return out(std::cbrt(in(0))); if (fn == "fmod") return out(std::fmod(in(0),in(1)));
        if (fn == "expm1") return out(std::expm1(in(0))); if (fn == "log1p") return out(std::log1p(in(0))); if (fn == "tgamma") return out(std::tgamma(in(0))); if (fn == "lgamma") return out(std::lgamma(in(0))); if (fn == "erf") return out(std::erf(in(0)));
        throw Unsupported("math function " + fn);
    }
    auto R = [&](int i) { return rf_of(a[i], k); };
    if (fn == "sqrt") return real_v(f_sqrt(R(0)));
    if (fn == "fabs") return real_v(f_abs(R(0)));
    if (fn == "fma") return real_v(rf_add(rf_mul(R(0),R(1)),R(2)));
    if (fn == "fmin" || fn == "fmax") { V c = fcmp_rf(CmpInst::FCMP_OLT, R(0), R(1)); bool l = decide_v(c); return (l == (fn == "fmin")) ? a[0] : a[1]; }
    if (fn == "hypot") return real_v(f_sqrt(rf_add(rf_mul(R(0),R(0)), rf_mul(R(1),R(1)))));
    if (fn == "copysign") { RF m = f_abs(R(0)); bool n = a[1].s ? sign_of(sign_poly(R(1))) < 0 : std::signbit(in(1)); return real_v(n ? rf_neg(m) : m); }
    if (fn == "pow" && !a[1].s) {
        double e = in(1);
        if (e == std::floor(e) && std::fabs(e) <= 64) { RF r = rf_const(1), b = R(0); for (int i = 0; i < (int)std::fabs(e); i++) r = rf_mul(r, b); if (e < 0) r = rf_div(rf_const(1), r); return real_v(r); }
        if (e == 0.5) return real_v(f_sqrt(R(0)));
        if (e == 1.5) return real_v(rf_mul(R(0), f_sqrt(R(0))));
        if (e == -0.5) return real_v(rf_div(rf_const(1), f_sqrt(R(0))));
    }
    if (fn == "floor" || fn == "ceil" || fn == "trunc" || fn == "round") {
        RF r = R(0); if (fn == "ceil") r = rf_neg(r); bool ng = false; if (fn == "trunc" || fn == "round") { ng = sign_of(sign_poly(r)) < 0; if (ng) r = rf_neg(r); if (fn == "round") r = rf_add(r, rf_const(mpq_class(1,2))); }
        for (auto& f : r.den) if (f.second % 2 && sign_of(f.first) < 0) { r.num = neg(r.num); f.first = neg(f.first); }
        double dd = concretize_floor(r); if (fn == "ceil") dd = -dd; if (ng) dd = -dd; return out(dd);
    }
    if (fn == "log10" || fn == "log2") return real_v(rf_mul(rf_opaque("log", {R(0)}), rf_const(mpq_class(fn == "log2" ? M_LOG2E : M_LOG10E))));
    static const std::set<std::string> opq = {"sin","cos","tan","exp","log","log10","pow","atan2","atan","acos","asin","sinh","cosh","tanh","cbrt"};
    if (opq.count(fn)) { std::vector<RF> as; for (size_t i = 0; i < a.size(); i++) as.push_back(R(i)); return real_v(rf_opaque(fn, as)); }
    throw Unsupported("math function " + fn + " on symbolic argument");
}
static void intrinsic(DI& x, std::vector<V>& a, V* R) {
    auto* ii = cast<CallBase>(x.I); auto id = x.callee->getIntrinsicID();
    auto elem = [&](const std::string& fn, int nargs) { size_t n = x.t->s.size(); for (size_t q = 0; q < n; q++) { std::vector<V> as; for (int k = 0; k < nargs; k++) as.push_back(a[k*n+q]); V r = mathfn(fn, as, x.t->s[q].k); R[x.dst+q] = r; } };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: mem_copy(conc(a[0],64), conc(a[1],64), conc(a[2],64)); return;
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = conc(a[2],64); if (!n) return; mem_check(a[0].c, n, "write"); sh_clear(a[0].c, n); memset((void*)a[0].c, (int)conc(a[1],8), n); return; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation: case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::sideeffect: 
        if (x.dst >= 0) R[x.dst] = V(); return;
    case Intrinsic::vastart: throw Unsupported("va_start");
    case Intrinsic::stacksave: R[x.dst] = V(); return;
    case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation: { V v = a[0]; R[x.dst] = v; return; }
    case Intrinsic::is_constant: R[x.dst] = V(u64(0)); return;
    case Intrinsic::objectsize: R[x.dst] = V(~0ull); return;
    case Intrinsic::eh_typeid_for: { u64 t = a[0].c; R[x.dst] = V(mask(t ? t : 1, 32)); return; }
    case Intrinsic::trap: case Intrinsic::debugtrap: throw MemErr{"trap"};
    case Intrinsic::sqrt: elem("sqrt",1); return; case Intrinsic::fabs: elem("fabs",1); return; case Intrinsic::sin: elem("sin",1); return; case Intrinsic::cos: elem("cos",1); return;
    case Intrinsic::exp: elem("exp",1); return; case Intrinsic::exp2: elem("exp2",1); return; case Intrinsic::log: elem("log",1); return; case Intrinsic::log10: elem("log10",1); return; case Intrinsic::log2: elem("log2",1); return; case Intrinsic::pow: elem("pow",2); return;
    case Intrinsic::floor: elem("floor",1); return; case Intrinsic::ceil: elem("ceil",1); return; case Intrinsic::trunc: elem("trunc",1); return; case Intrinsic::round: elem("round",1); return; case Intrinsic::rint: elem("rint",1); return; case Intrinsic::nearbyint: elem("nearbyint",1); return;
    case Intrinsic::minnum: case Intrinsic::minimum: elem("fmin",2); return; case Intrinsic::maxnum: case Intrinsic::maximum: elem("fmax",2); return; case Intrinsic::copysign: elem("copysign",2); return; case Intrinsic::fma: elem("fma",3); return;
    case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: {
        SK k = ii->getArgOperand(0)->getType()->isFloatTy() ? S_FLT : S_DBL; bool r = id == Intrinsic::lround || id == Intrinsic::llround;
        V v = mathfn(r ? "round" : "rint", {a[0]}, k); double d = k == S_FLT ? (double)bits2f(v.c) : bits2d(v.c); R[x.dst] = V(mask((u64)(i64)d, x.t->s[0].bits)); return; }
    case Intrinsic::fmuladd: { size_t n = x.t->s.size(); for (size_t q = 0; q < n; q++) { V m = fbin(Instruction::FMul, a[q], a[n+q], x.t->s[q].k); V r = fbin(Instruction::FAdd, m, a[2*n+q], x.t->s[q].k); R[x.dst+q] = r; } return; }
    case Intrinsic::powi: { double e = (double)(int)sext(conc(a[1],32),32); std::vector<V> as{a[0], x.t->s[0].k == S_FLT ? V(f2bits(e)) : V(d2bits(e))}; R[x.dst] = mathfn("pow", as, x.t->s[0].k); return; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { size_t n = x.t->s.size(); for (size_t q = 0; q < n; q++) { unsigned p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; V c = icmp(p, a[q], a[n+q], x.t->s[q].bits); V r = sel(c, a[q], a[n+q], x.t->s[q]); R[x.dst+q] = r; } return; }
    case Intrinsic::abs: { size_t n = x.t->s.size(); for (size_t q = 0; q < n; q++) { unsigned w = x.t->s[q].bits; V c = icmp(CmpInst::ICMP_SLT, a[q], V(u64(0)), w); V m = ibin(Instruction::Sub, V(u64(0)), a[q], w, x.I); V r = sel(c, m, a[q], x.t->s[q]); R[x.dst+q] = r; } return; }
    case Intrinsic::ctpop: { if (a[0].s) { u64 c = conc(a[0], x.t->s[0].bits); R[x.dst] = V(u64(__builtin_popcountll(c))); } else R[x.dst] = V(u64(__builtin_popcountll(a[0].c))); return; }
    case Intrinsic::ctlz: { unsigned w = x.t->s[0].bits; u64 c = mask(conc(a[0],w),w); R[x.dst] = V(u64(c ? __builtin_clzll(c) - (64-w) : w)); return; }
    case Intrinsic::cttz: { unsigned w = x.t->s[0].bits; u64 c = mask(conc(a[0],w),w); R[x.dst] = V(u64(c ? __builtin_ctzll(c) : w)); return; }
    case Intrinsic::bswap: { unsigned w = x.t->s[0].bits; u64 c = conc(a[0],w); R[x.dst] = V(__builtin_bswap64(c) >> (64-w)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w = x.t->s[0].bits; u64 hi = conc(a[0],w), lo = conc(a[1],w), s = conc(a[2],w) % w; if (id == Intrinsic::fshl) R[x.dst] = V(mask(s ? (hi << s) | (lo >> (w-s)) : hi, w)); else R[x.dst] = V(mask(s ? (hi << (w-s)) | (lo >> s) : lo, w)); return; }
    case Intrinsic::usub_sat: { unsigned w = x.t->s[0].bits; V c = icmp(CmpInst::ICMP_UGT, a[0], a[1], w); V m = ibin(Instruction::Sub, a[0], a[1], w, x.I); V r = sel(c, m, V(u64(0)), x.t->s[0]); R[x.dst] = r; return; }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        unsigned w = x.t->s[0].bits; unsigned op = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? Instruction::Mul : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
        bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
        if (!a[0].s && !a[1].s) {
            __int128 p = sg ? (__int128)sext(a[0].c,w) : (__int128)mask(a[0].c,w), q = sg ? (__int128)sext(a[1].c,w) : (__int128)mask(a[1].c,w), r = op == Instruction::Mul ? p*q : op == Instruction::Add ? p+q : p-q;
            u64 lo = mask((u64)r, w); bool ov = sg ? r != (__int128)sext(lo,w) : r != (__int128)lo;
            R[x.dst] = V(lo); R[x.dst+1] = V(u64(ov)); return; }
        z3::expr p = bv_of(a[0],w), q = bv_of(a[1],w); z3::expr ov(*Z);
        unsigned e = op == Instruction::Mul ? w : 1;
        z3::expr P = sg ? z3::sext(p,e) : z3::zext(p,e), Q = sg ? z3::sext(q,e) : z3::zext(q,e), RR = op == Instruction::Mul ? P*Q : op == Instruction::Add ? P+Q : P-Q;
        z3::expr lo = RR.extract(w-1,0); ov = RR != (sg ? z3::sext(lo,e) : z3::zext(lo,e));
        V l = bv_v(lo), o = bool_v(ov); R[x.dst] = l; R[x.dst+1] = o; return; }
    case Intrinsic::vector_reduce_fadd: { V r = a[0]; size_t n = a.size()-1; SK k = x.t->s[0].k; for (size_t q = 0; q < n; q++) r = fbin(Instruction::FAdd, r, a[1+q], k); R[x.dst] = r; return; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: { unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : Instruction::And; V r = a[0]; for (size_t q = 1; q < a.size(); q++) r = ibin(op, r, a[q], x.t->s[0].bits, x.I); R[x.dst] = r; return; }
    case Intrinsic::is_fpclass: { u64 m = a[1].c; if (a[0].s) { R[x.dst] = V(u64(m & 0x1F8 ? 1 : 0)); return; } double d = bits2d(a[0].c); bool r = ((m & 3) && d != d) || ((m & 0x4) && d == -INFINITY) || ((m & 0x200) && d == INFINITY) || ((m & 0x1F8) && std::isfinite(d)); R[x.dst] = V(u64(r)); return; }
    default: throw Unsupported("intrinsic " + x.callee->getName().str());
    }
}
static std::string cstr(const V& v) { return std::string((const char*)v.c); }
static std::vector<std::pair<double, V>> magic;            // strtod bindings
static u64 alloc_exception(u64 n) { u64 a = heap_alloc(n + 256); return a + 128; }
static void throw_native(std::exception_ptr ep, u64 tinfo, u64 obj) {
    ExcRec r{obj, tinfo, 0, 0, ep}; excs[obj] = r;
    throw IExc{obj, tinfo, ep};
}
struct Ret2 { u64 a, b; }; struct RetD2 { double a, b; }; struct RetID { u64 a; double b; }; struct RetDI { double a; u64 b; };
static void native_call(u64 addr, CallBase* cb, std::vector<V>& args, std::vector<V>& ret, TI* rt, const std::string& name) {
    u64 I[16] = {0}; double D[8] = {0}; int ni = 0, nd = 0;
    FunctionType* ft = cb->getFunctionType();
    size_t k = 0;
    for (unsigned i = 0; i < cb->arg_size(); i++) {
        TI* t = ti(cb->getArgOperand(i)->getType());
        if (cb->paramHasAttr(i, Attribute::ByVal)) throw Unsupported("byval argument to native " + name);
        for (auto& s : t->s) {
            V& v = args[k++];
            if (v.s && name.rfind("_ZSt", 0) == 0 && name.find("__throw_") != std::string::npos) { v = V(u64(0)); }
            if (v.s) throw Unsupported("symbolic argument to native function " + llvm::demangle(name));
            if (s.k == S_DBL || s.k == S_FLT) { if (nd >= 8) throw Unsupported("too many fp args"); u64 c = v.c; memcpy(&D[nd++], &c, 8); }
            else { if (ni >= 14) throw Unsupported("too many args"); I[ni++] = v.c; }
        }
    }
    if (ft->isVarArg() && name.find("__throw_") == std::string::npos) throw Unsupported("variadic native " + name);
    if (!addr || in_arena(addr)) throw Unsupported("unresolved external " + llvm::demangle(name));
    typedef u64 u; 
#define ARGS I[0],I[1],I[2],I[3],I[4],I[5],D[0],D[1],D[2],D[3],D[4],D[5],D[6],D[7],I[6],I[7],I[8],I[9],I[10],I[11],I[12],I[13]
#define SIG u,u,u,u,u,u,double,double,double,double,double,double,double,double,u,u,u,u,u,u,u,u
    std::exception_ptr ep; u64 tinf = 0, eobj = 0;
    std::vector<V> out;
    try {
        if (rt->s.empty()) { ((void(*)(SIG))addr)(ARGS); }
        else if (rt->s.size() == 1) {
            if (rt->s[0].k == S_DBL) out.push_back(V(d2bits(((double(*)(SIG))addr)(ARGS))));
            else if (rt->s[0].k == S_FLT) out.push_back(V(f2bits(((float(*)(SIG))addr)(ARGS))));
            else if (rt->s[0].k == S_FP80) throw Unsupported("long double native");
            else { u64 v = ((u64(*)(SIG))addr)(ARGS); out.push_back(V(rt->s[0].k == S_PTR ? v : mask(v, rt->s[0].bits))); }
        } else if (rt->s.size() == 2) {
            bool f0 = rt->s[0].k == S_DBL, f1 = rt->s[1].k == S_DBL;
            if (f0 && f1) { auto r = ((RetD2(*)(SIG))addr)(ARGS); out = {V(d2bits(r.a)), V(d2bits(r.b))}; }
            else if (!f0 && !f1) { auto r = ((Ret2(*)(SIG))addr)(ARGS); out = {V(mask(r.a, rt->s[0].bits)), V(mask(r.b, rt->s[1].bits))}; }
            else if (!f0) { auto r = ((RetID(*)(SIG))addr)(ARGS); out = {V(r.a), V(d2bits(r.b))}; }
            else { auto r = ((RetDI(*)(SIG))addr)(ARGS); out = {V(d2bits(r.a)), V(r.b)}; }
        } else throw Unsupported("native struct return");
    } catch (Unsupported&) { throw; } catch (PathEnd&) { throw; } catch (MemErr&) { throw; }
    catch (std::exception& e) { ep = std::current_exception(); tinf = (u64)abi::__cxa_current_exception_type(); eobj = (u64)dynamic_cast<void*>(&e); }
    if (ep) throw_native(ep, tinf, eobj);
    ret = out;
}
static const char* MATHS[] = {"sqrt","fabs","sin","cos","tan","exp","exp2","log","log2","log10","pow","floor","ceil","trunc","round","rint","nearbyint","fmin","fmax","copysign","fma","hypot","atan2","atan","acos","asin","sinh","cosh","tanh","cbrt","fmod","expm1","log1p","tgamma","lgamma","erf"};
static std::unordered_map<std::string, std::pair<std::string,SK>> mathmap;
static void bytes_cmp(u64 p, u64 q, u64 n, bool str, std::vector<V>& ret) {
    for (u64 i = 0; i < n; i++) {
        mem_check(p+i,1,"read"); mem_check(q+i,1,"read");
        V a = mem_load(p+i,1,false), b = mem_load(q+i,1,false);
        if (decide_v(icmp(CmpInst::ICMP_EQ, a, b, 8))) { if (str && decide_v(icmp(CmpInst::ICMP_EQ, a, V(u64(0)), 8))) { ret = {V(u64(0))}; return; } continue; }
        bool lt = decide_v(icmp(CmpInst::ICMP_ULT, a, b, 8)); ret = {V(lt ? (u64)0xffffffffu : 1)}; return;
    }
    ret = {V(u64(0))};
}
static std::map<u64,u64> threads;                          // started and not yet run: id -> state
static void run_thread(u64 t) {
    u64 st = threads[t]; threads.erase(t); u64 vt = *(u64*)st; std::vector<V> r;
    auto f = faddr.find(((u64*)vt)[2]), d = faddr.find(((u64*)vt)[1]);
    if (f == faddr.end() || d == faddr.end()) throw Unsupported("thread entry point");
    try { call_function(f->second, {V(st)}, r); } catch (IExc&) { throw MemErr{"exception leaves a thread"}; }
    call_function(d->second, {V(st)}, r);
}
static void call_external(const std::string& n, u64 addr, CallBase* cb, std::vector<V>& a, std::vector<V>& ret, TI* rt) {
    auto arg = [&](size_t i) { return conc(a[i],64); };
    if (n.rfind("vp_",0) == 0) {
        if (n == "vp_real") { ret = {new_real_input(cstr(a[0]), bits2d(a[1].c), bits2d(a[2].c))}; return; }
        if (n == "vp_int") { ret = {new_bv_input(cstr(a[0]), 64, (i64)a[1].c, (i64)a[2].c, true)}; return; }
        if (n == "vp_i32") { ret = {new_bv_input(cstr(a[0]), 32, (i64)a[1].c, (i64)a[2].c, true)}; return; }
        if (n == "vp_bool") { ret = {new_bool_input(cstr(a[0]))}; return; }
        if (n == "vp_byte") { ret = {new_bv_input(cstr(a[0]), 8, 0, 255, false)}; return; }
        if (n == "vp_pick") { V v = new_bv_input(cstr(a[0]), 64, (i64)a[1].c, (i64)a[2].c, true); u64 c = conc(v,64); ret = {V(c)}; return; }
        if (n == "vp_assume") { if (!a[0].s) { if (!(a[0].c & 1)) { SH->infeasible++; throw PathEnd{"infeasible","assume(false)"}; } return; } if (a[0].s->k == Sym::BOOL) assume_sym(a[0].s); else { V b = bool_v(b_of(a[0])); if (b.s) assume_sym(b.s); else if (!b.c) { SH->infeasible++; throw PathEnd{"infeasible","assume(false)"}; } } return; }
        if (n == "vp_check") {
            std::string l = cstr(a[1]);
            if (!a[0].s) { if (!(a[0].c & 1)) check_fail("check", l); else { SH->checks++; SH->trivial++; } return; }
            if (a[0].s->k == Sym::BOOL) check_sym(a[0].s, l); else { V b = bool_v(b_of(a[0])); if (b.s) check_sym(b.s, l); else if (!b.c) check_fail("check", l); else { SH->checks++; SH->trivial++; } }
            return; }
        if (n == "vp_close") {
            std::string l = cstr(a[3]); double tol = bits2d(a[2].c);
            if (a[2].s) throw Unsupported("symbolic tolerance");
            for (int i = 0; i < 2; i++) if (!a[i].s && !std::isfinite(bits2d(a[i].c))) { check_fail("close", l); return; }
            check_close(rf_sub(rf_of(a[0],S_DBL), rf_of(a[1],S_DBL)), tol, l); return; }
        if (n == "vp_reach") { SH->reach++; return; }
        if (n == "vp_tier") { ret = {V(u64(g_tier))}; return; }
        if (n == "vp_symbolic") { ret = {V(u64(1))}; return; }
        if (n == "vp_is_sym") { ret = {V(u64(a[0].s ? 1 : 0))}; return; }
        if (n == "vp_bind_number") { magic.push_back({bits2d(a[0].c), a[1]}); return; }
        if (n == "vp_done") throw PathEnd{"done","vp_done"};
        if (n == "vp_print") { std::string l = cstr(a[0]); if (a[1].s) std::cerr << l << " = " << (a[1].s->k == Sym::REAL ? poly_str(a[1].s->rf.num, 40) + (a[1].s->rf.den.empty() ? "" : " / ...") : (a[1].s->e ? a[1].s->e->to_string() : std::string("cmp " + poly_str(a[1].s->cmp->p)))) << "\n"; else std::cerr << l << " = " << bits2d(a[1].c) << "\n"; return; }
        throw Unsupported("unknown vp_ function " + n);
    }
    if (n == "lround" || n == "llround" || n == "lrint" || n == "llrint") { V v = mathfn(n.find("round") != std::string::npos ? "round" : "rint", {a[0]}, S_DBL); ret = {V((u64)(i64)bits2d(v.c))}; return; }
    auto mm = mathmap.find(n);
    if (mm != mathmap.end()) { ret = {mathfn(mm->second.first, a, mm->second.second)}; return; }
    // allocation
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { u64 p = heap_alloc(arg(0)); if (!p && n[0] == '_') throw MemErr{"absurd allocation size"}; ret = {V(p)}; return; }
    if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { ret = {V(heap_alloc(arg(0), arg(1)))}; return; }
    if (n == "aligned_alloc" || n == "memalign") { ret = {V(heap_alloc(arg(1), arg(0)))}; return; }
    if (n == "calloc") { u64 s = arg(0)*arg(1); u64 p = heap_alloc(s); memset((void*)p,0,s); ret = {V(p)}; return; }
    if (n == "realloc") { u64 o = arg(0), s = arg(1), p = heap_alloc(s); if (o) { u64 os = heap_sz.count(o) ? heap_sz[o] : 0; mem_copy(p, o, std::min(os, s)); heap_free(o); } ret = {V(p)}; return; }
    if (n == "posix_memalign") { u64 p = heap_alloc(arg(2), arg(1)); mem_store(arg(0), V(p), 8); ret = {V(u64(0))}; return; }
    if (n == "free" || n.rfind("_ZdlPv",0) == 0 || n.rfind("_ZdaPv",0) == 0) { u64 p = arg(0); if (p && !in_arena(p)) __libc_free((void*)p); else heap_free(p); return; }
    if (n == "memcpy" || n == "memmove") { mem_copy(arg(0), arg(1), arg(2)); ret = {a[0]}; return; }
    if (n == "memset") { u64 c = arg(2); if (c) { mem_check(arg(0), c, "write"); sh_clear(arg(0), c); memset((void*)arg(0), (int)conc(a[1],32), c); } ret = {a[0]}; return; }
    if (n == "memcmp" || n == "bcmp" ) { u64 c = arg(2); if (!sh_any(arg(0),c) && !sh_any(arg(1),c)) { if (c) { mem_check(arg(0),c,"read"); mem_check(arg(1),c,"read"); } ret = {V(mask((u64)(i64)memcmp((void*)arg(0),(void*)arg(1),c),32))}; } else bytes_cmp(arg(0),arg(1),c,false,ret); return; }
    if (n == "strcmp") { bytes_cmp(arg(0),arg(1),1<<20,true,ret); return; }
    if (n == "strncmp") { bytes_cmp(arg(0),arg(1),arg(2),true,ret); return; }
    if (n == "strlen") { u64 p = arg(0), i = 0; while (true) { mem_check(p+i,1,"read"); V c = mem_load(p+i,1,false); if (decide_v(icmp(CmpInst::ICMP_EQ, c, V(u64(0)), 8))) break; i++; } ret = {V(i)}; return; }
    if (n == "strtod" || n == "strtof" || n == "strtold") {
        u64 p = arg(0); if (sh_any(p, 64)) throw Unsupported("strtod of symbolic bytes");
        char* e; double d = strtod((char*)p, &e); if (arg(1)) mem_store(arg(1), V((u64)e), 8);
        for (auto& m : magic) if (m.first == d) { ret = {m.second}; return; }
        if (n == "strtold") throw Unsupported("strtold");
        ret = {n == "strtof" ? V(f2bits(d)) : V(d2bits(d))}; return; }
    // exceptions
    if (n == "__cxa_allocate_exception") { ret = {V(alloc_exception(arg(0)))}; return; }
    if (n == "__cxa_free_exception") return;
    if (n == "__cxa_throw") { u64 o = arg(0), t = arg(1); excs[o] = {o, t, arg(2), 0, nullptr}; throw IExc{o, t, nullptr}; }
    if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { u64 o = arg(0); if (n == "__cxa_begin_catch") caught.push_back(o); ret = {V(o)}; return; }
    if (n == "__cxa_end_catch") { if (!caught.empty()) caught.pop_back(); return; }
    if (n == "__cxa_rethrow") { u64 o = caught.back(); caught.pop_back(); throw IExc{o, excs[o].tinfo, excs[o].nat}; }
    if (n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "abort" || n == "_ZSt10unexpectedv" || n == "__cxa_pure_virtual" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_") throw MemErr{"abnormal termination (" + n + ")"};
    if (n == "exit" || n == "_exit") throw PathEnd{"done","exit"};
    if (n == "__cxa_guard_acquire") { u64 g = arg(0); ret = {V(u64(*(uint8_t*)g ? 0 : 1))}; return; }
    if (n == "__cxa_guard_release") { *(uint8_t*)arg(0) = 1; return; }
    if (n == "__cxa_guard_abort") return;
    if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_thread_atexit") { ret = {V(u64(0))}; return; }
    if (n == "__cxa_bad_cast" ) throw MemErr{"bad cast"};
    // output: dropped
    static const char* outs[] = {"_ZNSolsE","_ZStlsI","_ZSt16__ostream_insert","_ZSt4endl","_ZNSo3put","_ZNSo5flush","_ZNSo9_M_insert","_ZNSo5write","_ZStlsIcSt11char_traits"};
    for (auto p : outs) if (n.rfind(p,0) == 0) {
        u64 o = a[0].s ? 0 : a[0].c; bool sym = false; for (auto& v : a) if (v.s) sym = true;
        if (sym || o == (u64)&std::cout || o == (u64)&std::cerr || o == (u64)&std::clog) { ret = {V(o)}; return; }
        break;
    }
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fwrite" || n == "fputs" || n == "fputc" || n == "perror" || n == "vprintf" || n == "vfprintf") { ret = {V(u64(0))}; return; }
    if (n == "fesetround" || n == "feenableexcept" || n == "signal") { ret = {V(u64(0))}; return; }
    if (n == "open" || n == "open64") { ret = {V(mask((u64)(i64)open((const char*)arg(0), (int)arg(1), 0), 32))}; return; }
    // threads: a thread runs as a whole, either when it starts or when it is joined (both are explored)
    if (n.rfind("_ZNSt6thread15_M_start_thread",0) == 0) {
        u64 self = arg(0), st = *(u64*)arg(1); *(u64*)arg(1) = 0; static u64 tid = 0x7000; mem_store(self, V(++tid), 8); threads[tid] = st;
        if (!decide_v(new_bool_input("thread_deferred"))) run_thread(tid);
        return; }
    if (n == "_ZNSt6thread4joinEv") { u64 t = *(u64*)arg(0); if (!t) throw MemErr{"join of a thread that was not started"}; if (threads.count(t)) run_thread(t); mem_store(arg(0), V(u64(0)), 8); return; }
    if (n == "_ZNSt6thread6detachEv") throw Unsupported("detached thread");
    if (n.rfind("_ZNSi10_M_extractI",0) == 0) { // formatted input: the number read may stand for a symbolic one
        char k = n[18]; size_t sz = k == 'd' || k == 'l' || k == 'm' || k == 'x' || k == 'y' ? 8 : k == 'f' || k == 'i' || k == 'j' ? 4 : k == 's' || k == 't' ? 2 : k == 'b' ? 1 : 0; if (!sz) throw Unsupported("formatted input of " + n);
        mem_check(arg(1), sz, "write"); sh_clear(arg(1), sz);
        native_call(addr, cb, a, ret, rt, n);
        if (k == 'd') for (auto& m : magic) if (m.first == bits2d(*(u64*)arg(1))) { mem_store(arg(1), m.second, 8); break; }
        return; }
    if (n.rfind("_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_string",0) == 0) { // std::to_string of a floating point number (the text of a symbolic one is not modelled)
        u64 o = arg(0); char b[16]; double d = a[4].s ? 0 : bits2d(a[4].c); const char* t = "(symbolic)"; if (!a[4].s) { if (std::fabs(d) >= 1e5) throw Unsupported("to_string of a large number"); snprintf(b, sizeof b, "%f", d); t = b; }
        u64 l = strlen(t); mem_check(o, 32, "write"); mem_store(o, V(o+16), 8); mem_store(o+8, V(l), 8); sh_clear(o+16, 16); memcpy((char*)o+16, t, l+1); return; }
    if (n == "sysconf") { ret = {V(u64(4096))}; return; }
    native_call(addr, cb, a, ret, rt, n);
    // native code may have written to interpreted memory: nothing to update, cells are only invalidated by interpreted stores
}

// ------------------------------------------------------------------ driver
static pid_t g_root; static double g_t0;
static void write_summary() {
    char b[2048];
    snprintf(b, sizeof b, "{\"t\":\"summary\",\"paths\":%ld,\"forks\":%ld,\"checks\":%ld,\"failed\":%ld,\"unknown_checks\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"lra\":%ld,\"nra\":%ld,\"bv\":%ld,\"trivial\":%ld,\"infeasible\":%ld,\"unsupported\":%ld,\"errors\":%ld,\"deadline\":%ld,\"reach\":%ld,\"zero_div\":%ld,\"steps\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f}",
        SH->paths.load(), SH->forks.load(), SH->checks.load(), SH->checks_failed.load(), SH->checks_unknown.load(), SH->queries.load(), SH->sat.load(), SH->unsat.load(), SH->unknown.load(), SH->lra.load(), SH->nra.load(), SH->bvq.load(), SH->trivial.load(), SH->infeasible.load(), SH->unsupported.load(), SH->errors.load(), SH->deadline_hit.load(), SH->reach.load(), SH->zero_div.load(), SH->steps.load(), SH->solver_us.load()/1e6, now()-g_t0);
    record(b);
}
static void on_alarm(int) {
    // a solver call did not come back by the deadline: give this path up
    SH->deadline_hit++;
    record("{\"t\":\"path\",\"status\":\"deadline\",\"msg\":\"solver call did not return in time in " + jesc(where()) + "\"}");
    if (getpid() == g_root) { usleep(1500000); write_summary(); }
    _exit(0);
}
void arm_alarm() {
    double left = g_deadline - now() + (getpid() == g_root ? 6 : 4); if (left < 0.05) left = 0.05;
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)left; it.it_value.tv_usec = (long)((left - (long)left)*1e6); setitimer(ITIMER_REAL, &it, 0);
}
static void segv(int sig) { 
    const char m[] = "engine crash\n"; (void)!write(2, m, sizeof m - 1);
    std::string s = "{\"t\":\"path\",\"status\":\"crash\",\"msg\":\"signal " + std::to_string(sig) + " in " + jesc(where()) + "\"}"; record(s);
    SH->errors++; SH->live--; _exit(0); }
static void finish_path(const std::string& status, const std::string& msg) {
    SH->paths++; SH->steps += g_steps;
    if (status == "done") end_path_witness();
    if (status == "unsupported") SH->unsupported++;
    if (status != "infeasible" && status != "stopped" && (status != "done" || SH->paths < 20)) record("{\"t\":\"path\",\"status\":\"" + status + "\",\"msg\":\"" + jesc(msg) + "\",\"steps\":" + std::to_string(g_steps) + "}");
    std::string fn;
    for (auto& p : dfs) if (p.second->hits) fn += llvm::demangle(p.first->getName().str()) + "\n";
    // functions encoded: merged through a per-run file
    int fd = open((g_out + ".funcs").c_str(), O_WRONLY|O_APPEND|O_CREAT, 0644);
    if (fd >= 0) { if (SH->paths <= 8) (void)!write(fd, fn.data(), fn.size()); close(fd); }
}
static bool is_mem_viol(const MemErr&) { return true; }
int main(int argc, char** argv) {
    std::string file, fn; g_out = "/dev/stdout"; double tl = 300; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string s = argv[i];
        if (s == "--out") g_out = argv[++i]; else if (s == "--time") tl = atof(argv[++i]); else if (s == "--fn") fn = argv[++i]; else if (s == "--tier") g_tier = atoi(argv[++i]);
        else if (s == "--maxpaths") g_maxpaths = atol(argv[++i]); else if (s == "--qtimeout") g_qtimeout = atoi(argv[++i]); else if (s == "--list") list = true; else if (s == "--maxsteps") g_maxsteps = atof(argv[++i]); else file = s;
    }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (2ul << 30) && !getenv("VP_STACK")) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4ul << 30); setrlimit(RLIMIT_STACK, &rl); setenv("VP_STACK","1",1); execv("/proc/self/exe", argv); }
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(file, err, ctx);
    if (!mod) { err.print("engine", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    if (list) { for (auto& f : *M) if (!f.isDeclaration() && (f.getName().starts_with("vph_") || f.getName().starts_with("vpt_"))) outs() << f.getName() << "\n"; return 0; }
    SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    memset((void*)SH, 0, sizeof(Shared)); SH->live = 1;
    g_deadline = now() + tl;
    for (auto m : MATHS) { mathmap[m] = {m, S_DBL}; mathmap[std::string(m) + "f"] = {m, S_FLT}; mathmap[std::string("__") + m + "_finite"] = {m, S_DBL}; }
    arena_init();
    Z = new z3::context();
    regstack = (V*)mmap(0, regmax*sizeof(V), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    static char altstack[1 << 18]; stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler = segv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV,&sa,0); sigaction(SIGBUS,&sa,0); sigaction(SIGFPE,&sa,0); sigaction(SIGABRT,&sa,0);
    pid_t root = g_root = getpid();
    g_t0 = now();
    { struct sigaction al; memset(&al,0,sizeof al); al.sa_handler = on_alarm; al.sa_flags = SA_ONSTACK; sigaction(SIGALRM,&al,0); }
    arm_alarm();
    std::string status = "done", msg; bool viol = false;
    auto fail = [&](const std::string& kind, const std::string& m) { try { check_fail(kind, m); } catch (PathEnd& p) { status = p.status; msg = p.msg; } catch (...) { status = "error"; } };
    try {
        // static constructors
        std::vector<V> r;
        if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
            std::vector<std::pair<u64,Function*>> cs;
            for (auto& o : ca->operands()) { auto* cs_ = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs_->getOperand(1))) cs.push_back({cast<ConstantInt>(cs_->getOperand(0))->getZExtValue(), f}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y){ return x.first < y.first; });
            for (auto& c : cs) call_function(c.second, {}, r);
        }
        Function* f = M->getFunction(fn);
        if (!f) { std::cerr << "no such harness " << fn << "\n"; return 2; }
        call_function(f, {}, r);
        SH->reach++;
    }
    catch (PathEnd& p) { status = p.status; msg = p.msg; }
    catch (MemErr& m) { status = "done"; msg = m.what; fail("mem", m.what + " at " + where()); }
    catch (IExc& e) { std::string tn = ((const std::type_info*)e.tinfo)->name(); fail("throw", "uncaught exception " + llvm::demangle("_ZTI" + tn) + " from " + where()); }
    catch (Unsupported& u) { status = "unsupported"; msg = std::string(u.what()) + " at " + where(); }
    catch (z3::exception& e) { status = "error"; msg = std::string("z3: ") + e.msg(); SH->errors++; }
    catch (std::exception& e) { status = "error"; msg = e.what(); SH->errors++; }
    if (status == "steps") { fail("steps", msg + " at " + where()); }
    try { finish_path(status, msg); } catch (...) {}
    wait_children();
    if (getpid() == root) {
        write_summary();
    } else SH->live--;
    _exit(0);
}
