// Symbolic executor for LLVM IR (C and C++ code compiled by clang), with Z3 deciding every
// branch, memory access and assertion over all values of the symbolic inputs, and with
// thread scheduling decisions explored as forks under a preemption bound.
#include "expr.h"
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <chrono>
#include <cmath>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <functional>
#include <algorithm>
#include <sys/resource.h>

using namespace llvm;

// ------------------------------------------------------------------ options
static std::string optOut = "out";
static double optMaxTime = 300;
static uint64_t optMaxSteps = 20000000;
static unsigned optPreempt = 2;
static unsigned optMaxViol = 8;
static unsigned optWitness = 3;
static std::map<std::string, uint64_t> optFix;
static bool optTrace = false;
static bool optBfs = false;
static bool optSharedAll = false;
static bool optEager = false; // split on sym_choice at once
static size_t optMaxMemMB = 3500;
static unsigned optStopAfter = 0;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_start;

// ------------------------------------------------------------------ values, memory
struct Val {
    E e = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    Val() {}
    Val(E x) : e(x) {}
};

template <class T> struct Ref {
    T* p;
    Ref() : p(nullptr) {}
    explicit Ref(T* x) : p(x) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) : p(o.p) { o.p = nullptr; }
    Ref& operator=(Ref o) { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    T* operator->() const { return p; }
    explicit operator bool() const { return p; }
};

enum ObjKind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_TLS, K_VARARG };
struct Obj {
    int rc = 0;
    std::vector<E> b;
    ObjKind kind;
    bool freed = false, ro = false;
    uint64_t site = 0; // for shared-object discovery
    const char* what = "";
};
typedef Ref<Obj> ObjRef;

static const unsigned SLOT_BITS = 28;
static const uint64_t SLOT = 1ull << SLOT_BITS;
static const uint64_t SLOT0 = 0x5555; // addresses look like a process's: none of them fits into 32 bits
static const uint64_t MAXOBJ = SLOT - (1 << 16);
static const uint64_t FUNC_BASE = 0x100000;

struct KInst {
    const Instruction* I;
    int dest = -1;
    std::vector<int> ops; // >=0 register, <0 constant ~idx
};
struct KBlock { std::vector<KInst> insts; bool entered = false; };
struct KFunc {
    const Function* F;
    unsigned nregs = 0;
    DenseMap<const Value*, int> reg;
    DenseMap<const BasicBlock*, unsigned> bbIdx;
    std::vector<KBlock> blocks;
    std::vector<Val> consts;
    bool executed = false;
    bool inRepo = false;
    std::string file;
    unsigned line = 0;
    uint64_t nInst = 0;
};

struct Frame {
    KFunc* kf = nullptr;
    unsigned bb = 0, ip = 0, prevBB = 0;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    uint64_t vararg = 0;
    // caller continuation: caller's instruction is an invoke?
};

enum TStatus : uint8_t { T_RUN, T_BLOCK, T_DONE };
struct Thread {
    std::vector<Frame> st;
    TStatus status = T_RUN;
    uint64_t blockKey = 0;
    uint64_t ev = 0;      // scheduling events passed
    bool spDone = false;
    std::map<const GlobalVariable*, uint64_t> tls;
    std::vector<std::pair<uint64_t, uint64_t>> caught; // (exc ptr, typeinfo)
    uint64_t excPtr = 0, excType = 0;  // in flight
    unsigned uncaughtBase = 0;
};

struct InputRec { std::string name; E e; };
struct ObsRec { std::string name; E e; };
struct SchedRec { char kind; unsigned tid; uint64_t ev; unsigned to; };

struct State {
    std::vector<Thread> th;
    unsigned cur = 0;
    std::vector<ObjRef> mem;
    std::vector<uint16_t> acc; // object -> threads that accessed it while there were several (bit 15: written)
    std::vector<E> cons;
    Subst subst;                                     // variables known to have one value
    std::vector<std::pair<uint32_t, uint64_t>> dom;  // small domains of choice variables
    ModelRef model;
    std::vector<InputRec> inputs;
    std::vector<ObsRec> obs;
    std::vector<SchedRec> sched;
    unsigned preempts = 0;
    uint64_t steps = 0;
    uint64_t heapLive = 0;
    std::map<uint64_t, uint64_t> excTypes; // exc object -> typeinfo
    uint64_t depth = 0;
};

static LLVMContext g_ctx;
static std::unique_ptr<Module> g_mod;
static const DataLayout* g_dl;
static DenseMap<const Function*, KFunc*> g_kf;
static DenseMap<const GlobalVariable*, uint64_t> g_gaddr;
static DenseMap<const Function*, uint64_t> g_faddr;
static std::unordered_map<uint64_t, const Function*> g_faddrRev;
static std::vector<State*> g_work; // DFS stack
static std::deque<State*> g_workq;

struct Stats {
    uint64_t paths = 0, forks = 0, insts = 0, branches = 0, checks = 0, memchecks = 0, killed_assume = 0, infeasible = 0, states = 1, schedPoints = 0, schedForks = 0;
} g_st;
static std::map<std::string, uint64_t> g_inconclusive;
static std::map<std::string, std::pair<uint64_t, uint64_t>> g_checks; // msg -> reached, violated
static std::map<std::string, uint64_t> g_reached;
struct Violation { std::string kind, msg, where, stack, file; };
static std::vector<Violation> g_viol;
static std::map<std::string, unsigned> g_violKeys;
static std::vector<std::string> g_witness;
static std::set<uint64_t> g_shared;            // sites known to be shared
static std::map<uint64_t, uint64_t> g_siteThreads; // site -> bitmask of accessing threads | write flag bit 63
static std::map<uint64_t, std::string> g_siteName;

struct Kill { std::string why; bool inconclusive; };
struct PathEnd {};

static std::string locOf(const Instruction* I) {
    std::string s;
    if (I) {
        s = I->getFunction()->getName().str();
        if (auto& dl = I->getDebugLoc()) {
            s += " (" + dl->getFilename().str() + ":" + std::to_string(dl.getLine()) + ")";
        }
    }
    return s;
}
static const Instruction* curInst(const State& s, unsigned t) {
    auto& st = s.th[t].st;
    if (st.empty()) return nullptr;
    auto& f = st.back();
    if (f.bb >= f.kf->blocks.size() || f.ip >= f.kf->blocks[f.bb].insts.size()) return nullptr;
    return f.kf->blocks[f.bb].insts[f.ip].I;
}
static std::string stackOf(const State& s) {
    std::string r;
    auto& st = s.th[s.cur].st;
    for (size_t i = st.size(); i-- > 0;) {
        auto& f = st[i];
        if (f.bb < f.kf->blocks.size() && f.ip < f.kf->blocks[f.bb].insts.size())
            r += "    at " + locOf(f.kf->blocks[f.bb].insts[f.ip].I) + "\n";
    }
    return r;
}

// ------------------------------------------------------------------ state management
static State* cloneState(const State& s) { g_st.states++; return new State(s); }
static void pushWork(State* s) { if (optBfs) g_workq.push_back(s); else g_work.push_back(s); }

// record a path constraint; variables it pins to one value are replaced by that value from now on
static void pushCons(State& s, E c) {
    if (c->isC()) return;
    s.cons.push_back(c);
    if (c->vars->size() != 1) return;
    uint32_t v = (*c->vars)[0];
    E val = nullptr;
    E ve = mkVar(g_vars[v].name, g_vars[v].w);
    if (c->op == O_EQ && c->a == ve && c->b->isC()) val = c->b;
    else if (c->op == O_EQ && c->b == ve && c->a->isC()) val = c->a;
    else {
        for (auto& d : s.dom) if (d.first == v) { // small domain: which values does the constraint leave?
            uint64_t keep = 0;
            Model m;
            m.v.resize(v + 1, 0);
            for (unsigned x = 0; x < 64; x++) if (d.second >> x & 1) { m.v[v] = x; if (evalExpr(c, m)) keep |= 1ull << x; }
            d.second = keep;
            if (keep && !(keep & (keep - 1))) val = mkConst(__builtin_ctzll(keep), g_vars[v].w);
            break;
        }
    }
    if (!val) return;
    Subst one{{v, val}};
    std::vector<E> nc;
    for (E x : s.cons) { E y = substExpr(x, one); if (!y->isC() || !y->val) nc.push_back(y); }
    nc.push_back(mkEq(ve, val));
    s.cons.swap(nc);
    s.subst.push_back({v, val});
}
static bool addCons(State& s, E c) {
    // returns false if infeasible. keeps model valid
    if (c->isC()) return c->val != 0;
    if (s.model && evalExpr(c, *s.model)) { pushCons(s, c); return true; }
    ModelRef m;
    SatResult r = solverCheck(s.cons, c, s.model, m);
    if (r == R_UNSAT) return false;
    if (r == R_UNKNOWN) throw Kill{"solver timeout", true};
    s.model = m;
    pushCons(s, c);
    return true;
}
// may cond be true?
static bool mayBeTrue(State& s, E c, ModelRef* out = nullptr) {
    if (c->isC()) { if (out) *out = s.model; return c->val != 0; }
    ModelRef m;
    SatResult r = solverCheck(s.cons, c, s.model, m);
    if (r == R_UNKNOWN) throw Kill{"solver timeout", true};
    if (out) *out = m;
    return r == R_SAT;
}

static std::string jsonEsc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

static void writeInputs(const std::string& fn, const State& s, const Model& m, bool obs) {
    FILE* f = fopen(fn.c_str(), "w");
    if (!f) { perror(fn.c_str()); return; }
    for (auto& i : s.inputs) fprintf(f, "in %s %llu\n", i.name.c_str(), (unsigned long long)evalExpr(i.e, m));
    for (auto& r : s.sched) fprintf(f, "sched %c %u %llu %u\n", r.kind, r.tid, (unsigned long long)r.ev, r.to);
    if (obs) for (auto& o : s.obs) fprintf(f, "obs %s %llu\n", o.name.c_str(), (unsigned long long)evalExpr(o.e, m));
    fclose(f);
}

static void report(State& s, const std::string& kind, const std::string& msg, ModelRef m) {
    const Instruction* I = curInst(s, s.cur);
    // report at the innermost frame of the code under test / harness
    std::string where = locOf(I);
    std::string fn = I ? I->getFunction()->getName().str() : "";
    std::string key = kind + "|" + msg + "|" + (kind == "check" ? "" : fn);
    unsigned& n = g_violKeys[key];
    n++;
    if (n > 2) return;
    if (g_viol.size() >= optMaxViol * 2) return;
    Violation v;
    v.kind = kind; v.msg = msg; v.where = where; v.stack = stackOf(s);
    v.file = optOut + ".viol" + std::to_string(g_viol.size()) + ".txt";
    writeInputs(v.file, s, m ? *m : *s.model, false);
    g_viol.push_back(v);
    if (optTrace) fprintf(stderr, "VIOL %s %s at %s\n%s", kind.c_str(), msg.c_str(), where.c_str(), v.stack.c_str());
}

static uint64_t allocObj(State& s, uint64_t size, ObjKind kind, uint8_t fill) {
    if (size > MAXOBJ || size > (8u << 20)) throw Kill{"allocation too large for the engine", true};
    Obj* o = new Obj;
    o->b.assign(size, mkConst(fill, 8));
    o->kind = kind;
    s.mem.push_back(ObjRef(o));
    return ((uint64_t)s.mem.size() + SLOT0) << SLOT_BITS; // slot index+1
}
static Obj* objAt(State& s, uint64_t addr, uint64_t& off) {
    uint64_t idx = (addr >> SLOT_BITS) - SLOT0;
    if (idx == 0 || idx > s.mem.size()) return nullptr;
    off = addr & (SLOT - 1);
    return s.mem[idx - 1].p;
}
static Obj* wobj(State& s, uint64_t addr) {
    uint64_t idx = (addr >> SLOT_BITS) - SLOT0 - 1;
    ObjRef& r = s.mem[idx];
    if (r->rc > 1) { Obj* n = new Obj(*r.p); n->rc = 0; r = ObjRef(n); }
    return r.p;
}

static void memViolation(State& s, const char* what, uint64_t addr, uint64_t size, ModelRef m = nullptr) {
    char b[160];
    snprintf(b, sizeof b, "%s", what);
    report(s, "memory", b, m);
    throw Kill{"memory error", false};
}

// check [addr, addr+size) concrete; returns object
static Obj* checkAccess(State& s, uint64_t addr, uint64_t size, bool write) {
    uint64_t off;
    g_st.memchecks++;
    Obj* o = objAt(s, addr, off);
    if (!o) {
        if (addr < 4096) memViolation(s, "null pointer dereference", addr, size);
        memViolation(s, "access through an invalid pointer", addr, size);
    }
    if (o->freed) memViolation(s, o->kind == K_STACK ? "use of a stack object after its function returned" : "use after free", addr, size);
    if (off + size > o->b.size()) memViolation(s, write ? "out-of-bounds write" : "out-of-bounds read", addr, size);
    if (write && o->ro) memViolation(s, "write to read-only memory", addr, size);
    return o;
}

// fork on the possible values of e: this state continues with one value, the others re-execute the instruction
static uint64_t concretize(State& s, E e) {
    if (e->isC()) return (uint64_t)e->val;
    u128 v = evalExpr(e, *s.model);
    E eq = mkEq(e, mkConst(v, e->w));
    E ne = mkNot(eq);
    ModelRef m;
    if (mayBeTrue(s, ne, &m)) {
        State* alt = cloneState(s);
        alt->model = m;
        pushCons(*alt, ne);
        g_st.forks++;
        pushWork(alt);
        pushCons(s, eq);
    }
    // else value is implied: no constraint needed
    return (uint64_t)v;
}

// Resolve a possibly symbolic address for an access of `size` bytes.
// Returns true and sets (base object address, offset expr) ; forks other objects.
static uint64_t resolveBase(State& s, E addr, uint64_t size, E& off, bool write) {
    if (addr->isC()) {
        uint64_t a = addr->u();
        checkAccess(s, a, size, write);
        off = mkConst(a & (SLOT - 1), 64);
        return a & ~(SLOT - 1);
    }
    uint64_t v = (uint64_t)evalExpr(addr, *s.model);
    uint64_t o;
    Obj* ob = objAt(s, v, o);
    if (!ob || ob->freed || o + size > ob->b.size() || (write && ob->ro)) {
        // the current model already violates
        checkAccess(s, v, size, write);
    }
    uint64_t base = v & ~(SLOT - 1);
    // in-bounds condition: addr - base <= objsize - size
    E rel = mkSub(addr, mkConst(base, 64));
    E in = mkBin(O_ULE, rel, mkConst(ob->b.size() - size, 64));
    ModelRef m;
    if (mayBeTrue(s, mkNot(in), &m)) {
        State* alt = cloneState(s);
        alt->model = m;
        pushCons(*alt, mkNot(in));
        g_st.forks++;
        pushWork(alt);
        pushCons(s, in);
    }
    off = rel;
    return base;
}

static E loadBytes(State& s, E addr, unsigned nbytes) {
    E off;
    uint64_t base = resolveBase(s, addr, nbytes, off, false);
    uint64_t dummy;
    Obj* o = objAt(s, base, dummy);
    if (off->isC()) {
        uint64_t k = off->u();
        // fast concrete
        bool allc = true;
        for (unsigned i = 0; i < nbytes; i++) if (!o->b[k + i]->isC()) { allc = false; break; }
        if (allc && nbytes <= 16) {
            u128 v = 0;
            for (unsigned i = 0; i < nbytes; i++) v |= (u128)o->b[k + i]->val << (8 * i);
            return mkConst(v, nbytes * 8);
        }
        E r = o->b[k];
        for (unsigned i = 1; i < nbytes; i++) r = mkConcat(o->b[k + i], r);
        return r;
    }
    uint64_t n = o->b.size() - nbytes + 1;
    if (n > 512) {
        uint64_t k = concretize(s, off);
        return loadBytes(s, mkConst(base + k, 64), nbytes);
    }
    auto rd = [&](uint64_t k) { E r = o->b[k]; for (unsigned i = 1; i < nbytes; i++) r = mkConcat(o->b[k + i], r); return r; };
    E r = rd(n - 1);
    for (uint64_t k = n - 1; k-- > 0;) r = mkIte(mkEq(off, mkConst(k, 64)), rd(k), r);
    return r;
}
static void storeBytes(State& s, E addr, E v) {
    unsigned nbytes = (v->w + 7) / 8;
    if (v->w % 8) v = mkZext(v, nbytes * 8);
    E off;
    uint64_t base = resolveBase(s, addr, nbytes, off, true);
    uint64_t dummy;
    if (!off->isC()) {
        Obj* o = objAt(s, base, dummy);
        if (o->b.size() > 256) off = mkConst(concretize(s, off), 64);
    }
    Obj* o = wobj(s, base);
    if (off->isC()) {
        uint64_t k = off->u();
        if (v->isC()) for (unsigned i = 0; i < nbytes; i++) o->b[k + i] = mkConst((uint8_t)(v->val >> (8 * i)), 8);
        else for (unsigned i = 0; i < nbytes; i++) o->b[k + i] = mkExtract(v, 8 * i, 8);
        return;
    }
    uint64_t n = o->b.size() - nbytes + 1;
    std::vector<E> nb = o->b;
    for (uint64_t k = 0; k < n; k++) {
        E c = mkEq(off, mkConst(k, 64));
        for (unsigned i = 0; i < nbytes; i++) nb[k + i] = mkIte(c, mkExtract(v, 8 * i, 8), nb[k + i]);
    }
    o->b = nb;
}

static unsigned typeBits(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
}

static Val loadTyped(State& s, E addr, Type* t) {
    if (unsigned w = typeBits(t)) {
        E r = loadBytes(s, addr, (w + 7) / 8);
        return Val(w % 8 ? mkExtract(r, 0, w) : r);
    }
    Val v;
    v.agg = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = g_dl->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            v.agg->push_back(loadTyped(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i)));
        return v;
    }
    uint64_t n; Type* et;
    if (auto* at = dyn_cast<ArrayType>(t)) { n = at->getNumElements(); et = at->getElementType(); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { n = vt->getNumElements(); et = vt->getElementType(); }
    else throw Kill{"load of unsupported type", true};
    uint64_t es = g_dl->getTypeAllocSize(et);
    for (uint64_t i = 0; i < n; i++) v.agg->push_back(loadTyped(s, mkAdd(addr, mkConst(i * es, 64)), et));
    return v;
}
static void storeTyped(State& s, E addr, const Val& v, Type* t) {
    if (typeBits(t)) { storeBytes(s, addr, v.e); return; }
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = g_dl->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            storeTyped(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), (*v.agg)[i], st->getElementType(i));
        return;
    }
    uint64_t n; Type* et;
    if (auto* at = dyn_cast<ArrayType>(t)) { n = at->getNumElements(); et = at->getElementType(); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { n = vt->getNumElements(); et = vt->getElementType(); }
    else throw Kill{"store of unsupported type", true};
    uint64_t es = g_dl->getTypeAllocSize(et);
    for (uint64_t i = 0; i < n; i++) storeTyped(s, mkAdd(addr, mkConst(i * es, 64)), (*v.agg)[i], et);
}

// ------------------------------------------------------------------ constants
static Val evalConst(const Constant* c);
static State* g_init; // state used during initialisation

static uint64_t funcAddr(const Function* F) {
    auto it = g_faddr.find(F);
    if (it != g_faddr.end()) return it->second;
    uint64_t a = FUNC_BASE + 16 * g_faddr.size();
    g_faddr[F] = a;
    g_faddrRev[a] = F;
    return a;
}
static Val zeroVal(Type* t) {
    if (unsigned w = typeBits(t)) return Val(mkConst(0, w));
    Val v; v.agg = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t)) for (auto* et : st->elements()) v.agg->push_back(zeroVal(et));
    else if (auto* at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroVal(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < vt->getNumElements(); i++) v.agg->push_back(zeroVal(vt->getElementType()));
    else v.e = mkConst(0, 64);
    return v;
}
static E gepOffset(const GEPOperator* g, std::function<E(unsigned)> op) {
    E addr = op(0);
    unsigned i = 1;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
        if (StructType* st = it.getStructTypeOrNull()) {
            uint64_t f = cast<ConstantInt>(it.getOperand())->getZExtValue();
            addr = mkAdd(addr, mkConst(g_dl->getStructLayout(st)->getElementOffset(f), 64));
        } else {
            uint64_t es = g_dl->getTypeAllocSize(it.getIndexedType());
            E idx = op(i);
            if (idx->w < 64) idx = mkSext(idx, 64);
            addr = mkAdd(addr, mkBin(O_MUL, idx, mkConst(es, 64)));
        }
    }
    return addr;
}
static u128 apToU(const APInt& a) {
    u128 v = a.getRawData()[0];
    if (a.getBitWidth() > 64) v |= (u128)a.getRawData()[1] << 64;
    return v;
}
static Val evalConst(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 128) throw Kill{"wide integer", true};
        return Val(mkConst(apToU(ci->getValue()), ci->getBitWidth()));
    }
    if (isa<ConstantPointerNull>(c)) return Val(mkConst(0, 64));
    if (auto* cf = dyn_cast<ConstantFP>(c)) return Val(mkConst(apToU(cf->getValueAPF().bitcastToAPInt()), typeBits(t)));
    if (auto* f = dyn_cast<Function>(c)) return Val(mkConst(funcAddr(f), 64));
    if (auto* gv = dyn_cast<GlobalVariable>(c)) {
        auto it = g_gaddr.find(gv);
        if (it == g_gaddr.end()) return Val(mkConst(0, 64));
        return Val(mkConst(it->second, 64));
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(t);
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < ca->getNumOperands(); i++) v.agg->push_back(evalConst(ca->getOperand(i)));
        return v;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(evalConst(cd->getElementAsConstant(i)));
        return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr:
            return Val(gepOffset(cast<GEPOperator>(ce), [&](unsigned i) { return evalConst(ce->getOperand(i)).e; }));
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: return Val(mkZext(evalConst(ce->getOperand(0)).e, typeBits(t)));
        case Instruction::Trunc: return Val(mkExtract(evalConst(ce->getOperand(0)).e, 0, typeBits(t)));
        case Instruction::Sub: return Val(mkSub(evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e));
        case Instruction::Add: return Val(mkAdd(evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e));
        case Instruction::ICmp: {
            E a = evalConst(ce->getOperand(0)).e, b = evalConst(ce->getOperand(1)).e;
            if (ce->getPredicate() == CmpInst::ICMP_EQ) return Val(mkEq(a, b));
            if (ce->getPredicate() == CmpInst::ICMP_NE) return Val(mkNot(mkEq(a, b)));
            break;
        }
        default: break;
        }
        errs() << "engine: unsupported constant expr " << *ce << "\n";
        throw Kill{"unsupported constant expression", true};
    }
    errs() << "engine: unsupported constant " << *c << "\n";
    throw Kill{"unsupported constant", true};
}

// ------------------------------------------------------------------ functions
static KFunc* getKF(const Function* F) {
    auto it = g_kf.find(F);
    if (it != g_kf.end()) return it->second;
    KFunc* k = new KFunc;
    k->F = F;
    for (auto& a : F->args()) k->reg[&a] = k->nregs++;
    unsigned bi = 0;
    for (auto& bb : *F) k->bbIdx[&bb] = bi++;
    for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) k->reg[&I] = k->nregs++;
    DenseMap<const Value*, int> cidx;
    for (auto& bb : *F) {
        KBlock kb;
        for (auto& I : bb) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            KInst ki; ki.I = &I;
            if (!I.getType()->isVoidTy()) ki.dest = k->reg[&I];
            for (auto& op : I.operands()) {
                const Value* v = op.get();
                if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { ki.ops.push_back(INT32_MIN); continue; }
                auto r = k->reg.find(v);
                if (r != k->reg.end()) { ki.ops.push_back(r->second); continue; }
                auto c = cidx.find(v);
                if (c == cidx.end()) {
                    int n = k->consts.size();
                    k->consts.push_back(evalConst(cast<Constant>(v)));
                    c = cidx.insert({v, n}).first;
                }
                ki.ops.push_back(~c->second);
            }
            kb.insts.push_back(std::move(ki));
        }
        k->blocks.push_back(std::move(kb));
    }
    if (auto* sp = F->getSubprogram()) {
        k->file = sp->getFilename().str();
        if (!k->file.empty() && k->file[0] != '/') k->file = sp->getDirectory().str() + "/" + k->file;
        k->line = sp->getLine();
        k->inRepo = k->file.compare(0, 6, "/repo/") == 0;
    }
    g_kf[F] = k;
    return k;
}

static void pushFrame(State& s, unsigned tid, const Function* F, const std::vector<Val>& args) {
    KFunc* k = getKF(F);
    k->executed = true;
    if (!k->blocks.empty()) k->blocks[0].entered = true;
    Frame f;
    f.kf = k;
    f.regs.resize(k->nregs);
    unsigned n = F->arg_size();
    for (unsigned i = 0; i < n && i < args.size(); i++) {
        auto* A = F->getArg(i);
        if (A->hasByValAttr() && args[i].e && args[i].e->isC()) {
            uint64_t sz = g_dl->getTypeAllocSize(A->getParamByValType());
            uint64_t p = allocObj(s, sz, K_STACK, 0);
            for (uint64_t j = 0; j < sz; j++) storeBytes(s, mkConst(p + j, 64), loadBytes(s, mkConst(args[i].e->u() + j, 64), 1));
            f.allocas.push_back(p);
            f.regs[i] = Val(mkConst(p, 64));
        } else f.regs[i] = args[i];
    }
    if (F->isVarArg()) {
        uint64_t cnt = args.size() > n ? args.size() - n : 0;
        uint64_t p = allocObj(s, cnt * 8 + 8, K_VARARG, 0);
        for (uint64_t i = 0; i < cnt; i++) {
            E e = args[n + i].e;
            if (!e) throw Kill{"aggregate vararg", true};
            storeBytes(s, mkConst(p + 8 * i, 64), mkZext(e, 64));
        }
        f.vararg = p;
        f.allocas.push_back(p);
    }
    if (s.th[tid].st.size() > 400) {
        report(s, "recursion", "call depth exceeds 400 frames", nullptr);
        throw Kill{"stack overflow", false};
    }
    s.th[tid].st.push_back(std::move(f));
}

static void freeObj(State& s, uint64_t a) { wobj(s, a)->freed = true; std::vector<E>().swap(wobj(s, a)->b); }
// keep size information for freed objects: only the flag matters for the diagnosis

static void popFrame(State& s, unsigned tid) {
    for (uint64_t a : s.th[tid].st.back().allocas) {
        Obj* o = wobj(s, a);
        o->freed = true;
        std::vector<E>().swap(o->b);
    }
    s.th[tid].st.pop_back();
}

static inline void jumpTo(Frame& f, const BasicBlock* bb) {
    f.prevBB = f.bb;
    f.bb = f.kf->bbIdx[bb];
    f.kf->blocks[f.bb].entered = true;
    f.ip = 0;
}

// phi nodes at block entry evaluated in parallel
static State* g_cur;
static const Val& opv(Frame& f, const KInst& ki, unsigned i) {
    int x = ki.ops[i];
    if (x < 0) return f.kf->consts[~x];
    Val& v = f.regs[x];
    if (v.e && !v.e->isC() && !g_cur->subst.empty()) v.e = substExpr(v.e, g_cur->subst);
    return v;
}
static void enterBlock(Frame& f, const BasicBlock* from, const BasicBlock* to) {
    jumpTo(f, to);
    auto& insts = f.kf->blocks[f.bb].insts;
    std::vector<std::pair<int, Val>> upd;
    unsigned i = 0;
    for (; i < insts.size(); i++) {
        auto* phi = dyn_cast<PHINode>(insts[i].I);
        if (!phi) break;
        int k = phi->getBasicBlockIndex(from);
        upd.push_back({insts[i].dest, opv(f, insts[i], k)});
    }
    for (auto& u : upd) f.regs[u.first] = u.second;
    f.ip = i;
}

// ------------------------------------------------------------------ threads
static void endPath(State& s) {
    g_st.paths++;
    throw PathEnd{};
}

static void recordSched(State& s, char kind, unsigned tid, uint64_t ev, unsigned to) { s.sched.push_back({kind, tid, ev, to}); }

// switch away from a thread that cannot continue; forks over all runnable threads
static void switchBlocked(State& s) {
    std::vector<unsigned> run;
    for (unsigned i = 0; i < s.th.size(); i++) if (s.th[i].status == T_RUN) run.push_back(i);
    if (run.empty()) {
        std::string m = "deadlock: no thread can make progress";
        report(s, "deadlock", m, nullptr);
        throw Kill{"deadlock", false};
    }
    unsigned me = s.cur;
    for (size_t i = 1; i < run.size(); i++) {
        State* alt = cloneState(s);
        alt->cur = run[i];
        recordSched(*alt, 'b', me, s.th[me].ev, run[i]);
        g_st.schedForks++;
        pushWork(alt);
    }
    recordSched(s, 'b', me, s.th[me].ev, run[0]);
    s.cur = run[0];
}

// a scheduling point before a visible operation; returns false if the state switched to another thread
static bool schedPoint(State& s, bool forkHere) {
    Thread& t = s.th[s.cur];
    if (t.spDone) { t.spDone = false; return true; }
    t.ev++;
    if (!forkHere) return true;
    g_st.schedPoints++;
    if (s.preempts >= optPreempt) return true;
    unsigned me = s.cur;
    bool any = false;
    for (unsigned i = 0; i < s.th.size(); i++) {
        if (i == me || s.th[i].status != T_RUN) continue;
        State* alt = cloneState(s);
        alt->th[me].spDone = true;
        alt->preempts++;
        alt->cur = i;
        recordSched(*alt, 'p', me, s.th[me].ev, i);
        g_st.schedForks++;
        pushWork(alt);
        any = true;
    }
    (void)any;
    return true;
}

// ------------------------------------------------------------------ exceptions
static bool typeMatches(State& s, uint64_t thrown, uint64_t catchT, int depth = 0);
static const GlobalVariable* gvOf(uint64_t a) {
    static std::unordered_map<uint64_t, const GlobalVariable*> rev;
    if (rev.empty()) for (auto& p : g_gaddr) rev[p.second] = p.first;
    auto it = rev.find(a);
    return it == rev.end() ? nullptr : it->second;
}
static bool typeMatches(State& s, uint64_t thrown, uint64_t catchT, int depth) {
    if (catchT == 0) return true;
    if (thrown == catchT) return true;
    if (depth > 8) return false;
    auto *a = gvOf(thrown), *b = gvOf(catchT);
    if (!a || !b) return false;
    if (a->getName() == b->getName()) return true;
    if (!a->hasInitializer()) {
        static const std::map<std::string, std::string> base = {
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
            {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
            {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
            {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
            {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
        std::string n = a->getName().str();
        while (base.count(n)) { n = base.at(n); if (n == b->getName()) return true; }
        return false;
    }
    // __si_class_type_info: {vptr, name, base}; __vmi_class_type_info: {vptr,name,flags,count,{base,off}...}
    auto* ca = dyn_cast<ConstantStruct>(a->getInitializer());
    if (!ca) return false;
    for (unsigned i = 2; i < ca->getNumOperands(); i++)
        if (ca->getOperand(i)->getType()->isPointerTy()) {
            Val v = evalConst(ca->getOperand(i));
            if (v.e->isC() && typeMatches(s, v.e->u(), catchT, depth + 1)) return true;
        }
    return false;
}

static void terminateViolation(State& s, const std::string& why) {
    report(s, "terminate", why, nullptr);
    throw Kill{why, false};
}

static void unwind(State& s) {
    Thread& t = s.th[s.cur];
    // current frame's instruction raised; look for a handler from the top frame
    bool top = true;
    while (true) {
        Frame& f = t.st.back();
        const KInst& ki = f.kf->blocks[f.bb].insts[f.ip];
        if (auto* inv = dyn_cast<InvokeInst>(ki.I)) {
            const LandingPadInst* lp = inv->getLandingPadInst();
            bool match = lp->isCleanup();
            uint32_t sel = 0;
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (lp->isCatch(i)) {
                    Val v = evalConst(lp->getClause(i));
                    uint64_t ct = v.e->u();
                    if (typeMatches(s, t.excType, ct)) { match = true; sel = ct ? (uint32_t)((ct >> SLOT_BITS) - SLOT0) + 1 : 1; break; }
                } else { // filter: exception specification
                    match = true;
                    if (lp->getClause(i)->getNumOperands() == 0) { sel = (uint32_t)-1; break; }
                }
            }
            if (match) {
                enterBlock(f, inv->getParent(), inv->getUnwindDest());
                // the landingpad instruction must be the first non-phi
                const KInst& lk = f.kf->blocks[f.bb].insts[f.ip];
                Val v; v.agg = std::make_shared<std::vector<Val>>();
                v.agg->push_back(Val(mkConst(t.excPtr, 64)));
                v.agg->push_back(Val(mkConst(sel, 32)));
                f.regs[lk.dest] = v;
                f.ip++;
                return;
            }
        } else if (!top && f.kf->F->doesNotThrow() && false) {
            terminateViolation(s, "exception escapes a noexcept function");
        }
        top = false;
        bool nothrow = f.kf->F->doesNotThrow();
        if (nothrow) terminateViolation(s, "exception escapes a noexcept function");
        if (t.st.size() == 1) {
            terminateViolation(s, "uncaught exception: process terminates");
        }
        popFrame(s, s.cur);
    }
}

// ------------------------------------------------------------------ builtins
static std::string readStr(State& s, E p) {
    uint64_t a = concretize(s, p);
    std::string r;
    for (;; a++) {
        E b = loadBytes(s, mkConst(a, 64), 1);
        uint8_t c = (uint8_t)concretize(s, b);
        if (!c) break;
        r += (char)c;
        if (r.size() > 4096) break;
    }
    return r;
}

static uint64_t siteHash(const State& s) {
    uint64_t h = 1469598103934665603ull;
    auto& st = s.th[s.cur].st;
    for (size_t i = st.size(); i-- > 0 && st.size() - i < 6;) {
        h ^= (uint64_t)(uintptr_t)st[i].kf->F; h *= 1099511628211ull;
        h ^= ((uint64_t)st[i].bb << 16) | st[i].ip; h *= 1099511628211ull;
    }
    return h | (1ull << 62);
}

static E memByte(State& s, uint64_t a) { uint64_t off; Obj* o = objAt(s, a, off); return o->b[off]; }

static void doMemcpy(State& s, E dst, E src, E len) {
    uint64_t n = concretize(s, len);
    if (!n) return;
    uint64_t d = concretize(s, dst), r = concretize(s, src);
    checkAccess(s, r, n, false);
    checkAccess(s, d, n, true);
    std::vector<E> tmp(n);
    uint64_t off; Obj* o = objAt(s, r, off);
    for (uint64_t i = 0; i < n; i++) tmp[i] = o->b[off + i];
    Obj* w = wobj(s, d);
    off = d & (SLOT - 1);
    for (uint64_t i = 0; i < n; i++) w->b[off + i] = tmp[i];
}
static void doMemset(State& s, E dst, E val, E len) {
    uint64_t n = concretize(s, len);
    if (!n) return;
    uint64_t d = concretize(s, dst);
    checkAccess(s, d, n, true);
    Obj* w = wobj(s, d);
    uint64_t off = d & (SLOT - 1);
    E v = mkExtract(val, 0, 8);
    for (uint64_t i = 0; i < n; i++) w->b[off + i] = v;
}
static E doMemcmp(State& s, E a, E b, E len) {
    uint64_t n = concretize(s, len);
    if (!n) return mkConst(0, 32);
    uint64_t p = concretize(s, a), q = concretize(s, b);
    checkAccess(s, p, n, false);
    checkAccess(s, q, n, false);
    E r = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
        E x = memByte(s, p + i), y = memByte(s, q + i);
        r = mkIte(mkEq(x, y), r, mkIte(mkBin(O_ULT, x, y), mkConst((u128)-1, 32), mkConst(1, 32)));
    }
    return r;
}
static uint64_t doMalloc(State& s, uint64_t n, uint8_t fill) {
    if (n > (1ull << 40)) return 0;
    uint64_t p = allocObj(s, n, K_HEAP, fill);
    wobj(s, p)->site = siteHash(s);
    s.heapLive += n;
    return p;
}
static void doFree(State& s, uint64_t p) {
    if (!p) return;
    uint64_t off; Obj* o = objAt(s, p, off);
    if (!o || o->kind != K_HEAP || off) memViolation(s, "free of a pointer that was not allocated", p, 0);
    if (o->freed) memViolation(s, "double free", p, 0);
    s.heapLive -= o->b.size();
    Obj* w = wobj(s, p);
    w->freed = true;
    std::vector<E>().swap(w->b);
}

static E newInput(State& s, const std::string& name, unsigned w) {
    std::string vn = name + "#" + std::to_string(s.inputs.size());
    E v = mkVar(vn, w);
    s.inputs.push_back({name, v});
    auto it = optFix.find(name);
    if (it != optFix.end()) {
        if (!addCons(s, mkEq(v, mkConst(it->second, w)))) throw Kill{"fix", false};
    }
    return v;
}

static void finishWitness(State& s) {
    static uint64_t nextWit = 1;
    if (g_witness.empty()) nextWit = 1;
    if (g_witness.size() >= optWitness || g_st.paths < nextWit) return;
    nextWit = nextWit < 4 ? nextWit + 1 : nextWit * 3;
    std::string fn = optOut + ".wit" + std::to_string(g_witness.size()) + ".txt";
    writeInputs(fn, s, *s.model, true);
    g_witness.push_back(fn);
}

enum BRes { B_NEXT, B_STAY, B_NOTFOUND };

// executes a builtin. B_NEXT: advance past the call (result in ret)
static BRes builtin(State& s, StringRef n, const std::vector<Val>& a, const Instruction* I, Val& ret) {
    auto c64 = [](uint64_t v) { return Val(mkConst(v, 64)); };
    Thread& t = s.th[s.cur];
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "valloc") {
        uint64_t sz = concretize(s, a[0].e);
        ret = c64(doMalloc(s, sz, 0xBE));
        return B_NEXT;
    }
    if (n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { ret = c64(doMalloc(s, concretize(s, a[0].e), 0xBE)); return B_NEXT; }
    if (n == "calloc") {
        uint64_t x = concretize(s, a[0].e), y = concretize(s, a[1].e);
        ret = c64(doMalloc(s, x * y, 0));
        return B_NEXT;
    }
    if (n == "realloc") {
        uint64_t p = concretize(s, a[0].e), sz = concretize(s, a[1].e);
        if (!p) { ret = c64(doMalloc(s, sz, 0xBE)); return B_NEXT; }
        if (!sz) { doFree(s, p); ret = c64(0); return B_NEXT; }
        uint64_t off; Obj* o = objAt(s, p, off);
        if (!o || o->kind != K_HEAP || off) memViolation(s, "realloc of a pointer that was not allocated", p, 0);
        if (o->freed) memViolation(s, "realloc after free", p, 0);
        uint64_t q = doMalloc(s, sz, 0xBE);
        if (q) {
            Obj* w = wobj(s, q);
            uint64_t dummy; o = objAt(s, p, dummy);
            for (uint64_t i = 0; i < std::min<uint64_t>(sz, o->b.size()); i++) w->b[i] = o->b[i];
            doFree(s, p);
        }
        ret = c64(q);
        return B_NEXT;
    }
    if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvRKSt9nothrow_t") {
        doFree(s, concretize(s, a[0].e));
        return B_NEXT;
    }
    if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__tsan_memcpy" || n == "__tsan_memmove") { doMemcpy(s, a[0].e, a[1].e, a[2].e); ret = a[0]; return B_NEXT; }
    if (n == "memset" || n == "__tsan_memset") { doMemset(s, a[0].e, a[1].e, a[2].e); ret = a[0]; return B_NEXT; }
    if (n == "memcmp" || n == "bcmp") { ret = Val(doMemcmp(s, a[0].e, a[1].e, a[2].e)); return B_NEXT; }
    if (n == "abort" || n == "_ZSt9terminatev") {
        report(s, "abort", n == "abort" ? "abort() called" : "std::terminate() called", nullptr);
        throw Kill{"abort", false};
    }
    if (n == "__assert_fail") { report(s, "abort", "assertion failed: " + readStr(s, a[0].e), nullptr); throw Kill{"assert", false}; }
    if (n == "__cxa_pure_virtual") { report(s, "abort", "pure virtual call", nullptr); throw Kill{"pure", false}; }
    if (n.starts_with("sym_")) {
        if (n == "sym_u8" || n == "sym_u16" || n == "sym_u32" || n == "sym_u64") {
            unsigned w = n == "sym_u8" ? 8 : n == "sym_u16" ? 16 : n == "sym_u32" ? 32 : 64;
            ret = Val(newInput(s, readStr(s, a[0].e), w));
            return B_NEXT;
        }
        if (n == "sym_range") { // (name, lo, hi) u64
            std::string nm = readStr(s, a[0].e);
            E v = newInput(s, nm, 64);
            if (!addCons(s, mkAnd(mkBin(O_ULE, a[1].e, v), mkBin(O_ULE, v, a[2].e)))) throw Kill{"empty range", false};
            ret = Val(v);
            return B_NEXT;
        }
        if (n == "sym_choice") { // (name, n) -> concrete 0..n-1, forked eagerly
            std::string nm = readStr(s, a[0].e);
            uint64_t k = concretize(s, a[1].e);
            if (!k) throw Kill{"empty choice", false};
            std::string vn = nm + "#" + std::to_string(s.inputs.size());
            E v = mkVar(vn, 32);
            auto it = optFix.find(nm);
            if (!optEager && it == optFix.end()) { // stays symbolic until the code branches on it
                s.inputs.push_back({nm, v});
                pushCons(s, mkBin(O_ULT, v, mkConst(k, 32)));
                auto m = std::make_shared<Model>(*s.model);
                if (m->v.size() <= v->off) m->v.resize(v->off + 1, 0);
                m->v[v->off] = 0;
                s.model = m;
                if (k <= 64) s.dom.push_back({v->off, k == 64 ? ~0ull : (1ull << k) - 1});
                if (k == 1) { s.subst.push_back({v->off, mkConst(0, 32)}); ret = Val(mkConst(0, 32)); return B_NEXT; }
                ret = Val(v);
                return B_NEXT;
            }
            auto take = [&](State& st, uint64_t x) {
                st.inputs.push_back({nm, v});
                pushCons(st, mkEq(v, mkConst(x, 32)));
                auto m = std::make_shared<Model>(*st.model);
                if (m->v.size() <= v->off) m->v.resize(v->off + 1, 0);
                m->v[v->off] = x;
                st.model = m;
            };
            // the variable is fresh, so every value 0..k-1 is feasible
            auto* ki = &t.st.back().kf->blocks[t.st.back().bb].insts[t.st.back().ip];
            for (uint64_t x = k; x-- > 1;) {
                if (it != optFix.end() && it->second != x) continue;
                if (it != optFix.end()) { take(s, x); ret = Val(mkConst(x, 32)); return B_NEXT; }
                State* alt = cloneState(s);
                take(*alt, x);
                Frame& f = alt->th[alt->cur].st.back();
                f.regs[ki->dest] = Val(mkConst(x, 32));
                if (isa<InvokeInst>(I)) enterBlock(f, I->getParent(), cast<InvokeInst>(I)->getNormalDest()); else f.ip++;
                g_st.forks++;
                pushWork(alt);
            }
            if (it != optFix.end() && it->second != 0) throw Kill{"fix", false};
            take(s, 0);
            ret = Val(mkConst(0, 32));
            return B_NEXT;
        }
        if (n == "sym_bytes") { // (ptr, n, name)
            uint64_t p = concretize(s, a[0].e), k = concretize(s, a[1].e);
            std::string nm = readStr(s, a[2].e);
            if (k) checkAccess(s, p, k, true);
            for (uint64_t i = 0; i < k; i++) storeBytes(s, mkConst(p + i, 64), newInput(s, nm, 8));
            return B_NEXT;
        }
        if (n == "sym_assume") {
            E c = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)));
            if (!addCons(s, c)) { g_st.killed_assume++; throw Kill{"assume", false}; }
            return B_NEXT;
        }
        if (n == "sym_check_") {
            std::string msg = readStr(s, a[1].e);
            E c = mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)));
            g_st.checks++;
            auto& ck = g_checks[msg];
            ck.first++;
            ModelRef m;
            if (mayBeTrue(s, mkNot(c), &m)) {
                ck.second++;
                report(s, "check", msg, m);
                if (!addCons(s, c)) throw Kill{"check failed", false};
            } else if (!c->isC()) {
                // implied; no need to add
            }
            return B_NEXT;
        }
        if (n == "sym_concretize") { ret = c64(concretize(s, a[0].e)); return B_NEXT; }
        if (n == "sym_observe") {
            std::string nm = readStr(s, a[0].e);
            s.obs.push_back({nm, a[1].e});
            return B_NEXT;
        }
        if (n == "sym_reached") { g_reached[readStr(s, a[0].e)]++; return B_NEXT; }
        if (n == "sym_is_engine") { ret = Val(mkConst(1, 32)); return B_NEXT; }
        if (n == "sym_heap_live") { ret = c64(s.heapLive); return B_NEXT; }
        if (n == "sym_silent_exit") throw Kill{"silent exit", false};
    }
    if (n.starts_with("__eng_")) {
        if (n == "__eng_self") { ret = Val(mkConst(s.cur, 32)); return B_NEXT; }
        if (n == "__eng_spawn") {
            uint64_t fa = concretize(s, a[0].e);
            auto it = g_faddrRev.find(fa);
            if (it == g_faddrRev.end()) memViolation(s, "thread started at an invalid function", fa, 0);
            unsigned id = s.th.size();
            s.th.emplace_back();
            pushFrame(s, id, it->second, {a[1]});
            ret = Val(mkConst(id, 32));
            return B_NEXT;
        }
        if (n == "__eng_yield") { // visible operation (lock, unlock, wait, notify, join, ...)
            schedPoint(s, s.th.size() > 1);
            return B_NEXT;
        }
        if (n == "__eng_access") { // (ptr, size, write)
            bool fork = false;
            if (s.th.size() > 1) {
                uint64_t p = a[0].e->isC() ? a[0].e->u() : (uint64_t)evalExpr(a[0].e, *s.model);
                uint64_t off; Obj* o = objAt(s, p, off);
                if (o && !o->freed && (o->kind == K_HEAP || o->kind == K_GLOBAL) && !o->ro) {
                    uint64_t site = o->kind == K_GLOBAL ? p - off : o->site;
                    uint64_t oi = (p >> SLOT_BITS) - SLOT0 - 1;
                    if (s.acc.size() <= oi) s.acc.resize(s.mem.size());
                    uint16_t& m = s.acc[oi];
                    m |= 1u << std::min(s.cur, 14u);
                    if (a[2].e->isC() && a[2].e->val) m |= 1u << 15;
                    uint16_t mt = m & 0x7fff;
                    if ((m >> 15) && (mt & (mt - 1))) g_siteThreads[site] |= mt | (1ull << 63);
                    fork = optSharedAll || g_shared.count(site);
                }
            }
            schedPoint(s, fork);
            return B_NEXT;
        }
        if (n == "__eng_block") { // (key): the current thread sleeps until woken
            uint64_t key = concretize(s, a[0].e);
            t.status = T_BLOCK;
            t.blockKey = key;
            // advance first: when woken, continue after the call
            Frame& f = t.st.back();
            if (auto* inv = dyn_cast<InvokeInst>(I)) enterBlock(f, I->getParent(), inv->getNormalDest()); else f.ip++;
            switchBlocked(s);
            return B_STAY;
        }
        if (n == "__eng_wake") { // (key, all)
            uint64_t key = concretize(s, a[0].e), all = concretize(s, a[1].e);
            std::vector<unsigned> w;
            for (unsigned i = 0; i < s.th.size(); i++) if (s.th[i].status == T_BLOCK && s.th[i].blockKey == key) w.push_back(i);
            if (all) { for (unsigned i : w) s.th[i].status = T_RUN; }
            else if (!w.empty()) {
                for (size_t k = 1; k < w.size(); k++) {
                    State* alt = cloneState(s);
                    alt->th[w[k]].status = T_RUN;
                    recordSched(*alt, 'w', s.cur, t.ev, w[k]);
                    Frame& f = alt->th[alt->cur].st.back();
                    f.ip++;
                    g_st.schedForks++;
                    pushWork(alt);
                }
                if (w.size() > 1) recordSched(s, 'w', s.cur, t.ev, w[0]);
                s.th[w[0]].status = T_RUN;
            }
            return B_NEXT;
        }
        if (n == "__eng_fail") { report(s, "sync", readStr(s, a[0].e), nullptr); throw Kill{"sync", false}; }
    }
    // ---- C++ ABI
    if (n == "__cxa_allocate_exception") {
        uint64_t p = allocObj(s, concretize(s, a[0].e), K_HEAP, 0);
        ret = c64(p);
        return B_NEXT;
    }
    if (n == "__cxa_free_exception") return B_NEXT;
    if (n == "__cxa_throw") {
        t.excPtr = a[0].e->u(); t.excType = a[1].e->u();
        s.excTypes[t.excPtr] = t.excType;
        unwind(s);
        return B_STAY;
    }
    if (n == "__cxa_rethrow") {
        if (t.caught.empty()) terminateViolation(s, "rethrow without exception");
        t.excPtr = t.caught.back().first; t.excType = t.caught.back().second;
        unwind(s);
        return B_STAY;
    }
    if (n == "_Unwind_Resume") {
        t.excPtr = a[0].e->u(); t.excType = s.excTypes[t.excPtr];
        unwind(s);
        return B_STAY;
    }
    if (n == "__cxa_begin_catch") { uint64_t p = a[0].e->u(); t.caught.push_back({p, s.excTypes[p]}); ret = a[0]; return B_NEXT; }
    if (n == "__cxa_get_exception_ptr") { ret = a[0]; return B_NEXT; }
    if (n == "__cxa_end_catch") { if (!t.caught.empty()) t.caught.pop_back(); return B_NEXT; }
    if (n == "__cxa_guard_acquire") {
        E g = loadBytes(s, a[0].e, 1);
        ret = Val(mkConst(g->isC() && g->val == 0 ? 1 : 0, 32));
        return B_NEXT;
    }
    if (n == "__cxa_guard_release") { storeBytes(s, a[0].e, mkConst(1, 8)); return B_NEXT; }
    if (n == "__cxa_guard_abort") return B_NEXT;
    if (n == "__cxa_atexit") { ret = Val(mkConst(0, 32)); return B_NEXT; }
    return B_NOTFOUND;
}

static double toD(E e) {
    if (e->w == 32) { uint32_t v = (uint32_t)e->val; float f; memcpy(&f, &v, 4); return f; }
    uint64_t v = e->u(); double d; memcpy(&d, &v, 8); return d;
}
static E fromD(double d, unsigned w) {
    if (w == 32) { float f = (float)d; uint32_t v; memcpy(&v, &f, 4); return mkConst(v, 32); }
    uint64_t v; memcpy(&v, &d, 8); return mkConst(v, 64);
}

static std::set<std::string> g_warned;

// intrinsics; returns false if unknown
static bool intrinsic(State& s, const CallBase* cb, Intrinsic::ID id, const std::vector<Val>& a, Val& ret) {
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(s, a[0].e, a[1].e, a[2].e); return true;
    case Intrinsic::memset: doMemset(s, a[0].e, a[1].e, a[2].e); return true;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
    case Intrinsic::prefetch: case Intrinsic::vaend: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        return true;
    case Intrinsic::stacksave: ret = Val(mkConst(0, 64)); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::returnaddress: case Intrinsic::frameaddress: ret = Val(mkConst(0, 64)); return true;
    case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; return true;
    case Intrinsic::is_constant: ret = Val(mkBool(false)); return true;
    case Intrinsic::objectsize: ret = Val(mkConst((u128)-1, typeBits(cb->getType()))); return true;
    case Intrinsic::threadlocal_address: {
        auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts());
        if (!gv) if (auto* ga = dyn_cast<GlobalAlias>(cb->getArgOperand(0))) gv = dyn_cast<GlobalVariable>(ga->getAliaseeObject());
        if (!gv) throw Kill{"tls of unknown global", true};
        auto& m = s.th[s.cur].tls;
        auto it = m.find(gv);
        if (it == m.end()) {
            uint64_t sz = g_dl->getTypeAllocSize(gv->getValueType());
            uint64_t p = allocObj(s, sz, K_TLS, 0);
            if (gv->hasInitializer() && !gv->getInitializer()->isNullValue())
                storeTyped(s, mkConst(p, 64), evalConst(gv->getInitializer()), gv->getValueType());
            it = m.emplace(gv, p).first;
        }
        ret = Val(mkConst(it->second, 64));
        return true;
    }
    case Intrinsic::eh_typeid_for: {
        uint64_t ct = a[0].e->u();
        ret = Val(mkConst(ct ? (uint32_t)((ct >> SLOT_BITS) - SLOT0) + 1 : 1, 32));
        return true;
    }
    case Intrinsic::vastart: {
        uint64_t va = concretize(s, a[0].e);
        uint64_t area = s.th[s.cur].st.back().vararg;
        storeBytes(s, mkConst(va, 64), mkConst(48, 32));
        storeBytes(s, mkConst(va + 4, 64), mkConst(176, 32));
        storeBytes(s, mkConst(va + 8, 64), mkConst(area, 64));
        storeBytes(s, mkConst(va + 16, 64), mkConst(0, 64));
        return true;
    }
    case Intrinsic::vacopy: doMemcpy(s, a[0].e, a[1].e, mkConst(24, 64)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
        report(s, "abort", "trap", nullptr);
        throw Kill{"trap", false};
    case Intrinsic::bswap: {
        E x = a[0].e; unsigned n = x->w / 8; E r = mkExtract(x, 0, 8);
        for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8));
        ret = Val(r); return true;
    }
    case Intrinsic::ctpop: {
        E x = a[0].e; E r = mkConst(0, x->w);
        for (unsigned i = 0; i < x->w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, 1), x->w));
        ret = Val(r); return true;
    }
    case Intrinsic::ctlz: {
        E x = a[0].e; E r = mkConst(x->w, x->w);
        for (unsigned i = 0; i < x->w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(x->w - 1 - i, x->w), r);
        ret = Val(r); return true;
    }
    case Intrinsic::cttz: {
        E x = a[0].e; E r = mkConst(x->w, x->w);
        for (unsigned i = x->w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, x->w), r);
        ret = Val(r); return true;
    }
    case Intrinsic::umin: ret = Val(mkIte(mkBin(O_ULT, a[0].e, a[1].e), a[0].e, a[1].e)); return true;
    case Intrinsic::umax: ret = Val(mkIte(mkBin(O_ULT, a[0].e, a[1].e), a[1].e, a[0].e)); return true;
    case Intrinsic::smin: ret = Val(mkIte(mkBin(O_SLT, a[0].e, a[1].e), a[0].e, a[1].e)); return true;
    case Intrinsic::smax: ret = Val(mkIte(mkBin(O_SLT, a[0].e, a[1].e), a[1].e, a[0].e)); return true;
    case Intrinsic::abs: ret = Val(mkIte(mkBin(O_SLT, a[0].e, mkConst(0, a[0].e->w)), mkSub(mkConst(0, a[0].e->w), a[0].e), a[0].e)); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = a[0].e->w;
        uint64_t sh = concretize(s, a[2].e) % w;
        E cat = w <= 64 ? mkConcat(a[0].e, a[1].e) : nullptr;
        if (!cat) return false;
        ret = Val(id == Intrinsic::fshl ? mkExtract(cat, w - sh, w) : (sh ? mkExtract(cat, sh, w) : a[1].e));
        if (id == Intrinsic::fshl && sh == 0) ret = a[0];
        return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? O_ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? O_SUB : O_MUL;
        unsigned w = a[0].e->w, w2 = op == O_MUL ? 2 * w : w + 1;
        if (w2 > 128) return false;
        E x = sg ? mkSext(a[0].e, w2) : mkZext(a[0].e, w2), y = sg ? mkSext(a[1].e, w2) : mkZext(a[1].e, w2);
        E r = mkBin(op, x, y);
        E lo = mkExtract(r, 0, w);
        E back = sg ? mkSext(lo, w2) : mkZext(lo, w2);
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(Val(lo));
        v.agg->push_back(Val(mkNot(mkEq(back, r))));
        ret = v;
        return true;
    }
    case Intrinsic::usub_sat: ret = Val(mkIte(mkBin(O_ULT, a[0].e, a[1].e), mkConst(0, a[0].e->w), mkSub(a[0].e, a[1].e))); return true;
    case Intrinsic::uadd_sat: { E r = mkAdd(a[0].e, a[1].e); ret = Val(mkIte(mkBin(O_ULT, r, a[0].e), mkConst(maskw(r->w), r->w), r)); return true; }
    case Intrinsic::ceil: ret = Val(fromD(std::ceil(toD(mkConst(concretize(s, a[0].e), a[0].e->w))), a[0].e->w)); return true;
    case Intrinsic::floor: ret = Val(fromD(std::floor(toD(mkConst(concretize(s, a[0].e), a[0].e->w))), a[0].e->w)); return true;
    case Intrinsic::fabs: ret = Val(mkAnd(a[0].e, mkConst(maskw(a[0].e->w) >> 1, a[0].e->w))); return true;
    case Intrinsic::fmuladd: {
        unsigned w = a[0].e->w;
        E x = mkConst(concretize(s, a[0].e), w), y = mkConst(concretize(s, a[1].e), w), z = mkConst(concretize(s, a[2].e), w);
        ret = Val(fromD(toD(x) * toD(y) + toD(z), w)); return true;
    }
    default: return false;
    }
}

static std::unordered_map<const Function*, const Function*> g_hs;
// harness and model code reach the real functions; everything else is redirected
static bool callsEnvironment(const Function* f) {
    static std::unordered_map<const Function*, bool> memo;
    auto it = memo.find(f);
    if (it != memo.end()) return it->second;
    bool r = false;
    if (auto* sp = f->getSubprogram()) {
        std::string p = (sp->getFilename().starts_with("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str();
        r = p.find("/verif/harness/") == std::string::npos && p.find("/verif/rt/") == std::string::npos;
    }
    return memo[f] = r;
}
// performs a call from the current frame; handles advancing
static void doCall(State& s, const CallBase* cb, const KInst& ki) {
    Thread& t = s.th[s.cur];
    Frame& f = t.st.back();
    const Function* F = nullptr;
    Value* cv = cb->getCalledOperand();
    unsigned na = cb->arg_size();
    if (isa<InlineAsm>(cv)) {
        // only empty barriers are supported
        if (cast<InlineAsm>(cv)->getAsmString().empty()) { f.ip++; return; }
        throw Kill{"inline asm", true};
    }
    unsigned cidx = cb->getNumOperands() - 1;
    E callee = opv(f, ki, cidx).e;
    uint64_t fa = callee->isC() ? callee->u() : concretize(s, callee);
    auto fit = g_faddrRev.find(fa);
    if (fit == g_faddrRev.end()) {
        if (fa == 0) memViolation(s, "call through a null function pointer", fa, 0);
        memViolation(s, "call through an invalid function pointer", fa, 0);
    }
    F = fit->second;
    std::vector<Val> args;
    args.reserve(na);
    for (unsigned i = 0; i < na; i++) {
        if (ki.ops[i] == INT32_MIN) args.push_back(Val());
        else args.push_back(opv(f, ki, i));
    }
    Val ret;
    auto advance = [&](State& st, const Val& r) {
        Frame& fr = st.th[st.cur].st.back();
        if (ki.dest >= 0) fr.regs[ki.dest] = r;
        if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(fr, cb->getParent(), inv->getNormalDest());
        else fr.ip++;
    };
    if (F->isIntrinsic()) {
        if (!intrinsic(s, cb, F->getIntrinsicID(), args, ret)) throw Kill{"unsupported intrinsic " + F->getName().str(), true};
        advance(s, ret);
        return;
    }
    if (callsEnvironment(cb->getFunction())) { // environment functions are modelled by the harness: f -> hs_f
        auto h = g_hs.find(F);
        if (h == g_hs.end()) {
            const Function* H = g_mod->getFunction(("hs_" + F->getName()).str());
            if (H && H->isDeclaration()) H = nullptr;
            h = g_hs.emplace(F, H).first;
        }
        if (h->second) F = h->second;
    }
    if (!F->isDeclaration()) { pushFrame(s, s.cur, F, args); return; }
    BRes r = builtin(s, F->getName(), args, cb, ret);
    if (r == B_STAY) return;
    if (r == B_NEXT) {
        if (ki.dest >= 0 && !ret.e && !ret.agg) ret = zeroVal(cb->getType());
        advance(s, ret);
        return;
    }
    throw Kill{"call to an unmodelled external function " + F->getName().str(), true};
}

static E doCmp(CmpInst::Predicate p, E a, E b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkBin(O_ULT, a, b);
    case CmpInst::ICMP_ULE: return mkBin(O_ULE, a, b);
    case CmpInst::ICMP_UGT: return mkBin(O_ULT, b, a);
    case CmpInst::ICMP_UGE: return mkBin(O_ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(O_SLT, a, b);
    case CmpInst::ICMP_SLE: return mkBin(O_SLE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(O_SLT, b, a);
    case CmpInst::ICMP_SGE: return mkBin(O_SLE, b, a);
    default: throw Kill{"compare", true};
    }
}

static E binop(State& s, unsigned opc, E a, E b, Type* t) {
    switch (opc) {
    case Instruction::Add: return mkAdd(a, b);
    case Instruction::Sub: return mkSub(a, b);
    case Instruction::Mul: return mkBin(O_MUL, a, b);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E z = mkEq(b, mkConst(0, b->w));
        ModelRef m;
        if (mayBeTrue(s, z, &m)) {
            report(s, "arith", "division by zero", m);
            if (!addCons(s, mkNot(z))) throw Kill{"div0", false};
        }
        Op o = opc == Instruction::UDiv ? O_UDIV : opc == Instruction::SDiv ? O_SDIV : opc == Instruction::URem ? O_UREM : O_SREM;
        return mkBin(o, a, b);
    }
    case Instruction::And: return mkAnd(a, b);
    case Instruction::Or: return mkOr(a, b);
    case Instruction::Xor: return mkBin(O_XOR, a, b);
    case Instruction::Shl: return mkBin(O_SHL, a, b);
    case Instruction::LShr: return mkBin(O_LSHR, a, b);
    case Instruction::AShr: return mkBin(O_ASHR, a, b);
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        unsigned w = a->w;
        double x = toD(mkConst(concretize(s, a), w)), y = toD(mkConst(concretize(s, b), w));
        if (w == 32) {
            float p = (float)x, q = (float)y;
            switch (opc) { case Instruction::FAdd: return fromD(p + q, 32); case Instruction::FSub: return fromD(p - q, 32); case Instruction::FMul: return fromD(p * q, 32); case Instruction::FDiv: return fromD(p / q, 32); default: return fromD(fmodf(p, q), 32); }
        }
        switch (opc) { case Instruction::FAdd: return fromD(x + y, w); case Instruction::FSub: return fromD(x - y, w); case Instruction::FMul: return fromD(x * y, w); case Instruction::FDiv: return fromD(x / y, w); default: return fromD(fmod(x, y), w); }
    }
    default: throw Kill{"binop", true};
    }
}

static Val mapVec(const Val& a, std::function<E(E)> f) {
    if (!a.agg) return Val(f(a.e));
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    for (auto& x : *a.agg) r.agg->push_back(Val(f(x.e)));
    return r;
}
static Val mapVec2(const Val& a, const Val& b, std::function<E(E, E)> f) {
    if (!a.agg) return Val(f(a.e, b.e));
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(Val(f((*a.agg)[i].e, (*b.agg)[i].e)));
    return r;
}

static void setReg(State& s, int dest, const Val& v) { s.th[s.cur].st.back().regs[dest] = v; }

static void step(State& s) {
    g_cur = &s;
    Thread& t = s.th[s.cur];
    Frame& f = t.st.back();
    const KInst& ki = f.kf->blocks[f.bb].insts[f.ip];
    const Instruction* I = ki.I;
    g_st.insts++;
    f.kf->nInst++;
    if (++s.steps > optMaxSteps) {
        report(s, "hang", "step limit reached", nullptr);
        throw Kill{"step limit", false};
    }
    switch (I->getOpcode()) {
    case Instruction::Ret: {
        Val rv;
        if (I->getNumOperands()) rv = opv(f, ki, 0);
        popFrame(s, s.cur);
        if (t.st.empty()) {
            if (s.cur == 0) { finishWitness(s); endPath(s); }
            t.status = T_DONE;
            switchBlocked(s);
            return;
        }
        Frame& c = t.st.back();
        const KInst& ck = c.kf->blocks[c.bb].insts[c.ip];
        if (ck.dest >= 0) c.regs[ck.dest] = rv;
        if (auto* inv = dyn_cast<InvokeInst>(ck.I)) enterBlock(c, inv->getParent(), inv->getNormalDest());
        else c.ip++;
        return;
    }
    case Instruction::Br: {
        auto* br = cast<BranchInst>(I);
        if (br->isUnconditional()) { enterBlock(f, br->getParent(), br->getSuccessor(0)); return; }
        E c = opv(f, ki, 0).e;
        g_st.branches++;
        if (c->isC()) { enterBlock(f, br->getParent(), br->getSuccessor(c->val ? 0 : 1)); return; }
        bool v = evalExpr(c, *s.model) != 0;
        ModelRef m;
        E other = v ? mkNot(c) : c;
        if (mayBeTrue(s, other, &m)) {
            State* alt = cloneState(s);
            alt->model = m;
            pushCons(*alt, other);
            alt->depth++;
            enterBlock(alt->th[alt->cur].st.back(), br->getParent(), br->getSuccessor(v ? 1 : 0));
            g_st.forks++;
            pushWork(alt);
            pushCons(s, v ? c : mkNot(c));
            s.depth++;
        }
        enterBlock(f, br->getParent(), br->getSuccessor(v ? 0 : 1));
        return;
    }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(I);
        E c = opv(f, ki, 0).e;
        g_st.branches++;
        if (c->isC()) {
            auto* ci = ConstantInt::get(g_ctx, APInt(c->w, (uint64_t)c->val));
            enterBlock(f, sw->getParent(), sw->findCaseValue(ci)->getCaseSuccessor());
            return;
        }
        // group case values by successor
        std::vector<std::pair<const BasicBlock*, E>> groups;
        E none = mkBool(true);
        for (auto cs : sw->cases()) {
            E eq = mkEq(c, mkConst(apToU(cs.getCaseValue()->getValue()), c->w));
            none = mkAnd(none, mkNot(eq));
            bool found = false;
            for (auto& g : groups) if (g.first == cs.getCaseSuccessor()) { g.second = mkOr(g.second, eq); found = true; }
            if (!found) groups.push_back({cs.getCaseSuccessor(), eq});
        }
        bool fd = false;
        for (auto& g : groups) if (g.first == sw->getDefaultDest()) { g.second = mkOr(g.second, none); fd = true; }
        if (!fd) groups.push_back({sw->getDefaultDest(), none});
        const BasicBlock* mine = nullptr; E mc = nullptr;
        for (auto& g : groups) {
            if (!mine && evalExpr(g.second, *s.model)) { mine = g.first; mc = g.second; continue; }
            ModelRef m;
            if (mayBeTrue(s, g.second, &m)) {
                State* alt = cloneState(s);
                alt->model = m;
                pushCons(*alt, g.second);
                enterBlock(alt->th[alt->cur].st.back(), sw->getParent(), g.first);
                g_st.forks++;
                pushWork(alt);
            }
        }
        pushCons(s, mc);
        enterBlock(f, sw->getParent(), mine);
        return;
    }
    case Instruction::Unreachable:
        report(s, "abort", "unreachable code reached", nullptr);
        throw Kill{"unreachable", false};
    case Instruction::Call: case Instruction::Invoke:
        doCall(s, cast<CallBase>(I), ki);
        return;
    case Instruction::Resume: {
        Val v = opv(f, ki, 0);
        t.excPtr = (*v.agg)[0].e->u();
        t.excType = s.excTypes[t.excPtr];
        unwind(s);
        return;
    }
    case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(I);
        uint64_t n = concretize(s, opv(f, ki, 0).e);
        uint64_t sz = g_dl->getTypeAllocSize(ai->getAllocatedType()) * n;
        uint64_t p = allocObj(s, sz, K_STACK, 0xAA);
        f.allocas.push_back(p);
        f.regs[ki.dest] = Val(mkConst(p, 64));
        f.ip++;
        return;
    }
    case Instruction::Load: {
        Val v = loadTyped(s, opv(f, ki, 0).e, I->getType());
        s.th[s.cur].st.back().regs[ki.dest] = v;
        s.th[s.cur].st.back().ip++;
        return;
    }
    case Instruction::Store: {
        storeTyped(s, opv(f, ki, 1).e, opv(f, ki, 0), I->getOperand(0)->getType());
        f.ip++;
        return;
    }
    case Instruction::GetElementPtr: {
        f.regs[ki.dest] = Val(gepOffset(cast<GEPOperator>(I), [&](unsigned i) { return opv(f, ki, i).e; }));
        f.ip++;
        return;
    }
    case Instruction::ICmp: {
        auto p = cast<ICmpInst>(I)->getPredicate();
        f.regs[ki.dest] = mapVec2(opv(f, ki, 0), opv(f, ki, 1), [&](E a, E b) { return doCmp(p, a, b); });
        f.ip++;
        return;
    }
    case Instruction::FCmp: {
        E a = opv(f, ki, 0).e, b = opv(f, ki, 1).e;
        double x = toD(mkConst(concretize(s, a), a->w)), y = toD(mkConst(concretize(s, b), b->w));
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (cast<FCmpInst>(I)->getPredicate()) {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = !un && x > y; break;
        case CmpInst::FCMP_OGE: r = !un && x >= y; break;
        case CmpInst::FCMP_OLT: r = !un && x < y; break;
        case CmpInst::FCMP_OLE: r = !un && x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        case CmpInst::FCMP_TRUE: r = true; break;
        default: break;
        }
        s.th[s.cur].st.back().regs[ki.dest] = Val(mkBool(r));
        s.th[s.cur].st.back().ip++;
        return;
    }
    case Instruction::Select: {
        E c = opv(f, ki, 0).e;
        const Val &a = opv(f, ki, 1), &b = opv(f, ki, 2);
        if (!c) throw Kill{"vector select", true};
        std::function<Val(const Val&, const Val&)> sel = [&](const Val& x, const Val& y) -> Val {
            if (x.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < x.agg->size(); i++) r.agg->push_back(sel((*x.agg)[i], (*y.agg)[i])); return r; }
            return Val(mkIte(c, x.e, y.e));
        };
        f.regs[ki.dest] = sel(a, b);
        f.ip++;
        return;
    }
    case Instruction::Trunc: { unsigned w = typeBits(I->getType()); f.regs[ki.dest] = mapVec(opv(f, ki, 0), [&](E x) { return mkExtract(x, 0, w); }); f.ip++; return; }
    case Instruction::ZExt: { unsigned w = typeBits(I->getType()); f.regs[ki.dest] = mapVec(opv(f, ki, 0), [&](E x) { return mkZext(x, w); }); f.ip++; return; }
    case Instruction::SExt: { unsigned w = typeBits(I->getType()); f.regs[ki.dest] = mapVec(opv(f, ki, 0), [&](E x) { return mkSext(x, w); }); f.ip++; return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w = typeBits(I->getType()); f.regs[ki.dest] = Val(mkZext(opv(f, ki, 0).e, w)); f.ip++; return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze:
        f.regs[ki.dest] = opv(f, ki, 0);
        if (f.regs[ki.dest].e && typeBits(I->getType()) == 0) throw Kill{"bitcast to aggregate", true};
        f.ip++;
        return;
    case Instruction::FPTrunc: case Instruction::FPExt: {
        E a = opv(f, ki, 0).e; double d = toD(mkConst(concretize(s, a), a->w));
        setReg(s, ki.dest, Val(fromD(d, typeBits(I->getType())))); s.th[s.cur].st.back().ip++; return;
    }
    case Instruction::UIToFP: { E a = opv(f, ki, 0).e; uint64_t v = concretize(s, a); unsigned w = typeBits(I->getType()); setReg(s, ki.dest, Val(w == 32 ? fromD((float)v, 32) : fromD((double)v, 64))); s.th[s.cur].st.back().ip++; return; }
    case Instruction::SIToFP: { E a = opv(f, ki, 0).e; int64_t v = (int64_t)sxt(concretize(s, a), a->w); unsigned w = typeBits(I->getType()); setReg(s, ki.dest, Val(w == 32 ? fromD((float)v, 32) : fromD((double)v, 64))); s.th[s.cur].st.back().ip++; return; }
    case Instruction::FPToUI: { E a = opv(f, ki, 0).e; double d = toD(mkConst(concretize(s, a), a->w)); setReg(s, ki.dest, Val(mkConst((uint64_t)d, typeBits(I->getType())))); s.th[s.cur].st.back().ip++; return; }
    case Instruction::FPToSI: { E a = opv(f, ki, 0).e; double d = toD(mkConst(concretize(s, a), a->w)); setReg(s, ki.dest, Val(mkConst((u128)(i128)(int64_t)d, typeBits(I->getType())))); s.th[s.cur].st.back().ip++; return; }
    case Instruction::FNeg: { E a = opv(f, ki, 0).e; f.regs[ki.dest] = Val(mkBin(O_XOR, a, mkConst((u128)1 << (a->w - 1), a->w))); f.ip++; return; }
    case Instruction::ExtractValue: {
        Val v = opv(f, ki, 0);
        for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val x = (*v.agg)[i]; v = x; }
        f.regs[ki.dest] = v;
        f.ip++;
        return;
    }
    case Instruction::InsertValue: {
        std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins = [&](const Val& a, ArrayRef<unsigned> idx, const Val& x) -> Val {
            if (idx.empty()) return x;
            Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg);
            (*r.agg)[idx[0]] = ins((*a.agg)[idx[0]], idx.drop_front(), x);
            return r;
        };
        f.regs[ki.dest] = ins(opv(f, ki, 0), cast<InsertValueInst>(I)->getIndices(), opv(f, ki, 1));
        f.ip++;
        return;
    }
    case Instruction::ExtractElement: {
        uint64_t i = concretize(s, opv(f, ki, 1).e);
        Frame& g = s.th[s.cur].st.back();
        g.regs[ki.dest] = (*opv(g, ki, 0).agg)[i]; g.ip++; return;
    }
    case Instruction::InsertElement: {
        uint64_t i = concretize(s, opv(f, ki, 2).e);
        Frame& g = s.th[s.cur].st.back();
        Val r; r.agg = std::make_shared<std::vector<Val>>(*opv(g, ki, 0).agg);
        (*r.agg)[i] = opv(g, ki, 1);
        g.regs[ki.dest] = r; g.ip++; return;
    }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(I);
        const Val &a = opv(f, ki, 0), &b = opv(f, ki, 1);
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        for (int m : sv->getShuffleMask()) {
            if (m < 0) r.agg->push_back((*a.agg)[0]);
            else if ((size_t)m < a.agg->size()) r.agg->push_back((*a.agg)[m]);
            else r.agg->push_back((*b.agg)[m - a.agg->size()]);
        }
        f.regs[ki.dest] = r; f.ip++; return;
    }
    case Instruction::VAArg: throw Kill{"va_arg instruction", true};
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: {
        auto* rmw = cast<AtomicRMWInst>(I);
        if (!schedPoint(s, s.th.size() > 1)) return;
        E addr = opv(f, ki, 0).e, v = opv(f, ki, 1).e;
        Val old = loadTyped(s, addr, I->getType());
        E o = old.e, nv;
        switch (rmw->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = mkAdd(o, v); break;
        case AtomicRMWInst::Sub: nv = mkSub(o, v); break;
        case AtomicRMWInst::And: nv = mkAnd(o, v); break;
        case AtomicRMWInst::Or: nv = mkOr(o, v); break;
        case AtomicRMWInst::Xor: nv = mkBin(O_XOR, o, v); break;
        default: throw Kill{"atomicrmw op", true};
        }
        storeBytes(s, addr, nv);
        Frame& g = s.th[s.cur].st.back();
        g.regs[ki.dest] = Val(o);
        g.ip++;
        return;
    }
    case Instruction::AtomicCmpXchg: {
        if (!schedPoint(s, s.th.size() > 1)) return;
        E addr = opv(f, ki, 0).e, cmp = opv(f, ki, 1).e, nv = opv(f, ki, 2).e;
        Val old = loadTyped(s, addr, I->getOperand(1)->getType());
        E eq = mkEq(old.e, cmp);
        storeBytes(s, addr, mkIte(eq, nv, old.e));
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        r.agg->push_back(old); r.agg->push_back(Val(eq));
        Frame& g = s.th[s.cur].st.back();
        g.regs[ki.dest] = r;
        g.ip++;
        return;
    }
    default:
        if (I->isBinaryOp()) {
            unsigned opc = I->getOpcode();
            Val r = mapVec2(opv(f, ki, 0), opv(f, ki, 1), [&](E a, E b) { return binop(s, opc, a, b, I->getType()); });
            Frame& g = s.th[s.cur].st.back();
            g.regs[ki.dest] = r;
            g.ip++;
            return;
        }
        throw Kill{std::string("unsupported instruction ") + I->getOpcodeName(), true};
    }
}

static void emit(bool complete, const std::string& why) {
    std::string fn = optOut + ".json";
    FILE* f = fopen(fn.c_str(), "w");
    if (!f) { perror(fn.c_str()); return; }
    fprintf(f, "{\n \"complete\": %s, \"why\": \"%s\",\n", complete ? "true" : "false", jsonEsc(why).c_str());
    fprintf(f, " \"paths\": %llu, \"states\": %llu, \"forks\": %llu, \"insts\": %llu, \"branches\": %llu, \"checks\": %llu, \"memchecks\": %llu, \"killed_assume\": %llu, \"sched_points\": %llu, \"sched_forks\": %llu,\n",
        (unsigned long long)g_st.paths, (unsigned long long)g_st.states, (unsigned long long)g_st.forks, (unsigned long long)g_st.insts, (unsigned long long)g_st.branches,
        (unsigned long long)g_st.checks, (unsigned long long)g_st.memchecks, (unsigned long long)g_st.killed_assume, (unsigned long long)g_st.schedPoints, (unsigned long long)g_st.schedForks);
    fprintf(f, " \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"solver_time\": %.3f, \"time\": %.3f, \"exprs\": %zu,\n",
        (unsigned long long)g_sstats.queries, (unsigned long long)g_sstats.sat, (unsigned long long)g_sstats.unsat, (unsigned long long)g_sstats.unknown,
        (unsigned long long)g_sstats.cache_hits, (unsigned long long)g_sstats.model_hits, g_sstats.time, now() - g_start, exprCount());
    fprintf(f, " \"unexplored\": %zu,\n", g_work.size() + g_workq.size());
    fprintf(f, " \"inconclusive\": {");
    bool first = true;
    for (auto& p : g_inconclusive) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jsonEsc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n \"checks_by_msg\": {");
    first = true;
    for (auto& p : g_checks) { fprintf(f, "%s\"%s\": [%llu, %llu]", first ? "" : ", ", jsonEsc(p.first).c_str(), (unsigned long long)p.second.first, (unsigned long long)p.second.second); first = false; }
    fprintf(f, "},\n \"reached\": {");
    first = true;
    for (auto& p : g_reached) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jsonEsc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n \"functions\": [");
    first = true;
    for (auto& p : g_kf) if (p.second->executed && p.second->inRepo) {
        fprintf(f, "%s[\"%s\", \"%s\", %u, %llu]", first ? "" : ", ", jsonEsc(p.first->getName().str()).c_str(), jsonEsc(p.second->file).c_str(), p.second->line, (unsigned long long)p.second->nInst);
        first = false;
    }
    std::map<std::string, std::pair<std::string, unsigned>> inl; // /repo functions that clang inlined into executed code
    for (auto& p : g_kf) for (auto& b : p.second->blocks) if (b.entered) for (auto& ki : b.insts)
        for (const DILocation* l = ki.I->getDebugLoc().get(); l; l = l->getInlinedAt()) {
            auto* sp = l->getScope()->getSubprogram();
            if (!sp || sp == p.first->getSubprogram()) continue;
            std::string file = sp->getFilename().str();
            if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
            if (file.compare(0, 6, "/repo/") == 0) inl[(sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str()] = {file, sp->getLine()};
        }
    for (auto& p : inl) {
        fprintf(f, "%s[\"%s\", \"%s\", %u, 0]", first ? "" : ", ", jsonEsc(p.first).c_str(), jsonEsc(p.second.first).c_str(), p.second.second);
        first = false;
    }
    fprintf(f, "],\n \"shared\": [");
    first = true;
    for (auto& p : g_siteThreads) {
        uint64_t m = p.second & ~(1ull << 63);
        if ((m & (m - 1)) && (p.second >> 63)) { fprintf(f, "%s\"%llu\"", first ? "" : ", ", (unsigned long long)p.first); first = false; }
    }
    fprintf(f, "],\n \"witness\": [");
    first = true;
    for (auto& w : g_witness) { fprintf(f, "%s\"%s\"", first ? "" : ", ", jsonEsc(w).c_str()); first = false; }
    fprintf(f, "],\n \"violations\": [");
    first = true;
    for (auto& v : g_viol) {
        fprintf(f, "%s\n  {\"kind\": \"%s\", \"msg\": \"%s\", \"where\": \"%s\", \"stack\": \"%s\", \"file\": \"%s\"}", first ? "" : ",", jsonEsc(v.kind).c_str(), jsonEsc(v.msg).c_str(), jsonEsc(v.where).c_str(), jsonEsc(v.stack).c_str(), jsonEsc(v.file).c_str());
        first = false;
    }
    fprintf(f, "]\n}\n");
    fclose(f);
}

static size_t rssMB() {
    static int cnt = 0; static size_t last = 0;
    if (cnt++ % 64) return last;
    FILE* f = fopen("/proc/self/statm", "r");
    if (!f) return 0;
    long a, b; if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
    fclose(f);
    return last = b * 4096 / (1 << 20);
}

static State* initialState(const std::string& entry) {
    State* s = new State;
    s->model = std::make_shared<Model>();
    s->th.emplace_back();
    g_init = s;
    for (auto& F : *g_mod) funcAddr(&F);
    std::vector<const GlobalVariable*> gvs;
    for (auto& g : g_mod->globals()) {
        if (g.isThreadLocal()) continue;
        if (g.getName().starts_with("llvm.")) continue;
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)g_dl->getTypeAllocSize(g.getValueType()) : 0;
        if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 128);
        uint64_t p = allocObj(*s, sz, K_GLOBAL, 0);
        g_gaddr[&g] = p;
        gvs.push_back(&g);
    }
    for (auto* g : gvs) if (g->hasInitializer() && !g->getInitializer()->isNullValue())
        storeTyped(*s, mkConst(g_gaddr[g], 64), evalConst(g->getInitializer()), g->getValueType());
    for (auto* g : gvs) if (g->isConstant()) wobj(*s, g_gaddr[g])->ro = true;
    // run global constructors
    std::vector<std::pair<uint64_t, const Function*>> ctors;
    if (auto* gc = g_mod->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& op : ca->operands()) {
                auto* cs = cast<ConstantStruct>(op);
                if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
                    ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    const Function* H = g_mod->getFunction(entry);
    if (!H || H->isDeclaration()) { fprintf(stderr, "engine: no entry %s\n", entry.c_str()); exit(3); }
    pushFrame(*s, 0, H, {});
    // constructors run first: push in reverse order; a return from a ctor frame must not advance the caller
    for (auto& c : ctors) {
        if (c.second->getName().starts_with("tsan.")) continue;
        State& st = *s;
        Thread saved = st.th[0];
        st.th[0].st.clear();
        pushFrame(st, 0, c.second, {});
        try {
            while (true) {
                if (st.th[0].st.size() == 1) {
                    Frame& f = st.th[0].st.back();
                    if (isa<ReturnInst>(f.kf->blocks[f.bb].insts[f.ip].I)) { popFrame(st, 0); break; }
                }
                step(st);
            }
        } catch (Kill& k) { fprintf(stderr, "engine: constructor %s failed: %s\n", c.second->getName().str().c_str(), k.why.c_str()); exit(3); }
        auto tls = st.th[0].tls;
        st.th[0] = saved;
        st.th[0].tls = tls;
    }
    s->heapLive = 0;
    s->steps = 0;
    return s;
}

static volatile sig_atomic_t g_term = 0;
static void onTerm(int) { g_term = 1; }

// every use of a thread-local variable goes through llvm.threadlocal.address
static void normalizeThreadLocals() {
    for (GlobalVariable& gv : g_mod->globals()) {
        if (!gv.isThreadLocal()) continue;
        Constant* c[1] = {&gv};
        convertUsersOfConstantsToInstructions(c);
        std::vector<Use*> uses;
        for (Use& u : gv.uses()) {
            auto* in = dyn_cast<Instruction>(u.getUser());
            if (!in) continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(in); ii && ii->getIntrinsicID() == Intrinsic::threadlocal_address) continue;
            uses.push_back(&u);
        }
        for (Use* u : uses) {
            Instruction* at = cast<Instruction>(u->getUser());
            if (auto* phi = dyn_cast<PHINode>(at)) at = phi->getIncomingBlock(*u)->getTerminator();
            IRBuilder<> b(at);
            u->set(b.CreateThreadLocalAddress(&gv));
        }
    }
}

int main(int argc, char** argv) {
    std::string bc, entry = "harness";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--out") optOut = next();
        else if (a == "--entry") entry = next();
        else if (a == "--max-time") optMaxTime = atof(next().c_str());
        else if (a == "--max-steps") optMaxSteps = strtoull(next().c_str(), 0, 10);
        else if (a == "--preempt") optPreempt = atoi(next().c_str());
        else if (a == "--max-viol") optMaxViol = atoi(next().c_str());
        else if (a == "--witness") optWitness = atoi(next().c_str());
        else if (a == "--solver-timeout") g_solver_timeout_ms = atoi(next().c_str());
        else if (a == "--fix") { std::string x = next(); auto p = x.find('='); optFix[x.substr(0, p)] = strtoull(x.c_str() + p + 1, 0, 0); }
        else if (a == "--trace") optTrace = true;
        else if (a == "--bfs") optBfs = true;
        else if (a == "--eager") optEager = true;
        else if (a == "--shared-all") optSharedAll = true;
        else if (a == "--max-mem") optMaxMemMB = atoi(next().c_str());
        else if (a == "--stop-after") optStopAfter = atoi(next().c_str());
        else if (a == "--dump") { g_dump_dir = next(); g_dump_max = 200; }
        else bc = a;
    }
    g_start = now();
    signal(SIGTERM, onTerm);
    SMDiagnostic err;
    g_mod = parseIRFile(bc, err, g_ctx);
    if (!g_mod) { err.print("engine", errs()); return 3; }
    normalizeThreadLocals();
    g_dl = &g_mod->getDataLayout();
    std::string why;
    bool complete = true;
    // iterate until the set of shared objects is stable (scheduling points are placed at accesses to shared objects)
    for (int round = 0; round < 6; round++) {
        State* init;
        if (round == 0) { init = initialState(entry); g_init = new State(*init); }
        else { init = new State(*g_init); g_st = Stats(); g_witness.clear(); g_checks.clear(); g_reached.clear(); }
        pushWork(init);
        while (!g_work.empty() || !g_workq.empty()) {
            if (g_term) { complete = false; why = "terminated"; break; }
            if (now() - g_start > optMaxTime) { complete = false; why = "time limit"; break; }
            if (rssMB() > optMaxMemMB) { complete = false; why = "memory limit"; break; }
            if (optStopAfter && g_viol.size() >= optStopAfter) { complete = false; why = "stopped after violations"; break; }
            if (g_violKeys.size() >= optMaxViol) { complete = false; why = "violation limit"; break; }
            State* s;
            if (optBfs) { s = g_workq.front(); g_workq.pop_front(); } else { s = g_work.back(); g_work.pop_back(); }
            try {
                uint64_t n = 0;
                while (true) {
                    step(*s);
                    if ((++n & 0x3fff) == 0 && (now() - g_start > optMaxTime || g_term)) { complete = false; why = "time limit"; break; }
                }
            } catch (Kill& k) {
                if (k.inconclusive) {
                    g_inconclusive[k.why]++;
                    if (optTrace && g_warned.insert(k.why).second) fprintf(stderr, "INCONCLUSIVE %s\n%s", k.why.c_str(), stackOf(*s).c_str());
                }
            } catch (PathEnd&) {
            }
            delete s;
        }
        for (auto* s : g_work) (void)s;
        if (!complete) break;
        // new shared sites?
        bool grew = false;
        for (auto& p : g_siteThreads) {
            uint64_t m = p.second & ~(1ull << 63);
            if ((m & (m - 1)) && (p.second >> 63) && g_shared.insert(p.first).second) grew = true;
        }
        if (!grew || optSharedAll || !g_viol.empty()) break;
        if (round == 5) { complete = false; why = "shared set not stable"; }
    }
    if (!g_inconclusive.empty()) { complete = false; if (why.empty()) why = "inconclusive paths"; }
    emit(complete, why);
    _exit(0);
}
