// Hash-consed bit-vector expressions with construction-time simplification,
// concrete evaluation, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <deque>
#include <memory>
#include <map>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
    O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE
};

struct Expr;
typedef const Expr* E;

typedef std::vector<uint32_t> VarSet; // sorted

struct Expr {
    Op op;
    uint16_t w;
    uint32_t off;  // EXTRACT offset, VAR id
    uint32_t id;
    E a, b, c;
    u128 val;      // CONST
    const VarSet* vars; // never null
    bool isC() const { return op == O_CONST; }
    uint64_t u() const { return (uint64_t)val; }
};

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sxt(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Op op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkIte(E c, E a, E b);
static inline E mkBool(bool b) { return mkConst(b, 1); }
static inline E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }
E mkNot(E a); // bitwise not (logical for width 1)
static inline E mkAnd(E a, E b) { return mkBin(O_AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(O_OR, a, b); }
static inline E mkAdd(E a, E b) { return mkBin(O_ADD, a, b); }
static inline E mkSub(E a, E b) { return mkBin(O_SUB, a, b); }

typedef std::vector<u128> ModelVec; // indexed by var id (missing = 0)
struct Model {
    ModelVec v;
    u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
};
typedef std::shared_ptr<const Model> ModelRef;

typedef std::vector<std::pair<uint32_t, E>> Subst; // variable -> constant
E substExpr(E e, const Subst& s);
u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
size_t exprCount();

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cache_hits = 0, model_hits = 0;
    double time = 0;
};
extern SolverStats g_sstats;
extern unsigned g_solver_timeout_ms;

enum SatResult { R_SAT, R_UNSAT, R_UNKNOWN };
// Is (constraints AND cond) satisfiable? constraints are known satisfiable together (model base).
// On sat, out = base overwritten with the solver's values for the relevant variables.
SatResult solverCheck(const std::vector<E>& constraints, E cond, const ModelRef& base, ModelRef& out);
extern std::string g_dump_dir; // when set, every query is dumped as SMT-LIB2 for cross-checking
extern unsigned g_dump_max;
