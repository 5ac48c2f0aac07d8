#include "expr.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

std::vector<VarInfo> g_vars;
SolverStats g_sstats;
unsigned g_solver_timeout_ms = 20000;
unsigned g_first_timeout_ms = 15;
std::string g_dump_dir;
unsigned g_dump_max = 0;

static std::deque<Expr> g_arena;
static const VarSet g_empty;

struct Key {
    Op op; uint16_t w; uint32_t off; E a, b, c; u128 val;
    bool operator==(const Key& o) const { return op==o.op && w==o.w && off==o.off && a==o.a && b==o.b && c==o.c && val==o.val; }
};
struct KeyH {
    size_t operator()(const Key& k) const {
        uint64_t h = (uint64_t)k.op * 0x9E3779B97F4A7C15ull + k.w * 1315423911u + k.off;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); mix((uint64_t)k.val); mix((uint64_t)(k.val >> 64));
        return h;
    }
};
static std::unordered_map<Key, E, KeyH> g_table;
static E g_bytec[256];
static E g_boolc[2];

size_t exprCount() { return g_arena.size(); }

static const VarSet* unionVars(const VarSet* x, const VarSet* y) {
    if (x->empty()) return y;
    if (y->empty() || x == y) return x;
    if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
    if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
    auto* r = new VarSet;
    std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(*r));
    return r;
}

static E intern(Op op, unsigned w, uint32_t off, E a, E b, E c, u128 val) {
    Key k{op, (uint16_t)w, off, a, b, c, val};
    auto it = g_table.find(k);
    if (it != g_table.end()) return it->second;
    g_arena.emplace_back();
    Expr& e = g_arena.back();
    e.op = op; e.w = w; e.off = off; e.a = a; e.b = b; e.c = c; e.val = val;
    e.id = g_arena.size() - 1;
    if (op == O_VAR) { auto* v = new VarSet; v->push_back(off); e.vars = v; }
    else {
        const VarSet* vs = &g_empty;
        if (a) vs = unionVars(vs, a->vars);
        if (b) vs = unionVars(vs, b->vars);
        if (c) vs = unionVars(vs, c->vars);
        e.vars = vs;
    }
    g_table.emplace(k, &e);
    return &e;
}

E mkConst(u128 v, unsigned w) {
    v &= maskw(w);
    if (w == 8) {
        E& r = g_bytec[(uint8_t)v];
        if (!r) r = intern(O_CONST, 8, 0, nullptr, nullptr, nullptr, v);
        return r;
    }
    if (w == 1) {
        E& r = g_boolc[(int)v];
        if (!r) r = intern(O_CONST, 1, 0, nullptr, nullptr, nullptr, v);
        return r;
    }
    return intern(O_CONST, w, 0, nullptr, nullptr, nullptr, v);
}

E mkVar(const std::string& name, unsigned w) {
    static std::unordered_map<std::string, E> byName;
    std::string key = name + "/" + std::to_string(w);
    auto it = byName.find(key);
    if (it != byName.end()) return it->second;
    g_vars.push_back({name, w});
    E e = intern(O_VAR, w, g_vars.size() - 1, nullptr, nullptr, nullptr, 0);
    byName[key] = e;
    return e;
}

static u128 foldBin(Op op, u128 x, u128 y, unsigned w, bool& ok) {
    ok = true;
    u128 m = maskw(w);
    switch (op) {
    case O_ADD: return (x + y) & m;
    case O_SUB: return (x - y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: if (!y) return m; return x / y;
    case O_UREM: if (!y) return x; return x % y;
    case O_SDIV: { if (!y) { return sxt(x, w) < 0 ? 1 : m; } i128 a = sxt(x, w), b = sxt(y, w); if (b == -1) return (u128)(-a) & m; return (u128)(a / b) & m; }
    case O_SREM: { if (!y) return x; i128 a = sxt(x, w), b = sxt(y, w); if (b == -1) return 0; return (u128)(a % b) & m; }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
    case O_LSHR: return y >= w ? 0 : (x >> (unsigned)y);
    case O_ASHR: { i128 a = sxt(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
    case O_EQ: return x == y;
    case O_ULT: return x < y;
    case O_ULE: return x <= y;
    case O_SLT: return sxt(x, w) < sxt(y, w);
    case O_SLE: return sxt(x, w) <= sxt(y, w);
    default: ok = false; return 0;
    }
}

E mkNot(E a) {
    return mkBin(O_XOR, a, mkConst(maskw(a->w), a->w));
}

static bool isCmp(Op op) { return op >= O_EQ && op <= O_SLE; }

E mkBin(Op op, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "engine: width mismatch op %d %u vs %u\n", op, a->w, b->w); abort(); }
    unsigned w = a->w, rw = isCmp(op) ? 1 : w;
    if (a->isC() && b->isC()) { bool ok; u128 r = foldBin(op, a->val, b->val, w, ok); if (ok) return mkConst(r, rw); }
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
    if (comm && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b); // constant on the right
    u128 m = maskw(w);
    switch (op) {
    case O_ADD:
        if (b->isC()) {
            if (!b->val) return a;
            if (a->op == O_ADD && a->b->isC()) return mkBin(O_ADD, a->a, mkConst(a->b->val + b->val, w));
        }
        break;
    case O_SUB:
        if (a == b) return mkConst(0, w);
        if (b->isC()) return mkBin(O_ADD, a, mkConst((~b->val + 1) & m, w));
        // (x + c) - x, (x + c) - (x + d)
        if (a->op == O_ADD && a->b->isC() && a->a == b) return a->b;
        if (a->op == O_ADD && b->op == O_ADD && a->b->isC() && b->b->isC() && a->a == b->a)
            return mkConst(a->b->val - b->b->val, w);
        if (b->op == O_ADD && b->b->isC() && b->a == a) return mkConst((~b->b->val + 1), w);
        break;
    case O_MUL:
        if (b->isC()) {
            if (!b->val) return b;
            if (b->val == 1) return a;
            if ((b->val & (b->val - 1)) == 0) {
                unsigned s = 0; u128 v = b->val; while (v > 1) { v >>= 1; s++; }
                return mkBin(O_SHL, a, mkConst(s, w));
            }
        }
        break;
    case O_UDIV:
        if (b->isC() && b->val == 1) return a;
        if (b->isC() && b->val && (b->val & (b->val - 1)) == 0) {
            unsigned s = 0; u128 v = b->val; while (v > 1) { v >>= 1; s++; }
            return mkBin(O_LSHR, a, mkConst(s, w));
        }
        break;
    case O_SDIV: if (b->isC() && b->val == 1) return a; break;
    case O_UREM:
        if (b->isC() && b->val == 1) return mkConst(0, w);
        if (b->isC() && b->val && (b->val & (b->val - 1)) == 0) return mkBin(O_AND, a, mkConst(b->val - 1, w));
        break;
    case O_AND:
        if (a == b) return a;
        if (b->isC()) {
            if (!b->val) return b;
            if (b->val == m) return a;
            if (a->op == O_AND && a->b->isC()) return mkBin(O_AND, a->a, mkConst(a->b->val & b->val, w));
            // low mask of a zext
            if (a->op == O_ZEXT && (b->val & maskw(a->a->w)) == maskw(a->a->w)) return a;
            // low-mask => zext(extract)
            if (((b->val + 1) & b->val) == 0) { unsigned k = 0; u128 v = b->val; while (v) { v >>= 1; k++; } return mkZext(mkExtract(a, 0, k), w); }
        }
        if (w == 1) {
            if (b->op == O_XOR && b->a == a && b->b->isC()) return mkConst(0, 1);
            if (a->op == O_XOR && a->a == b && a->b->isC()) return mkConst(0, 1);
        }
        break;
    case O_OR:
        if (a == b) return a;
        if (b->isC()) { if (!b->val) return a; if (b->val == m) return b; }
        if (w == 1) {
            if (b->op == O_XOR && b->a == a && b->b->isC()) return mkConst(1, 1);
            if (a->op == O_XOR && a->a == b && a->b->isC()) return mkConst(1, 1);
        }
        // byte assembly: zext(x) | (zext(y) << k)
        {
            E lo = a, hi = b;
            for (int t = 0; t < 2; t++) {
                if (hi->op == O_CONCAT && hi->b->isC() && hi->b->val == 0 && lo->op == O_ZEXT && lo->a->w <= hi->b->w)
                    return mkConcat(hi->a, lo->a->w == hi->b->w ? lo->a : mkZext(lo->a, hi->b->w));
                if (hi->op == O_ZEXT && hi->a->op == O_CONCAT && hi->a->b->isC() && hi->a->b->val == 0 && lo->op == O_ZEXT && lo->a->w <= hi->a->b->w)
                    return mkZext(mkConcat(hi->a->a, lo->a->w == hi->a->b->w ? lo->a : mkZext(lo->a, hi->a->b->w)), w);
                std::swap(lo, hi);
            }
        }
        break;
    case O_XOR:
        if (a == b) return mkConst(0, w);
        if (b->isC()) {
            if (!b->val) return a;
            if (a->op == O_XOR && a->b->isC()) return mkBin(O_XOR, a->a, mkConst(a->b->val ^ b->val, w));
            if (w == 1 && b->val == 1) {
                switch (a->op) {
                case O_ULT: return mkBin(O_ULE, a->b, a->a);
                case O_ULE: return mkBin(O_ULT, a->b, a->a);
                case O_SLT: return mkBin(O_SLE, a->b, a->a);
                case O_SLE: return mkBin(O_SLT, a->b, a->a);
                default: break;
                }
            }
        }
        break;
    case O_SHL:
        if (b->isC()) {
            if (!b->val) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        if (a->isC() && !a->val) return a;
        break;
    case O_LSHR:
        if (b->isC()) {
            if (!b->val) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkZext(mkExtract(a, s, w - s), w);
        }
        if (a->isC() && !a->val) return a;
        break;
    case O_ASHR:
        if (b->isC()) {
            if (!b->val) return a;
            unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
            return mkSext(mkExtract(a, s, w - s), w);
        }
        break;
    case O_EQ:
        if (a == b) return mkConst(1, 1);
        if (w == 1 && b->isC()) return b->val ? a : mkNot(a);
        if (b->isC()) {
            if (a->op == O_ADD && a->b->isC()) return mkBin(O_EQ, a->a, mkConst(b->val - a->b->val, w));
            if (a->op == O_XOR && a->b->isC()) return mkBin(O_EQ, a->a, mkConst(b->val ^ a->b->val, w));
            if (a->op == O_ZEXT) {
                if (b->val >> a->a->w) return mkConst(0, 1);
                return mkBin(O_EQ, a->a, mkConst(b->val, a->a->w));
            }
            if (a->op == O_SEXT) {
                u128 low = b->val & maskw(a->a->w);
                if (((u128)sxt(low, a->a->w) & m) != b->val) return mkConst(0, 1);
                return mkBin(O_EQ, a->a, mkConst(low, a->a->w));
            }
            if (a->op == O_CONCAT)
                return mkAnd(mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->val, a->b->w)));
            if (a->op == O_ITE && a->b->isC() && a->c->isC()) {
                bool t = a->b->val == b->val, f = a->c->val == b->val;
                if (t && f) return mkConst(1, 1);
                if (!t && !f) return mkConst(0, 1);
                return t ? a->a : mkNot(a->a);
            }
            if (a->op == O_ITE && (a->b->isC() || a->c->isC())) {
                E x = mkEq(a->b, b), y = mkEq(a->c, b);
                return mkIte(a->a, x, y);
            }
        }
        if (a->op == O_ADD && b->op == O_ADD && a->b->isC() && b->b->isC() && a->a == b->a)
            return mkConst(a->b->val == b->b->val, 1);
        if (a->op == O_ADD && a->b->isC() && a->a == b) return mkConst(0, 1);
        if (b->op == O_ADD && b->b->isC() && b->a == a) return mkConst(0, 1);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
        break;
    case O_ULT:
        if (a == b) return mkConst(0, 1);
        if (b->isC()) {
            if (!b->val) return mkConst(0, 1);
            if (b->val == 1) return mkEq(a, mkConst(0, w));
            if (a->op == O_ZEXT) { if (b->val > maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_ULT, a->a, mkConst(b->val, a->a->w)); }
        }
        if (a->isC()) {
            if (a->val == m) return mkConst(0, 1);
            if (b->op == O_ZEXT) { if (a->val >= maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_ULT, mkConst(a->val, b->a->w), b->a); }
        }
        break;
    case O_ULE:
        if (a == b) return mkConst(1, 1);
        if (a->isC() && !a->val) return mkConst(1, 1);
        if (b->isC()) {
            if (b->val == m) return mkConst(1, 1);
            if (!b->val) return mkEq(a, b);
            if (a->op == O_ZEXT) { if (b->val >= maskw(a->a->w)) return mkConst(1, 1); return mkBin(O_ULE, a->a, mkConst(b->val, a->a->w)); }
        }
        if (a->isC() && b->op == O_ZEXT) { if (a->val > maskw(b->a->w)) return mkConst(0, 1); return mkBin(O_ULE, mkConst(a->val, b->a->w), b->a); }
        break;
    case O_SLT:
        if (a == b) return mkConst(0, 1);
        if (b->isC() && a->op == O_ZEXT) {
            if (sxt(b->val, w) <= 0) return mkConst(0, 1);
            return mkBin(O_ULT, a, b);
        }
        if (a->isC() && b->op == O_ZEXT) {
            if (sxt(a->val, w) < 0) return mkConst(1, 1);
            return mkBin(O_ULT, a, b);
        }
        break;
    case O_SLE:
        if (a == b) return mkConst(1, 1);
        if (b->isC() && a->op == O_ZEXT) {
            if (sxt(b->val, w) < 0) return mkConst(0, 1);
            return mkBin(O_ULE, a, b);
        }
        if (a->isC() && b->op == O_ZEXT) {
            if (sxt(a->val, w) <= 0) return mkConst(1, 1);
            return mkBin(O_ULE, a, b);
        }
        break;
    default: break;
    }
    return intern(op, rw, 0, a, b, nullptr, 0);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isC() && lo->isC()) return mkConst((hi->val << lo->w) | lo->val, w);
    if (hi->isC() && hi->val == 0) return mkZext(lo, w);
    // adjacent extracts
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->off == lo->off + lo->w)
        return mkExtract(lo->a, lo->off, w);
    if (hi->op == O_EXTRACT && hi->a == lo && hi->off == lo->w) return mkExtract(lo, 0, w); // (unreachable, w > lo->w)
    // zext absorbed: concat(extract(zext..)) handled by extract simplification
    // concat(hi, concat(x, y)) with hi,x adjacent
    if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a->op == O_EXTRACT && hi->a == lo->a->a && hi->off == lo->a->off + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->off, hi->w + lo->a->w), lo->b);
    if (lo->op == O_CONCAT && hi->isC() && lo->a->isC()) return mkConcat(mkConst((hi->val << lo->a->w) | lo->a->val, hi->w + lo->a->w), lo->b);
    return intern(O_CONCAT, w, 0, hi, lo, nullptr, 0);
}

E mkExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    switch (a->op) {
    case O_CONST: return mkConst(a->val >> off, w);
    case O_EXTRACT: return mkExtract(a->a, a->off + off, w);
    case O_CONCAT: {
        unsigned lw = a->b->w;
        if (off + w <= lw) return mkExtract(a->b, off, w);
        if (off >= lw) return mkExtract(a->a, off - lw, w);
        return mkConcat(mkExtract(a->a, 0, off + w - lw), mkExtract(a->b, off, lw - off));
    }
    case O_ZEXT: {
        unsigned lw = a->a->w;
        if (off >= lw) return mkConst(0, w);
        if (off + w <= lw) return mkExtract(a->a, off, w);
        return mkZext(mkExtract(a->a, off, lw - off), w);
    }
    case O_SEXT: {
        unsigned lw = a->a->w;
        if (off + w <= lw) return mkExtract(a->a, off, w);
        if (off < lw) return mkSext(mkExtract(a->a, off, lw - off), w);
        break;
    }
    case O_ITE:
        if (a->b->isC() || a->c->isC()) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
        break;
    case O_AND: case O_OR: case O_XOR:
        return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case O_ADD: case O_SUB: case O_MUL:
        if (off == 0 && a->b->isC()) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    default: break;
    }
    return intern(O_EXTRACT, w, off, a, nullptr, nullptr, 0);
}

E mkZext(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (a->isC()) return mkConst(a->val, w);
    if (a->op == O_ZEXT) return mkZext(a->a, w);
    return intern(O_ZEXT, w, 0, a, nullptr, nullptr, 0);
}

E mkSext(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (a->isC()) return mkConst((u128)sxt(a->val, a->w), w);
    if (a->op == O_ZEXT) return mkZext(a->a, w);
    if (a->op == O_SEXT) return mkSext(a->a, w);
    return intern(O_SEXT, w, 0, a, nullptr, nullptr, 0);
}

E mkIte(E c, E a, E b) {
    if (c->isC()) return c->val ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (a->isC() && b->isC()) return a->val ? c : mkNot(c);
        if (a->isC()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isC()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (c->op == O_XOR && c->b->isC() && c->w == 1) return mkIte(c->a, b, a);
    return intern(O_ITE, a->w, 0, c, a, b, 0);
}

// ---------------------------------------------------------------- substitution
static bool touches(E e, const Subst& s) {
    for (auto& p : s) if (std::binary_search(e->vars->begin(), e->vars->end(), p.first)) return true;
    return false;
}
static E substRec(E e, const Subst& s, std::unordered_map<uint32_t, E>& memo) {
    if (e->isC() || !touches(e, s)) return e;
    if (e->op == O_VAR) { for (auto& p : s) if (p.first == e->off) return p.second; return e; }
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    E r;
    switch (e->op) {
    case O_CONCAT: r = mkConcat(substRec(e->a, s, memo), substRec(e->b, s, memo)); break;
    case O_EXTRACT: r = mkExtract(substRec(e->a, s, memo), e->off, e->w); break;
    case O_ZEXT: r = mkZext(substRec(e->a, s, memo), e->w); break;
    case O_SEXT: r = mkSext(substRec(e->a, s, memo), e->w); break;
    case O_ITE: {
        E c = substRec(e->a, s, memo);
        if (c->isC()) r = substRec(c->val ? e->b : e->c, s, memo);
        else r = mkIte(c, substRec(e->b, s, memo), substRec(e->c, s, memo));
        break;
    }
    default: r = mkBin(e->op, substRec(e->a, s, memo), substRec(e->b, s, memo));
    }
    memo[e->id] = r;
    return r;
}
E substExpr(E e, const Subst& s) {
    if (e->isC() || s.empty() || !touches(e, s)) return e;
    std::unordered_map<uint32_t, E> memo;
    return substRec(e, s, memo);
}

// ---------------------------------------------------------------- evaluation
static std::vector<u128> g_ev;
static std::vector<uint32_t> g_evEpoch;
static uint32_t g_epoch = 0;

static u128 evalRec(E e, const Model& m) {
    if (e->op == O_CONST) return e->val;
    if (e->op == O_VAR) return m.get(e->off) & maskw(e->w);
    if (g_evEpoch[e->id] == g_epoch) return g_ev[e->id];
    u128 r = 0;
    switch (e->op) {
    case O_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case O_EXTRACT: r = (evalRec(e->a, m) >> e->off) & maskw(e->w); break;
    case O_ZEXT: r = evalRec(e->a, m); break;
    case O_SEXT: r = (u128)sxt(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case O_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
    default: { bool ok; r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w, ok); }
    }
    g_evEpoch[e->id] = g_epoch;
    g_ev[e->id] = r;
    return r;
}

u128 evalExpr(E e, const Model& m) {
    if (e->isC()) return e->val;
    if (g_ev.size() < g_arena.size()) { size_t n = g_arena.size() * 2 + 1024; g_ev.resize(n); g_evEpoch.resize(n, 0); }
    if (++g_epoch == 0) { std::fill(g_evEpoch.begin(), g_evEpoch.end(), 0); g_epoch = 1; }
    return evalRec(e, m);
}

std::string exprStr(E e, int depth) {
    static const char* names[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","++","ext","zx","sx","ite"};
    if (e->op == O_CONST) { char b[64]; snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->val, e->w); return b; }
    if (e->op == O_VAR) return g_vars[e->off].name;
    if (depth <= 0) return "...";
    std::string s = std::string("(") + names[e->op];
    if (e->op == O_EXTRACT) s += "@" + std::to_string(e->off) + ":" + std::to_string(e->w);
    if (e->a) s += " " + exprStr(e->a, depth - 1);
    if (e->b) s += " " + exprStr(e->b, depth - 1);
    if (e->c) s += " " + exprStr(e->c, depth - 1);
    return s + ")";
}

// ---------------------------------------------------------------- Z3
static Z3_context g_z;
static std::unordered_map<uint32_t, Z3_ast> g_zcache;
static std::unordered_map<uint32_t, Z3_ast> g_zbool;

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "engine: z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

static void zinit() {
    if (g_z) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    g_z = Z3_mk_context(cfg);
    Z3_set_error_handler(g_z, zerr);
    Z3_del_config(cfg);
}

static Z3_ast zconst(u128 v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(g_z, w);
    if (w <= 64) return Z3_mk_unsigned_int64(g_z, (uint64_t)v, s);
    Z3_ast hi = Z3_mk_unsigned_int64(g_z, (uint64_t)(v >> 64), Z3_mk_bv_sort(g_z, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(g_z, (uint64_t)v, Z3_mk_bv_sort(g_z, 64));
    return Z3_mk_concat(g_z, hi, lo);
}
static Z3_ast zt(E e);
static Z3_ast zb(E e) { // width-1 expr as Bool
    auto it = g_zbool.find(e->id);
    if (it != g_zbool.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
    case O_CONST: r = e->val ? Z3_mk_true(g_z) : Z3_mk_false(g_z); break;
    case O_EQ: r = e->a->w == 1 ? Z3_mk_eq(g_z, zb(e->a), zb(e->b)) : Z3_mk_eq(g_z, zt(e->a), zt(e->b)); break;
    case O_ULT: r = Z3_mk_bvult(g_z, zt(e->a), zt(e->b)); break;
    case O_ULE: r = Z3_mk_bvule(g_z, zt(e->a), zt(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(g_z, zt(e->a), zt(e->b)); break;
    case O_SLE: r = Z3_mk_bvsle(g_z, zt(e->a), zt(e->b)); break;
    case O_AND: { Z3_ast x[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_and(g_z, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_or(g_z, 2, x); break; }
    case O_XOR: r = e->b->isC() && e->b->val ? Z3_mk_not(g_z, zb(e->a)) : Z3_mk_xor(g_z, zb(e->a), zb(e->b)); break;
    case O_ITE: r = Z3_mk_ite(g_z, zb(e->a), zb(e->b), zb(e->c)); break;
    default: r = Z3_mk_eq(g_z, zt(e), zconst(1, 1));
    }
    Z3_inc_ref(g_z, r);
    g_zbool[e->id] = r;
    return r;
}
static Z3_ast zt(E e) {
    auto it = g_zcache.find(e->id);
    if (it != g_zcache.end()) return it->second;
    Z3_ast r;
    if (e->w == 1 && (isCmp(e->op) || e->op == O_AND || e->op == O_OR || e->op == O_XOR))
        r = Z3_mk_ite(g_z, zb(e), zconst(1, 1), zconst(0, 1));
    else switch (e->op) {
    case O_CONST: r = zconst(e->val, e->w); break;
    case O_VAR: r = Z3_mk_const(g_z, Z3_mk_int_symbol(g_z, e->off), Z3_mk_bv_sort(g_z, e->w)); break;
    case O_ADD: r = Z3_mk_bvadd(g_z, zt(e->a), zt(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(g_z, zt(e->a), zt(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(g_z, zt(e->a), zt(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(g_z, zt(e->a), zt(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(g_z, zt(e->a), zt(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(g_z, zt(e->a), zt(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(g_z, zt(e->a), zt(e->b)); break;
    case O_AND: r = Z3_mk_bvand(g_z, zt(e->a), zt(e->b)); break;
    case O_OR: r = Z3_mk_bvor(g_z, zt(e->a), zt(e->b)); break;
    case O_XOR: r = Z3_mk_bvxor(g_z, zt(e->a), zt(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(g_z, zt(e->a), zt(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(g_z, zt(e->a), zt(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(g_z, zt(e->a), zt(e->b)); break;
    case O_CONCAT: r = Z3_mk_concat(g_z, zt(e->a), zt(e->b)); break;
    case O_EXTRACT: r = Z3_mk_extract(g_z, e->off + e->w - 1, e->off, zt(e->a)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(g_z, e->w - e->a->w, zt(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(g_z, e->w - e->a->w, zt(e->a)); break;
    case O_ITE: r = Z3_mk_ite(g_z, zb(e->a), zt(e->b), zt(e->c)); break;
    default: fprintf(stderr, "engine: zt op %d\n", e->op); abort();
    }
    Z3_inc_ref(g_z, r);
    g_zcache[e->id] = r;
    return r;
}

struct CacheEnt { SatResult r; std::vector<std::pair<uint32_t, u128>> model; };
static std::map<std::vector<uint32_t>, CacheEnt> g_qcache;
static Z3_solver g_solver;

SatResult solverCheck(const std::vector<E>& constraints, E cond, const ModelRef& base, ModelRef& out) {
    if (cond->isC()) { out = base; return cond->val ? R_SAT : R_UNSAT; }
    if (base && evalExpr(cond, *base)) { g_sstats.model_hits++; out = base; return R_SAT; }
    // relevant constraints: transitive closure over shared variables
    std::vector<char> used(constraints.size(), 0);
    std::unordered_set<uint32_t> vs(cond->vars->begin(), cond->vars->end());
    std::vector<E> slice;
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < constraints.size(); i++) {
            if (used[i]) continue;
            bool hit = false;
            for (uint32_t v : *constraints[i]->vars) if (vs.count(v)) { hit = true; break; }
            if (hit) {
                used[i] = 1; changed = true;
                slice.push_back(constraints[i]);
                for (uint32_t v : *constraints[i]->vars) vs.insert(v);
            }
        }
    }
    std::vector<uint32_t> key;
    for (E e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = g_qcache.find(key);
    CacheEnt* ent;
    if (it != g_qcache.end()) { g_sstats.cache_hits++; ent = &it->second; }
    else {
        auto t0 = std::chrono::steady_clock::now();
        zinit();
        if (!g_solver) {
            g_solver = Z3_mk_simple_solver(g_z);
            Z3_solver_inc_ref(g_z, g_solver);
            Z3_params p = Z3_mk_params(g_z);
            Z3_params_inc_ref(g_z, p);
            Z3_params_set_uint(g_z, p, Z3_mk_string_symbol(g_z, "timeout"), g_first_timeout_ms);
            Z3_solver_set_params(g_z, g_solver, p);
            Z3_params_dec_ref(g_z, p);
        }
        Z3_solver_push(g_z, g_solver);
        for (E e : slice) Z3_solver_assert(g_z, g_solver, zb(e));
        Z3_solver_assert(g_z, g_solver, zb(cond));
        Z3_lbool r = Z3_solver_check(g_z, g_solver);
        CacheEnt c;
        c.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
        if (c.r == R_UNKNOWN) { // second back end: the bit-blasting tactic
            Z3_solver s2 = Z3_mk_solver_for_logic(g_z, Z3_mk_string_symbol(g_z, "QF_BV"));
            Z3_solver_inc_ref(g_z, s2);
            Z3_params p = Z3_mk_params(g_z);
            Z3_params_inc_ref(g_z, p);
            Z3_params_set_uint(g_z, p, Z3_mk_string_symbol(g_z, "timeout"), g_solver_timeout_ms * 3);
            Z3_solver_set_params(g_z, s2, p);
            Z3_params_dec_ref(g_z, p);
            for (E e : slice) Z3_solver_assert(g_z, s2, zb(e));
            Z3_solver_assert(g_z, s2, zb(cond));
            r = Z3_solver_check(g_z, s2);
            c.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
            if (c.r == R_SAT) {
                Z3_model m = Z3_solver_get_model(g_z, s2);
                Z3_model_inc_ref(g_z, m);
                for (uint32_t v : vs) {
                    E ve = mkVar(g_vars[v].name, g_vars[v].w);
                    Z3_ast val; u128 x = 0;
                    if (Z3_model_eval(g_z, m, zt(ve), true, &val)) {
                        Z3_inc_ref(g_z, val);
                        uint64_t u64; if (Z3_get_numeral_uint64(g_z, val, &u64)) x = u64;
                        Z3_dec_ref(g_z, val);
                    }
                    c.model.push_back({v, x});
                }
                Z3_model_dec_ref(g_z, m);
            }
            Z3_solver_dec_ref(g_z, s2);
        } else if (c.r == R_SAT) {
            Z3_model m = Z3_solver_get_model(g_z, g_solver);
            Z3_model_inc_ref(g_z, m);
            for (uint32_t v : vs) {
                E ve = mkVar(g_vars[v].name, g_vars[v].w);
                Z3_ast val; u128 x = 0;
                if (Z3_model_eval(g_z, m, zt(ve), true, &val)) {
                    Z3_inc_ref(g_z, val);
                    uint64_t u64; if (Z3_get_numeral_uint64(g_z, val, &u64)) x = u64;
                    Z3_dec_ref(g_z, val);
                }
                c.model.push_back({v, x});
            }
            Z3_model_dec_ref(g_z, m);
        }
        if (!g_dump_dir.empty() && g_sstats.queries < g_dump_max) {
            std::string fn = g_dump_dir + "/q" + std::to_string(g_sstats.queries) + "." + (c.r == R_SAT ? "sat" : c.r == R_UNSAT ? "unsat" : "unknown") + ".smt2";
            if (FILE* f = fopen(fn.c_str(), "w")) {
                fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(g_z, g_solver));
                fclose(f);
            }
        }
        Z3_solver_pop(g_z, g_solver, 1);
        g_sstats.queries++;
        if (c.r == R_SAT) g_sstats.sat++; else if (c.r == R_UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
        g_sstats.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        ent = &g_qcache.emplace(key, std::move(c)).first->second;
    }
    if (ent->r == R_SAT) {
        auto m = std::make_shared<Model>();
        if (base) m->v = base->v;
        for (auto& p : ent->model) { if (m->v.size() <= p.first) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
        // soundness guard: the model must satisfy the query under our own evaluator
        if (!evalExpr(cond, *m)) { fprintf(stderr, "engine: model does not satisfy query: %s\n", exprStr(cond).c_str()); abort(); }
        for (E e : slice) if (!evalExpr(e, *m)) { fprintf(stderr, "engine: model violates path condition\n"); abort(); }
        out = m;
    }
    return ent->r;
}
