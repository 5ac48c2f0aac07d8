#include "c32_scopes.inc"
struct Boom { int at; };
static const char* const names[3] = {"first", "", "a longer label"};
static int where, fate; /* at point `where`: throw, return, or go on */
static bool leave(int point) { if (point != where) return false; if (fate == 1) throw Boom{point}; return fate == 2; }
struct Guard { ~Guard() { closed(); } }; /* destroyed just before the tracepoint of the same scope */
static const char stat[] = "static label";
static bool stat_seen, dyn_seen;
static int inner(uint64_t label)
{
    HT_TP_SCOPED_INT(t, label); opened(0, label, nullptr); Guard g;
    if (leave(0)) return 1;
    {
        HT_TRACE(t, names[label % 3]); opened(1, 0, names[label % 3]); Guard g2;
        if (leave(1)) return 2;
    }
    return 0;
}
static void opt(unsigned n)
{
    if (!stat_seen) { mapped((uintptr_t)stat, stat); stat_seen = true; }
    HT_TRACE_OPT_STATIC(t, stat); opened(0, (uintptr_t)stat, nullptr); Guard g;
    if (leave(2)) return;
    for (unsigned i = 0; i < n; i++)
    {
        uint64_t h = 5381;
        for (const char* c = "dyn"; *c; c++) h = h * 33 + (unsigned char)*c;
        if (!dyn_seen) { mapped(h, "dyn"); dyn_seen = true; }
        HT_TRACE_OPT_DYNAMIC(t, "dyn"); opened(0, h, nullptr); Guard g3;
        if (i == 1 && leave(3)) break;
        if (leave(4)) continue;
        HT_TRACE_FUNCTION(t); opened(1, 0, __func__); Guard g4;
        if (inner(i) && fate == 2) return;
    }
}
extern "C" void harness(void)
{
    begin();
    where = (int)sym_choice("where", 6);
    fate = (int)sym_choice("fate", 3);
    try {
        HT_TRACE(t, "outer"); opened(1, 0, "outer"); Guard g;
        inner(sym_u64("label"));
        opt(sym_choice("n", 3));
        leave(5);
    } catch (Boom& b) { sym_check(b.at == where, "the exception passes through the scopes unchanged"); sym_reached("exception"); }
    sym_check(depth == 0, "harness: all scopes left");
    where = -1;
    opt(0);
    finish();
}
