#include "c32_scopes.inc"
static int where;
static void close_guard(int* x) { (void)x; closed(); }
#define GUARD int guard __attribute__((__cleanup__(close_guard))) = 0; (void)guard
static int inner(uint64_t label, unsigned n)
{
    unsigned i;
    HT_TP_SCOPED_INT(t, label); opened(0, label, NULL); GUARD;
    if (where == 0) return 1;
    for (i = 0; i < n; i++)
    {
        HT_TRACE(t, i ? "again" : ""); opened(1, 0, i ? "again" : ""); GUARD;
        if (where == 1) continue;
        if (where == 2) break;
        if (where == 3) goto out;
        {
            HT_TRACE_FUNCTION(t); opened(1, 0, __func__); GUARD;
            if (where == 4 && i == 1) return 2;
        }
        {
            uint64_t h = 5381;
            const char* c;
            static int seen;
            for (c = "dyn"; *c; c++) h = h * 33 + (unsigned char)*c;
            if (!seen) { mapped(h, "dyn"); seen = 1; }
            HT_TRACE_OPT_DYNAMIC(t, "dyn"); opened(0, h, NULL); GUARD;
            if (where == 5) goto out;
        }
        {
            static const char lab[] = "static label";
            static int seen;
            if (!seen) { mapped((uintptr_t)lab, lab); seen = 1; }
            HT_TRACE_OPT_STATIC(t, lab); opened(0, (uintptr_t)lab, NULL); GUARD;
            if (where == 6) return 3;
        }
    }
out:
    return 0;
}
void harness(void)
{
    begin();
    where = (int)sym_choice("where", 8);
    {
        HT_TRACE(t, "outer"); opened(1, 0, "outer"); GUARD;
        inner(sym_u64("label"), sym_choice("n", 3));
    }
    inner(7, 1);
    sym_check(depth == 0, "harness: all scopes left");
    finish();
}
