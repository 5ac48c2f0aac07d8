/* C30: listener groups. */
#define HARNESS_CLOCK 1
#include "common.h"
typedef struct { unsigned calls, destroyed; int group; int live; int order; } L;
#define MAXL (OPS * BATCH + 1)
static L ls[MAXL];
static unsigned seq;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud)
{
    L* l = (L*)ud;
    (void)ev; (void)n; (void)ser;
    sym_check(l >= ls && l < ls + MAXL && l->live, "only registered listeners are called, with their own data");
    l->calls++; l->order = (int)seq++;
}
static void on_destroy(void* ud) { L* l = (L*)ud; sym_check(l >= ls && l < ls + MAXL, "a listener's destroy callback gets its own data"); l->destroyed++; l->live = 0; }
static const char* const names[] = {NULL, "alpha", "beta", NULL};
void harness(void)
{
    HT_Timeline* t[NTL];
    int grp[NTL];   /* -1 destroyed; else group id: named 1..2, anonymous 10+i */
    unsigned i, j, k, nl = 0;
    ht_init(0, NULL);
    for (i = 0; i < NTL; i++)
    {
        unsigned nm = sym_choice("name", 3);
        char buf[8];
        if (names[nm]) strcpy(buf, names[nm]); /* the name is compared by content */
        t[i] = ht_timeline_create(0, sym_choice("safe", 2), HT_TRUE, names[nm] ? buf : NULL, NULL);
        sym_check(t[i] != NULL, "timeline is created");
        grp[i] = nm ? (int)nm : 10 + (int)i;
    }
    for (k = 0; k < OPS; k++)
    {
        unsigned op = sym_choice("op", 4), w = sym_choice("tl", NTL);
        if (grp[w] < 0) continue;
        if (op == 0)
        {
            unsigned cnt = BATCH;
            for (i = 0; i < cnt; i++)
            {
                L* l = &ls[nl++];
                l->group = grp[w]; l->live = 1;
                sym_check(ht_timeline_register_listener_full(t[w], on_events, l, on_destroy) == HT_ERR_OK, "listener is registered");
            }
        }
        else if (op == 1)
        {
            for (i = 0; i < nl; i++) ls[i].calls = 0;
            seq = 0;
            HT_TIMELINE_PUSH_EVENT(t[w], HT_StringMappingEvent, 1, "x");
            for (i = 0; i < nl; i++) sym_check(ls[i].calls == (ls[i].group == grp[w] && ls[i].live ? 1u : 0u), "an event reaches every listener of its timeline's group once, and no other");
            for (i = 0; i < nl; i++) for (j = 0; j < i; j++) if (ls[i].calls && ls[j].calls) sym_check(ls[j].order < ls[i].order, "listeners are called in the order of registration");
        }
        else if (op == 2)
        {
            ht_timeline_unregister_all_listeners(t[w]);
            for (i = 0; i < nl; i++) if (ls[i].group == grp[w]) sym_check(ls[i].destroyed == 1, "unregistering destroys the listeners of the group, once");
        }
        else
        {
            int g = grp[w];
            ht_timeline_destroy(t[w]);
            grp[w] = -1;
            for (i = 0; i < nl; i++) if (ls[i].group == g) sym_check(ls[i].destroyed == (g >= 10 || !ls[i].live ? 1u : 0u), "listeners of a named group outlive a timeline; anonymous ones do not");
        }
    }
    for (i = 0; i < NTL; i++) if (grp[i] >= 0) ht_timeline_destroy(t[i]);
    ht_deinit();
    for (i = 0; i < nl; i++) sym_check(ls[i].destroyed == 1, "every listener is destroyed exactly once");
}
