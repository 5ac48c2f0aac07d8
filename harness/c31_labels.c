/* C31: cached labels. Every label added to a timeline gets an identifier that stays the same for that label, differs from
 * those of other labels, and is announced exactly once by a mapping event carrying the label's text; push_map announces all again. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <hawktracer/feature_cached_string.h>
#define MAXL 12
static Out got;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ud; sym_check(ser, "events are serialized"); out_mem(&got, ev, n); }
/* labels the timeline knows, in the harness's view */
static struct { char text[48]; const char* ptr; uint64_t id; unsigned seen; } known[MAXL];
static unsigned nknown;
static size_t parsed;
/* consumes the mapping events received since the last call; counts them per known label */
static unsigned consume(void)
{
    unsigned n = 0, i, k;
    while (parsed < got.n)
    {
        uint64_t id = 0;
        const char* text;
        sym_check(got.n - parsed >= 29, "a mapping event is complete");
        for (i = 0; i < 8; i++) id |= (uint64_t)got.p[parsed + 20 + i] << (8 * i);
        text = (const char*)got.p + parsed + 28;
        for (k = 0; k < nknown; k++) if (known[k].id == id && strcmp(known[k].text, text) == 0) { known[k].seen++; break; }
        sym_check(k < nknown, "a mapping event carries the identifier and the text of a label that was added");
        parsed += 29 + strlen(text);
        n++;
    }
    return n;
}

void harness(void)
{
    static char st0[48] = "x", st1[48], st2[48] = "x";
    const char* st[3] = {st0, st1, st2};
    HT_Timeline* t;
    unsigned i, k, op;
    HT_Boolean ts;
    st1[0] = (char)sym_range("static", 'x', 'y'); st1[1] = 0;
    out_init(&got, 4096);
    ht_init(0, NULL);
    ts = sym_choice("threadsafe", 2);
    t = ht_timeline_create(ts ? 60 : 1000, ts, HT_TRUE, NULL, NULL);
    sym_check(ht_feature_cached_string_enable(t, ts) == HT_ERR_OK, "cached labels can be enabled");
    ht_timeline_register_listener(t, on_events, NULL);
    for (op = 0; op < OPS; op++)
    {
        uint64_t id;
        unsigned what = sym_choice("op", 6), n, is_new;
        char buf[48];
        const char* ptr = NULL;
        if (what == 5)
        {
            ht_feature_cached_string_push_map(t);
            ht_timeline_flush(t);
            for (k = 0; k < nknown; k++) known[k].seen = 0;
            n = consume();
            sym_check(n == nknown, "push_map announces as many labels as were added");
            for (k = 0; k < nknown; k++) sym_check(known[k].seen == 1, "push_map announces every label once");
            sym_reached("push_map");
            continue;
        }
        if (what <= 2) { ptr = st[what]; strcpy(buf, ptr); }
        else if (what == 3) { unsigned len = (unsigned)sym_range("len", 0, 2); for (i = 0; i < len; i++) buf[i] = (char)sym_range("ch", 'a', 'b'); buf[len] = 0; }
        else { memset(buf, 'z', 40); buf[39] = (char)sym_range("ch", 'y', 'z'); buf[40] = 0; }
        for (k = 0; k < nknown; k++) if (known[k].ptr == ptr && strcmp(known[k].text, buf) == 0) break;
        is_new = k == nknown;
        id = ptr ? ht_feature_cached_string_add_mapping(t, ptr) : ht_feature_cached_string_add_mapping_dynamic(t, buf);
        if (k < nknown) sym_check(known[k].id == id, "a label keeps its identifier");
        else
        {
            for (i = 0; i < nknown; i++) sym_check(known[i].id != id, "different labels get different identifiers");
            strcpy(known[nknown].text, buf); known[nknown].ptr = ptr; known[nknown].id = id; known[nknown].seen = 0;
            nknown++;
        }
        if (!ptr) memset(buf, '!', sizeof buf - 1); /* a dynamic label need not outlive the call */
        ht_timeline_flush(t);
        n = consume();
        if (is_new) sym_check(n == 1 && known[k].seen == 1, "a label is announced by exactly one mapping event when it is first added");
        else sym_check(n == 0, "a label that is already known is not announced again");
    }
    ht_timeline_destroy(t);
    ht_deinit();
    sym_observe("bytes", got.n);
}
