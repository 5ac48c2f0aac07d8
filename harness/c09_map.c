/* C09: hash map against a reference map. */
#include "common.h"
#include <internal/hash_map.h>
static uint64_t keys[OPS + GROW];
static const char* vals[OPS + GROW];
static unsigned n, seen[OPS + GROW], stop_after, calls;
static HT_Boolean each(uint64_t k, const char* v, void* ud)
{
    unsigned i, hit = 0;
    sym_check(ud == &n, "callback gets its user data");
    calls++;
    for (i = 0; i < n; i++) if (keys[i] == k) { seen[i]++; hit = 1; sym_check(vals[i] == v, "for_each gives each key its latest value"); }
    sym_check(hit, "for_each visits only inserted keys");
    return calls != stop_after;
}
static uint64_t mk(unsigned k) { return k < GROW ? ((uint64_t)(k + 1) << 9) | 7 : (((uint64_t)sym_u32("key")) << 9) | (sym_choice("bucket", 2) ? 7 : 511); }
void harness(void)
{
    static char store[OPS + GROW + 1];
    HT_HashMap* m = (HT_HashMap*)malloc(sizeof *m);
    unsigned k, i;
    sym_check(ht_hash_map_init(m) == HT_ERR_OK, "init");
    for (k = 0; k < OPS + GROW; k++)
    {
        uint64_t key = mk(k);
        if (k < GROW || sym_choice("op", 2))
        {
            HT_ErrorCode err = HT_ERR_UNKNOWN;
            const char *old = NULL, *got;
            for (i = 0; i < n; i++) if (keys[i] == key) { old = vals[i]; break; }
            got = ht_hash_map_insert(m, key, &store[k], &err);
            sym_check(err == HT_ERR_OK, "insert succeeds");
            sym_check(got == old, "insert returns the value it replaces");
            keys[i] = key; vals[i] = &store[k];
            if (i == n) n++;
        }
        else
        {
            const char* want = NULL;
            for (i = 0; i < n; i++) if (keys[i] == key) { want = vals[i]; break; }
            sym_check(ht_hash_map_get_value(m, key) == want, "get returns the latest value of the key, or nothing");
        }
    }
    for (i = 0; i < n; i++) sym_check(ht_hash_map_get_value(m, keys[i]) == vals[i], "every inserted key is found");
    ht_hash_map_for_each(m, each, &n);
    for (i = 0; i < n; i++) sym_check(seen[i] == 1, "for_each visits every key once");
    if (n > 1) { calls = 0; stop_after = 1; ht_hash_map_for_each(m, each, &n); sym_check(calls == 1, "for_each stops when told to"); }
    ht_hash_map_deinit(m);
}
