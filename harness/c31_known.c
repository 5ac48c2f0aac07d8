/* C31, known finding: dynamic labels with the same djb2 hash share an identifier. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <hawktracer/feature_cached_string.h>
static uint64_t djb2(const char* s) { uint64_t h = 5381; while (*s) h = h * 33 + (unsigned char)*s++; return h; }
void harness(void)
{
    HT_Timeline* t;
    char a[3], b[3];
    uint64_t x, y;
    a[0] = (char)sym_range("a0", 'a', 'b'); a[1] = sym_choice("a1", 2) ? 'A' : 'b'; a[2] = 0;
    b[0] = (char)sym_range("b0", 'a', 'b'); b[1] = sym_choice("b1", 2) ? 'A' : 'b'; b[2] = 0;
    sym_assume(strcmp(a, b) != 0 && djb2(a) == djb2(b));
    ht_init(0, NULL);
    t = ht_timeline_create(1000, HT_FALSE, HT_TRUE, NULL, NULL);
    ht_feature_cached_string_enable(t, HT_FALSE);
    x = ht_feature_cached_string_add_mapping_dynamic(t, a);
    y = ht_feature_cached_string_add_mapping_dynamic(t, b);
    sym_check(x != y, "different labels get different identifiers");
}
