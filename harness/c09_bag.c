/* C09: bag and stack against reference models. */
#include "common.h"
#include <internal/bag.h>
#include <internal/stack.h>
#define BAG(TYPE, SUF, M, T) \
static void bag_##SUF(void) \
{ \
    HT_Bag##TYPE b; \
    T ref[OPS + GROW + 1]; \
    unsigned n = 0, k, i, j; \
    int where[OPS + GROW + 1]; \
    sym_check(ht_bag_##SUF##_init(&b, 1 + sym_choice("mincap", 4)) == HT_ERR_OK, "init"); \
    for (k = 0; k < OPS + GROW; k++) \
    { \
        unsigned op = k < GROW ? 0 : sym_choice("op", n ? 3 : 2); \
        if (op == 0) { T v = M(k + 1); sym_check(ht_bag_##SUF##_add(&b, v) == HT_ERR_OK, "add succeeds"); ref[n++] = v; } \
        else if (op == 1) { ht_bag_##SUF##_clear(&b); n = 0; } \
        else \
        { \
            unsigned at = n > 6 ? (unsigned[]){0, 1, n / 2, n - 1}[sym_choice("at4", 4)] : sym_choice("at", n); \
            unsigned tag = TAG(ht_bag_nth(b, at)); \
            ht_bag_##SUF##_remove_nth(&b, at); \
            for (i = 0; i < n; i++) if (TAG(ref[i]) == tag) { ref[i] = ref[--n]; break; } \
        } \
        sym_check(ht_bag_size(b) == n, "a bag holds as many elements as were added and not removed"); \
        if (k + 1 < GROW) continue; \
        for (i = 0; i < n; i++) where[i] = 0; \
        for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (TAG(ht_bag_nth(b, i)) == TAG(ref[j])) { where[j]++; sym_check(ht_bag_nth(b, i) == ref[j], "a bag's elements keep their values"); } \
        for (i = 0; i < n; i++) sym_check(where[i] == 1, "a bag holds exactly the elements added and not removed"); \
        if (n) sym_check(ht_bag_last(b) == ht_bag_nth(b, n - 1), "last element"); \
    } \
    sym_observe("n", n); \
    ht_bag_##SUF##_deinit(&b); \
}
#define TAG(v) ((unsigned)((uintptr_t)(v) & 0xff))
#define MK64(t) (((uint64_t)sym_u32("v") << 8) | (t))
#define MKP(t) (void*)(((uintptr_t)sym_u32("v") << 8) | (t))
#define MKI(t) (int)(((uint32_t)sym_u16("v") << 8) | (t))
BAG(UInt64, uint64, MK64, uint64_t)
BAG(VoidPtr, void_ptr, MKP, void*)
BAG(Int, int, MKI, int)
static void stack(void)
{
    static const unsigned sizes[] = {0, 1, 5, 16, 40};
    HT_Stack s;
    uint8_t* ref[OPS + GROW + 1];
    unsigned len[OPS + GROW + 1], n = 0, k, i;
    sym_check(ht_stack_init(&s, 1 + 7 * sym_choice("cap", 3), 1 + sym_choice("ncap", 2)) == HT_ERR_OK, "init");
    for (k = 0; k < OPS + GROW; k++)
    {
        if (k < GROW || !n || sym_choice("op", 2))
        {
            unsigned l = k < GROW ? 24 : sizes[sym_choice("size", 5)];
            ref[n] = (uint8_t*)malloc(l + 1); len[n] = l;
            sym_bytes(ref[n], l, "d");
            sym_check(ht_stack_push(&s, ref[n], l) == HT_ERR_OK, "push succeeds");
            n++;
        }
        else { ht_stack_pop(&s); n--; }
        if (n) sym_check(memcmp(ht_stack_top(&s), ref[n - 1], len[n - 1]) == 0, "top of the stack is the last element pushed and not popped");
    }
    while (n) { sym_check(memcmp(ht_stack_top(&s), ref[n - 1], len[n - 1]) == 0, "elements come back in reverse order, unchanged"); ht_stack_pop(&s); n--; }
    ht_stack_deinit(&s);
}
void harness(void)
{
#if PART == 0
    bag_uint64();
#elif PART == 1
    bag_void_ptr();
#elif PART == 2
    bag_int();
#else
    stack();
#endif
}
