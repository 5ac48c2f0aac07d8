/* C26: timestamps are the monotonic clock in nanoseconds; duration macros convert exactly. */
#define HARNESS_CLOCK 3
#include "common.h"
#include <hawktracer/monotonic_clock.h>
#include <hawktracer/duration_conversion.h>
extern "C" uint64_t c_dur(int k, uint32_t x);
template <class T> static void conv(const char* n)
{
    T x = (T)sym_u64(n);
    sym_assume(x >= 0);
    uint64_t v = (uint64_t)x;
    sym_check((uint64_t)HT_DUR_NS(x) == v, "nanoseconds");
    sym_check((uint64_t)HT_DUR_US(x) == v * 1000u, "microseconds");
    sym_check((uint64_t)HT_DUR_MS(x) == v * 1000000u, "milliseconds");
    sym_check((uint64_t)HT_DUR_S(x) == v * 1000000000u, "seconds");
    sym_check((uint64_t)HT_DUR_S(x + 1) == (v + 1) * 1000000000u, "seconds of an expression");
    sym_check((uint64_t)HT_DUR_MS(x + 1) == (v + 1) * 1000000u, "milliseconds of an expression");
    sym_check((uint64_t)HT_DUR_US(x + 1) == (v + 1) * 1000u, "microseconds of an expression");
}
extern "C" void harness(void)
{
    unsigned w = sym_choice("part", 6);
    if (w == 0) conv<uint8_t>("v");
    else if (w == 1) { uint32_t x = (uint32_t)sym_u32("v"); sym_assume(x < 0xffffffffu); sym_check((uint64_t)HT_DUR_S(x) == (uint64_t)x * 1000000000u, "seconds"); sym_check((uint64_t)HT_DUR_MS(x) == (uint64_t)x * 1000000u, "milliseconds"); sym_check((uint64_t)HT_DUR_US(x) == (uint64_t)x * 1000u, "microseconds"); sym_check((uint64_t)HT_DUR_NS(x) == x, "nanoseconds"); }
    else if (w == 2) conv<uint16_t>("v");
    else if (w == 3) { int x = (int)sym_u32("v"); sym_assume(x >= 0); sym_check((uint64_t)HT_DUR_S(x) == (uint64_t)x * 1000000000u, "seconds"); sym_check((uint64_t)HT_DUR_MS(x) == (uint64_t)x * 1000000u, "milliseconds"); sym_check((uint64_t)HT_DUR_US(x) == (uint64_t)x * 1000u, "microseconds"); }
    else if (w == 4)
    {
        /* whatever the monotonic clock says is the timestamp */
        hc_last = sym_u64("now");
        sym_assume(hc_last < (1ull << 63));
        sym_check(ht_monotonic_clock_get_timestamp() == hc_last, "a timestamp is the monotonic clock's reading in nanoseconds");
        uint64_t a = hc_last, d = sym_u32("d");
        hc_last += d;
        sym_check(ht_monotonic_clock_get_timestamp() - a == d, "timestamps advance with the clock");
    }
    else
    {
        HT_Timeline* t;
        HT_CallstackIntEvent e;
        ht_init(0, NULL);
        t = ht_timeline_create(64, HT_FALSE, HT_TRUE, NULL, NULL);
        hc_last = sym_u64("now");
        sym_assume(hc_last < (1ull << 63));
        memset(&e, 0, sizeof e);
        ht_timeline_init_event(t, HT_EVENT(&e));
        sym_check(HT_EVENT(&e)->timestamp == hc_last, "an event is stamped with the time it is initialised");
        ht_timeline_destroy(t);
        ht_deinit();
    }
}
