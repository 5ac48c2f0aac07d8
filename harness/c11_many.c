/* C11: many tasks (the task list grows and shrinks), and the optimal tick period. */
#define HARNESS_CLOCK 3
#include "common.h"
#include <hawktracer/task_scheduler.h>
static unsigned ran[NTASK], keep[NTASK];
static HT_Boolean cb(void* ud) { unsigned i = (unsigned)(uintptr_t)ud; ran[i]++; return keep[i]; }
static uint64_t gcd(uint64_t a, uint64_t b) { uint64_t d, r = 0; if (!a) return b; if (!b) return a; for (d = 1; d <= a && d <= b; d++) if (a % d == 0 && b % d == 0) r = d; return r; }
void harness(void)
{
    HT_TaskScheduler* s = ht_task_scheduler_create(NULL);
    unsigned i, pat, live = 0;
    int32_t id[NTASK];
    if (sym_choice("part", 2))
    {
        uint64_t g = 0;
        sym_check(ht_task_scheduler_get_optimal_tick_period(s) == 0, "no tasks, no period");
        for (i = 0; i < 3; i++)
        {
            uint64_t p = sym_choice("p", 13);
            ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, p, cb, 0);
            g = gcd(g, p);
            sym_check(ht_task_scheduler_get_optimal_tick_period(s) == g, "optimal tick period is the greatest common divisor of the non-zero periods");
        }
        ht_task_scheduler_destroy(s);
        return;
    }
    hc_last = 1000;
    for (i = 0; i < NTASK; i++) id[i] = ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, 10, cb, (void*)(uintptr_t)i);
    for (i = 0; i < NTASK; i++) { unsigned j; for (j = 0; j < i; j++) sym_check(id[i] != id[j], "task ids are unique"); sym_check(id[i] >= 0, "task is scheduled"); }
    pat = sym_choice("pattern", NTASK * 2);
    for (i = 0; i < NTASK; i++) { keep[i] = pat < NTASK ? (i % (pat + 1)) == 0 : i >= pat - NTASK; live += keep[i]; }
    ht_task_scheduler_tick(s);
    for (i = 0; i < NTASK; i++) sym_check(ran[i] == 0, "a task never runs before its time");
    hc_last += 10;
    ht_task_scheduler_tick(s);
    for (i = 0; i < NTASK; i++) sym_check(ran[i] == 1, "every due task runs once in the tick");
    hc_last += 10;
    ht_task_scheduler_tick(s);
    for (i = 0; i < NTASK; i++) sym_check(ran[i] == 1 + keep[i], "a task runs again exactly if its callback asked for it");
    for (i = 0; i < NTASK; i++) sym_check(!!ht_task_scheduler_remove_task(s, id[i]) == (int)keep[i], "removing reports whether the task existed");
    hc_last += 10;
    ht_task_scheduler_tick(s);
    for (i = 0; i < NTASK; i++) sym_check(ran[i] == 1 + keep[i], "a removed task never runs");
    ht_task_scheduler_destroy(s);
}
