/* C11: task scheduler against a reference. */
#define HARNESS_CLOCK 3
#include "common.h"
#include <hawktracer/task_scheduler.h>
#define MAXT 4
typedef struct { int live; int32_t id; uint64_t period, next; int mode; unsigned ran; int keep; uint32_t adv; } T;
static T ts[MAXT];
static HT_Boolean cb(void* ud)
{
    T* t = (T*)ud;
    sym_check(t >= ts && t < ts + MAXT && t->live, "only scheduled tasks run, with their own user data");
    sym_check(t->next <= hc_last, "a task never runs before its time");
    t->ran++;
    sym_check(t->ran == 1, "a task runs at most once per tick");
    hc_last += t->adv;
    t->next = t->mode == HT_TASK_SCHEDULING_IGNORE_DELAYS ? t->next + t->period : hc_last + t->period;
    return t->keep;
}
static void tick(HT_TaskScheduler* s)
{
    unsigned i;
    int due[MAXT];
    for (i = 0; i < MAXT; i++)
    {
        ts[i].ran = 0;
        due[i] = ts[i].live && ts[i].next <= hc_last;
        ts[i].keep = ts[i].live ? (int)sym_choice("keep", 2) : 0; ts[i].adv = ts[i].live && i == 0 ? sym_u8("adv") : 0;
    }
    ht_task_scheduler_tick(s);
    for (i = 0; i < MAXT; i++)
    {
        if (due[i]) sym_check(ts[i].ran == 1, "a due task runs in the tick");
        if (ts[i].ran && !ts[i].keep) ts[i].live = 0;
    }
}
void harness(void)
{
    HT_ErrorCode err;
    HT_TaskScheduler* s = ht_task_scheduler_create(&err);
    unsigned k, i, n = 0;
    int32_t maxid = -1;
    sym_check(s != NULL && err == HT_ERR_OK, "scheduler is created");
    sym_check(ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, 1, NULL, NULL) == HT_TASK_SCHEDULER_INVALID_TASK_ID, "a task without callback is refused");
    hc_last = sym_u8("t0");
    for (k = 0; k < OPS; k++)
    {
        unsigned op = k == 0 ? 0 : sym_choice("op", n < MAXT ? 3 : 2) ;
        if (k && op < 2) op = 1 - op; /* tick, remove, schedule */
        else op = 2;
        if (op == 2)
        {
            T* t = &ts[n++];
            t->live = 1; t->period = sym_u8("period"); t->mode = (int)sym_choice("mode", 2); t->next = hc_last + t->period;
            t->id = ht_task_scheduler_schedule_task(s, (HT_TaskSchedulingMode)t->mode, t->period, cb, t);
            sym_check(t->id > maxid, "task ids are fresh");
            maxid = t->id;
        }
        else if (op == 1)
        {
            int32_t id = (int32_t)sym_choice("id", n + 2) - 1; /* ids are not documented to be dense: remove by slot or by an unused id */
            int exists = 0;
            if (id >= 0 && id < (int32_t)n) { exists = ts[id].live; id = ts[id].id; for (i = 0; i < n; i++) if (ts[i].id == id) ts[i].live = 0; }
            else if (id >= 0) id = maxid + 1;
            sym_check(!!ht_task_scheduler_remove_task(s, id) == exists, "removing reports whether the task existed");
        }
        else { hc_last += sym_u8("wait"); tick(s); }
    }
    tick(s);
    sym_observe("live", ts[0].live + 2 * ts[1].live);
    ht_task_scheduler_destroy(s);
}
