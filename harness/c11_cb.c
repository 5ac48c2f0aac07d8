/* C11: callbacks that remove tasks, their own or others, or schedule new ones. */
#define HARNESS_CLOCK 3
#include "common.h"
#include <hawktracer/task_scheduler.h>
#define MAXT (NT + 1)
typedef struct { int live; int32_t id; uint64_t period, next; int mode, keep, act; unsigned ran; } T;
static T ts[MAXT];
static unsigned n;
static HT_TaskScheduler* s;
static HT_Boolean cb(void* ud);
static int pick(const char* name, int k) { unsigned v = sym_choice(name, (unsigned)k); int i; for (i = 0; i < k - 1; i++) if (v == (unsigned)i) return i; return k - 1; }
static void add(void)
{
    T* t = &ts[n];
    unsigned i;
    t->live = 1; t->period = SYMT ? sym_u8("period") : (uint64_t)pick("period", 2) * 5; t->mode = MODE < 2 ? MODE : pick("mode", 2); t->next = hc_last + t->period;
    t->keep = pick("keep", 2);
    t->act = pick("act", NT + 2); /* 0 nothing, 1..NT remove that task, NT+1 schedule */
    n++;
    t->id = ht_task_scheduler_schedule_task(s, (HT_TaskSchedulingMode)t->mode, t->period, cb, t);
    sym_check(t->id >= 0, "the task is scheduled");
    for (i = 0; i + 1 < n; i++) sym_check(ts[i].id != t->id, "task ids are fresh");
}
static HT_Boolean cb(void* ud)
{
    T* t = (T*)ud;
    sym_check(t >= ts && t < ts + MAXT && t->live, "a removed task never runs again");
    sym_check(t->next <= hc_last, "a task never runs before its time");
    t->ran++;
    sym_check(t->ran == 1, "a task runs at most once per tick");
    t->next = t->mode == HT_TASK_SCHEDULING_IGNORE_DELAYS ? t->next + t->period : hc_last + t->period;
    if (t->act == NT + 1) { if (n < MAXT) add(); }
    else if (t->act > 0)
    {
        T* o = &ts[t->act - 1];
        sym_check(!!ht_task_scheduler_remove_task(s, o->id) == o->live, "removing reports whether the task existed");
        o->live = 0;
    }
    if (!t->keep) t->live = 0;
    return t->keep;
}
void harness(void)
{
    unsigned k, i;
    s = ht_task_scheduler_create(NULL);
    sym_check(s != NULL, "scheduler is created");
    hc_last = 1000;
    for (i = 0; i < NT; i++) add();
    for (k = 0; k < TICKS; k++)
    {
        int due[MAXT];
        hc_last += SYMT ? sym_u8("wait") : (uint64_t)pick("wait", 2) * 5;
        for (i = 0; i < MAXT; i++) { ts[i].ran = 0; due[i] = i < n && ts[i].live && ts[i].next <= hc_last; }
        ht_task_scheduler_tick(s);
        for (i = 0; i < MAXT; i++) if (due[i] && ts[i].live) sym_check(ts[i].ran == 1, "a due task that is not removed runs in the tick");
        for (i = 0; i < MAXT; i++) sym_observe("ran", ts[i].ran);
    }
    for (i = 0; i < n; i++) sym_check(!!ht_task_scheduler_remove_task(s, ts[i].id) == ts[i].live, "the scheduler knows exactly the live tasks");
    ht_task_scheduler_destroy(s);
}
