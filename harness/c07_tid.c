/* C07: thread ids. */
#include "common.h"
#include <hawktracer/thread.h>
#include <pthread.h>
static uint32_t ids[NT + 1];
static void* run(void* a)
{
    unsigned me = (unsigned)(uintptr_t)a, k;
    ids[me] = ht_thread_get_current_thread_id();
    for (k = 0; k < 2; k++) sym_check(ht_thread_get_current_thread_id() == ids[me], "a thread keeps its id");
    return NULL;
}
void harness(void)
{
    pthread_t th[NT];
    unsigned i, j, mainfirst = sym_choice("mainfirst", 2), late = sym_choice("late", 2);
    if (mainfirst) run((void*)(uintptr_t)NT);
    for (i = 0; i < NT - late; i++) pthread_create(&th[i], NULL, run, (void*)(uintptr_t)i);
    for (i = 0; i < NT - late; i++) pthread_join(th[i], NULL);
    if (late) { pthread_create(&th[NT - 1], NULL, run, (void*)(uintptr_t)(NT - 1)); pthread_join(th[NT - 1], NULL); }
    run((void*)(uintptr_t)NT);
    for (i = 0; i <= NT; i++) for (j = 0; j < i; j++) sym_check(ids[i] != ids[j], "no two threads share an id");
}
