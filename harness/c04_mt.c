/* C04 under concurrency: threads deliver to one file listener while it is flushed or stopped. */
#define HARNESS_CLOCK 1
#include "filemodel.h"
#include <hawktracer/listeners/file_dump_listener.h>
#include <pthread.h>
static HT_FileDumpListener* l;
static void* writer(void* a)
{
    unsigned me = (unsigned)(uintptr_t)a, k;
    for (k = 0; k < PUSHES; k++)
    {
        uint8_t rec[8];
        memset(rec, (int)(16 * me + k), sizeof rec);
        ht_file_dump_listener_callback(rec, sizeof rec, HT_TRUE, l);
    }
    return NULL;
}
void harness(void)
{
    static const unsigned bufs[] = {0, 5, 8, 12, 64};
    pthread_t th[2];
    HT_ErrorCode err;
    size_t meta, i;
    unsigned next[3] = {0}, k, op = sym_choice("op", 4);
    ht_init(0, NULL);
    fm_init(8000);
    l = ht_file_dump_listener_create("trace.htdump", bufs[sym_choice("buf", 5)], &err);
    ht_file_dump_listener_flush(l, HT_FALSE);
    meta = fm_data.n;
    for (k = 0; k < 2; k++) pthread_create(&th[k], NULL, writer, (void*)(uintptr_t)(k + 1));
    if (op == 1) ht_file_dump_listener_flush(l, HT_TRUE);
    if (op == 2) { ht_file_dump_listener_stop(l); sym_check(!fm_open && fm_closed == 1, "stopping closes the file"); }
    for (k = 0; k < 2; k++) pthread_join(th[k], NULL);
    if (op == 3) ht_file_dump_listener_stop(l);
    ht_file_dump_listener_destroy(l);
    sym_check(!fm_open && fm_closed == 1, "the file is closed exactly once");
    sym_check((fm_data.n - meta) % 8 == 0, "the file holds whole deliveries");
    if (op != 2) sym_check(fm_data.n - meta == 2 * PUSHES * 8, "every delivery is in the file");
    for (i = meta; i + 8 <= fm_data.n; i += 8)
    {
        unsigned me = fm_data.p[i] / 16, j;
        sym_check(me >= 1 && me <= 2, "a delivery is intact");
        j = next[me]++;
        for (k = 0; k < 8; k++) sym_check(fm_data.p[i + k] == 16 * me + j, "deliveries are contiguous, in the order of their thread");
    }
    sym_observe("n", fm_data.n - meta);
    ht_deinit();
}
