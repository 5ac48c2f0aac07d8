/* C03 for unserialized events: the flushed bytes are the serialized events, whatever the buffer size (0 = no buffer). */
#include "common.h"
#include <internal/listener_buffer.h>
static Out got, want;
static void cb(void* l, HT_Byte* d, size_t n)
{
    sym_check(l == &got, "flush callback gets its listener");
    if (n) out_mem(&got, d, n);
}
#define INIT(T, e) T e; memset(&e, 0, sizeof e); HT_EVENT(&e)->klass = HT_EVENT_KLASS_GET(T); HT_EVENT(&e)->timestamp = sym_u64("ts"); HT_EVENT(&e)->id = sym_u64("id"); \
    out_base(&want, HT_EVENT_KLASS_GET(T)->klass_id, HT_EVENT(&e)->timestamp, HT_EVENT(&e)->id)
void harness(void)
{
    static const unsigned lens[] = {0, 1, 30, 120, 300};
    HT_ListenerBuffer b;
    unsigned k, i, size = LO + sym_choice("bufsize", HI - LO + 1);
    uint8_t* chunk = (uint8_t*)malloc(8);
    size_t used = 0;
    ht_init(0, NULL);
    out_init(&got, 2048); out_init(&want, 2048);
    sym_check(ht_listener_buffer_init(&b, size) == HT_ERR_OK, "init");
    for (k = 0; k < EVENTS; k++)
    {
        unsigned c = sym_choice("kind", 7);
        if (c == 0) { INIT(HT_Event, e); chunk = realloc(chunk, used + sizeof e); memcpy(chunk + used, &e, sizeof e); used += sizeof e; }
        else if (c == 1)
        {
            INIT(HT_CallstackIntEvent, e); e.base.duration = sym_u64("f"); e.base.thread_id = sym_u32("f"); e.label = sym_u64("f");
            out_le(&want, e.base.duration, 8); out_le(&want, e.base.thread_id, 4); out_le(&want, e.label, 8);
            chunk = realloc(chunk, used + sizeof e); memcpy(chunk + used, &e, sizeof e); used += sizeof e;
        }
        else
        {
            char* s = (char*)malloc(lens[c - 2] + 1);
            memset(s, 'q', lens[c - 2]); s[lens[c - 2]] = 0;
            if (lens[c - 2]) { s[0] = (char)sym_u8("ch"); sym_assume(s[0] != 0); }
            INIT(HT_StringMappingEvent, e); e.identifier = sym_u64("f"); e.label = s;
            out_le(&want, e.identifier, 8); out_str(&want, s);
            chunk = realloc(chunk, used + sizeof e); memcpy(chunk + used, &e, sizeof e); used += sizeof e;
        }
        if (k + 1 == EVENTS || sym_choice("deliver", 2)) { ht_listener_buffer_process_unserialized_events(&b, chunk, used, cb, &got); used = 0; }
        sym_check(got.n <= want.n && same(&got, &want, 0, got.n), "output is a prefix of the serialized events");
    }
    ht_listener_buffer_flush(&b, cb, &got);
    check_same(&got, &want, "flushed length equals the serialized length of all events", "flushed bytes equal the serialized events");
    sym_observe("n", got.n);
    ht_listener_buffer_deinit(&b);
    ht_deinit();
}
