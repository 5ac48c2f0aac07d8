#include "common.h"
#include <internal/listener_buffer.h>
static Out got, want;
static void cb(void* l, HT_Byte* d, size_t n)
{
    sym_check(l == &got, "flush callback gets its listener");
    out_mem(&got, d, n);
}
void harness(void)
{
    HT_ListenerBuffer b;
    unsigned i, k, size = sym_choice("bufsize", MAXBUF + 1);
    out_init(&got, CHUNKS * CLEN); out_init(&want, CHUNKS * CLEN);
    sym_check(ht_listener_buffer_init(&b, size) == HT_ERR_OK, "init");
    for (k = 0; k < CHUNKS; k++)
    {
        unsigned n = sym_choice("len", CLEN + 1);
        uint8_t* c = (uint8_t*)malloc(n ? n : 1);
        sym_bytes(c, n, "b");
        out_mem(&want, c, n);
        ht_listener_buffer_process_serialized_events(&b, c, n, cb, &got);
        for (i = 0; i < n; i++) c[i] ^= 0x55; /* the caller may reuse its memory */
        free(c);
        if (sym_choice("flush", 2)) { ht_listener_buffer_flush(&b, cb, &got); check_same(&got, &want, "everything is out after a flush (length)", "everything is out after a flush (bytes)"); }
        sym_check(got.n <= want.n && same(&got, &want, 0, got.n), "output is a prefix of the input");
        sym_check(want.n - got.n <= size, "no more than a buffer is pending");
    }
    ht_listener_buffer_flush(&b, cb, &got);
    check_same(&got, &want, "flushed length equals input length", "flushed bytes equal input bytes");
    sym_observe("n", got.n);
    ht_listener_buffer_deinit(&b);
}
