/* C23: a TCP listener sends every client the metadata and then complete records, and survives faults. */
#define HARNESS_CLOCK 3
#include "common.h"
#include <hawktracer/listeners/tcp_listener.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <signal.h>
#include <errno.h>
#include <pthread.h>
void __eng_block(const void*); void __eng_wake(const void*, int); void __eng_yield(void);
#define QUIET __attribute__((no_sanitize("thread")))
#define NC 2
#define LISTEN_FD 5
#define LOST(c) (c->gone || c->failed)
static int fd0 = 10;
#define FD(c) (fd0 + (c))
typedef struct { int queued, accepted, gone, failed, settled, dead; Out rx; unsigned first_due; } Client;
static Client cl[NC];
static int listen_open, listening, shut, waiting, wait_chan, net_chan, sockets, closes, fail, sigpipe_ignored;
static unsigned faults, pushed, callbacks;
static int udata;
int hs_socket(int d, int t, int p) { (void)p; sym_check(d == AF_INET && t == SOCK_STREAM && !listen_open, "one listening socket is made"); if (fail == 1) return -1; listen_open = 1; sockets++; return LISTEN_FD; }
int hs_setsockopt(int fd, int l, int o, const void* v, socklen_t n) { (void)l; (void)o; (void)v; (void)n; return fail == 2 && fd == LISTEN_FD ? -1 : 0; }
int hs_bind(int fd, const struct sockaddr* a, socklen_t n)
{
    const struct sockaddr_in* i = (const struct sockaddr_in*)a;
    sym_check(fd == LISTEN_FD && n == sizeof *i && i->sin_family == AF_INET && i->sin_port == (uint16_t)(8765 << 8 | 8765 >> 8), "the server listens on the port asked for");
    return fail == 3 ? -1 : 0;
}
int hs_listen(int fd, int n) { (void)n; sym_check(fd == LISTEN_FD, "the socket made is used"); if (fail == 4) return -1; listening = 1; return 0; }
QUIET int hs_accept(int fd, struct sockaddr* a, socklen_t* n)
{
    unsigned i;
    (void)a; (void)n;
    __eng_yield();
    for (;;)
    {
        if (fd != LISTEN_FD || !listen_open) { errno = EBADF; return -1; }
        if (shut) { errno = EINVAL; return -1; }
        for (i = 0; i < NC; i++) if (cl[i].queued) { cl[i].queued = 0; cl[i].accepted = 1; return FD(i); }
        waiting = 1;
        __eng_wake(&wait_chan, 1);
        __eng_block(&net_chan);
        waiting = 0;
    }
}
QUIET ssize_t hs_send(int fd, const void* p, size_t n, int flags)
{
    Client* c = &cl[fd - FD(0)];
    size_t k = n;
    unsigned how = 0;
    sym_check(fd >= FD(0) && fd < FD(NC) && c->accepted == 1, "data goes to open connections only");
    sym_check(n > 0, "something is sent");
    if (c->gone || c->dead)
    {
        sym_check((flags & MSG_NOSIGNAL) || sigpipe_ignored, "a client that is gone does not terminate the process");
        errno = EPIPE;
        return -1;
    }
    if (faults) { how = sym_choice("send", faults-- == FAULTS ? 5 : 4); }
    if (how == 1) { errno = EINTR; return -1; }
    if (how == 2) { c->gone = 1; errno = ECONNRESET; return -1; }
    if (how == 3) k = 1;
    if (how == 4) { c->failed = 1; errno = ENOBUFS; return -1; } /* the connection itself stays usable */
    memcpy(c->rx.p + c->rx.n, p, k);
    c->rx.n += k;
    return (ssize_t)k;
}
QUIET int hs_shutdown(int fd, int how)
{
    (void)how;
    __eng_yield();
    if (fd == LISTEN_FD) { sym_check(listen_open, "only open sockets are used"); shut = 1; __eng_wake(&net_chan, 1); }
    else { sym_check(fd >= FD(0) && fd < FD(NC) && cl[fd - FD(0)].accepted == 1, "only open sockets are used"); cl[fd - FD(0)].dead = 1; }
    return 0;
}
QUIET int hs_close(int fd)
{
    __eng_yield();
    closes++;
    if (fd == LISTEN_FD) { sym_check(listen_open && !waiting, "the listening socket is closed once, not while in use"); listen_open = 0; shut = 1; __eng_wake(&net_chan, 1); }
    else { sym_check(fd >= FD(0) && fd < FD(NC) && cl[fd - FD(0)].accepted == 1, "a connection is closed once"); cl[fd - FD(0)].accepted = 2; }
    return 0;
}
void (*hs_signal(int s, void (*h)(int)))(int) { if (s == SIGPIPE && h == SIG_IGN) sigpipe_ignored = 1; return SIG_DFL; }
/* ---- the test program */
QUIET static void settle(void) { while (!waiting && listening && !shut) __eng_block(&wait_chan); }
QUIET static void connect_client(unsigned i) { waiting = 0; cl[i].queued = 1; __eng_wake(&net_chan, 1); }
static HT_TCPListener* l;
static uint8_t *ref[2], len_of[64];
static size_t nref[2], which;
static void take(TEventPtr e, size_t n, HT_Boolean s, void* u) { (void)s; (void)u; memcpy(ref[which] + nref[which], e, n); nref[which] += n; }
static void connected(int fd, void* u)
{
    sym_check(u == &udata && fd >= FD(0) && fd < FD(NC), "the callback gets the client and its data");
    callbacks++;
}
static uint8_t rec[64][24];
static int parallel_stop;
static void record(unsigned id, unsigned n)
{
    len_of[id] = (uint8_t)n;
    memset(rec[id], (int)id, n);
    rec[id][0] = (uint8_t)n;
}
static void push_now(unsigned shape)
{
#if RAW
    HT_DECL_EVENT(HT_Event, e);
    uint32_t k = HT_EVENT_GET_KLASS(&e)->klass_id;
    (void)shape;
    e.timestamp = 0x0101010101010101ull * pushed;
    e.id = e.timestamp;
    record(pushed, 20);
    memcpy(rec[pushed++], &k, 4);
    ht_tcp_listener_callback((TEventPtr)&e, sizeof e, HT_FALSE, l);
#else
    static const unsigned lens[] = {3, 9, 5};
    uint8_t d[32];
    unsigned n = lens[shape % 3];
    record(pushed, n);
    memcpy(d, rec[pushed++], n);
    if (shape >= 3) { record(pushed, 4); memcpy(d + n, rec[pushed++], 4); n += 4; }
    ht_tcp_listener_callback(d, n, HT_TRUE, l);
#endif
}
#define ID_AT (RAW ? 4 : 1)
static size_t runs[512][2], nruns; /* the parts of the metadata which are the same each time (all but event ids) */
static void check(unsigned ci)
{
    Client* c = &cl[ci];
    size_t i, n = c->rx.n, m = nref[0];
    unsigned id = 0, any = 0, j;
    for (i = 0; i < nruns && runs[i][0] < n; i++)
        sym_check(memcmp(c->rx.p + runs[i][0], ref[0] + runs[i][0], (runs[i][1] < n ? runs[i][1] : n) - runs[i][0]) == 0, "a client gets the metadata first");
    i = m;
    if (n < m) { sym_check(!c->accepted || LOST(c), "a client gets all of the metadata"); return; }
    while (i < n)
    {
        if (n - i <= ID_AT) { sym_check(LOST(c), "only a client that went away misses the rest of a record"); return; }
        if (!any) { any = 1; id = c->rx.p[i + ID_AT]; if (c->settled) sym_check(id <= c->first_due, "a client gets every record delivered after it connected"); }
        sym_check(id < pushed, "only records delivered are sent");
        for (j = 0; j < len_of[id] && i + j < n; j++) sym_check(c->rx.p[i + j] == rec[id][j], "records are complete and in order");
        if (j < len_of[id]) sym_check(LOST(c), "only a client that went away misses the rest of a record");
        i += len_of[id++];
    }
    if (!LOST(c) && !parallel_stop && c->settled) sym_check((any ? id : c->first_due) == pushed, "a client gets every record until the listener stops");
}
static void* pusher(void* a) { unsigned k; (void)a; for (k = 0; k < PUSHES; k++) push_now(RAW ? 0 : 1 + 2 * (k & 1)); return NULL; }
void harness(void)
{
    static const unsigned bufs[] = {4, 64, 0, 7};
    HT_ErrorCode err = HT_ERR_OK;
    unsigned i, op, next = 0;
    size_t at;
    uint64_t live;
    ht_allocator_set(ha_realloc, NULL);
    ht_init(0, NULL);
    for (i = 0; i < 2; i++) { ref[i] = (uint8_t*)malloc(8000); which = i; ht_timeline_listener_push_metadata(take, NULL, HT_TRUE); }
    sym_check(nref[0] == nref[1] && nref[0] > 0, "harness: metadata has a fixed size");
    for (at = 0; at < nref[0]; at++)
    {
        if (ref[0][at] != ref[1][at]) continue;
        runs[nruns][0] = at;
        while (at < nref[0] && ref[0][at] == ref[1][at]) at++;
        sym_check(nruns < 500, "harness: enough room");
        runs[nruns++][1] = at;
    }
    for (i = 0; i < NC; i++) out_init(&cl[i].rx, nref[0] + 300);
    live = (uint64_t)ha_live;
    fail = FAULTS > 1 ? (int)sym_choice("fail", 5) : 0;
    l = ht_tcp_listener_create(8765, bufs[sym_choice("buf", NBUF)], &err);
    sym_check((l != NULL) == (fail == 0) && (err == HT_ERR_OK) == (fail == 0), "creation succeeds exactly when the server can listen");
    if (!l) goto done;
    if (!FAULTS && !PUSHES && sym_choice("callback", 2)) { fd0 = 0; ht_tcp_listener_set_on_client_connected_callback(l, connected, &udata); } else callbacks = 1000;
#if PUSHES
    {
        pthread_t th;
        pthread_create(&th, NULL, pusher, NULL);
        connect_client(0);
        if (NBUF == 1 || sym_choice("stop", 2) == 0) { settle(); cl[0].settled = 1; cl[0].first_due = pushed; pthread_join(th, NULL); }
        else { parallel_stop = 1; ht_tcp_listener_stop(l); pthread_join(th, NULL); }
        (void)op; (void)next;
    }
#else
    faults = FAULTS;
    for (op = 0; op < OPS; op++)
    {
        switch (sym_choice("op", 3))
        {
        case 0:
            sym_assume(next < NC);
            connect_client(next);
            settle();
            cl[next].settled = 1; cl[next++].first_due = pushed;
            break;
        case 1: push_now(sym_choice("shape", 4)); break;
        default:
            i = sym_choice("client", NC);
            sym_assume(i < next && !cl[i].gone);
            cl[i].gone = 1;
            break;
        }
    }
    if (callbacks < 1000) sym_check(callbacks == next, "the callback is called once per client");
    faults = 0;
    i = sym_choice("end", 4);
    if (i == 3 && next < NC) connect_client(next); /* connects while the listener stops */
    if (i >= 1) ht_tcp_listener_stop(l);
    if (i >= 2) { ht_tcp_listener_stop(l); op = pushed; push_now(0); pushed = op; }
#endif
    ht_tcp_listener_destroy(l);
done:
    sym_check(!listen_open, "the server's socket is closed in the end");
    for (i = 0; i < NC; i++) sym_check(cl[i].accepted != 1, "connections are closed in the end");
    sym_check((uint64_t)ha_live == live, "no memory is lost");
    for (i = 0; i < NC; i++) check(i);
    sym_observe("n", cl[0].rx.n);
    sym_reached("done");
    ht_deinit();
}
