/* C34: a reader of a TCP stream gets the bytes sent, completes at the end and can be stopped at any moment. */
#include "reader.hpp"
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <errno.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
using namespace HawkTracer;
extern "C" { void __eng_block(const void*); void __eng_wake(const void*, int); void __eng_yield(void); }
#define QUIET __attribute__((no_sanitize("thread")))
enum { CLOSE, FAIL, IDLE };
/* ---- the server's side: what the n-th connection delivers */
static uint8_t data[2][PART == 2 ? 4000 : 128];
static unsigned sizes[2], cuts[2][4], ncuts[2], ending[2];
static int fd_now, conn, open_fd[8], shut, refuse, net;
static unsigned at, packet;
extern "C" {
QUIET int hs_socket(int, int, int) { int f = ++fd_now; sym_check(f < 8, "no more sockets than connections are made"); open_fd[f] = 1; return f; }
in_addr_t hs_inet_addr(const char*) { return 0x0100007F; }
int hs_inet_pton(int, const char*, void* d) { uint32_t v = 0x0100007F; memcpy(d, &v, 4); return 1; }
int hs_inet_aton(const char*, struct in_addr* d) { d->s_addr = 0x0100007F; return 1; }
QUIET int hs_connect(int fd, const struct sockaddr* a, socklen_t n)
{
    const struct sockaddr_in* i = (const struct sockaddr_in*)a;
    sym_check(fd == fd_now && open_fd[fd] == 1, "an open socket is connected");
    sym_check(n >= sizeof *i && i->sin_addr.s_addr == 0x0100007F && i->sin_port == htons(8765), "the server asked for is connected");
    if (refuse) { refuse--; errno = ECONNREFUSED; return -1; }
    conn++; at = packet = 0; shut = 0;
    return 0;
}
QUIET ssize_t hs_recv(int fd, void* p, size_t n, int)
{
    unsigned c = (unsigned)conn - 1, k;
    __eng_yield();
    for (;;)
    {
        if (fd < 1 || fd > 7 || open_fd[fd] != 1) { sym_check(fd == -1, "a closed socket is not used"); errno = EBADF; return -1; }
        sym_check(fd == fd_now, "the connected socket is used");
        if (shut) return 0;
        if (packet < ncuts[c]) break;
        if (ending[c] == CLOSE) return 0;
        if (ending[c] == FAIL) { errno = ECONNRESET; return -1; }
        __eng_block(&net);
    }
    k = cuts[c][packet] - at;
    if (k > n) k = (unsigned)n;
    memcpy(p, data[c] + at, k);
    at += k;
    if (at == cuts[c][packet]) packet++;
    return (ssize_t)k;
}
ssize_t hs_read(int fd, void* p, size_t n) { return hs_recv(fd, p, n, 0); }
QUIET int hs_shutdown(int fd, int) { __eng_yield(); sym_check(fd >= 1 && fd < 8 && open_fd[fd] == 1, "a closed socket is not used"); shut = 1; __eng_wake(&net, 1); return 0; }
QUIET int hs_close(int fd) { __eng_yield(); sym_check(fd >= 1 && fd < 8 && open_fd[fd] == 1, "a socket is closed once"); open_fd[fd] = 2; shut = 1; __eng_wake(&net, 1); return 0; }
}
static void all_closed() { for (int i = 1; i <= fd_now; i++) sym_check(open_fd[i] == 2, "no socket stays open"); }
static void plan(unsigned c, unsigned n, unsigned most)
{
    unsigned pos = 0;
    sizes[c] = n;
    while (pos < n && ncuts[c] + 1 < most)
    {
        pos += 1 + sym_choice("packet", n - pos);
        cuts[c][ncuts[c]++] = pos;
    }
    if (pos < n) cuts[c][ncuts[c]++] = n;
    ending[c] = sym_choice("ending", 3);
}
#if PART == 2
/* reads and packets larger than any buffer in between */
extern "C" void harness(void)
{
    static const unsigned wants[] = {1, 1023, 1024, 1025, 2600};
    static char buf[4000];
    for (unsigned i = 0; i < 4000; i++) data[0][i] = (uint8_t)(i * 7 + i / 256);
    unsigned pos = 0, ops = 0;
    sizes[0] = 4000; ending[0] = CLOSE;
    cuts[0][0] = 1 + sym_choice("first", 2) * 1023; cuts[0][1] = 2100; cuts[0][2] = 4000; ncuts[0] = 3;
    {
        ClientUtils::TCPClientStream s("127.0.0.1", 8765, false);
        sym_check(s.start(), "the stream starts");
        for (; ops < 3; ops++)
        {
            unsigned n = wants[sym_choice("read", 5)];
            bool ok = s.read_data(buf, n);
            sym_check(ok == (n <= 4000 - pos), "data is read exactly when it comes");
            if (!ok) break;
            sym_check(memcmp(buf, data[0] + pos, n) == 0, "the bytes are those sent, in order");
            pos += n;
        }
    }
    all_closed();
    sym_observe("got", pos);
    sym_reached("done");
}
#elif PART == 0
/* the bytes of a connection, read by calls of any size */
static unsigned run(ClientUtils::TCPClientStream& s, unsigned c, unsigned stop_after)
{
    unsigned got = 0, k, i;
    for (unsigned op = 0; op < stop_after; op++)
    {
        unsigned left = sizes[c] - got, want = sym_choice("read", 3);
        bool more = want ? left >= want : left >= 1;
        if (!more && ending[c] == IDLE) break;
        if (want == 0)
        {
            int b = s.read_byte();
            sym_check(b == (more ? (int)data[c][got] : -1), "the next byte is read");
            if (!more) break;
            got++;
        }
        else
        {
            char buf[4] = {1, 2, 3, 4};
            bool ok = s.read_data(buf, want);
            sym_check(ok == more, "data is read exactly when it comes");
            if (!ok) { sym_check(s.read_byte() == -1, "after the end there is nothing"); sym_check(!s.is_connected(), "the connection is known to be over"); break; }
            for (i = 0; i < want; i++) sym_check((uint8_t)buf[i] == data[c][got + i], "the bytes are those sent, in order");
            for (k = want; k < 4; k++) sym_check(buf[k] == (char)(k + 1), "only what was asked for is written");
            got += want;
        }
    }
    return got;
}
extern "C" void harness(void)
{
    unsigned n = BYTES, i;
    for (i = 0; i < n; i++) data[0][i] = sym_u8("byte");
    for (i = 0; i < 2; i++) data[1][i] = sym_u8("second");
    bool wait = sym_choice("wait", 2) == 1;
    refuse = (int)sym_choice("refused", 2);
    plan(0, n, 3);
    {
        ClientUtils::TCPClientStream s("127.0.0.1", 8765, wait);
        bool ok = !refuse || wait;
        if (sym_choice("early", 2)) s.stop();
        sym_check(s.start() == ok, "a stream starts exactly when it can connect (or waits)");
        unsigned got = 0;
        if (ok) got = run(s, 0, OPS);
        sym_observe("got", got);
        if (sym_choice("again", 2))
        {
            if (sym_choice("stop", 2)) s.stop();
            refuse = 0;
            conn = ok ? 1 : 1;
            sizes[1] = 2; ncuts[1] = 1; cuts[1][0] = 2; ending[1] = CLOSE;
            sym_check(s.start(), "a stream can be started again");
            for (i = 0; i < 2; i++) sym_check(s.read_byte() == (int)data[1][i], "a new connection delivers its own bytes");
            sym_check(s.read_byte() == -1, "the end of the new connection is seen");
        }
        if (sym_choice("end", 2)) { s.stop(); s.stop(); sym_check(!s.is_connected(), "stopped means disconnected"); }
    }
    all_closed();
    sym_reached("done");
}
#else
/* events through a reader */
static void fill(unsigned c, unsigned events)
{
    Bytes b(128);
    for (unsigned i = 0; i < events; i++) b.head(1, 100 * (c + 1) + i, i);
    memcpy(data[c], b.p, b.n);
    plan(c, (unsigned)b.n, 1);
    if (events)
    {
        ncuts[c] = 0;
        switch (sym_choice("cut", 4))
        {
        case 0: break;
        case 1: cuts[c][ncuts[c]++] = 1; break;
        case 2: cuts[c][ncuts[c]++] = 20; break;
        default: cuts[c][ncuts[c]++] = 19; break;
        }
        if (!ncuts[c] || cuts[c][0] < b.n) cuts[c][ncuts[c]++] = (unsigned)b.n;
    }
}
static unsigned seen[2];
extern "C" void harness(void)
{
    KlassRegister reg;
    fill(0, 1);
    ending[1] = CLOSE;
    fill(1, AGAIN ? 1 : 0);
    if (!AGAIN) ending[1] = CLOSE;
    unsigned how = sym_choice("how", 5);
    sym_assume((how != 0 && how != 3) || ending[0] != IDLE);
    {
        ProtocolReader r(&reg, std::unique_ptr<Stream>(new ClientUtils::TCPClientStream("127.0.0.1", 8765, false)), true);
        r.register_events_listener([&](const Event& e) {
            unsigned c = (unsigned)conn - 1;
            sym_check(e.get_value<uint64_t>("timestamp") == 100 * (c + 1) + seen[c] && e.get_value<uint64_t>("id") == seen[c], "events are those sent, in order");
            seen[c]++;
            if (how == 4 && c == 0) r.stop(); /* stopped by its own callback */
        });
        r.wait_for_complete();
        sym_check(r.start(), "reading starts");
        std::thread other;
        switch (how)
        {
        case 0: /* waits for the end */
            r.wait_for_complete();
            sym_check(r.eos(), "the end is reported");
            sym_check(seen[0] == 1, "all events are received before completion");
            break;
        case 1: /* stopped at any moment */
            r.stop();
            sym_check(r.eos(), "stopped means done");
            break;
        case 2: /* somebody else waits meanwhile */
            other = std::thread([&] { r.wait_for_complete(); });
            r.stop();
            other.join();
            break;
        case 4:
            r.wait_for_complete();
            sym_check(r.eos() && seen[0] == 1, "a reader can be stopped by its callback");
            break;
        default: /* several wait */
            other = std::thread([&] { r.wait_for_complete(); });
            r.wait_for_complete();
            other.join();
            sym_check(seen[0] == 1, "all events are received before completion");
            break;
        }
        if (AGAIN)
        {
            if (how == 0 && sym_choice("stop", 2)) r.stop();
            if (how == 3) r.stop();
            sym_check(r.start(), "reading can be started again");
            if (ending[1] != IDLE) { r.wait_for_complete(); sym_check(seen[1] == 1, "the new connection's events are received"); }
        }
    }
    all_closed();
    sym_observe("seen", seen[0] <= 1);
    sym_reached("done");
}
#endif
