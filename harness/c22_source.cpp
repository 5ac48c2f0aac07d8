/* C22: a source description names an existing file or a server's address. */
#include "stdio_model.hpp"
#include <hawktracer/client_utils/stream_factory.hpp>
#include <hawktracer/client_utils/tcp_client_stream.hpp>
#include <hawktracer/parser/file_stream.hpp>
#include <string.h>
#include <sys/socket.h>
#include <netinet/in.h>
using namespace HawkTracer;
static unsigned sockets, connects, closed;
static uint32_t to_ip;
static unsigned to_port;
static uint32_t dotted(const char* s) /* strict dotted decimal, network byte order */
{
    uint32_t r = 0;
    for (unsigned o = 0; o < 4; o++)
    {
        uint32_t v = 0, n = 0;
        for (; *s >= '0' && *s <= '9'; s++, n++) v = v * 10 + (uint32_t)(*s - '0');
        if (!n || n > 3 || v > 255 || *s != (o < 3 ? '.' : 0)) return 0xFFFFFFFFu;
        s++;
        r |= v << 8 * o;
    }
    return r;
}
extern "C" {
int hs_socket(int, int, int) { sockets++; return 77; }
in_addr_t hs_inet_addr(const char* s) { return dotted(s); }
int hs_inet_pton(int, const char* s, void* d) { uint32_t v = dotted(s); memcpy(d, &v, 4); return 1; }
int hs_inet_aton(const char* s, struct in_addr* d) { d->s_addr = dotted(s); return 1; }
int hs_connect(int, const struct sockaddr* a, socklen_t n)
{
    sym_check(n >= sizeof(struct sockaddr_in) && a->sa_family == AF_INET, "an IPv4 address is used");
    const struct sockaddr_in* i = (const struct sockaddr_in*)a;
    connects++;
    to_ip = i->sin_addr.s_addr;
    to_port = ntohs(i->sin_port);
    return 0;
}
ssize_t hs_recv(int, void*, size_t, int) { return 0; }
ssize_t hs_read(int, void*, size_t) { return 0; }
int hs_shutdown(int, int) { return 0; }
int hs_close(int fd) { if (fd == 77) closed++; return 0; }
}
static std::string number(unsigned digits, uint64_t max, uint64_t& v)
{
    std::string s;
    v = 0;
    for (unsigned i = 0; i < digits; i++)
    {
        uint8_t d = (uint8_t)sym_range("digit", '0', '9');
        s += (char)d;
        v = v * 10 + (uint64_t)(d - '0');
    }
    sym_assume(v <= max);
    return s;
}
extern "C" void harness(void)
{
    file_clean();
    file_make("1.2.3.4", "x", 1);
    file_make("f", "y", 1);
    std::string s;
    int want = 0; /* 0 nothing, 1 file, 2 server, 3 either way */
    uint32_t ip = 0;
    uint64_t port = 8765;
    unsigned kind = sym_choice("kind", 5);
    switch (kind)
    {
    case 0: /* too short for an address */
    {
        unsigned n = sym_choice("len", LEN + 1);
        for (unsigned i = 0; i < n; i++) { char c = (char)sym_u8("ch"); sym_assume(c != 0 && c != '/'); s += c; }
        sym_assume(s != "." && s != ".."); /* directories */
        want = s == "f";
        break;
    }
    case 1: s = sym_choice("which", 2) ? "1.2.3.4" : "f"; want = 1; break;
    case 2: /* an address, maybe with a port */
    {
        uint64_t v;
        unsigned other = sym_choice("other", 5), digits = 1 + sym_choice("digits", 3);
        for (unsigned o = 0; o < 4; o++)
        {
            s += number(o == other || other == 4 ? digits : 2, 255, v) + (o < 3 ? "." : "");
            ip |= (uint32_t)v << 8 * o;
        }
        unsigned pd = sym_choice("port_digits", 7);
        if (pd)
        {
            s += ":";
            s += number(pd, ~0ull, port);
            if (port > 65535) port = 8765; /* no such port */
        }
        else if (sym_choice("colon", 2)) s += sym_choice("x", 2) ? ":x" : ":";
        if (s == "1.2.3.4") sym_assume(0); /* that is a file here */
        want = 2;
        break;
    }
    case 3: /* not enough components */
    {
        uint64_t v;
        unsigned k = 1 + sym_choice("components", 3);
        for (unsigned o = 0; o < k; o++) s += number(2, 99, v) + (o + 1 < k ? "." : "");
        static const char* const tails[] = {"", ":1234", "..", ".x", " .1"};
        s += tails[sym_choice("tail", 5)];
        break;
    }
    default: /* more than an address, or not quite one: no matter what, but no crash */
    {
        static const char* const odd[] = {"1.2.3.4.5", "999.999.999.999:1", "1.2.3.4:99999999999999999999", "1.2.3.4 :1", "99999999999999999999.1.1.1", "-1.-1.-1.-1:-1", " 1. 2. 3. 4", "1.2.3.4:80x"};
        s = odd[sym_choice("odd", 8)];
        want = 3;
    }
    }
    std::unique_ptr<parser::Stream> st = ClientUtils::make_stream_from_string(s);
    if (want == 0) sym_check(!st, "what is neither a file nor an address yields no stream");
    if (want == 1 || want == 2) sym_check(!!st, "a file or an address yields a stream");
    if (want == 1)
    {
        sym_check(!st->is_continuous(), "an existing file is read as a file");
        sym_check(st->start(), "an existing file is opened");
        sym_check(st->read_byte() == (s == "f" ? 'y' : 'x'), "the stream delivers the file's content");
        st->stop();
        sym_check(sockets == 0, "an existing file is not taken for an address");
    }
    if (want == 2)
    {
        sym_check(st->is_continuous() && st->start() && connects == 1, "an address is connected to");
        sym_check(to_ip == ip, "the connection goes to the address given");
        sym_check(to_port == port, "the connection goes to the port given, by default 8765");
    }
    st.reset();
    sym_check(sockets == closed, "the connection is closed in the end");
    sym_observe("want", (uint64_t)want);
    sym_reached("done");
}
