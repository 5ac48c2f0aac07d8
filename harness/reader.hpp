/* Shared pieces of the harnesses for the client-side reader. */
#ifndef HARNESS_READER_HPP
#define HARNESS_READER_HPP
#include "sym.h"
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
using namespace HawkTracer::parser;

/* bytes of a trace stream, written according to the documented format, independent of the library */
struct Bytes {
    uint8_t* p; size_t n, cap; bool big;
    explicit Bytes(size_t cap_, bool big_ = false) : p((uint8_t*)malloc(cap_)), n(0), cap(cap_), big(big_) {}
    ~Bytes() { free(p); }
    void u8(uint8_t b) { sym_check(n < cap, "harness: stream too long"); p[n++] = b; }
    void num(uint64_t v, unsigned w) { for (unsigned i = 0; i < w; i++) u8((uint8_t)(v >> (8 * (big ? w - 1 - i : i)))); }
    void str(const char* s) { while (*s) u8((uint8_t)*s++); u8(0); }
    void head(uint32_t klass, uint64_t ts, uint64_t id) { num(klass, 4); num(ts, 8); num(id, 8); }
    void klass(uint32_t id, const char* name, unsigned fields) { head(2, 0, 0); num(id, 4); str(name); u8((uint8_t)fields); }
    void field(uint32_t id, const char* type, const char* name, uint64_t size, uint8_t dt) { head(3, 0, 0); num(id, 4); str(type); str(name); num(size, 8); u8(dt); }
    void endian(uint8_t e) { head(0, 0, 0); u8(e); }
};
struct MemStream : public Stream {
    const uint8_t* p; size_t n, pos = 0;
    MemStream(const uint8_t* p_, size_t n_) : p(p_), n(n_) {}
    int read_byte() override { return pos < n ? p[pos++] : -1; }
    bool read_data(char* b, size_t k) override
    {
        if (k > n - pos) { pos = n; return false; }
        memcpy(b, p + pos, k); pos += k;
        return true;
    }
    bool is_continuous() override { return false; }
};
enum { DT_STRUCT = 1, DT_STRING = HT_MKCREFLECT_TYPES_EXT_STRING, DT_INT = HT_MKCREFLECT_TYPES_EXT_INTEGER, DT_PTR = HT_MKCREFLECT_TYPES_EXT_POINTER, DT_UINT = 99 };
#ifndef HARNESS_COMMON_H
static char* sym_cstr(unsigned len)
{
    char* s = (char*)malloc(len + 1);
    for (unsigned i = 0; i < len; i++) { s[i] = (char)sym_u8("ch"); sym_assume(s[i] != 0); }
    s[len] = 0;
    return s;
}
#endif
template <typename F> static void read_all(KlassRegister& reg, std::unique_ptr<Stream> s, bool flat, F f)
{
    ProtocolReader r(&reg, std::move(s), flat);
    unsigned told[3] = {0, 0, 0};
    r.register_events_listener([&](const Event&) { told[0]++; });
    r.register_events_listener([&](const Event& e) { told[1]++; f(e); });
    r.register_events_listener([&](const Event&) { told[2]++; });
    sym_check(r.start(), "reading a stream starts");
    r.wait_for_complete();
    r.stop();
    sym_check(told[0] == told[1] && told[1] == told[2], "every listener is told of every event");
}
#endif
