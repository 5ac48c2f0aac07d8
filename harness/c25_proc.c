/* C25: CPU and memory figures are those of the system's files; malformed files do no harm. */
#define HARNESS_CLOCK 3
#include "common.h"
#include <stdio.h>
#include <unistd.h>
#include <hawktracer/cpu_usage.h>
#include <hawktracer/memory_usage.h>
#include <hawktracer/monotonic_clock.h>
static char file[1200], path[64];
static size_t len, pos;
static int present, open_, mypid = 4711;
static char handle[8];
FILE* hs_fopen(const char* n, const char* m)
{
    sym_check(strcmp(n, path) == 0, "the file read is that of the process asked for");
    sym_check(m[0] == 'r', "the system's files are only read");
    if (!present) return NULL;
    open_++; pos = 0;
    return (FILE*)handle;
}
FILE* hs_fopen64(const char* n, const char* m) { return hs_fopen(n, m); }
size_t hs_fread(void* p, size_t sz, size_t n, FILE* f)
{
    size_t want = sz * n, i;
    sym_check(f == (FILE*)handle && open_ == 1, "only the open file is read");
    if (want > len - pos) want = len - pos;
    for (i = 0; i < want; i++) ((char*)p)[i] = file[pos + i];
    pos += want;
    return sz ? want / sz : 0;
}
char* hs_fgets(char* p, int n, FILE* f) { int i = 0; (void)f; while (i + 1 < n && pos < len) { p[i++] = file[pos++]; if (p[i - 1] == '\n') break; } if (!i) return NULL; p[i] = 0; return p; }
int hs_fclose(FILE* f) { sym_check(f == (FILE*)handle && open_ == 1, "the file is closed once"); open_--; return 0; }
int hs_getpid(void) { return mypid; }
long hs_sysconf(int what) { return what == _SC_CLK_TCK ? 50 : what == _SC_PAGESIZE ? 4096 : -1; }
int hs_getpagesize(void) { return 4096; }
static void put(const char* s) { while (*s) file[len++] = *s++; }
static uint64_t num(unsigned digits)
{
    uint64_t v = 0;
    while (digits--) { uint8_t d = (uint8_t)sym_range("d", '0', '9'); file[len++] = (char)d; v = v * 10 + (uint64_t)(d - '0'); }
    return v;
}
static void bytes(unsigned n) { while (n--) file[len++] = (char)sym_u8("b"); }
/* comm, signs and sizes of the fields before the times vary; the times' digits do */
static uint64_t stat_file(unsigned shape, unsigned digits) /* no digits: the times are 3 and 1 */
{
    uint64_t t;
    len = 0;
    put("4711 (");
    if (shape == 0) { unsigned i; bytes(3); for (i = 1; i < 4; i++) sym_assume(file[len - i] != 0); } else if (shape == 1) put(") 1 (x) R 2"); else put("a b");
    put(") S ");
    if (shape == 2) put("0 -1 2147483647 34816 -1 4294967295 18446744073709551615 1 2 3 ");
    else { num(1); put(" "); num(2); put(" "); num(1); put(" 0 -1 "); num(3); put(" 11 22 33 44 "); }
    if (digits) { t = num(digits); put(" "); t += num(digits); }
    else { put("3 1"); t = 4; }
    put(" 5 6 20 0 1 0 99 18446744073709551615 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5\n");
    return t;
}
static const int pids[] = {23, 1, 2147483647};
static HT_CPUUsageContext* cpu(void)
{
    int pid;
    if (sym_choice("self", 2)) { strcpy(path, "/proc/4711/stat"); return ht_cpu_usage_context_create(NULL); }
    pid = pids[sym_choice("pid", 3)];
    snprintf(path, sizeof path, "/proc/%d/stat", pid);
    return ht_cpu_usage_context_create(&pid);
}
void harness(void)
{
    present = 1;
#if PART == 0 /* percentage of a well-formed file */
    {
        unsigned shape = sym_choice("shape", 3), round;
        uint64_t t0, t1;
        hc_last = 1000000000u * 7u + 1000;
        t0 = stat_file(shape, 0);
        HT_CPUUsageContext* c = cpu();
        sym_check(c != NULL, "a context is made");
        for (round = 0; round < ROUNDS; round++)
        {
            uint64_t elapsed = 500000000u << sym_choice("elapsed", 3);
            long got, want;
            t1 = stat_file(shape, DIGITS);
            sym_assume(t1 >= t0); /* CPU time never shrinks */
            hc_last += elapsed;
            got = (long)(ht_cpu_usage_get_percentage(c) * 16.0f + 0.5f);
            want = (long)((t1 - t0) * 2 * 16000000000ull / elapsed); /* 50 ticks are a second of CPU time */
            sym_check(got - want <= 1 && want - got <= 1, "the percentage is the CPU time used since the last call over the time passed");
            t0 = t1;
        }
        ht_cpu_usage_context_destroy(c);
    }
#elif PART == 1 /* memory */
    {
        HT_MemoryUsageContext* c;
        int self = (int)sym_choice("self", 2), pid = self ? 0 : pids[sym_choice("pid", 3)];
        size_t v = 1, s = 2, r = 3;
        uint64_t ev, er, es;
        snprintf(path, sizeof path, "/proc/%d/statm", self ? mypid : pid);
        c = ht_memory_usage_context_create(self ? NULL : &pid);
        unsigned dv = sym_choice("dv", DIGITS + 1) + 1;
        if (dv > DIGITS) { put("98765432109"); ev = 987654321090 + num(1); } else ev = num(dv);
        put(" ");
        er = num(sym_choice("dr", DIGITS) + 1); put(" ");
        es = num(sym_choice("ds", DIGITS) + 1);
        put(sym_choice("rest", 2) ? " 1 0 5 0\n" : " 1234 0 555555 0\n");
        unsigned mask = sym_choice("mask", 8);
        sym_check(ht_memory_usage_get_usage(c, mask & 1 ? &v : NULL, mask & 2 ? &s : NULL, mask & 4 ? &r : NULL) == HT_ERR_OK, "a well-formed file is read");
        sym_check(v == (mask & 1 ? ev * 4096 : 1), "the virtual memory size is that of the file, in bytes");
        sym_check(s == (mask & 2 ? es * 4096 : 2), "the shared memory size is that of the file, in bytes");
        sym_check(r == (mask & 4 ? er * 4096 : 3), "the resident memory size is that of the file, in bytes");
        ht_memory_usage_context_destroy(c);
    }
#else /* malformed or missing files */
    {
        size_t v = 1, s = 2, r = 3;
        unsigned what = sym_choice("what", 3), torn = 0;
        if (sym_choice("cpu", 2))
        {
            stat_file(2, 1);
            if (what == 0) present = 0;
            else if (what == 1)
            {
                unsigned cut = sym_choice("cut", 14);
                if (cut < 13) len = cut * 12 + 1;
                else /* the file ends after the first of the two times */
                {
                    len = 0; put("4711 (a name which is long enough) S 0 -1 2147483647 34816 -1 4294967295 1844674407370955161 1 2 3 12");
                    if (sym_choice("newline", 2)) put(" \n");
                    torn = 1;
                }
            }
            else { len = sym_choice("at", 4) * 27; bytes(BYTES); if (len < 82) { while (len < 82) file[len++] = ' '; bytes(2); } }
            hc_last = 5000;
            HT_CPUUsageContext* c = cpu();
            sym_check(c != NULL, "a context is made");
            hc_last += 1000000;
            float p = ht_cpu_usage_get_percentage(c);
            if (what == 0 || (what == 1 && (torn || len < 60))) sym_check(p < 0, "a missing or incomplete file is reported");
            ht_cpu_usage_context_destroy(c);
        }
        else
        {
            HT_MemoryUsageContext* c = ht_memory_usage_context_create(NULL);
            strcpy(path, "/proc/4711/statm");
            if (what == 0) present = 0; else if (what == 1) bytes(sym_choice("n", BYTES + 3)); else { put("12345678901234 1234567890123 "); bytes(BYTES); }
            HT_ErrorCode e = ht_memory_usage_get_usage(c, &v, &s, &r);
            if (what == 0) sym_check(e != HT_ERR_OK, "a missing file is reported");
            if (e != HT_ERR_OK) sym_check(v == 1 && s == 2 && r == 3, "nothing is reported from a malformed file");
            else sym_check(what == 2 || len >= 5, "a malformed file is reported");
            sym_check(ht_memory_usage_get_usage(NULL, &v, &s, &r) == HT_ERR_INVALID_ARGUMENT, "no context is reported");
            ht_memory_usage_context_destroy(c);
        }
    }
#endif
    sym_check(open_ == 0, "files are closed");
    sym_reached("done");
}
