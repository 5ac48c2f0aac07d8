/* C12: every decimal value that fits is taken exactly; anything bigger leaves the size unchanged. */
#include "common.h"
#include <internal/command_line_parser.h>
#include <internal/global_timeline.h>
void harness(void)
{
    static const char* const tmpl[] = {"?", "??", "???", "????", "18446744073709551???", "1844674407?709551615", "?8446744073709551615", "1?4467440737095516150", "0000000000000000000000??", "42949672??", "922337203685477580?"};
    const char* f = tmpl[sym_choice("form", 11)];
    unsigned len = (unsigned)strlen(f), i, over = 0;
    char* s = (char*)malloc(len + 1);
    char* argv[4] = {"p", "--ht-global-timeline-buffer-size", s, NULL};
    uint64_t v = 0;
    for (i = 0; i < len; i++)
    {
        unsigned d;
        if (f[i] != '?') d = (unsigned)(f[i] - '0');
        else { d = sym_u8("digit"); sym_assume(d <= 9); }
        s[i] = (char)('0' + d);
        if (v > (UINT64_MAX - d) / 10) over = 1;
        v = v * 10 + d;
    }
    s[len] = 0;
    ht_global_timeline_set_buffer_size(77);
    ht_command_line_parse_args(3, argv);
    sym_check(ht_global_timeline_get_buffer_size() == (over ? 77 : v), "the value given is the size used; one that does not fit leaves it unchanged");
}
