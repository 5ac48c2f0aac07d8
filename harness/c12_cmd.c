/* C12: library command line. */
#include "common.h"
#include <internal/command_line_parser.h>
#include <internal/global_timeline.h>
#include <stdio.h>
static int exits, code;
static unsigned lines;
#include <setjmp.h>
static unsigned long expect;
static int help_ok;
void hs_exit(int c)
{
    sym_check(help_ok, "only --ht-help ends the process");
    sym_check(c == 0, "help exits successfully");
    sym_check(ht_global_timeline_get_buffer_size() == expect, "options before --ht-help are in force");
    sym_silent_exit();
}
#ifndef LEN
#define LEN 3
#endif
static char* digits(uint64_t* out)
{
    unsigned l = 1 + sym_choice("len", LEN), i;
    char* s = (char*)malloc(l + 1);
    uint64_t v = 0;
    for (i = 0; i < l; i++) { uint8_t d = sym_u8("digit"); sym_assume(d <= 9); s[i] = (char)('0' + d); v = v * 10 + d; }
    s[l] = 0;
    *out = v;
    return s;
}
void harness(void)
{
    char* argv[ARGS + 2];
    int argc = 1, i, k, orig;
    size_t before;
    expect = 4321;
    ht_global_timeline_set_buffer_size(4321);
    argv[0] = sym_choice("argv0", 2) ? "prog" : "--ht-help";
    for (k = 0; k < ARGS;)
    {
        switch (sym_choice("arg", 7))
        {
        case 0: argv[argc++] = sym_cstr(sym_choice("olen", 3)); k++; break;      /* the program's own argument, arbitrary */
        case 1: { uint64_t v; argv[argc++] = "--ht-global-timeline-buffer-size"; if (k + 1 < ARGS) { argv[argc++] = digits(&v); if (!help_ok) expect = v; } k += 2; break; }
        case 2: argv[argc++] = "--ht-global-timeline-buffer-size"; k++; if (k < ARGS) { char* s = sym_cstr(1 + sym_choice("glen", 2)); sym_assume(!(s[0] >= '0' && s[0] <= '9') && s[0] != '-' && s[0] != '+' && s[0] != ' ' && !(s[0] >= 9 && s[0] <= 13)); argv[argc++] = s; k++; } break;
        case 5: argv[argc++] = "--ht-global-timeline-buffer-size"; k++; if (k < ARGS) { argv[argc++] = sym_choice("which", 2) ? "--ht-help" : "--ht-global-timeline-buffer-size"; k++; } break; /* the next argument is its value, whatever it looks like */
        case 3: argv[argc++] = "--ht-global-timeline-buffer-size"; k++; if (k < ARGS) { argv[argc++] = "99999999999999999999"; k++; } break;
        case 4: argv[argc++] = "--ht-help"; help_ok = 1; k++; break;
        default: argv[argc++] = "--ht-global-timeline-buffer-siz"; k++; break;
        }
    }
    argv[argc] = NULL;
#if VIA_INIT
    /* the arguments count in whichever ht_init() call they are given */
    if (sym_choice("initialized", 2)) ht_init(0, NULL);
    ht_init(argc, argv);
#else
    ht_command_line_parse_args(argc, argv);
#endif
    sym_check(!help_ok, "--ht-help ends the process");
    sym_check(ht_global_timeline_get_buffer_size() == expect, "the buffer size is the last valid value given, else unchanged");
}
