/* C21: the client's command line parser accepts exactly what was declared. */
#include "files.hpp"
#include <hawktracer/client_utils/command_line_parser.hpp>
#include <fstream>
#include <stdlib.h>
#include <string.h>
using HawkTracer::ClientUtils::CommandLineParser;
struct Opt { const char* name; bool flag, mandatory; };
static const Opt opts[] = {{"o", false, false}, {"ab", false, true}, {"f", true, false}, {"ff", true, true}};
#define NOPT 4
static const char* const prefixes[] = {"--", "-"};
static void show_help(CommandLineParser& p, const char* prefix, const bool* known)
{
    {
        std::ofstream help("help.txt");
        p.print_help(help);
    }
    std::vector<Sym> text;
    sym_check(file_read("help.txt", text), "the help is written");
    for (unsigned k = 0; k < NOPT; k++)
    {
        std::string s = std::string("  ") + prefix + opts[k].name + " ";
        bool found = false;
        for (size_t i = 0; !found && i + s.size() <= text.size(); i++)
        {
            size_t j = 0;
            while (j < s.size() && text[i + j].ch == (unsigned char)s[j]) j++;
            found = j == s.size();
        }
        sym_check(found == known[k], "the help lists exactly the declared options");
    }
}
extern "C" void harness(void)
{
    file_clean();
    const char* prefix = prefixes[PAIRS ? 0 : sym_choice("prefix", 2)];
    size_t pl = strlen(prefix);
    CommandLineParser p(prefix, "app");
    unsigned decl = PAIRS ? 7 : sym_choice("declared", 16);
    bool known[NOPT];
    for (unsigned i = 0; i < NOPT; i++)
    {
        known[i] = (decl >> i & 1) && !(opts[i].flag && opts[i].mandatory); /* a mandatory flag is refused */
        if (decl >> i & 1) p.register_option(opts[i].name, CommandLineParser::OptionInfo(opts[i].flag, opts[i].mandatory, "help"));
    }
    unsigned argc = PAIRS ? ARGS + 1 : 1 + sym_choice("args", ARGS + 1);
    char* argv[ARGS + 2];
    argv[0] = strdup("app");
    for (unsigned i = 1; i < argc; i++)
    {
        unsigned kind = !PAIRS ? sym_choice("kind", 6) : i & 1 ? sym_choice("kind", 3) : 4;
        if (kind < 4) { argv[i] = (char*)malloc(16); strcpy(argv[i], prefix); strcat(argv[i], opts[kind].name); }
        else if (kind == 4) /* anything short */
        {
            unsigned n = sym_choice("len", LEN + 1);
            argv[i] = (char*)malloc(n + 1);
            for (unsigned j = 0; j < n; j++) { argv[i][j] = (char)sym_u8("ch"); sym_assume(argv[i][j] != 0); }
            argv[i][n] = 0;
        }
        else argv[i] = strdup("--o ");
    }
    argv[argc] = nullptr;
    /* reference */
    bool ok = true, has[NOPT] = {false};
    const char* val[NOPT] = {0};
    for (unsigned i = 1; i < argc && ok; i++)
    {
        int o = -1;
        if (!strncmp(argv[i], prefix, pl)) for (unsigned k = 0; k < NOPT; k++) if (known[k] && !strcmp(argv[i] + pl, opts[k].name)) o = (int)k;
        if (o < 0 || (!opts[o].flag && i + 1 == argc)) { ok = false; break; }
        const char* v = opts[o].flag ? "" : argv[++i];
        if (!has[o]) { has[o] = true; val[o] = v; }
    }
    if (ok) for (unsigned k = 0; k < NOPT; k++) if (known[k] && opts[k].mandatory && !has[k]) ok = false;
    bool r = p.parse((int)argc, argv);
    sym_check(r == ok, "an argument list is accepted exactly when every argument is a declared option with its value and no mandatory option is missing");
    sym_check(!p.has_value("nope") && p.get_value("nope", "dflt") == "dflt", "an option never declared has no value");
    if (r)
        for (unsigned k = 0; k < NOPT; k++)
        {
            sym_check(p.has_value(opts[k].name) == has[k], "an option has a value exactly when given");
            sym_check(p.get_value(opts[k].name, "dflt") == (has[k] ? val[k] : "dflt"), "an option has the value given first, or the default");
        }
    if (argc == 1) show_help(p, prefix, known);
    sym_observe("ok", ok);
    sym_reached(ok ? "accepted" : "refused");
}
