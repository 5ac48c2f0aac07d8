/* C35: functions traced from Python behave as if they were not traced, and their calls are recorded with the right names. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <stdio.h>
extern "C" {
#include "filemodel.h"
}
#include "pymodel.hpp"
extern "C" PyObject* PyInit_core(void);
static int env;
extern "C" char* hs_getenv(const char* n) { static char zero[] = "0", one[] = "1"; return strcmp(n, "HT_PYTHON_TRACE_ENABLED") || !env ? NULL : env == 1 ? zero : one; }
static PyMethodDef* methods;
#define CALL(name) none(py_call(find_method(methods, name), NULL, NULL))
/* ---- what is recorded: events delivered to a listener of the same timeline, serialized */
static Out seen;
static void listener(TEventPtr p, size_t n, HT_Boolean ser, void*) { sym_check(ser, "the global timeline serializes"); out_mem(&seen, p, n); }
/* ---- the traced functions */
enum { PLAIN, UNNAMED, LISTNAME, SURROGATE };
static PFunc* fn[2];
static PyObject* traced[2];
static char letter[2];
static int kind[2], nested, toggles, tracing, wrapped[2], calls;
struct Want { int map; int fn; };
static Want want[12];
static unsigned wants, mapped[2];
static PyObject *arg0, *kw, *value;
static int outcome_of[8];
static int nameable(int f) { return kind[f] == PLAIN; }
static int same_name(int a, int b) { return kind[a] == PLAIN && kind[b] == PLAIN && letter[a] == letter[b]; }
static void set_tracing(int on) { tracing = on; if (on) CALL("enable_tracing"); else CALL("disable_tracing"); }
static void call(int f, int depth);
static PyObject* user_call(PFunc* f, PyObject* args, PyObject* kwargs)
{
    int me = f == fn[0] ? 0 : 1;
    calls++;
    sym_check(PyTuple_Size(args) == 1 && PyTuple_GetItem(args, 0) == arg0, "the function gets the arguments of the call");
    if (kw) sym_check(kwargs && PyDict_Size(kwargs) == PyDict_Size(kw) && (!PyDict_Size(kw) || ((PDict*)kwargs)->v[0] == ((PDict*)kw)->v[0]), "the function gets the keyword arguments of the call");
    else sym_check(!kwargs || !PyDict_Size(kwargs), "the function gets the keyword arguments of the call");
    switch (f->what)
    {
    case 0: break;
    case 1: py_err = PyExc_ValueError; return NULL;
    case 2: if (!nested) { nested = 1; call(1 - me, 1); } break;
    default: if (!toggles) { toggles = 1; set_tracing(!tracing); }
    }
    Py_INCREF(value);
    return value;
}
static void call(int f, int depth)
{
    int rec = wrapped[f] && tracing && nameable(f), before = calls;
    PyObject *args = PyTuple_Pack(1, arg0), *r;
    if (rec)
    {
        if (!mapped[f]) { want[wants].map = 1; want[wants++].fn = f; mapped[f] = 1; if (same_name(0, 1)) mapped[1 - f] = 1; }
    }
    r = PyObject_Call(traced[f], args, kw);
    Py_DECREF(args);
    sym_check(calls > before, "a call of a traced function calls the function");
    if (fn[f]->what == 1) { sym_check(!r && py_err == PyExc_ValueError, "an error passes through the traced call"); py_err = NULL; }
    else { sym_check(r == value && !py_err, "the result passes through the traced call"); Py_DECREF(r); }
    if (rec) { want[wants].map = 0; want[wants++].fn = f; }
}
static uint64_t le(const uint8_t* p, unsigned n) { uint64_t v = 0; while (n--) v = v << 8 | p[n]; return v; }
static uint32_t cs, sm;
static void check_events(void)
{
    const uint8_t *p = seen.p, *e = p + seen.n;
    uint64_t label[2] = {0, 0};
    unsigned w = 0;
    while (p < e)
    {
        uint32_t k = (uint32_t)le(p, 4);
        if (k == cs)
        {
            uint64_t l = le(p + 32, 8);
            p += 40;
            if (w < wants && !want[w].map && l == label[want[w].fn]) { w++; continue; }
            sym_check(kind[0] == SURROGATE || kind[1] == SURROGATE, "the calls of traced functions are recorded with their names when they end, no others");
        }
        else if (k == sm)
        {
            uint64_t l = le(p + 20, 8);
            const char* s = (const char*)p + 28;
            p += 28 + strlen(s) + 1;
            if (w < wants && want[w].map && s[0] == letter[want[w].fn] && s[1] == 0)
            {
                int f = want[w++].fn;
                sym_check(l != 0 && l != label[1 - f], "names have identifiers of their own");
                label[f] = l;
                if (same_name(0, 1)) label[1 - f] = l;
                continue;
            }
            sym_check(kind[0] == SURROGATE || kind[1] == SURROGATE, "a name is announced before it is used, once");
        }
        else sym_check(0, "only calls and names are recorded");
    }
    sym_check(w == wants, "every traced call is recorded before the interpreter ends");
}
extern "C" void harness(void)
{
    PyObject *module, *r, *name[2];
    int i, file, init, dec;
    py_setup();
    take();
    env = (int)sym_choice("env", 3);
    out_init(&seen, 2000); fm_init(6000);
    module = PyInit_core();
    sym_check(module && !py_err, "the module is created");
    methods = ((PMod*)module)->def->m_methods;
    r = py_call(find_method(methods, "register_file_listener"), NULL, Py_BuildValue("(sI)", "trace.htdump", 64u));
    if (env == 2) { none(r); file = 1; }
    else
    {
        sym_check(!r, "a file listener cannot be registered before the library is initialized");
        py_err = NULL;
        CALL("init");
        CALL("init");
        file = (int)sym_choice("file", 2);
        if (file) none(py_call(find_method(methods, "register_file_listener"), NULL, sym_choice("size", 2) ? Py_BuildValue("(sI)", "trace.htdump", 64u) : Py_BuildValue("(s)", "trace.htdump")));
    }
    cs = HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id; sm = HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id;
    ht_timeline_register_listener(ht_global_timeline_get(), listener, NULL);
    tracing = env == 2;
    dec = env == 2;
    if (sym_choice("decorator", 2)) { dec = !dec; if (dec) CALL("enable_trace_decorator"); else CALL("disable_trace_decorator"); }
    if (sym_choice("tracing", 2)) set_tracing(!tracing);
    arg0 = PyLong_FromLong(1); value = PyLong_FromLong(2);
    kw = sym_choice("keywords", 2) ? PyDict_New() : NULL;
    if (kw) PyDict_SetItemString(kw, "b", value);
    for (i = 0; i < 2; i++)
    {
        letter[i] = (char)sym_range("letter", 1, 127);
        kind[i] = i ? PLAIN : (int)sym_choice("kind", 4);
        switch (kind[i])
        {
        case PLAIN: name[i] = str_new(&letter[i], 1, 0); break;
        case UNNAMED: name[i] = NULL; break;
        case LISTNAME: name[i] = (PyObject*)obj(&PyList_Type, sizeof(PInt)); break;
        default: name[i] = str_new(&letter[i], 1, 1); break;
        }
        fn[i] = func_new(name[i], (int)sym_choice("function", 4));
        traced[i] = py_call(find_method(methods, "trace"), NULL, PyTuple_Pack(1, (PyObject*)fn[i]));
        sym_check(traced[i] && !py_err, "a function can be traced");
        wrapped[i] = dec;
        sym_check(dec || traced[i] == (PyObject*)fn[i], "with the decorator disabled the function stays as it is");
        if (sym_choice("decorator", 2)) { dec = !dec; if (dec) CALL("enable_trace_decorator"); else CALL("disable_trace_decorator"); }
    }
    for (i = 0; i < CALLS; i++) call((int)sym_choice("which", 2), 0);
    if (sym_choice("end", 2))
    {
        HT_Boolean again = (HT_Boolean)sym_choice("after", 2);
        Py_DECREF(module); /* the interpreter ends */
        check_events();
        if (file) sym_check(!fm_open && fm_data.n >= seen.n && !memcmp(fm_data.p + fm_data.n - seen.n, seen.p, seen.n), "the trace file holds every recorded event when the interpreter ends");
        tracing = 0;
        nested = toggles = 1;
        if (again) call(0, 0);
    }
    else
    {
        ht_timeline_flush(ht_global_timeline_get());
        check_events();
        Py_DECREF(module);
        sym_check(!file || !fm_open, "the file is closed when the interpreter ends");
    }
    for (i = 0; i < 2; i++)
    {
        Py_DECREF(traced[i]);
        sym_check(fn[i]->ob_base.ob_refcnt == 1, "no reference to a function is kept or lost");
        sym_check(!name[i] || name[i]->ob_refcnt == 1, "no reference to a name is kept or lost");
        Py_DECREF((PyObject*)fn[i]);
    }
    sym_check(arg0->ob_refcnt == 1, "no reference to an argument is kept or lost");
    Py_XDECREF(kw);
    sym_check(value->ob_refcnt == 1, "no reference to a result is kept or lost");
    Py_DECREF(arg0); Py_DECREF(value);
    sym_check(py_live == 0, "every object is released");
    sym_observe("events", wants);
    sym_reached("done");
}
