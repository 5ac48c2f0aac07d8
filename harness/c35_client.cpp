/* C35: a Python client gets every event of its stream, with the recorded values, and cannot hang or corrupt the interpreter. */
#include "reader.hpp"
#include <hawktracer/client_utils/stream_factory.hpp>
#include "pymodel.hpp"
#include <thread>
extern "C" PyObject* PyInit_client(void);
extern "C" { void __eng_block(const void*); void __eng_wake(const void*, int); void __eng_yield(void); }
#define QUIET __attribute__((no_sanitize("thread")))
/* ---- the stream: bytes of up to two runs; the second one may be a connection that stays idle until it is stopped */
static const uint8_t* data_of[2];
static size_t size_of[2];
static int idle, made, known;
struct TestStream : public Stream {
    int run, shut = 0;
    size_t pos = 0;
    explicit TestStream(int r) : run(r) {}
    QUIET bool wait(size_t k) { __eng_yield(); while (idle && !shut && k > size_of[run] - pos) __eng_block(this); return !shut && k <= size_of[run] - pos; }
    QUIET int read_byte() override { return wait(1) ? data_of[run][pos++] : -1; }
    QUIET bool read_data(char* b, size_t k) override { if (!wait(k)) return false; memcpy(b, data_of[run] + pos, k); pos += k; return true; }
    QUIET bool is_continuous() override { return idle != 0; }
    QUIET void stop() override { __eng_yield(); shut = 1; __eng_wake(this, 1); }
};
namespace HawkTracer { namespace ClientUtils {
std::unique_ptr<parser::Stream> make_stream_from_string(const std::string& s)
{
    if (s != "a source") return nullptr;
    return std::unique_ptr<parser::Stream>(new TestStream(made++));
}
} }
static PyTypeObject* type;
static PyObject* method(PyObject* self, const char* n, PyObject* args = NULL) { return py_call(find_method(type->tp_methods, n), self, args); }
static PyObject* item(PyObject* dict, const char* k) { PyObject* v = PyDict_GetItemString(dict, k); sym_check(v && !py_err, "every field of an event is there"); return v; }
static int is_int(PyObject* o, int neg, uint64_t v) { return PyLong_Check(o) && ((PInt*)o)->v == v && ((PInt*)o)->neg == neg; }
static int is_str(PyObject* o, const char* s) { return PyUnicode_Check(o) && ((PStr*)o)->n == strlen(s) && !memcmp(((PStr*)o)->utf8, s, strlen(s)); }
static PyObject* the_callback;
static PyObject* start_args(int cb) { if (cb) Py_INCREF(the_callback); return cb ? Py_BuildValue("(sN)", "a source", the_callback) : Py_BuildValue("(s)", "a source"); }
static void on_event(PyObject* name, PyObject* dict);
static PyObject* user_call(PFunc* f, PyObject* args, PyObject* kwargs)
{
    sym_check(PyTuple_Size(args) == 2 && PyDict_Check(PyTuple_GetItem(args, 1)), "the callback gets a class name and a dictionary");
    on_event(PyTuple_GetItem(args, 0), PyTuple_GetItem(args, 1));
    if (f->what == 1) { py_err = PyExc_ValueError; return NULL; }
    return PyLong_FromLongLong(7); /* an object of its own, not needed any more */
}
static void check_event_tuple(PyObject* e)
{
    sym_check(PyTuple_Check(e) && PyTuple_Size(e) == 2 && PyDict_Check(PyTuple_GetItem(e, 1)), "an event is a class name and a dictionary");
    on_event(PyTuple_GetItem(e, 0), PyTuple_GetItem(e, 1));
    Py_DECREF(e);
}
#if PART == 0
/* ---- every value */
static const char* const fname[8] = {"a", "b", "c", "d", "e", "f", "g", "h"};
static uint64_t v[8], ts, id;
static char s[4], kname[4], key[4];
static int seen;
static void on_event(PyObject* name, PyObject* d)
{
    int utf8 = utf8_ok((unsigned char*)kname, strlen(kname));
    sym_check(PyUnicode_Check(name), "the class name is a string");
    if (is_str(name, "HT_EventKlassInfoEvent") || is_str(name, "HT_EventKlassFieldInfoEvent")) return;
    if (utf8) sym_check(is_str(name, kname), "the class name is the recorded one");
    seen++;
    sym_check(is_int(item(d, "timestamp"), 0, ts) && is_int(item(d, "id"), 0, id) && is_int(item(d, "klass_id"), 0, 40), "the header has its recorded values");
    for (unsigned i = 0; i < 8; i++)
    {
        unsigned bits = 8u << (i / 2);
        uint64_t x = bits == 64 ? v[i] : v[i] & ((1ull << bits) - 1);
        int neg = i & 1 ? (int)(x >> (bits - 1)) : 0;
        if (neg && bits < 64) x |= ~0ull << bits;
        sym_check(is_int(item(d, fname[i]), neg, x), "an integer is the recorded one");
    }
    if (utf8_ok((unsigned char*)key, strlen(key)))
    {
        PyObject* o = item(d, key);
        sym_check(PyUnicode_Check(o), "a string arrives as a string");
        if (utf8_ok((unsigned char*)s, strlen(s))) sym_check(is_str(o, s), "a string is the recorded one");
    }
    sym_check(PyDict_Size(d) == 12, "there are no other fields");
}
extern "C" void harness(void)
{
    PyObject *module, *client, *args, *r;
    unsigned i, n, which = sym_choice("which", 3), cb = sym_choice("callback", 2);
    char* text = which == 0 ? s : which == 1 ? kname : key;
    py_setup();
    take();
    strcpy(s, "s"); strcpy(kname, "N"); strcpy(key, "k");
    n = sym_choice("length", SLEN + 1);
    if (which && !n) n = 1;
    for (i = 0; i < n; i++) { text[i] = (char)sym_u8("ch"); sym_assume(text[i] != 0); }
    text[n] = 0;
    if (which == 1) sym_assume(text[0] != 'H');
    if (which == 2) sym_assume(n > 1 || (text[0] < 'a' || text[0] > 'h'));
    if (which == 2) sym_assume(n != 2 || text[0] != 'i' || text[1] != 'd');
    Bytes b(1200);
    ts = sym_u64("ts"); id = sym_u64("id");
    b.klass(40, kname, 10);
    b.field(40, "HT_Event", "base", 24, DT_STRUCT);
    for (i = 0; i < 8; i++) b.field(40, "t", fname[i], 1u << (i / 2), i & 1 ? DT_INT : DT_UINT);
    b.field(40, "const char*", key, 8, DT_STRING);
    b.head(40, ts, id);
    for (i = 0; i < 8; i++) { v[i] = sym_u64("v"); b.num(v[i], 1u << (i / 2)); }
    b.str(s);
    data_of[0] = b.p; size_of[0] = b.n;
    module = PyInit_client();
    type = (PyTypeObject*)PyDict_GetItemString(((PMod*)module)->dict, "Client");
    args = PyTuple_New(0);
    client = type->tp_new(type, args, NULL);
    Py_DECREF(args);
    the_callback = (PyObject*)func_new(NULL, 0);
    none(method(client, "start", start_args(cb)));
    none(method(client, "wait_for_eos"));
    if (!cb) for (;;)
    {
        r = method(client, "poll_event");
        sym_check(r && !py_err, "polling works");
        if (r == Py_None) break;
        check_event_tuple(r);
    }
    sym_check(seen == 1, "the event arrives once");
    r = method(client, "eos");
    sym_check(r == Py_True, "the end of the stream is reported");
    Py_DECREF(client);
    sym_check(the_callback->ob_refcnt == 1, "no reference to the callback is kept or lost");
    Py_DECREF(the_callback);
    Py_DECREF(module);
    sym_check(py_live == 0, "every object is released");
    sym_reached("done");
}
#else
/* ---- every moment */
static int got[2], stopped, after_end, stop_in, in_stop;
static PyObject *client, *client_of_callback;
static void on_event(PyObject* name, PyObject* d)
{
    PyObject* t = item(d, "timestamp");
    unsigned run = ((PInt*)t)->v >= 200;
    sym_check(is_str(name, "HT_Event"), "the class name is the recorded one");
    sym_check(!after_end, "no event comes after the client is gone");
    sym_check(is_int(t, 0, 100 + 100 * run + (unsigned)got[run]), "events come in order, each once");
    got[run]++;
    if (client_of_callback && !in_stop && sym_choice("stop_in", 2))
    {
        PyObject* c = client_of_callback;
        in_stop = stopped = 1;
        none(method(c, "stop"));
    }
}
static void* other(void* p)
{
    PyGILState_STATE st = PyGILState_Ensure();
    PyObject* c = (PyObject*)p;
    if (known == 1) none(method(c, "wait_for_eos"));
    else { stopped = 1; none(method(c, "stop")); }
    Py_DECREF(c);
    PyGILState_Release(st);
    return NULL;
}
extern "C" void harness(void)
{
    PyObject *module, *args, *r;
    pthread_t th;
    int cb, i, running = 0, threads = 0, waited = 0;
    Bytes a(128), b(64);
    py_setup();
    take();
    for (i = 0; i < EVENTS; i++) a.head(1, 100 + (uint64_t)i, 0);
    b.head(1, 200, 0);
    data_of[0] = a.p; size_of[0] = a.n; data_of[1] = b.p; size_of[1] = b.n;
    idle = MOMENTS & 1;
    module = PyInit_client();
    type = (PyTypeObject*)PyDict_GetItemString(((PMod*)module)->dict, "Client");
    args = PyTuple_New(0);
    client = type->tp_new(type, args, NULL);
    Py_DECREF(args);
    cb = MOMENTS / 2; /* none; one that may stop the client; one that fails */
    the_callback = (PyObject*)func_new(NULL, cb == 2);
    if (cb == 1) client_of_callback = client;
    if (sym_choice("early", 2))
    {
        static const char* const m[] = {"stop", "poll_event", "wait_for_eos", "eos"};
        r = method(client, m[sym_choice("call", 4)]);
        sym_check((r != NULL) == (py_err == NULL), "a client that is not started can be used");
        py_err = NULL;
        r = method(client, "start", Py_BuildValue("(s)", "nothing"));
        sym_check(!r && py_err, "a source that cannot be understood is reported");
        py_err = NULL;
        return;
    }
    none(method(client, "start", start_args(cb != 0)));
    for (i = 0; i < OPS; i++) switch (sym_choice("op", 6))
    {
    case 0:
        if (idle && !(stopped && made == 1)) break; /* would wait for ever */
        none(method(client, "wait_for_eos"));
        if (!stopped && made == 1) { if (cb) sym_check(got[0] == EVENTS, "every event is passed to the callback before the end is reported"); waited = 1; }
        break;
    case 1: none(method(client, "stop")); stopped = 1; break;
    case 2:
        r = method(client, "poll_event");
        sym_check(r && !py_err, "polling works");
        if (r != Py_None) { sym_check(!cb, "there is nothing to poll when there is a callback"); check_event_tuple(r); }
        else if (waited && !cb) sym_check(got[0] == EVENTS, "every event can be polled after the end is reported");
        break;
    case 3: r = method(client, "eos"); sym_check(r == Py_True || r == Py_False, "the end can be asked for"); if (stopped) sym_check(r == Py_True || made == 2, "a stopped client is at its end"); break;
    case 4:
        if (threads || (idle && !stopped && EVENTS == 1)) break;
        known = 1 + (idle ? 1 : (int)sym_choice("thread", 2));
        threads = 1;
        Py_INCREF(client);
        { PyThreadState* t = PyEval_SaveThread(); pthread_create(&th, NULL, other, client); PyEval_RestoreThread(t); }
        break;
    default:
        if (made == 2) break;
        none(method(client, "start", start_args(cb != 0)));
        waited = 0;
    }
    if (idle && threads && known == 1) none(method(client, "stop"));
    client_of_callback = NULL;
    if (threads && sym_choice("join", 2)) { PyThreadState* t = PyEval_SaveThread(); pthread_join(th, NULL); PyEval_RestoreThread(t); threads = 0; }
    Py_DECREF(client);
    if (threads) { PyThreadState* t = PyEval_SaveThread(); pthread_join(th, NULL); PyEval_RestoreThread(t); }
    after_end = 1;
    sym_check(!py_err, "no error is left behind");
    sym_check(the_callback->ob_refcnt == 1, "no reference to the callback is kept or lost");
    Py_DECREF(the_callback);
    Py_DECREF(module);
    sym_check(py_live == 0, "every object is released");
    sym_reached("done");
}
#endif
