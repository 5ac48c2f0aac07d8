/* The part of CPython the bindings are written against, with its rules: the real headers (object layouts, reference counting)
 * and stand-ins for the functions of libpython. Broken rules are violations: an object used after its last reference is gone,
 * the interpreter entered without its lock, a call made or a result returned with an error pending. */
#ifndef PYMODEL_HPP
#define PYMODEL_HPP
#include <Python.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)
static pthread_mutex_t py_lock = PTHREAD_MUTEX_INITIALIZER;
static __thread int py_held;
static __thread PyObject* py_err;
static long py_live; /* objects and type instances that exist */
static void need(void) { sym_check(py_held, "the interpreter is entered with its lock held"); }
static void take(void) { pthread_mutex_lock(&py_lock); py_held = 1; }
static void drop(void) { py_held = 0; pthread_mutex_unlock(&py_lock); }

struct PStr { PyObject ob_base; size_t n; int lone; char* utf8; PyObject* bytes; }; /* lone: holds surrogates, no UTF-8 form */
struct PInt { PyObject ob_base; int neg; uint64_t v; };
struct PDict { PyObject ob_base; unsigned n; PyObject* k[24]; PyObject* v[24]; };
struct PFunc { PyObject ob_base; PyObject* name; int what; };
struct PMod { PyObject ob_base; PyModuleDef* def; PyObject* dict; };

static void free_obj(PyObject* o) { py_live--; free(o); }
static void str_free(PyObject* o) { free(((PStr*)o)->utf8); Py_XDECREF(((PStr*)o)->bytes); free_obj(o); }
static void dict_free(PyObject* o) { PDict* d = (PDict*)o; for (unsigned i = 0; i < d->n; i++) { Py_DECREF(d->k[i]); Py_DECREF(d->v[i]); } free_obj(o); }
static void tuple_free(PyObject* o) { PyTupleObject* t = (PyTupleObject*)o; for (Py_ssize_t i = 0; i < t->ob_base.ob_size; i++) Py_XDECREF(t->ob_item[i]); free_obj(o); }
static void func_free(PyObject* o) { Py_XDECREF(((PFunc*)o)->name); free_obj(o); }
static void cfunc_free(PyObject* o) { Py_XDECREF(((PyCFunctionObject*)o)->m_self); free_obj(o); }
static void mod_free(PyObject* o)
{
    PMod* m = (PMod*)o;
    if (m->def->m_free) m->def->m_free(m);
    Py_XDECREF(m->dict);
    free_obj(o);
}
extern "C" {
PyTypeObject PyType_Type, PyUnicode_Type, PyLong_Type, PyBool_Type, PyDict_Type, PyTuple_Type, PyBytes_Type, PyCFunction_Type, PyModule_Type, PyBaseObject_Type, PyFunction_Type, PyList_Type;
PyObject _Py_NoneStruct, _Py_NotImplementedStruct;
struct _longobject _Py_TrueStruct, _Py_FalseStruct;
static PyTypeObject exc_type[12];
PyObject *PyExc_Exception, *PyExc_TypeError, *PyExc_RuntimeError, *PyExc_ValueError, *PyExc_SystemError, *PyExc_MemoryError, *PyExc_AttributeError, *PyExc_UnicodeDecodeError, *PyExc_UnicodeEncodeError, *PyExc_OSError, *PyExc_OverflowError, *PyExc_KeyError;
static void type_init(PyTypeObject* t, const char* n, unsigned long flags, destructor d)
{
    t->ob_base.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT;
    t->ob_base.ob_base.ob_type = &PyType_Type;
    t->tp_name = n; t->tp_flags = flags | Py_TPFLAGS_READY; t->tp_dealloc = d;
}
static void py_setup(void)
{
    PyObject** ex[] = {&PyExc_Exception, &PyExc_TypeError, &PyExc_RuntimeError, &PyExc_ValueError, &PyExc_SystemError, &PyExc_MemoryError, &PyExc_AttributeError, &PyExc_UnicodeDecodeError, &PyExc_UnicodeEncodeError, &PyExc_OSError, &PyExc_OverflowError, &PyExc_KeyError};
    type_init(&PyType_Type, "type", Py_TPFLAGS_TYPE_SUBCLASS, 0);
    type_init(&PyUnicode_Type, "str", Py_TPFLAGS_UNICODE_SUBCLASS, str_free);
    type_init(&PyLong_Type, "int", Py_TPFLAGS_LONG_SUBCLASS, free_obj);
    type_init(&PyBool_Type, "bool", Py_TPFLAGS_LONG_SUBCLASS, 0);
    type_init(&PyDict_Type, "dict", Py_TPFLAGS_DICT_SUBCLASS, dict_free);
    type_init(&PyTuple_Type, "tuple", Py_TPFLAGS_TUPLE_SUBCLASS, tuple_free);
    type_init(&PyBytes_Type, "bytes", Py_TPFLAGS_BYTES_SUBCLASS, free_obj);
    type_init(&PyCFunction_Type, "builtin_function_or_method", 0, cfunc_free);
    type_init(&PyModule_Type, "module", 0, mod_free);
    type_init(&PyFunction_Type, "function", 0, func_free);
    type_init(&PyList_Type, "list", Py_TPFLAGS_LIST_SUBCLASS, free_obj);
    for (unsigned i = 0; i < 12; i++) { type_init(&exc_type[i], "exception", Py_TPFLAGS_BASE_EXC_SUBCLASS, 0); *ex[i] = (PyObject*)&exc_type[i]; }
    _Py_NoneStruct.ob_refcnt = ((PyObject*)&_Py_TrueStruct)->ob_refcnt = ((PyObject*)&_Py_FalseStruct)->ob_refcnt = _Py_IMMORTAL_REFCNT;
    _Py_NoneStruct.ob_type = &PyBaseObject_Type;
    ((PyObject*)&_Py_TrueStruct)->ob_type = ((PyObject*)&_Py_FalseStruct)->ob_type = &PyBool_Type;
}
static void* obj(PyTypeObject* t, size_t n)
{
    PyObject* o = (PyObject*)calloc(1, n);
    need();
    o->ob_refcnt = 1; o->ob_type = t;
    py_live++;
    return o;
}
void _Py_Dealloc(PyObject* o) { need(); o->ob_type->tp_dealloc(o); }
void Py_IncRef(PyObject* o) { Py_XINCREF(o); }
void Py_DecRef(PyObject* o) { Py_XDECREF(o); }
/* ---- errors */
void PyErr_SetString(PyObject* t, const char*) { need(); py_err = t; }
void PyErr_SetNone(PyObject* t) { need(); py_err = t; }
void PyErr_SetObject(PyObject* t, PyObject*) { need(); py_err = t; }
PyObject* PyErr_Format(PyObject* t, const char*, ...) { need(); py_err = t; return NULL; }
PyObject* PyErr_NoMemory(void) { need(); py_err = PyExc_MemoryError; return NULL; }
PyObject* PyErr_Occurred(void) { need(); return py_err; }
void PyErr_Clear(void) { need(); py_err = NULL; }
void PyErr_Print(void) { need(); sym_check(py_err != NULL, "an error is printed when there is one"); py_err = NULL; }
void PyErr_PrintEx(int) { PyErr_Print(); }
void PyErr_WriteUnraisable(PyObject*) { need(); py_err = NULL; }
int PyErr_GivenExceptionMatches(PyObject* a, PyObject* b) { return a == b || b == PyExc_Exception; }
int PyErr_ExceptionMatches(PyObject* t) { need(); return py_err && PyErr_GivenExceptionMatches(py_err, t); }
void _PyErr_BadInternalCall(const char*, int) { py_err = PyExc_SystemError; }
void PyErr_Fetch(PyObject** t, PyObject** v, PyObject** tb) { need(); *t = py_err; *v = *tb = NULL; py_err = NULL; }
void PyErr_Restore(PyObject* t, PyObject*, PyObject*) { need(); py_err = t; }
PyObject* PyErr_GetRaisedException(void) { need(); PyObject* e = py_err; py_err = NULL; return e; }
void PyErr_SetRaisedException(PyObject* e) { need(); py_err = e; }
static void* fail(PyObject* t) { py_err = t; return NULL; }
/* ---- the lock */
PyGILState_STATE PyGILState_Ensure(void) { if (py_held) return PyGILState_LOCKED; take(); py_err = NULL; return PyGILState_UNLOCKED; }
void PyGILState_Release(PyGILState_STATE s) { need(); if (s == PyGILState_UNLOCKED) { py_err = NULL; drop(); } }
int PyGILState_Check(void) { return py_held; }
PyThreadState* PyEval_SaveThread(void) { need(); drop(); return (PyThreadState*)&py_held; }
void PyEval_RestoreThread(PyThreadState* t) { sym_check(t == (PyThreadState*)&py_held, "the thread's own state is restored"); sym_check(!py_held, "the interpreter's lock is not taken twice"); take(); }
int PyEval_ThreadsInitialized(void) { return 1; }
void PyEval_InitThreads(void) {}
/* ---- strings: decoded ones keep the bytes they came from */
static int utf8_ok(const unsigned char* s, size_t n)
{
    for (size_t i = 0; i < n;)
    {
        unsigned c = s[i++], more, lo = 0x80, hi = 0xBF;
        if (c < 0x80) continue;
        if (c < 0xC2 || c > 0xF4) return 0;
        more = c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
        if (c == 0xE0) lo = 0xA0;
        if (c == 0xED) hi = 0x9F;
        if (c == 0xF0) lo = 0x90;
        if (c == 0xF4) hi = 0x8F;
        for (; more; more--, lo = 0x80, hi = 0xBF) { if (i == n || s[i] < lo || s[i] > hi) return 0; i++; }
    }
    return 1;
}
static PyObject* str_new(const char* s, size_t n, int lone)
{
    PStr* o = (PStr*)obj(&PyUnicode_Type, sizeof(PStr));
    o->utf8 = (char*)malloc(n + 1);
    memcpy(o->utf8, s, n); o->utf8[n] = 0;
    o->n = n; o->lone = lone;
    return &o->ob_base;
}
PyObject* PyUnicode_DecodeUTF8(const char* s, Py_ssize_t n, const char* errors)
{
    need();
    if (utf8_ok((const unsigned char*)s, (size_t)n)) return str_new(s, (size_t)n, 0);
    if (!errors || !strcmp(errors, "strict")) return (PyObject*)fail(PyExc_UnicodeDecodeError);
    return str_new(s, (size_t)n, !strcmp(errors, "surrogateescape") || !strcmp(errors, "surrogatepass"));
}
PyObject* PyUnicode_Decode(const char* s, Py_ssize_t n, const char*, const char* errors) { return PyUnicode_DecodeUTF8(s, n, errors); }
PyObject* PyUnicode_FromString(const char* s) { return PyUnicode_DecodeUTF8(s, (Py_ssize_t)strlen(s), NULL); }
PyObject* PyUnicode_FromStringAndSize(const char* s, Py_ssize_t n) { return PyUnicode_DecodeUTF8(s, n, NULL); }
PyObject* PyUnicode_InternFromString(const char* s) { return PyUnicode_FromString(s); }
const char* PyUnicode_AsUTF8AndSize(PyObject* o, Py_ssize_t* n)
{
    need();
    if (!PyUnicode_Check(o)) return (const char*)fail(PyExc_TypeError);
    if (((PStr*)o)->lone) return (const char*)fail(PyExc_UnicodeEncodeError);
    if (n) *n = (Py_ssize_t)((PStr*)o)->n;
    return ((PStr*)o)->utf8;
}
const char* PyUnicode_AsUTF8(PyObject* o) { return PyUnicode_AsUTF8AndSize(o, NULL); }
PyObject* PyBytes_FromStringAndSize(const char* s, Py_ssize_t n)
{
    PyBytesObject* b = (PyBytesObject*)obj(&PyBytes_Type, sizeof(PyBytesObject) + (size_t)n);
    b->ob_base.ob_size = n;
    if (s) memcpy(b->ob_sval, s, (size_t)n);
    return (PyObject*)b;
}
PyObject* PyBytes_FromString(const char* s) { return PyBytes_FromStringAndSize(s, (Py_ssize_t)strlen(s)); }
PyObject* PyUnicode_AsEncodedString(PyObject* o, const char*, const char* errors)
{
    need();
    if (!PyUnicode_Check(o)) return (PyObject*)fail(PyExc_TypeError);
    PStr* s = (PStr*)o;
    if (s->lone && (!errors || !strcmp(errors, "strict") || !strcmp(errors, "surrogateescape"))) return (PyObject*)fail(PyExc_UnicodeEncodeError);
    return s->lone ? PyBytes_FromString("??") : PyBytes_FromStringAndSize(s->utf8, (Py_ssize_t)s->n);
}
PyObject* PyUnicode_AsUTF8String(PyObject* o) { return PyUnicode_AsEncodedString(o, "utf-8", NULL); }
char* PyBytes_AsString(PyObject* o)
{
    need();
    if (!PyBytes_Check(o)) return (char*)fail(PyExc_TypeError);
    return ((PyBytesObject*)o)->ob_sval;
}
/* ---- integers */
static PyObject* int_new(int neg, uint64_t v) { PInt* i = (PInt*)obj(&PyLong_Type, sizeof(PInt)); i->neg = neg; i->v = v; return &i->ob_base; }
PyObject* PyLong_FromLongLong(long long v) { return int_new(v < 0, (uint64_t)v); }
PyObject* PyLong_FromLong(long v) { return int_new(v < 0, (uint64_t)v); }
PyObject* PyLong_FromSsize_t(Py_ssize_t v) { return int_new(v < 0, (uint64_t)v); }
PyObject* PyLong_FromUnsignedLongLong(unsigned long long v) { return int_new(0, v); }
PyObject* PyLong_FromUnsignedLong(unsigned long v) { return int_new(0, v); }
PyObject* PyLong_FromSize_t(size_t v) { return int_new(0, v); }
PyObject* PyLong_FromVoidPtr(void* v) { return int_new(0, (uint64_t)v); }
static uint64_t as_u64(PyObject* o)
{
    need();
    if (!o) { py_err = PyExc_SystemError; return (uint64_t)-1; }
    if (!PyLong_Check(o)) { py_err = PyExc_TypeError; return (uint64_t)-1; }
    if (((PInt*)o)->neg) { py_err = PyExc_OverflowError; return (uint64_t)-1; }
    return ((PInt*)o)->v;
}
size_t PyLong_AsSize_t(PyObject* o) { return as_u64(o); }
unsigned long PyLong_AsUnsignedLong(PyObject* o) { return as_u64(o); }
unsigned long long PyLong_AsUnsignedLongLong(PyObject* o) { return as_u64(o); }
void* PyLong_AsVoidPtr(PyObject* o) { return (void*)as_u64(o); }
PyObject* PyBool_FromLong(long v) { need(); return v ? Py_True : Py_False; }
/* ---- tuples and dictionaries */
PyObject* PyTuple_New(Py_ssize_t n) { PyTupleObject* t = (PyTupleObject*)obj(&PyTuple_Type, sizeof(PyTupleObject) + (size_t)n * sizeof(PyObject*)); t->ob_base.ob_size = n; return (PyObject*)t; }
Py_ssize_t PyTuple_Size(PyObject* o) { return ((PyTupleObject*)o)->ob_base.ob_size; }
PyObject* PyTuple_GetItem(PyObject* o, Py_ssize_t i) { need(); sym_check(i >= 0 && i < PyTuple_Size(o), "an item within the tuple"); return ((PyTupleObject*)o)->ob_item[i]; }
int PyTuple_SetItem(PyObject* o, Py_ssize_t i, PyObject* v) { need(); sym_check(i >= 0 && i < PyTuple_Size(o), "an item within the tuple"); PyObject* old = ((PyTupleObject*)o)->ob_item[i]; ((PyTupleObject*)o)->ob_item[i] = v; Py_XDECREF(old); return 0; }
PyObject* PyTuple_Pack(Py_ssize_t n, ...)
{
    PyObject* t = PyTuple_New(n);
    va_list a;
    va_start(a, n);
    for (Py_ssize_t i = 0; i < n; i++) { PyObject* v = va_arg(a, PyObject*); Py_INCREF(v); PyTuple_SetItem(t, i, v); }
    va_end(a);
    return t;
}
PyObject* PyDict_New(void) { return (PyObject*)obj(&PyDict_Type, sizeof(PDict)); }
static int same_key(PyObject* a, PyObject* b)
{
    if (a == b) return 1;
    if (!PyUnicode_Check(a) || !PyUnicode_Check(b)) return 0;
    PStr *x = (PStr*)a, *y = (PStr*)b;
    return x->n == y->n && x->lone == y->lone && !memcmp(x->utf8, y->utf8, x->n);
}
static int dict_find(PyObject* o, PyObject* k) /* index, -1: absent, -2: error */
{
    PDict* d = (PDict*)o;
    need();
    if (!o || !PyDict_Check(o)) { py_err = PyExc_SystemError; return -2; }
    if (PyList_Check(k)) { py_err = PyExc_TypeError; return -2; }
    for (unsigned i = 0; i < d->n; i++) if (same_key(d->k[i], k)) return (int)i;
    return -1;
}
int PyDict_Contains(PyObject* o, PyObject* k) { int i = dict_find(o, k); return i == -2 ? -1 : i >= 0; }
PyObject* PyDict_GetItemWithError(PyObject* o, PyObject* k) { int i = dict_find(o, k); return i < 0 ? NULL : ((PDict*)o)->v[i]; }
PyObject* PyDict_GetItem(PyObject* o, PyObject* k) { PyObject* e = py_err; PyObject* r = PyDict_GetItemWithError(o, k); py_err = e; return r; }
int PyDict_SetItem(PyObject* o, PyObject* k, PyObject* v)
{
    PDict* d = (PDict*)o;
    int i = dict_find(o, k);
    if (i == -2) return -1;
    if (i >= 0) { PyObject* old = d->v[i]; Py_INCREF(v); d->v[i] = v; Py_DECREF(old); return 0; }
    sym_check(d->n < 24, "harness: dictionary too large");
    Py_INCREF(k); Py_INCREF(v);
    d->k[d->n] = k; d->v[d->n++] = v;
    return 0;
}
int PyDict_SetItemString(PyObject* o, const char* k, PyObject* v) { PyObject* s = PyUnicode_FromString(k); if (!s) return -1; int r = PyDict_SetItem(o, s, v); Py_DECREF(s); return r; }
PyObject* PyDict_GetItemString(PyObject* o, const char* k) { PyObject* s = PyUnicode_FromString(k); if (!s) return NULL; PyObject* r = PyDict_GetItem(o, s); Py_DECREF(s); return r; }
Py_ssize_t PyDict_Size(PyObject* o) { return ((PDict*)o)->n; }
void PyDict_Clear(PyObject* o) { PDict* d = (PDict*)o; unsigned n = d->n; need(); d->n = 0; for (unsigned i = 0; i < n; i++) { Py_DECREF(d->k[i]); Py_DECREF(d->v[i]); } }
static PyObject* build(const char* f, va_list a, int force_tuple)
{
    PyObject* item[8];
    int n = 0, bad = 0, tuple = force_tuple || f[0] == '(';
    need();
    for (; *f; f++)
    {
        PyObject* v = NULL;
        switch (*f)
        {
        case '(': case ')': case ',': case ' ': case ':': continue;
        case 's': case 'z': { const char* s = va_arg(a, const char*); if (s) v = bad ? NULL : PyUnicode_FromString(s); else { v = Py_None; } break; }
        case 'O': case 'S': v = va_arg(a, PyObject*); Py_XINCREF(v); break;
        case 'N': v = va_arg(a, PyObject*); break;
        case 'i': v = PyLong_FromLong(va_arg(a, int)); break;
        case 'I': v = PyLong_FromUnsignedLong(va_arg(a, unsigned)); break;
        case 'l': case 'n': case 'L': v = PyLong_FromLongLong(va_arg(a, long long)); break;
        case 'k': case 'K': v = PyLong_FromUnsignedLongLong(va_arg(a, unsigned long long)); break;
        default: sym_check(0, "harness: a format unit that is not modelled");
        }
        if (!v) { bad = 1; if (!py_err) py_err = PyExc_SystemError; }
        else { sym_check(n < 8, "harness: too many items"); item[n++] = v; }
    }
    if (bad) { while (n) { n--; Py_DECREF(item[n]); } return NULL; }
    if (n == 0 && !tuple) return Py_None;
    if (n == 1 && !tuple) return item[0];
    PyObject* t = PyTuple_New(n);
    for (int i = 0; i < n; i++) PyTuple_SetItem(t, i, item[i]);
    return t;
}
PyObject* Py_BuildValue(const char* f, ...) { va_list a; va_start(a, f); PyObject* r = build(f, a, 0); va_end(a); return r; }
int PyArg_ParseTuple(PyObject* t, const char* f, ...)
{
    va_list a;
    Py_ssize_t i = 0, n = PyTuple_Size(t);
    int opt = 0, ok = 1;
    need();
    va_start(a, f);
    for (; ok && *f && *f != ':' && *f != ';'; f++)
    {
        if (*f == '|') { opt = 1; continue; }
        void* to = va_arg(a, void*);
        if (i == n) { if (!opt) { py_err = PyExc_TypeError; ok = 0; } continue; }
        PyObject* v = PyTuple_GetItem(t, i++);
        switch (*f)
        {
        case 's': { const char* s = PyUnicode_AsUTF8(v); if (s && strlen(s) != ((PStr*)v)->n) s = (const char*)fail(PyExc_ValueError); if (s) *(const char**)to = s; else ok = 0; break; }
        case 'O': *(PyObject**)to = v; break;
        case 'U': if (PyUnicode_Check(v)) *(PyObject**)to = v; else { py_err = PyExc_TypeError; ok = 0; } break;
        case 'I': case 'i': if (PyLong_Check(v)) *(unsigned*)to = (unsigned)((PInt*)v)->v; else { py_err = PyExc_TypeError; ok = 0; } break;
        case 'k': case 'K': case 'n': case 'l': case 'L': if (PyLong_Check(v)) *(uint64_t*)to = ((PInt*)v)->v; else { py_err = PyExc_TypeError; ok = 0; } break;
        default: sym_check(0, "harness: a format unit that is not modelled");
        }
    }
    va_end(a);
    if (ok && i != n) { py_err = PyExc_TypeError; ok = 0; }
    return ok;
}
/* ---- functions */
static PyObject* user_call(PFunc* f, PyObject* args, PyObject* kwargs); /* the harness's Python code */
PyObject* PyCMethod_New(PyMethodDef* ml, PyObject* self, PyObject*, PyTypeObject*)
{
    PyCFunctionObject* f = (PyCFunctionObject*)obj(&PyCFunction_Type, sizeof *f);
    Py_XINCREF(self);
    f->m_ml = ml; f->m_self = self;
    return (PyObject*)f;
}
PyObject* (PyCFunction_NewEx)(PyMethodDef* ml, PyObject* self, PyObject* m) { return PyCMethod_New(ml, self, m, NULL); }
PyObject* (PyCFunction_New)(PyMethodDef* ml, PyObject* self) { return PyCMethod_New(ml, self, NULL, NULL); }
int PyCallable_Check(PyObject* o) { need(); return o && (Py_IS_TYPE(o, &PyFunction_Type) || Py_IS_TYPE(o, &PyCFunction_Type)); }
static PyObject* c_call(PyMethodDef* ml, PyObject* self, PyObject* args, PyObject* kwargs)
{
    PyObject* r;
    need();
    sym_check(!py_err, "a call is made with no error pending");
    if (kwargs && PyDict_Size(kwargs) && !(ml->ml_flags & METH_KEYWORDS)) return (PyObject*)fail(PyExc_TypeError);
    switch (ml->ml_flags & (METH_VARARGS | METH_KEYWORDS | METH_NOARGS | METH_O | METH_FASTCALL))
    {
    case METH_VARARGS: r = ml->ml_meth(self, args); break;
    case METH_VARARGS | METH_KEYWORDS: r = ((PyCFunctionWithKeywords)(void (*)(void))ml->ml_meth)(self, args, kwargs); break;
    case METH_NOARGS: if (PyTuple_Size(args)) return (PyObject*)fail(PyExc_TypeError); r = ml->ml_meth(self, NULL); break;
    case METH_O: if (PyTuple_Size(args) != 1) return (PyObject*)fail(PyExc_TypeError); r = ml->ml_meth(self, PyTuple_GetItem(args, 0)); break;
    case METH_FASTCALL: r = ((_PyCFunctionFast)(void (*)(void))ml->ml_meth)(self, ((PyTupleObject*)args)->ob_item, PyTuple_Size(args)); break;
    default: sym_check(0, "harness: a calling convention that is not modelled"); r = NULL;
    }
    need();
    sym_check((r != NULL) == (py_err == NULL), "a function returns a result or an error");
    return r;
}
PyObject* PyObject_Call(PyObject* f, PyObject* args, PyObject* kwargs)
{
    need();
    sym_check(!py_err, "a call is made with no error pending");
    if (!args) { py_err = PyExc_SystemError; return NULL; }
    if (!PyTuple_Check(args) || !PyCallable_Check(f)) return (PyObject*)fail(PyExc_TypeError);
    if (Py_IS_TYPE(f, &PyCFunction_Type)) return c_call(((PyCFunctionObject*)f)->m_ml, ((PyCFunctionObject*)f)->m_self, args, kwargs);
    drop(); take(); /* other Python threads may run */
    PyObject* r = user_call((PFunc*)f, args, kwargs);
    drop(); take();
    return r;
}
PyObject* PyEval_CallObjectWithKeywords(PyObject* f, PyObject* args, PyObject* kwargs)
{
    PyObject* e = args ? args : PyTuple_New(0);
    PyObject* r = PyObject_Call(f, e, kwargs);
    if (!args) Py_DECREF(e);
    return r;
}
PyObject* PyObject_CallObject(PyObject* f, PyObject* args) { return PyEval_CallObjectWithKeywords(f, args, NULL); }
PyObject* PyObject_CallNoArgs(PyObject* f) { return PyEval_CallObjectWithKeywords(f, NULL, NULL); }
PyObject* PyObject_CallOneArg(PyObject* f, PyObject* x) { PyObject* t = PyTuple_Pack(1, x); PyObject* r = PyObject_Call(f, t, NULL); Py_DECREF(t); return r; }
PyObject* PyObject_CallFunctionObjArgs(PyObject* f, ...)
{
    PyObject* item[8];
    int n = 0;
    va_list a;
    va_start(a, f);
    while ((item[n] = va_arg(a, PyObject*)) != NULL) n++;
    va_end(a);
    PyObject* t = PyTuple_New(n);
    for (int i = 0; i < n; i++) { Py_INCREF(item[i]); PyTuple_SetItem(t, i, item[i]); }
    PyObject* r = PyObject_Call(f, t, NULL);
    Py_DECREF(t);
    return r;
}
PyObject* PyObject_CallFunction(PyObject* f, const char* fmt, ...)
{
    va_list a;
    va_start(a, fmt);
    PyObject* t = build(fmt, a, 1);
    va_end(a);
    if (!t) return NULL;
    PyObject* r = PyObject_Call(f, t, NULL);
    Py_DECREF(t);
    return r;
}
PyObject* PyObject_GetAttrString(PyObject* o, const char* n)
{
    need();
    sym_check(!strcmp(n, "__name__"), "harness: an attribute that is not modelled");
    PyObject* v = Py_IS_TYPE(o, &PyFunction_Type) ? ((PFunc*)o)->name : NULL;
    if (Py_IS_TYPE(o, &PyCFunction_Type)) return PyUnicode_FromString(((PyCFunctionObject*)o)->m_ml->ml_name);
    if (!v) return (PyObject*)fail(PyExc_AttributeError);
    Py_INCREF(v);
    return v;
}
int PyObject_HasAttrString(PyObject* o, const char* n) { PyObject* e = py_err; PyObject* v = PyObject_GetAttrString(o, n); if (!v) py_err = e; Py_XDECREF(v); return v != NULL; }
/* ---- types and modules */
PyObject* PyType_GenericAlloc(PyTypeObject* t, Py_ssize_t) { return (PyObject*)obj(t, (size_t)t->tp_basicsize); }
PyObject* PyType_GenericNew(PyTypeObject* t, PyObject*, PyObject*) { return PyType_GenericAlloc(t, 0); }
void PyObject_Free(void* p) { need(); py_live--; free(p); }
int PyType_Ready(PyTypeObject* t)
{
    need();
    t->ob_base.ob_base.ob_refcnt = _Py_IMMORTAL_REFCNT;
    if (!t->ob_base.ob_base.ob_type) t->ob_base.ob_base.ob_type = &PyType_Type;
    if (!t->tp_alloc) t->tp_alloc = PyType_GenericAlloc;
    if (!t->tp_free) t->tp_free = PyObject_Free;
    t->tp_flags |= Py_TPFLAGS_READY;
    return 0;
}
PyObject* PyModule_Create2(PyModuleDef* d, int)
{
    PMod* m = (PMod*)obj(&PyModule_Type, sizeof *m);
    m->def = d; m->dict = PyDict_New();
    return &m->ob_base;
}
PyObject* PyModule_GetDict(PyObject* m) { return ((PMod*)m)->dict; }
int PyModule_AddObjectRef(PyObject* m, const char* n, PyObject* v) { return PyDict_SetItemString(((PMod*)m)->dict, n, v); }
int PyModule_AddObject(PyObject* m, const char* n, PyObject* v) { int r = PyModule_AddObjectRef(m, n, v); if (r == 0) Py_DECREF(v); return r; }
int PyModule_AddType(PyObject* m, PyTypeObject* t) { const char* d = strrchr(t->tp_name, '.'); if (PyType_Ready(t)) return -1; return PyModule_AddObjectRef(m, d ? d + 1 : t->tp_name, (PyObject*)t); }
} /* extern "C" */
/* ---- for the harnesses */
static PFunc* func_new(PyObject* name, int what) { PFunc* f = (PFunc*)obj(&PyFunction_Type, sizeof *f); f->name = name; f->what = what; return f; }
static PyMethodDef* find_method(PyMethodDef* m, const char* n)
{
    for (; m && m->ml_name; m++) if (!strcmp(m->ml_name, n)) return m;
    sym_check(0, "the documented functions exist");
    return NULL;
}
/* calls self.name(*args), gives args away */
static PyObject* py_call(PyMethodDef* ml, PyObject* self, PyObject* args, PyObject* kwargs = NULL)
{
    if (!args) args = PyTuple_New(0);
    Py_XINCREF(self);
    PyObject* r = c_call(ml, self, args, kwargs);
    Py_XDECREF(self);
    Py_DECREF(args);
    return r;
}
static void none(PyObject* r) { sym_check(r == Py_None, "the call succeeds and returns nothing"); }
#pragma clang attribute pop
#endif
