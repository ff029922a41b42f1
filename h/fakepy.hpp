// A model of the parts of CPython the client bindings use: reference-counted objects, the interpreter lock, exceptions, calls.
// Every function checks that the calling thread holds the interpreter lock. The bindings are compiled against the real Python.h.
#pragma once
#include <Python.h>
#undef PyEval_CallObject
#include "conc.h"
#include <functional>
#include <mutex>
#include <map>
#include <string>
#include <vector>
namespace fpy {
static std::mutex gil; static thread_local bool t_has = false; static thread_local PyThreadState* t_dummy; static int live = 0;      // live: guarded by the interpreter lock
struct Exc { PyObject* type = nullptr; std::string text; }; static thread_local PyObject* t_exc = nullptr;
static void need(const char* what) { if (!t_has) mc_fail("%s is called without the interpreter lock", what); }
static void lock() { if (t_has) mc_fail("the interpreter lock is taken twice"); gil.lock(); t_has = true; }
static void unlock() { if (!t_has) mc_fail("the interpreter lock is released by a thread that does not hold it"); t_has = false; gil.unlock(); }
static std::vector<std::pair<int (*)(void*), void*>>* pending;      // guarded by the interpreter lock; run by the main thread between two instructions
static void finish() { while (pending && !pending->empty()) { auto p = pending->front(); pending->erase(pending->begin()); if (p.first(p.second)) mc_fail("a pending call failed"); } delete pending; pending = nullptr; }
static void bytecode() { unlock(); lock(); if (mc_tid() == 0) finish(); }      // between two instructions of a Python program another thread may get the lock
enum Kind { DICT, INT, STR, BYTES, TUPLE, CALL, MODULE, CLIENT };
struct Obj { PyObject_HEAD Kind kind; std::vector<std::pair<std::string, PyObject*>>* items; std::vector<PyObject*>* seq; long long i; unsigned long long u; bool neg; std::string* s; std::function<PyObject*(const std::vector<PyObject*>&)>* fn; };
static PyTypeObject types[8];
static void dealloc(PyObject* o)
{
    need("an object's destructor"); Obj* x = (Obj*)o;
    if (x->items) { for (auto& p : *x->items) Py_XDECREF(p.second); delete x->items; } if (x->seq) { for (auto p : *x->seq) Py_XDECREF(p); delete x->seq; }
    delete x->s; delete x->fn; o->ob_refcnt = -12345 & 0x7fffffff; live--; free(x);
}
static Obj* make(Kind k) { Obj* x = (Obj*)calloc(1, sizeof(Obj)); x->kind = k; types[k].tp_dealloc = dealloc; ((PyObject*)x)->ob_type = &types[k]; ((PyObject*)x)->ob_refcnt = 1; live++; return x; }
static PyObject* integer(bool neg, unsigned long long u) { Obj* x = make(INT); x->neg = neg; x->u = u; return (PyObject*)x; }
static PyObject* text(const char* s, size_t n) { Obj* x = make(STR); x->s = new std::string(s, n); return (PyObject*)x; }
static PyObject* callable(std::function<PyObject*(const std::vector<PyObject*>&)> f) { Obj* x = make(CALL); x->fn = new std::function<PyObject*(const std::vector<PyObject*>&)>(std::move(f)); return (PyObject*)x; }
static PyTypeObject* client_type = nullptr;
static PyObject* none() { return Py_None; }
static Obj* obj(PyObject* o, Kind k, const char* what) { if (!o) mc_fail("%s: no object", what); if (o->ob_type != &types[k]) mc_fail("%s: object of another type", what); return (Obj*)o; }
static PyObject* build(const char*& f, va_list& a);
static PyObject* build_seq(const char*& f, va_list& a, char end) { Obj* t = make(TUPLE); t->seq = new std::vector<PyObject*>; while (*f && *f != end) { if (*f == ',' || *f == ' ') { f++; continue; } t->seq->push_back(build(f, a)); } if (*f) f++; return (PyObject*)t; }
static PyObject* build(const char*& f, va_list& a)
{
    char c = *f++;
    switch (c)
    {
    case '(': return build_seq(f, a, ')');
    case 's': case 'z': case 'U': { const char* s = va_arg(a, const char*); size_t n = s ? strlen(s) : 0; if (*f == '#') { f++; n = va_arg(a, int); } if (!s) { Py_INCREF(Py_None); return Py_None; } return text(s, n); }
    case 'O': case 'S': { if (*f == '&') mc_fail("Py_BuildValue format O& is not modelled"); PyObject* o = va_arg(a, PyObject*); if (!o) mc_fail("Py_BuildValue: no object"); Py_INCREF(o); return o; }
    case 'N': { PyObject* o = va_arg(a, PyObject*); if (!o) mc_fail("Py_BuildValue: no object"); return o; }
    case 'i': case 'h': case 'b': { int v = va_arg(a, int); return integer(v < 0, (unsigned long long)v); }
    case 'I': return integer(false, va_arg(a, unsigned)); case 'l': { long v = va_arg(a, long); return integer(v < 0, v); } case 'n': { Py_ssize_t v = va_arg(a, Py_ssize_t); return integer(v < 0, v); }
    case 'L': { long long v = va_arg(a, long long); return integer(v < 0, v); } case 'k': return integer(false, va_arg(a, unsigned long)); case 'K': return integer(false, va_arg(a, unsigned long long));
    default: mc_fail("Py_BuildValue format '%c' is not modelled", c);
    }
}
static PyObject* build_value(const char* f, va_list a) { need("Py_BuildValue"); va_list b; va_copy(b, a); const char* p = f; int n = 0, depth = 0; for (const char* q = f; *q; q++) { if (*q == '(') { if (!depth++) n++; } else if (*q == ')') depth--; else if (!depth && isalpha(*q)) n++; } PyObject* r; if (!n) { Py_INCREF(Py_None); r = Py_None; } else if (n == 1) r = build(p, b); else r = build_seq(p, b, 0); va_end(b); return r; }
static PyObject* call(PyObject* f, PyObject* args)
{
    need("a call"); if (t_exc) mc_fail("a function is called while an exception is set"); Obj* x = obj(f, CALL, "call"); Obj* t = args ? obj(args, TUPLE, "arguments of a call") : nullptr;
    Py_INCREF(f); if (t) Py_INCREF(args); bytecode(); std::vector<PyObject*> none_; PyObject* r = (*x->fn)(t ? *t->seq : none_); bytecode(); if (t) Py_DECREF(args); Py_DECREF(f); if (!r && !t_exc) mc_fail("no result and no exception"); return r;
}
static void set_exc(PyObject* type) { need("PyErr_SetString"); t_exc = type; }
}
static PyTypeObject fpy_none_type; static PyObject fpy_exc[3];
extern "C" {
#pragma clang diagnostic push
#pragma clang diagnostic ignored "-Wall"
PyObject _Py_NoneStruct = {{_Py_IMMORTAL_REFCNT}, &fpy_none_type}; PyTypeObject PyType_Type, PyBaseObject_Type, PyLong_Type, PyBool_Type, PyUnicode_Type, PyTuple_Type, PyDict_Type; struct _longobject _Py_FalseStruct = {{{_Py_IMMORTAL_REFCNT}, &PyBool_Type}}, _Py_TrueStruct = {{{_Py_IMMORTAL_REFCNT}, &PyBool_Type}};
static PyObject* fpy_new_exc(int i) { fpy_exc[i].ob_refcnt = _Py_IMMORTAL_REFCNT; return &fpy_exc[i]; }
PyObject *PyExc_TypeError = fpy_new_exc(0), *PyExc_RuntimeError = fpy_new_exc(1), *PyExc_Exception = fpy_new_exc(2), *PyExc_ValueError = fpy_new_exc(2), *PyExc_MemoryError = fpy_new_exc(2), *PyExc_OSError = fpy_new_exc(2), *PyExc_SystemError = fpy_new_exc(2);
void _Py_Dealloc(PyObject* o) { fpy::need("releasing an object"); o->ob_type->tp_dealloc(o); }
void Py_IncRef(PyObject* o) { fpy::need("Py_IncRef"); if (o) Py_INCREF(o); } void Py_DecRef(PyObject* o) { fpy::need("Py_DecRef"); if (o) Py_DECREF(o); }
PyThreadState* PyEval_SaveThread(void) { fpy::unlock(); return (PyThreadState*)1; }
void PyEval_RestoreThread(PyThreadState*) { fpy::lock(); }
PyGILState_STATE PyGILState_Ensure(void) { if (fpy::t_has) return PyGILState_LOCKED; fpy::lock(); return PyGILState_UNLOCKED; }
void PyGILState_Release(PyGILState_STATE s) { fpy::need("PyGILState_Release"); if (s == PyGILState_UNLOCKED) { fpy::t_exc = nullptr; fpy::unlock(); } }
int PyGILState_Check(void) { return fpy::t_has; } int Py_IsInitialized(void) { return 1; } int PyEval_ThreadsInitialized(void) { return 1; } void PyEval_InitThreads(void) {}
PyObject* PyDict_New(void) { fpy::need("PyDict_New"); auto x = fpy::make(fpy::DICT); x->items = new std::vector<std::pair<std::string, PyObject*>>; return (PyObject*)x; }
int PyDict_SetItemString(PyObject* d, const char* k, PyObject* v) { fpy::need("PyDict_SetItemString"); auto x = fpy::obj(d, fpy::DICT, "PyDict_SetItemString"); Py_INCREF(v); for (auto& p : *x->items) if (p.first == k) { Py_DECREF(p.second); p.second = v; return 0; } x->items->emplace_back(k, v); return 0; }
int PyDict_SetItem(PyObject* d, PyObject* k, PyObject* v) { return PyDict_SetItemString(d, fpy::obj(k, fpy::STR, "PyDict_SetItem")->s->c_str(), v); }
PyObject* PyLong_FromLongLong(long long v) { fpy::need("PyLong_FromLongLong"); return fpy::integer(v < 0, v); } PyObject* PyLong_FromLong(long v) { return PyLong_FromLongLong(v); } PyObject* PyLong_FromSsize_t(Py_ssize_t v) { return PyLong_FromLongLong(v); }
PyObject* PyLong_FromUnsignedLongLong(unsigned long long v) { fpy::need("PyLong_FromUnsignedLongLong"); return fpy::integer(false, v); } PyObject* PyLong_FromUnsignedLong(unsigned long v) { return PyLong_FromUnsignedLongLong(v); } PyObject* PyLong_FromSize_t(size_t v) { return PyLong_FromUnsignedLongLong(v); } PyObject* PyLong_FromVoidPtr(void* v) { return PyLong_FromUnsignedLongLong((uintptr_t)v); }
PyObject* PyUnicode_DecodeUTF8(const char* s, Py_ssize_t n, const char*) { fpy::need("PyUnicode_DecodeUTF8"); return fpy::text(s, n); } PyObject* PyUnicode_FromStringAndSize(const char* s, Py_ssize_t n) { return PyUnicode_DecodeUTF8(s, n, nullptr); } PyObject* PyUnicode_FromString(const char* s) { return PyUnicode_DecodeUTF8(s, strlen(s), nullptr); } PyObject* PyUnicode_Decode(const char* s, Py_ssize_t n, const char*, const char*) { return PyUnicode_DecodeUTF8(s, n, nullptr); }
PyObject* PyTuple_New(Py_ssize_t n) { fpy::need("PyTuple_New"); auto x = fpy::make(fpy::TUPLE); x->seq = new std::vector<PyObject*>(n); return (PyObject*)x; }
int PyTuple_SetItem(PyObject* t, Py_ssize_t i, PyObject* v) { fpy::need("PyTuple_SetItem"); (*fpy::obj(t, fpy::TUPLE, "PyTuple_SetItem")->seq)[i] = v; return 0; }
PyObject* PyTuple_Pack(Py_ssize_t n, ...) { PyObject* t = PyTuple_New(n); va_list a; va_start(a, n); for (Py_ssize_t i = 0; i < n; i++) { PyObject* o = va_arg(a, PyObject*); Py_INCREF(o); PyTuple_SetItem(t, i, o); } va_end(a); return t; }
PyObject* Py_BuildValue(const char* f, ...) { va_list a; va_start(a, f); PyObject* r = fpy::build_value(f, a); va_end(a); return r; } PyObject* _Py_BuildValue_SizeT(const char* f, ...) { va_list a; va_start(a, f); PyObject* r = fpy::build_value(f, a); va_end(a); return r; }
static int fpy_parse(PyObject* args, const char* f, va_list a)
{
    fpy::need("PyArg_ParseTuple"); auto x = fpy::obj(args, fpy::TUPLE, "PyArg_ParseTuple"); size_t i = 0; bool opt = false;
    for (; *f && *f != ':' && *f != ';'; f++)
    {
        if (*f == '|') { opt = true; continue; } if (i >= x->seq->size()) { if (opt) break; fpy::set_exc(PyExc_TypeError); return 0; }
        PyObject* o = (*x->seq)[i++];
        if (*f == 'O') *va_arg(a, PyObject**) = o; else if (*f == 's') { if (o->ob_type != &fpy::types[fpy::STR]) { fpy::set_exc(PyExc_TypeError); return 0; } *va_arg(a, const char**) = ((fpy::Obj*)o)->s->c_str(); } else mc_fail("PyArg_ParseTuple format '%c' is not modelled", *f);
    }
    if (i < x->seq->size()) { fpy::set_exc(PyExc_TypeError); return 0; } return 1;
}
int PyArg_ParseTuple(PyObject* args, const char* f, ...) { va_list a; va_start(a, f); int r = fpy_parse(args, f, a); va_end(a); return r; } int _PyArg_ParseTuple_SizeT(PyObject* args, const char* f, ...) { va_list a; va_start(a, f); int r = fpy_parse(args, f, a); va_end(a); return r; }
int PyArg_ParseTupleAndKeywords(PyObject* args, PyObject*, const char* f, char**, ...) { va_list a; va_start(a, f); mc_fail("PyArg_ParseTupleAndKeywords is not modelled"); }
int PyCallable_Check(PyObject* o) { fpy::need("PyCallable_Check"); return o && o->ob_type == &fpy::types[fpy::CALL]; }
PyObject* PyEval_CallObjectWithKeywords(PyObject* f, PyObject* a, PyObject*) { return fpy::call(f, a); } PyObject* PyObject_CallObject(PyObject* f, PyObject* a) { return fpy::call(f, a); } PyObject* PyObject_Call(PyObject* f, PyObject* a, PyObject*) { return fpy::call(f, a); }
static PyObject* fpy_call_build(PyObject* f, const char* fmt, va_list a) { fpy::need("PyObject_CallFunction"); const char* p = fmt; va_list b; va_copy(b, a); PyObject* t = fpy::build_seq(p, b, 0); va_end(b); auto x = (fpy::Obj*)t; PyObject* args = t; if (x->seq->size() == 1 && (*x->seq)[0]->ob_type == &fpy::types[fpy::TUPLE]) args = (*x->seq)[0]; PyObject* r = fpy::call(f, args); Py_DECREF(t); return r; }
PyObject* PyObject_CallFunction(PyObject* f, const char* fmt, ...) { va_list a; va_start(a, fmt); PyObject* r = fpy_call_build(f, fmt, a); va_end(a); return r; } PyObject* _PyObject_CallFunction_SizeT(PyObject* f, const char* fmt, ...) { va_list a; va_start(a, fmt); PyObject* r = fpy_call_build(f, fmt, a); va_end(a); return r; }
PyObject* PyObject_CallFunctionObjArgs(PyObject* f, ...) { fpy::need("PyObject_CallFunctionObjArgs"); auto t = fpy::make(fpy::TUPLE); t->seq = new std::vector<PyObject*>; va_list a; va_start(a, f); while (PyObject* o = va_arg(a, PyObject*)) { Py_INCREF(o); t->seq->push_back(o); } va_end(a); PyObject* r = fpy::call(f, (PyObject*)t); Py_DECREF((PyObject*)t); return r; }
void PyErr_SetString(PyObject* t, const char*) { fpy::set_exc(t); } PyObject* PyErr_Format(PyObject* t, const char*, ...) { fpy::set_exc(t); return nullptr; } PyObject* PyErr_NoMemory(void) { fpy::set_exc(PyExc_MemoryError); return nullptr; } void PyErr_SetNone(PyObject* t) { fpy::set_exc(t); }
PyObject* PyErr_Occurred(void) { fpy::need("PyErr_Occurred"); return fpy::t_exc; } void PyErr_Clear(void) { fpy::need("PyErr_Clear"); fpy::t_exc = nullptr; } void PyErr_Print(void) { PyErr_Clear(); } void PyErr_PrintEx(int) { PyErr_Clear(); } void PyErr_WriteUnraisable(PyObject*) { PyErr_Clear(); }
void PyErr_Fetch(PyObject** t, PyObject** v, PyObject** b) { fpy::need("PyErr_Fetch"); *t = fpy::t_exc; *v = *b = nullptr; fpy::t_exc = nullptr; } void PyErr_Restore(PyObject* t, PyObject*, PyObject*) { fpy::need("PyErr_Restore"); fpy::t_exc = t; }
int Py_AddPendingCall(int (*f)(void*), void* a) { if (!fpy::pending) fpy::pending = new std::vector<std::pair<int (*)(void*), void*>>; fpy::pending->emplace_back(f, a); return 0; }
PyObject* PyBool_FromLong(long v) { fpy::need("PyBool_FromLong"); return v ? Py_True : Py_False; }
static PyObject* fpy_alloc(PyTypeObject* t, Py_ssize_t) { fpy::need("tp_alloc"); PyObject* o = (PyObject*)calloc(1, t->tp_basicsize); o->ob_type = t; o->ob_refcnt = 1; fpy::live++; return o; } static void fpy_free(void* p) { fpy::need("tp_free"); fpy::live--; free(p); }
PyObject* PyType_GenericAlloc(PyTypeObject* t, Py_ssize_t n) { return fpy_alloc(t, n); } void PyObject_Free(void* p) { fpy_free(p); }
int PyType_Ready(PyTypeObject* t) { fpy::need("PyType_Ready"); if (!t->tp_alloc) t->tp_alloc = fpy_alloc; if (!t->tp_free) t->tp_free = fpy_free; return 0; }
PyObject* PyModule_Create2(PyModuleDef*, int) { fpy::need("PyModule_Create"); return (PyObject*)fpy::make(fpy::MODULE); }
int PyModule_AddObject(PyObject*, const char* n, PyObject* o) { fpy::need("PyModule_AddObject"); if (!strcmp(n, "Client")) fpy::client_type = (PyTypeObject*)o; return 0; } int PyModule_AddObjectRef(PyObject* m, const char* n, PyObject* o) { Py_INCREF(o); return PyModule_AddObject(m, n, o); } int PyModule_AddType(PyObject*, PyTypeObject* t) { fpy::client_type = t; return PyType_Ready(t); }
#pragma clang diagnostic pop
}
namespace fpy {
// what the interpreter does for  object.method(arguments)
static PyObject* method(PyObject* self, const char* name, std::vector<PyObject*> args)
{
    bytecode(); if (t_exc) mc_fail("an exception is left over");
    for (PyMethodDef* m = self->ob_type->tp_methods; m && m->ml_name; m++) if (!strcmp(m->ml_name, name))
    {
        if (m->ml_flags & METH_FASTCALL) mc_fail("METH_FASTCALL is not modelled"); Obj* t = make(TUPLE); t->seq = new std::vector<PyObject*>(args); for (auto a : args) Py_INCREF(a); Py_INCREF(self);
        PyObject* r = m->ml_flags & METH_NOARGS ? m->ml_meth(self, nullptr) : m->ml_flags & METH_O ? m->ml_meth(self, args.at(0)) : m->ml_flags & METH_KEYWORDS ? ((PyCFunctionWithKeywords)(void (*)(void))m->ml_meth)(self, (PyObject*)t, nullptr) : m->ml_meth(self, (PyObject*)t);
        need("returning from a method"); if (!r && !t_exc) mc_fail("%s returned no result and no exception", name); if (r && t_exc) mc_fail("%s returned a result and an exception", name);
        Py_DECREF((PyObject*)t); bytecode(); Py_DECREF(self); return r;
    }
    mc_fail("no method %s", name);
}
static PyObject* create() { Obj* t = make(TUPLE); t->seq = new std::vector<PyObject*>; PyObject* o = client_type->tp_new(client_type, (PyObject*)t, nullptr); if (o && client_type->tp_init && client_type->tp_init(o, (PyObject*)t, nullptr)) mc_fail("the client object cannot be initialised"); Py_DECREF((PyObject*)t); if (!o) mc_fail("no client object"); return o; }
static long long dict_int(PyObject* d, const char* k) { for (auto& p : *obj(d, DICT, "event data")->items) if (p.first == k) { Obj* i = obj(p.second, INT, k); return (long long)i->u; } mc_fail("the event has no field %s", k); }
}
