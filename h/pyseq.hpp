// Scenarios written in Python, run by the real CPython interpreter embedded in the harness (with the bindings' modules built in).
// Every execution runs in a process of its own, forked from one that has the interpreter initialised.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "seq.hpp"
#include <fcntl.h>
#include <stdlib.h>
#include <unistd.h>
#include <string>
static PyObject* m_choose(PyObject*, PyObject* a) { int n; if (!PyArg_ParseTuple(a, "i", &n)) return nullptr; return PyLong_FromLong(seq::choose(n)); }
static PyObject* m_fail(PyObject*, PyObject* a) { const char* s; if (!PyArg_ParseTuple(a, "s", &s)) { PyErr_Print(); seq::fail("violation (message not printable)"); } seq::fail("%s", s); }
static PyObject* m_note(PyObject*, PyObject* a) { const char* s; if (!PyArg_ParseTuple(a, "s", &s)) { PyErr_Clear(); s = "?"; } seq::note("%s", s); Py_RETURN_NONE; }
static PyObject* m_state(PyObject*, PyObject* a) { const char* s; Py_ssize_t n; if (!PyArg_ParseTuple(a, "y#", &s, &n)) return nullptr; seq::state(s, n); Py_RETURN_NONE; }
static PyObject* m_outcome(PyObject*, PyObject* a) { const char* s; Py_ssize_t n; if (!PyArg_ParseTuple(a, "y#", &s, &n)) return nullptr; seq::outcome(s, n); Py_RETURN_NONE; }
static PyObject* m_step(PyObject*, PyObject*) { seq::step(); Py_RETURN_NONE; }
static PyObject* m_discard(PyObject*, PyObject*) { seq::discard(); Py_RETURN_NONE; }
static PyObject* m_thorough(PyObject*, PyObject*) { return PyBool_FromLong(seq::thorough()); }
static PyObject* m_scratch(PyObject*, PyObject*) { return PyUnicode_FromString(seq::scratch().c_str()); }
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static PyObject* m_heap(PyObject*, PyObject*) { return PyLong_FromSize_t(__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0); }
static PyMethodDef mc_methods[] = {{"choose", m_choose, METH_VARARGS, ""}, {"fail", m_fail, METH_VARARGS, ""}, {"note", m_note, METH_VARARGS, ""}, {"state", m_state, METH_VARARGS, ""}, {"outcome", m_outcome, METH_VARARGS, ""},
    {"step", m_step, METH_NOARGS, ""}, {"discard", m_discard, METH_NOARGS, ""}, {"thorough", m_thorough, METH_NOARGS, ""}, {"scratch", m_scratch, METH_NOARGS, ""}, {"heap", m_heap, METH_NOARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef mc_def = {PyModuleDef_HEAD_INIT, "mc", "", -1, mc_methods};
static PyObject* mc_init() { return PyModule_Create(&mc_def); }
static PyObject* g_script = nullptr;
inline void py_start(const char* script, bool own_malloc = false)    // own_malloc: the interpreter's allocator, which uses an address again at once
{
    if (own_malloc) unsetenv("PYTHONMALLOC"); else setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONHASHSEED", "0", 1); unsetenv("PYTHONPATH"); unsetenv("HT_PYTHON_TRACE_ENABLED");
    PyImport_AppendInittab("mc", mc_init);
    Py_InitializeEx(0);
    std::string c = std::string("import sys\nsys.path.insert(0, '") + PYDIR + "')\n"; PyRun_SimpleString(c.c_str());
    g_script = PyImport_ImportModule(script); if (!g_script) { PyErr_Print(); fprintf(stderr, "script %s cannot be loaded\n", script); _exit(97); }
}
inline void py_run(const char* fn)
{
    PyObject* r = PyObject_CallMethod(g_script, fn, nullptr);
    if (!r && PyErr_ExceptionMatches(PyExc_SystemExit)) { PyErr_Clear(); int bad = Py_FinalizeEx(); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); exit(bad < 0 ? 98 : 0); } // a process forked by the scenario has done its work and ends as a program ends
    if (!r)
    {
        PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b);
        PyObject* s = v ? PyObject_Repr(v) : nullptr; const char* m = s ? PyUnicode_AsUTF8(s) : nullptr; seq::fail("unexpected exception: %s", m ? m : "?");
    }
    Py_DECREF(r);
}
#define PYSCENARIO(name) static void s_##name() { py_run(#name); }
