// P28: the label generator (tools/generate_tracepoint_labels.py), run by the real interpreter; its maps are read by the client's TracepointMap
#include "pyseq.hpp"
#include "tracepoint_map.hpp"
#include <iostream>
#include <sstream>
using HawkTracer::client::TracepointMap;
static PyObject* lookup(PyObject*, PyObject* a)
{
    const char* path; PyObject* ids; if (!PyArg_ParseTuple(a, "sO", &path, &ids)) return nullptr;
    std::ostringstream quiet; auto old = std::cerr.rdbuf(quiet.rdbuf()); TracepointMap m; bool ok = m.load_map(path); PyObject* out = PyList_New(0);
    for (Py_ssize_t i = 0; ok && i < PyList_Size(ids); i++) { auto x = m.get_label_info(PyLong_AsUnsignedLongLong(PyList_GetItem(ids, i))); PyObject* t = Py_BuildValue("(ss)", x.category.c_str(), x.label.c_str()); PyList_Append(out, t); Py_DECREF(t); }
    std::cerr.rdbuf(old); return out;
}
static PyMethodDef methods[] = {{"lookup", lookup, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "labelmap", "", -1, methods};
static PyObject* init() { return PyModule_Create(&def); }
PYSCENARIO(lines) PYSCENARIO(sources) PYSCENARIO(options)
int main(int argc, char** argv)
{
    PyImport_AppendInittab("labelmap", init); setenv("PYTHONUTF8", "1", 1); py_start("p28");
    static const seq::Scenario s[] = {{"lines", s_lines, 0, false}, {"sources", s_sources, 0, false}, {"options", s_options, 0, false}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
