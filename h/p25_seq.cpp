// P25: Python functions traced with the decorator of the core module, run by the real interpreter (h/py/p25.py)
#include "pyseq.hpp"
PyMODINIT_FUNC PyInit_core(void);
PYSCENARIO(trees) PYSCENARIO(kinds) PYSCENARIO(names) PYSCENARIO(setup) PYSCENARIO(threads)
int main(int argc, char** argv)
{
    PyImport_AppendInittab("core", PyInit_core); py_start("p25", true);
    static const seq::Scenario s[] = {{"trees", s_trees, 0, true}, {"kinds", s_kinds, 0, true}, {"names", s_names, 0, true}, {"setup", s_setup, 0, true}, {"threads", s_threads, 0, true}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
