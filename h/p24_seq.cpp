// P24: the Python client, run by the real interpreter (h/py/p24.py)
#include "pyseq.hpp"
PyMODINIT_FUNC PyInit_client(void);
PYSCENARIO(values) PYSCENARIO(texts) PYSCENARIO(histories) PYSCENARIO(calls) PYSCENARIO(callbacks) PYSCENARIO(abandon) PYSCENARIO(reentrant)
PYSCENARIO(leaks)
int main(int argc, char** argv)
{
    PyImport_AppendInittab("client", PyInit_client); py_start("p24");
    static const seq::Scenario s[] = {{"values", s_values, 0, true}, {"texts", s_texts, 0, true}, {"histories", s_histories, 0, true}, {"calls", s_calls, 0, true}, {"callbacks", s_callbacks, 0, true}, {"abandon", s_abandon, 0, true}, {"reentrant", s_reentrant, 0, true}, {"leaks", s_leaks, 0, true}};
    return seq::main(argc, argv, s, sizeof s / sizeof s[0]);
}
