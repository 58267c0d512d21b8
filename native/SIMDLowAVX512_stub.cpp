// Stands in for the 1400 generated bindings in the sanitizer builds (they only cost compile time there,
// their own check runs the real ones).
#include <Python.h>

static PyModuleDef stub_module = {PyModuleDef_HEAD_INIT, "__pyfastutil.SIMDLowAVX512", nullptr, -1};
static PyTypeObject stub_type = {PyVarObject_HEAD_INIT(&PyType_Type, 0)};

PyMODINIT_FUNC PyInit_SIMDLowAVX512() {
    stub_type.tp_name = "SIMDLowAVX512";
    stub_type.tp_basicsize = sizeof(PyObject);
    stub_type.tp_flags = Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE;
    stub_type.tp_new = PyType_GenericNew;
    PyObject *m = PyModule_Create(&stub_module);
    if (m == nullptr) return nullptr;
    Py_INCREF(&stub_type);
    PyModule_AddObject(m, "SIMDLowAVX512", (PyObject *) &stub_type);
    return m;
}
