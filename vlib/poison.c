/* numpy data allocator that fills every fresh block with one byte: values
   read before they were written depend on that byte. Nothing is cached, so
   AddressSanitizer sees the exact bounds and lifetime of every block. */
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_22_API_VERSION
#define NPY_TARGET_VERSION NPY_1_22_API_VERSION
#include <numpy/arrayobject.h>
static int fill = 255;
static long count = 0;
static void *p_malloc(void *ctx, size_t n) {
    void *p = malloc(n ? n : 1);
    if (p) memset(p, fill, n);
    __atomic_add_fetch(&count, 1, __ATOMIC_RELAXED);
    return p;
}
static void *p_calloc(void *ctx, size_t n, size_t e) { return calloc(n ? n : 1, e ? e : 1); }
static void *p_realloc(void *ctx, void *p, size_t n) { return realloc(p, n ? n : 1); }
static void p_free(void *ctx, void *p, size_t n) { free(p); }
static PyDataMem_Handler handler = {"verif_poison", 1, {NULL, p_malloc, p_calloc, p_realloc, p_free}};
static PyObject *install(PyObject *self, PyObject *args) {
    if (!PyArg_ParseTuple(args, "i", &fill)) return NULL;
    PyObject *cap = PyCapsule_New(&handler, "mem_handler", NULL);
    if (!cap) return NULL;
    PyObject *old = PyDataMem_SetHandler(cap);
    Py_DECREF(cap);
    if (!old) return NULL;
    Py_DECREF(old);
    Py_RETURN_NONE;
}
static PyObject *get(PyObject *self, PyObject *args) { return PyLong_FromLong(count); }
static PyMethodDef methods[] = {{"install", install, METH_VARARGS, ""}, {"count", get, METH_NOARGS, ""}, {NULL}};
static struct PyModuleDef mod = {PyModuleDef_HEAD_INIT, "_poison", "", -1, methods};
PyMODINIT_FUNC PyInit__poison(void) { import_array(); return PyModule_Create(&mod); }
