/* What the C extension uses of the Python C API, as a model: objects with reference counts, exact-size buffers with exports,
 * and any call that may fail failing once where the harness says so. */
#ifndef PYSTUB_H
#define PYSTUB_H
#define PY_SSIZE_T_CLEAN
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <errno.h>
#include <assert.h>
typedef ptrdiff_t Py_ssize_t;
#define PY_SSIZE_T_MAX PTRDIFF_MAX
typedef struct pystub_object {
    int kind;
    Py_ssize_t ob_refcnt;
    uint8_t *buf;
    Py_ssize_t len;
    int exports;
    struct pystub_object **items;
    Py_ssize_t room;
    long long value;
} PyObject;
typedef PyObject PyTypeObject;
typedef struct {
    void *buf;
    PyObject *obj;
    Py_ssize_t len;
    Py_ssize_t itemsize;
    int readonly;
    int ndim;
    char *format;
    Py_ssize_t *shape;
    Py_ssize_t *strides;
    Py_ssize_t *suboffsets;
    void *internal;
} Py_buffer;
enum { PYSTUB_NONE, PYSTUB_BYTES, PYSTUB_BYTEARRAY, PYSTUB_LIST, PYSTUB_LONG, PYSTUB_TUPLE, PYSTUB_MODULE, PYSTUB_EXC, PYSTUB_OTHER };
#define PyBUF_SIMPLE 0
#define PyBUF_WRITABLE 1
#define PyBUF_FORMAT 4
#define PyBUF_ND 8
#define PyBUF_STRIDES 0x18
#define PyBUF_C_CONTIGUOUS 0x38
#define PyBUF_CONTIG (PyBUF_ND | PyBUF_WRITABLE)
#define PyBUF_CONTIG_RO PyBUF_ND
typedef PyObject *(*PyCFunction)(PyObject *, PyObject *);
typedef struct {
    const char *ml_name;
    PyCFunction ml_meth;
    int ml_flags;
    const char *ml_doc;
} PyMethodDef;
#define METH_VARARGS 1
#define METH_NOARGS 4
#define METH_O 8
typedef struct {
    int m_base;
    const char *m_name;
    const char *m_doc;
    Py_ssize_t m_size;
    PyMethodDef *m_methods;
    void *m_slots, *m_traverse, *m_clear, *m_free;
} PyModuleDef;
#define PyModuleDef_HEAD_INIT 0
#define PyMODINIT_FUNC PyObject *
PyObject *PyModule_Create(PyModuleDef *def);

extern PyObject pystub_none, pystub_value_error, pystub_runtime_error, pystub_memory_error, pystub_type_error, pystub_overflow_error,
    pystub_system_error, pystub_index_error;
#define Py_None (&pystub_none)
#define PyExc_ValueError (&pystub_value_error)
#define PyExc_RuntimeError (&pystub_runtime_error)
#define PyExc_MemoryError (&pystub_memory_error)
#define PyExc_TypeError (&pystub_type_error)
#define PyExc_OverflowError (&pystub_overflow_error)
#define PyExc_SystemError (&pystub_system_error)
#define PyExc_IndexError (&pystub_index_error)
#define PyExc_Exception (&pystub_system_error)

void Py_INCREF(PyObject *p);
void Py_DECREF(PyObject *p);
void Py_XINCREF(PyObject *p);
void Py_XDECREF(PyObject *p);
#define Py_IncRef Py_XINCREF
#define Py_DecRef Py_XDECREF
#define Py_CLEAR(p) do { PyObject *tmp_ = (p); (p) = NULL; Py_XDECREF(tmp_); } while (0)
static inline PyObject *Py_NewRef(PyObject *p) { Py_INCREF(p); return p; }
#define Py_RETURN_NONE return Py_NewRef(Py_None)

#define PYSTUB_ARGS(...) ((void *[]){ __VA_ARGS__ })
int pystub_parse(PyObject *args, const char *fmt, void **out, size_t n);
#define PyArg_ParseTuple(args, fmt, ...) pystub_parse(args, fmt, PYSTUB_ARGS(__VA_ARGS__), sizeof(PYSTUB_ARGS(__VA_ARGS__)) / sizeof(void *))
#define PyArg_UnpackTuple(args, name, lo, hi, ...) pystub_unpack(args, lo, hi, PYSTUB_ARGS(__VA_ARGS__))
int pystub_unpack(PyObject *args, Py_ssize_t lo, Py_ssize_t hi, void **out);

void PyErr_SetString(PyObject *exc, const char *msg);
void PyErr_SetNone(PyObject *exc);
PyObject *PyErr_NoMemory(void);
PyObject *PyErr_Occurred(void);
void PyErr_Clear(void);
#define PyErr_Format(exc, ...) (PyErr_SetString(exc, ""), (PyObject *)NULL)

long long PyLong_AsLongLong(PyObject *p);
long PyLong_AsLong(PyObject *p);
Py_ssize_t PyLong_AsSsize_t(PyObject *p);
PyObject *PyLong_FromLongLong(long long v);
PyObject *PyLong_FromLong(long v);
PyObject *PyLong_FromSsize_t(Py_ssize_t v);
int PyLong_Check(PyObject *p);
PyObject *PyBytes_FromStringAndSize(const char *s, Py_ssize_t n);
char *PyBytes_AsString(PyObject *p);
Py_ssize_t PyBytes_Size(PyObject *p);
#define PyBytes_AS_STRING PyBytes_AsString
#define PyBytes_GET_SIZE PyBytes_Size
PyObject *PyByteArray_FromStringAndSize(const char *s, Py_ssize_t n);
char *PyByteArray_AsString(PyObject *p);
Py_ssize_t PyByteArray_Size(PyObject *p);
int PyByteArray_Resize(PyObject *p, Py_ssize_t n);
#define PyByteArray_AS_STRING PyByteArray_AsString
#define PyByteArray_GET_SIZE PyByteArray_Size
PyObject *PyList_New(Py_ssize_t n);
int PyList_Append(PyObject *p, PyObject *x);
Py_ssize_t PyList_Size(PyObject *p);
PyObject *PyList_GetItem(PyObject *p, Py_ssize_t k);
int PyList_SetItem(PyObject *p, Py_ssize_t k, PyObject *x);
#define PyList_GET_SIZE PyList_Size
#define PyList_GET_ITEM PyList_GetItem
#define PyList_SET_ITEM PyList_SetItem
Py_ssize_t PyTuple_Size(PyObject *p);
PyObject *PyTuple_GetItem(PyObject *p, Py_ssize_t k);
#define PyTuple_GET_SIZE PyTuple_Size
#define PyTuple_GET_ITEM PyTuple_GetItem
int PyObject_GetBuffer(PyObject *p, Py_buffer *view, int flags);
void PyBuffer_Release(Py_buffer *view);
void *PyMem_Malloc(size_t n);
void PyMem_Free(void *p);
#define PyMem_RawMalloc PyMem_Malloc
#define PyMem_RawFree PyMem_Free
#define PyObject_Malloc PyMem_Malloc
#define PyObject_Free PyMem_Free
#define Py_BEGIN_ALLOW_THREADS {
#define Py_END_ALLOW_THREADS }
#define Py_UNUSED(x) x

/* For the harness. */
extern int pystub_live, pystub_exports, pystub_calls, pystub_fail_at, pystub_failed;
extern PyObject *pystub_error;
PyObject *pystub_new(int kind, const void *data, Py_ssize_t n);
PyObject *pystub_call(PyObject *module, const char *name, PyObject *arg);
#endif
