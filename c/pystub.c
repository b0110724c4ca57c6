/* The model of the Python C API (pystub/Python.h). */
#include "h.h"
#include <Python.h>
#define STATIC_OBJECT(kind) { kind, 1000, NULL, 0, 0, NULL, 0, 0 }
PyObject pystub_none = STATIC_OBJECT(PYSTUB_NONE), pystub_value_error = STATIC_OBJECT(PYSTUB_EXC),
    pystub_runtime_error = STATIC_OBJECT(PYSTUB_EXC), pystub_memory_error = STATIC_OBJECT(PYSTUB_EXC),
    pystub_type_error = STATIC_OBJECT(PYSTUB_EXC), pystub_overflow_error = STATIC_OBJECT(PYSTUB_EXC),
    pystub_system_error = STATIC_OBJECT(PYSTUB_EXC), pystub_index_error = STATIC_OBJECT(PYSTUB_EXC);
int pystub_live, pystub_exports, pystub_calls, pystub_fail_at = -1, pystub_failed;
PyObject *pystub_error;
static PyModuleDef *modules[4];
static int num_modules;

/* One call that may fail. */
static int fails(PyObject *exc)
{
    if (pystub_calls++ != pystub_fail_at) return 0;
    pystub_failed = 1;
    pystub_error = exc;
    return 1;
}

static void live(PyObject *p)
{
    CHECK(p != NULL, "objects passed to Python are not NULL");
    CHECK(p->ob_refcnt > 0, "objects passed to Python are alive");
}

PyObject *pystub_new(int kind, const void *data, Py_ssize_t n)
{
    PyObject *p = malloc(sizeof(*p));
    memset(p, 0, sizeof(*p));
    p->kind = kind;
    p->ob_refcnt = 1;
    p->len = n;
    if (kind == PYSTUB_LIST || kind == PYSTUB_TUPLE) {
        p->room = n + 8;
        p->items = malloc(sizeof(PyObject *) * (size_t)p->room);
        for (Py_ssize_t i = 0; i < n; i++) p->items[i] = data ? ((PyObject **)data)[i] : NULL;
    } else if (kind == PYSTUB_BYTES || kind == PYSTUB_BYTEARRAY) {
        /* Nothing behind the data, as in a mapped file. */
        p->buf = malloc(n > 0 ? (size_t)n : 1);
        if (n > 0 && data) memcpy(p->buf, data, (size_t)n);
    }
    pystub_live++;
    return p;
}

static void destroy(PyObject *p)
{
    CHECK(p->exports == 0, "objects are destroyed only after their buffers were released");
    for (Py_ssize_t i = 0; p->items && i < p->len; i++) if (p->items[i] && p->kind == PYSTUB_LIST) Py_DECREF(p->items[i]);
    free(p->items);
    free(p->buf);
    free(p);
    pystub_live--;
}

void Py_INCREF(PyObject *p) { live(p); p->ob_refcnt++; }
void Py_DECREF(PyObject *p) { live(p); if (--p->ob_refcnt == 0) destroy(p); }
void Py_XINCREF(PyObject *p) { if (p) Py_INCREF(p); }
void Py_XDECREF(PyObject *p) { if (p) Py_DECREF(p); }

PyObject *PyModule_Create(PyModuleDef *def)
{
    PyObject *p;
    if (fails(PyExc_MemoryError)) return NULL;
    p = pystub_new(PYSTUB_MODULE, NULL, 0);
    modules[num_modules] = def;
    p->value = num_modules++;
    return p;
}

PyObject *pystub_call(PyObject *m, const char *name, PyObject *arg)
{
    PyMethodDef *d = modules[m->value]->m_methods;
    for (; d->ml_name; d++) if (strcmp(d->ml_name, name) == 0) return d->ml_meth(m, arg);
    CHECK(0, "the module has its functions");
    return NULL;
}

void PyErr_SetString(PyObject *exc, const char *msg) { live(exc); CHECK(msg != NULL, "a message"); pystub_error = exc; }
void PyErr_SetNone(PyObject *exc) { live(exc); pystub_error = exc; }
PyObject *PyErr_NoMemory(void) { pystub_error = PyExc_MemoryError; return NULL; }
PyObject *PyErr_Occurred(void) { return pystub_error; }
void PyErr_Clear(void) { pystub_error = NULL; }

long long PyLong_AsLongLong(PyObject *p)
{
    live(p);
    if (p->kind != PYSTUB_LONG) { pystub_error = PyExc_TypeError; return -1; }
    if (p->room) { pystub_error = PyExc_OverflowError; return -1; }
    return p->value;
}
long PyLong_AsLong(PyObject *p) { return PyLong_AsLongLong(p); }
Py_ssize_t PyLong_AsSsize_t(PyObject *p) { return PyLong_AsLongLong(p); }
PyObject *PyLong_FromLongLong(long long v)
{
    PyObject *p;
    if (fails(PyExc_MemoryError)) return NULL;
    p = pystub_new(PYSTUB_LONG, NULL, 0);
    p->value = v;
    return p;
}
PyObject *PyLong_FromLong(long v) { return PyLong_FromLongLong(v); }
PyObject *PyLong_FromSsize_t(Py_ssize_t v) { return PyLong_FromLongLong(v); }
int PyLong_Check(PyObject *p) { return p->kind == PYSTUB_LONG; }

static PyObject *bytes_like(int kind, const char *s, Py_ssize_t n)
{
    if (n < 0) { pystub_error = PyExc_SystemError; return NULL; }
    if (fails(PyExc_MemoryError)) return NULL;
    return pystub_new(kind, s, n);
}
PyObject *PyBytes_FromStringAndSize(const char *s, Py_ssize_t n) { return bytes_like(PYSTUB_BYTES, s, n); }
char *PyBytes_AsString(PyObject *p) { live(p); return (char *)p->buf; }
Py_ssize_t PyBytes_Size(PyObject *p) { live(p); return p->len; }
PyObject *PyByteArray_FromStringAndSize(const char *s, Py_ssize_t n) { return bytes_like(PYSTUB_BYTEARRAY, s, n); }
char *PyByteArray_AsString(PyObject *p) { live(p); return (char *)p->buf; }
Py_ssize_t PyByteArray_Size(PyObject *p) { live(p); return p->len; }
int PyByteArray_Resize(PyObject *p, Py_ssize_t n)
{
    uint8_t *b;
    live(p);
    if (fails(PyExc_MemoryError)) return -1;
    CHECK(p->exports == 0, "no resizing while there are buffers");
    b = malloc(n > 0 ? (size_t)n : 1);
    memcpy(b, p->buf, (size_t)(n < p->len ? n : p->len));
    free(p->buf);
    p->buf = b;
    p->len = n;
    return 0;
}

PyObject *PyList_New(Py_ssize_t n)
{
    if (fails(PyExc_MemoryError)) return NULL;
    return pystub_new(PYSTUB_LIST, NULL, n);
}
int PyList_Append(PyObject *p, PyObject *x)
{
    live(p);
    live(x);
    if (fails(PyExc_MemoryError)) return -1;
    if (p->len == p->room) {
        PyObject **q = malloc(sizeof(*q) * (size_t)(2 * p->room));
        memcpy(q, p->items, sizeof(*q) * (size_t)p->len);
        free(p->items);
        p->items = q;
        p->room *= 2;
    }
    Py_INCREF(x);
    p->items[p->len++] = x;
    return 0;
}
Py_ssize_t PyList_Size(PyObject *p) { live(p); return p->len; }
PyObject *PyList_GetItem(PyObject *p, Py_ssize_t k) { live(p); CHECK(k >= 0 && k < p->len, "an item of the list"); return p->items[k]; }
int PyList_SetItem(PyObject *p, Py_ssize_t k, PyObject *x)
{
    live(p);
    CHECK(k >= 0 && k < p->len, "an item of the list");
    Py_XDECREF(p->items[k]);
    p->items[k] = x;
    return 0;
}
Py_ssize_t PyTuple_Size(PyObject *p) { live(p); return p->len; }
PyObject *PyTuple_GetItem(PyObject *p, Py_ssize_t k) { return PyList_GetItem(p, k); }

int PyObject_GetBuffer(PyObject *p, Py_buffer *view, int flags)
{
    live(p);
    view->obj = NULL;
    if ((p->kind != PYSTUB_BYTES && p->kind != PYSTUB_BYTEARRAY)
        || ((flags & PyBUF_WRITABLE) && p->kind == PYSTUB_BYTES)) {
        pystub_error = PyExc_TypeError;
        return -1;
    }
    if (fails(PyExc_MemoryError)) return -1;
    view->buf = p->buf;
    view->len = p->len;
    view->obj = p;
    view->itemsize = 1;
    view->readonly = p->kind == PYSTUB_BYTES;
    view->ndim = 1;
    view->format = NULL;
    view->shape = view->strides = view->suboffsets = NULL;
    view->internal = NULL;
    p->exports++;
    p->ob_refcnt++;
    pystub_exports++;
    return 0;
}
void PyBuffer_Release(Py_buffer *view)
{
    PyObject *p = view->obj;
    if (p == NULL) return;
    CHECK(p->exports > 0, "only buffers that are held are released");
    p->exports--;
    pystub_exports--;
    view->obj = NULL;
    Py_DECREF(p);
}

int pystub_unpack(PyObject *args, Py_ssize_t lo, Py_ssize_t hi, void **out)
{
    live(args);
    if (args->kind != PYSTUB_TUPLE || args->len < lo || args->len > hi) { pystub_error = PyExc_TypeError; return 0; }
    for (Py_ssize_t i = 0; i < args->len; i++) *(PyObject **)out[i] = args->items[i];
    return 1;
}
int pystub_parse(PyObject *args, const char *fmt, void **out, size_t n)
{
    size_t k = 0, arg = 0, want = 0;
    Py_buffer *held[8];
    int num_held = 0;
    live(args);
    for (const char *f = fmt; *f && *f != ':' && *f != ';'; f++) if (*f != '*') want++;
    if (args->kind != PYSTUB_TUPLE || (size_t)args->len != want) { pystub_error = PyExc_TypeError; return 0; }
    for (const char *f = fmt; *f && *f != ':' && *f != ';'; f++) {
        PyObject *x = args->items[arg++];
        CHECK(k < n, "as many variables as values");
        if (*f == 'O') *(PyObject **)out[k++] = x;
        else if (*f == 'L' || *f == 'n' || *f == 'l' || *f == 'i') {
            long long v = PyLong_AsLongLong(x);
            if (v == -1 && pystub_error) goto fail;
            if (*f == 'i') {
                if (v < INT_MIN || v > INT_MAX) { pystub_error = PyExc_OverflowError; goto fail; }
                *(int *)out[k++] = (int)v;
            } else *(long long *)out[k++] = v;
        } else if (*f == 'y' || *f == 'w') {
            CHECK(f[1] == '*', "buffers are parsed as such");
            if (PyObject_GetBuffer(x, out[k], *f == 'w' ? PyBUF_CONTIG : PyBUF_CONTIG_RO) != 0) goto fail;
            held[num_held++] = out[k++];
            f++;
        } else CHECK(0, "the model knows the format");
    }
    return 1;
fail:
    while (num_held > 0) PyBuffer_Release(held[--num_held]);
    return 0;
}
void *PyMem_Malloc(size_t n)
{
    if (pystub_calls++ == pystub_fail_at) { pystub_failed = 1; return NULL; }
    return malloc(n);
}
void PyMem_Free(void *p) { free(p); }
