/* Common to the harnesses of the C extension. */
#ifndef EXT_H
#define EXT_H
#include "h.h"
#include <Python.h>
PyObject *PyInit_bsdiff(void);
PyObject *PyInit_suffix_array(void);

static PyObject *tuple(PyObject *a, PyObject *b, PyObject *c, PyObject *d)
{
    PyObject *items[4] = { a, b, c, d };
    return pystub_new(PYSTUB_TUPLE, items, d ? 4 : c ? 3 : b ? 2 : 1);
}
/* What is in a patch: sizes as documented. */
static int64_t get_size(const uint8_t *p, size_t n, size_t *at)
{
    uint64_t v;
    int neg, shift = 6;
    CHECK(*at < n, "the patch is complete");
    uint8_t b = p[(*at)++];
    neg = (b & 0x40) != 0;
    v = b & 0x3f;
    while (b & 0x80) {
        CHECK(*at < n, "the patch is complete");
        CHECK(shift < 64, "sizes are of a limited number of bytes");
        b = p[(*at)++];
        v |= (uint64_t)(b & 0x7f) << shift;
        shift += 7;
    }
    return neg ? -v : v;
}
#endif
