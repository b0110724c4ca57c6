/* add_bytes(): the bytewise sum, of buffers of the same length only; any call failing; nothing is leaked. */
#include "ext.h"
#ifndef N
#define N 4
#endif
void harness_body(void)
{
    PyObject *m = PyInit_bsdiff(), *r, *a, *b, *args;
    uint8_t x[N + 1], y[N + 1];
    size_t nx = in_lt(N + 1), ny = in_lt(N + 1);
    uint8_t kx = in_lt(3), ky = in_lt(3);
    int kinds[3] = { PYSTUB_BYTES, PYSTUB_BYTEARRAY, PYSTUB_LONG };
    nx = symx_concretize(nx); ny = symx_concretize(ny); kx = symx_concretize(kx); ky = symx_concretize(ky);
    symx_bytes(x, nx);
    symx_bytes(y, ny);
    a = pystub_new(kinds[kx], x, kx == 2 ? 0 : nx);
    b = pystub_new(kinds[ky], y, ky == 2 ? 0 : ny);
    args = tuple(a, b, NULL, NULL);
    int before = pystub_live;
    int fail = symx_concretize(in_lt(8));
    pystub_calls = 0;
    pystub_fail_at = fail - 1;
    r = pystub_call(m, "add_bytes", args);
    CHECK((r == NULL) == (pystub_error != NULL), "a result or an exception, not both");
    CHECK(pystub_exports == 0, "no buffer is still held");
    CHECK(a->ob_refcnt == 1 && b->ob_refcnt == 1, "arguments are not leaked");
    if (r == NULL) {
        CHECK(pystub_live == before, "nothing is leaked when it fails");
        CHECK(pystub_failed || kx == 2 || ky == 2 || nx != ny, "adding bytes of the same length works");
        WITNESS(pystub_failed ? "fault" : "rejected");
        return;
    }
    CHECK(!pystub_failed, "a failure is not ignored");
    CHECK(kx != 2 && ky != 2 && nx == ny, "only bytes of the same length are added");
    CHECK(pystub_live == before + 1 && r->ob_refcnt == 1, "only the result is new");
    CHECK(r->len == (Py_ssize_t)nx, "the length of the sum");
    for (size_t i = 0; i < nx; i++) {
        CHECK(r->buf[i] == (uint8_t)(x[i] + y[i]), "the sum");
        OBSERVE(r->buf[i]);
    }
    WITNESS("sum");
}
