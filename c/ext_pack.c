/* pack_size() of the C extension: every 64-bit size is packed as documented. */
#include "ext.h"
void harness_body(void)
{
    PyObject *m = PyInit_bsdiff(), *r, *v;
    int64_t x;
    IN(x);
    v = pystub_new(PYSTUB_LONG, NULL, 0);
    v->value = x;
    switch (symx_concretize(in_lt(4))) {
    case 1:
        v->room = 1;                            /* a number of more than 64 bits */
        break;
    case 2:
        v = pystub_new(PYSTUB_BYTES, "\1", 1);
        break;
    case 3:
        pystub_calls = 0;
        pystub_fail_at = 0;
        break;
    default:
        goto pack;
    }
    int before = pystub_live;
    r = pystub_call(m, "pack_size", v);
    CHECK(r == NULL && pystub_error != NULL, "anything else is an exception");
    CHECK(pystub_live == before && v->ob_refcnt == 1, "nothing is leaked");
    WITNESS("rejected");
    return;
pack:
    r = pystub_call(m, "pack_size", v);
    CHECK(r != NULL && pystub_error == NULL, "every size of 64 bits is packed");
    CHECK(r->kind == PYSTUB_BYTES, "a size is packed as bytes");
    size_t at = 0, n = (size_t)r->len;
    CHECK(get_size(r->buf, n, &at) == x, "a packed size is unpacked as the same");
    CHECK(at == n, "a packed size ends where it ends");
    CHECK(n == 1 || r->buf[n - 1] != 0, "a size takes no more bytes than it needs");
    for (size_t i = 0; i < n; i++) OBSERVE(r->buf[i]);
    WITNESS(n == 10 ? "ten bytes" : n == 1 ? "one byte" : "some bytes");
}
