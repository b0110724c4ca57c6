/* create_patch(): any call of the Python API failing, wrong arguments: an exception and nothing leaked. */
#include "ext.h"
static const char *text[4] = { "abcdefghijklm", "xabcdefghixyz", "", "ab" };
void harness_body(void)
{
    PyObject *m = PyInit_bsdiff(), *r, *sa, *f, *t, *de, *args;
    const char *ft = text[symx_concretize(in_lt(4))], *tt = text[symx_concretize(in_lt(4))];
    size_t nf = strlen(ft), nt = strlen(tt);
    int bad = (int)symx_concretize(in_lt(6));
    f = bad == 1 ? pystub_new(PYSTUB_LONG, NULL, 0) : pystub_new(PYSTUB_BYTES, ft, nf);
    t = bad == 2 ? pystub_new(PYSTUB_LONG, NULL, 0) : pystub_new(PYSTUB_BYTES, tt, nt);
    sa = bad == 3 ? pystub_new(PYSTUB_LONG, NULL, 0) : pystub_new(PYSTUB_BYTEARRAY, NULL, 4 * (nf + 1));
    de = bad == 4 ? pystub_new(PYSTUB_BYTES, tt, nt) : pystub_new(PYSTUB_BYTEARRAY, NULL, nt + 1);
    if (sa->kind == PYSTUB_BYTEARRAY) {
        int32_t *s = (int32_t *)sa->buf;
        /* The texts are sorted. */
        s[0] = (int32_t)nf;
        for (size_t i = 0; i < nf; i++) s[i + 1] = (int32_t)i;
        if (nf > 1 && ft[0] == 'x') {
            for (size_t i = 0; i < 9; i++) s[i + 1] = (int32_t)i + 1;
            s[10] = 0; s[11] = 10; s[12] = 11; s[13] = 12;
        }
    }
    args = bad == 5 ? tuple(sa, f, t, NULL) : tuple(sa, f, t, de);
    int before = pystub_live;
    pystub_calls = 0;
    pystub_fail_at = (int)symx_concretize(in_lt(MAXCALL)) - 1;
    r = pystub_call(m, "create_patch", args);
    CHECK((r == NULL) == (pystub_error != NULL), "a result or an exception, not both");
    CHECK(pystub_exports == 0, "no buffer is still held");
    CHECK(f->ob_refcnt == 1 && t->ob_refcnt == 1 && sa->ob_refcnt == 1 && de->ob_refcnt == 1, "arguments are not leaked");
    if (r == NULL) {
        CHECK(pystub_live == before, "nothing is leaked when it fails");
        CHECK(pystub_failed || bad, "it works when nothing fails");
        WITNESS(pystub_failed ? "fault" : "rejected");
        return;
    }
    CHECK(!pystub_failed && !bad, "a failure is not ignored");
    CHECK(r->ob_refcnt == 1, "the result is owned by the caller");
    int items = 0;
    for (Py_ssize_t i = 0; i < r->len; i++) {
        CHECK(r->items[i]->ob_refcnt == 1, "the chunks are owned by the list");
        items++;
    }
    CHECK(pystub_live == before + 1 + items, "only the result is new");
    CHECK(pystub_calls < MAXCALL, "every call was made to fail");
    Py_DECREF(r);
    CHECK(pystub_live == before, "everything can be freed");
    OBSERVE(items);
    WITNESS("created");
}
