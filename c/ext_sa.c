/* The suffix array: all suffixes, in order. Any call failing: an exception and nothing leaked. */
#include "heap.h"
#include "ext.h"
#define HASH(i) ((((unsigned)(i) * 2654435761u) ^ (((unsigned)(i) * (unsigned)(i)) >> 7) * 40503u) >> 15)
#ifndef N
#define N 4
#endif
static uint8_t frm[N + 1];
void harness_body(void)
{
    PyObject *r, *sa, *f, *args, *m = PyInit_suffix_array();
    size_t n = N;
#ifdef FIXED
    for (size_t i = 0; i < N; i++) frm[i] = (uint8_t)(FIXED);
    for (size_t k = 0; k < SYMB; k++) {
        symx_bytes(&frm[(N * (k + 1)) / (SYMB + 1)], 1);
#ifdef ALPHA
        ASSUME(frm[(N * (k + 1)) / (SYMB + 1)] < ALPHA);
#endif
    }
#else
    n = symx_concretize(in_lt(N + 1));
    symx_bytes(frm, n);
#ifdef ALPHA
    for (size_t i = 0; i < n; i++) ASSUME(frm[i] < ALPHA);
#endif
#endif
#ifdef CONC     /* one path for each data */
    for (size_t i = 0; i < n; i++) frm[i] = (uint8_t)symx_concretize(frm[i]);
#endif
    f = pystub_new(PYSTUB_BYTES, frm, n);
    sa = pystub_new(PYSTUB_BYTEARRAY, NULL, 4 * (n + 1));
    memset(sa->buf, 0xff, 4 * (n + 1));
    args = tuple(f, sa, NULL, NULL);
    int before = pystub_live;
    long nones = (long)Py_None->ob_refcnt;
    pystub_calls = 0;
    pystub_fail_at = (int)symx_concretize(in_lt(FAILS)) - 1;
    heap_calls = 0;
    heap_live = 0;
    int hfail = (int)symx_concretize(in_lt(HEAP)) - 1;
    heap_fail_at = hfail;
    r = pystub_call(m, ALGO, args);
    heap_fail_at = -1;
    CHECK((r == NULL) == (pystub_error != NULL), "a result or an exception, not both");
    CHECK(pystub_exports == 0, "no buffer is still held");
    CHECK(pystub_live == before && f->ob_refcnt == 1 && sa->ob_refcnt == 1, "nothing is leaked");
    CHECK(heap_live == 0, "all memory is freed");
    if (r == NULL) {
        CHECK(pystub_failed || heap_failed, "it works when nothing fails");
        WITNESS("fault");
        return;
    }
    CHECK(!pystub_failed, "a failure is not ignored");
    CHECK(r == Py_None, "there is no result");
    CHECK((long)Py_None->ob_refcnt == nones + 1, "a new reference is returned");
    int32_t *s = (int32_t *)sa->buf;
    CHECK(s[0] == (int32_t)n, "the empty suffix is the first");
    static int32_t rank[N + 1];                 /* where each suffix is; 0: nowhere yet, and the empty one */
    memset(rank, 0, sizeof(rank));
    for (size_t i = 1; i <= n; i++) {
        CHECK(s[i] >= 0 && s[i] < (int32_t)n, "suffixes of the data");
        size_t a = (size_t)symx_concretize((uint64_t)s[i]);
        CHECK(rank[a] == 0, "every suffix once");
        rank[a] = (int32_t)i;
        if (i < 100) OBSERVE(a);
    }
    /* one is less than the next if its first byte is, or if these are the same and the rest is less */
    for (size_t i = 1; i < n; i++) {
        size_t a = (size_t)symx_concretize((uint64_t)s[i]), b = (size_t)symx_concretize((uint64_t)s[i + 1]);
        CHECK(frm[a] < frm[b] || (frm[a] == frm[b] && rank[a + 1] < rank[b + 1]), "the suffixes are in order");
    }
    WITNESS(heap_failed ? "sorted nevertheless" : "sorted");
}
