/* create_patch(): what it returns describes the to-data. The suffix array is a correct one, made here (SORTER = 0) or by the
 * extension (SORTER = 1: sais, 2: divsufsort). */
#include "ext.h"
#ifndef NF
#define NF 2
#endif
#ifndef NT
#define NT 3
#endif
#ifndef SORTER
#define SORTER 0
#endif
#ifndef FROM
#define FROM i * 37 + 11
#endif
#ifdef PIECES
/* From-data of distinct bytes except for some that are symbolic; to-data of pieces of it. */
static const int32_t lens[] = LENS, offs[] = OFFS;
#endif
static uint8_t frm[NF + 1], to[NT + 1], out[NT + 1];
static int before_suffix(size_t a, size_t b, size_t n)
{
    while (a < n && b < n) {
        if (frm[a] < frm[b]) return 1;
        if (frm[a] > frm[b]) return 0;
        a++;
        b++;
    }
    return a == n;
}
void harness_body(void)
{
    PyObject *m = PyInit_bsdiff(), *r, *sa, *f, *t, *de, *args;
    size_t nf = NF, nt = 0;
#ifdef PIECES
    for (size_t i = 0; i < NF; i++) frm[i] = (uint8_t)(FROM);
#ifdef FROMBYTE
    symx_bytes(&frm[NF / 3], 1);
#endif
#ifdef SAME
    frm[2 * NF / 3] = frm[NF / 3];
#endif
    for (int k = 0; k < PIECES; k++) {
        size_t n = (size_t)lens[symx_concretize(in_lt(sizeof(lens) / sizeof(lens[0])))], o = (size_t)offs[symx_concretize(in_lt(sizeof(offs) / sizeof(offs[0])))];
        for (size_t i = 0; i < n && o + i < NF && nt < NT; i++) to[nt++] = frm[o + i];
        if (nt < NT && k < BYTES && symx_concretize(in_lt(2))) symx_bytes(&to[nt++], 1);
    }
#else
    nf = symx_concretize(in_lt(NF + 1));
    nt = symx_concretize(in_lt(NT + 1));
    symx_bytes(frm, nf);
    symx_bytes(to, nt);
#ifdef ALPHA
    for (size_t i = 0; i < nf; i++) ASSUME(frm[i] < ALPHA);
    for (size_t i = 0; i < nf && SORTER; i++) frm[i] = (uint8_t)symx_concretize(frm[i]);
    for (size_t i = 0; i < nt; i++) ASSUME(to[i] < ALPHA);
#endif
#endif
    f = pystub_new(PYSTUB_BYTES, frm, nf);
    t = pystub_new(PYSTUB_BYTES, to, nt);
    sa = pystub_new(PYSTUB_BYTEARRAY, NULL, 4 * (nf + 1));
    de = pystub_new(PYSTUB_BYTEARRAY, NULL, nt + 1);
    memset(sa->buf, 0, 4 * (nf + 1));
    memset(de->buf, 0, nt + 1);
#if SORTER == 0
    int32_t *s = (int32_t *)sa->buf;
    s[0] = (int32_t)nf;
#ifdef ASCENDING        /* the suffixes are in order as they are */
    for (size_t i = 0; i < nf; i++) s[i + 1] = (int32_t)i;
#else
    for (size_t i = 0; i < nf; i++) {
        size_t k = i + 1;
        for (; k > 1 && before_suffix(i, (size_t)s[k - 1], nf); k--) s[k] = s[k - 1];
        s[k] = (int32_t)i;
    }
#endif
#else
    args = tuple(f, sa, NULL, NULL);
    r = pystub_call(PyInit_suffix_array(), SORTER == 1 ? "sais" : "divsufsort", args);
    CHECK(r == Py_None && pystub_error == NULL, "the suffix array is created");
#endif
    args = tuple(sa, f, t, de);
    r = pystub_call(m, "create_patch", args);
    CHECK(r != NULL && pystub_error == NULL, "a patch is created");
    CHECK(pystub_exports == 0, "no buffer is still held");
    CHECK(r->kind == PYSTUB_LIST, "the patch is a list of chunks");
    size_t n = 0, at = 0;
    for (Py_ssize_t i = 0; i < r->len; i++) n += (size_t)r->items[i]->len;
    uint8_t *p = malloc(n + 1);
    for (Py_ssize_t i = 0; i < r->len; i++) {
        memcpy(p + at, r->items[i]->buf, (size_t)r->items[i]->len);
        at += (size_t)r->items[i]->len;
    }
    at = 0;
    int64_t pos = 0, made = 0;
    int rounds = 0;
    while (at < n) {
        int64_t d = get_size(p, n, &at);
        CHECK(d >= 0 && made + d <= (int64_t)nt && at + d <= n, "diff data makes part of the to-data");
        d = (int64_t)symx_concretize((uint64_t)d);
        CHECK(d == 0 || (pos >= 0 && pos + d <= (int64_t)nf), "diff data refers to from-data only");
        for (int64_t i = 0; i < d; i++) out[made++] = (uint8_t)(p[at++] + frm[pos + i]);
        pos += d;
        int64_t e = get_size(p, n, &at);
        CHECK(e >= 0 && made + e <= (int64_t)nt && at + e <= n, "extra data makes part of the to-data");
        e = (int64_t)symx_concretize((uint64_t)e);
        for (int64_t i = 0; i < e; i++) out[made++] = p[at++];
        pos += (int64_t)symx_concretize((uint64_t)get_size(p, n, &at));
        rounds++;
        CHECK(pos >= 0 && pos <= (int64_t)nf, "the adjustments stay inside the from-data");
    }
    CHECK(made == (int64_t)nt, "the patch makes all of the to-data");
    for (size_t i = 0; i < nt; i++) CHECK(out[i] == to[i], "the patch makes the to-data");
    OBSERVE(n);
    OBSERVE(rounds);
    WITNESS(rounds == 0 ? "empty" : rounds == 1 ? "one round" : rounds == 2 ? "two rounds" : "more rounds");
}
