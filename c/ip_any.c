/* Arbitrary in-place patch bytes after a header of small arbitrary sizes: no
 * write or erase outside the declared memory or of unerased bytes (checked in
 * the callbacks), only defined behaviour, success only with exactly the
 * declared to-size; any split gives the same outcome. */
#include "ipenv.h"
#ifndef N
#define N 10
#endif
#ifndef MAXM
#define MAXM 8
#endif
#ifndef MAXT
#define MAXT 5
#endif
#ifndef TM
#define TM {0, 1, 2, 4, 6}
#endif
#ifndef TS
#define TS {0, 1, 2, 3}
#endif
#ifndef TSH
#define TSH {0, 1, 2, 3, 7}
#endif
#ifndef TF
#define TF {0, 1, 2, 5}
#endif
static struct detools_apply_patch_in_place_t ap;
static const uint8_t tm[] = TM, ts[] = TS, tsh[] = TSH, tf[] = TF;
#define PICK(t) t[symx_concretize(in_lt(sizeof(t) / sizeof(t[0])))]

void harness_body(void)
{
    size_t n, off, len;
    int res = 0, fin, m, t;
    uint8_t *p;

    n = N;
#ifdef ANYLEN
    n = symx_concretize(in_lt(N + 1));
#endif
    p = malloc(n ? n : 1);
    if (n) symx_bytes(p, n);
    ip_reset(&ip);
#ifdef COMP
    if (n > 0) ASSUME(p[0] == (0x10 | COMP));
#endif
    m = 0; t = 0;
#ifdef FREEHDR
    /* stated bound: memory sizes from a table */
    if (n > 1) { m = PICK(tm); p[1] = (uint8_t)m; }
    {                                           /* and one of the other sizes free */
        int f = 2 + (int)symx_concretize(in_lt(4));
        if (n > 2 && f != 2) p[2] = PICK(ts);
        if (n > 3 && f != 3) p[3] = PICK(tsh);
        if (n > 4 && f != 4) p[4] = PICK(tf);
        if (n > 5 && f != 5) ASSUME(p[5] <= MAXT);
    }
#else
    /* stated bound: sizes from small tables */
    if (n > 1) p[1] = PICK(tm);
    if (n > 2) p[2] = PICK(ts);
    if (n > 3) p[3] = PICK(tsh);
    if (n > 4) p[4] = PICK(tf);
    if (n > 1) m = p[1];
    if (n > 5) { ASSUME(p[5] <= MAXT); t = p[5] & 0x3f; }
#ifdef DF0
    if (n > 6) p[6] = DF0;                      /* stated bound: no data format part */
#endif
#endif
    ip.size = (size_t)m;
    if (m) symx_bytes(ip.mem, (size_t)m);
    ip.have_steps = STEPS;
#if STEPS
    { uint8_t s; IN(s); ASSUME(s < 4); ip.step = s; }
#endif
    CHECK(ip_init(&ap, &ip, n) == 0, "init succeeds");
    for (off = 0; off < n && res == 0; off += len) {
#if SPLIT == 0
        len = n;
#elif SPLIT == 1
        len = 1;
#else
        len = 1 + symx_concretize(in_lt((uint8_t)(n - off)));
#endif
        res = detools_apply_patch_in_place_process(&ap, p + off, len);
        CHECK(res <= 0, "processing returns zero or a negative error");
    }
    fin = detools_apply_patch_in_place_finalize(&ap);
    OBSERVE(res); OBSERVE(fin); OBSERVE(ip.nwrite);
    if (res < 0) CHECK(fin < 0, "errors stay");
#ifndef FREEHDR
    if (fin >= 0) CHECK(n >= 6 && fin == t, "success returns the declared to-size");
    if (fin >= 0) CHECK(t <= m, "to-data larger than the memory is rejected");
    if (fin > 0) CHECK(ip.cleared == STEPS, "the stored step is cleared exactly after success");
#endif
    if (fin < 0) CHECK(!ip.cleared || res == 0, "the stored step is not cleared by a failed run");
    if (fin > 0) WITNESS("success");
    if (fin < 0) WITNESS("failure");
    if (ip.nwrite) WITNESS("written");
    free(p);
}
