/* Arbitrary bytes in any parts, with an arbitrary declared patch size, and
 * calls continued after errors: nothing but well-defined behaviour, and only
 * defined results. The executor reports every memory error, use of an
 * uninitialised value, undefined operation and run that does not end. */
#include "env.h"
#ifdef RAWN
#include "rawpatch.h"
#endif
#ifndef N
#define N 6
#endif
#ifndef TMAX
#define TMAX 8
#endif
#ifndef NFROM
#define NFROM 4
#endif
static struct env e;
static struct detools_apply_patch_t ap;
#ifdef LZMA
#include "lzma_stub.h"
#endif

static int rd(void *a, uint8_t *b, size_t n)
{
    CHECK(n > 0 && n <= 65536, "a read asks for a sane amount");
    if (env_tick(a)) return -1;
    for (size_t i = 0; i < n; i++) b[i] = e.from[i % NFROM];
    return 0;
}

void harness_body(void)
{
    size_t n, off, len, declared;
    int res = 0, fin;
    uint8_t *p;

#ifdef RAWN
    raw_patch(COMP, in_lt(TMAX + 1));
    n = symx_concretize(in_lt((uint8_t)(pn + 1)));
    p = malloc(n);                              /* exact size: any over-read is caught */
    memcpy(p, pbuf, n);
#else
    n = symx_concretize(in_lt(N + 1));
    p = malloc(n);
    if (n) symx_bytes(p, n);
#endif
    env_reset(&e);
    e.from_n = NFROM;
    symx_bytes(e.from, NFROM);
#ifndef RAWN
#ifdef COMP
    if (n) ASSUME((p[0] & 15) == COMP);
#endif
    if (n > 1) ASSUME((p[1] & 0xbf) <= TMAX);   /* stated bound on the to-size */
#ifdef RUN
    for (size_t i = 2; i < n; i++) ASSUME(p[i] <= RUN); /* stated bound on run lengths */
#endif
#endif
    declared = n;
#ifdef DECL
    { uint8_t d; IN(d); declared = d; }
#endif
    CHECK(ap_init(&ap, rd, env_seek, declared, env_write, &e) == 0, "init succeeds");
    for (off = 0; off < n; off += len) {
#ifdef SPLIT
        len = 1 + symx_concretize(in_lt((uint8_t)(n - off)));
#else
        len = n;
#endif
        res = detools_apply_patch_process(&ap, p + off, len);
        CHECK(res <= 0, "processing returns zero or a negative error");
        if (res < 0) CHECK(detools_apply_patch_process(&ap, p + off, len) < 0, "errors stay");
    }
    fin = detools_apply_patch_finalize(&ap);
    if (res < 0) CHECK(fin < 0, "errors stay");
    OBSERVE(res); OBSERVE(fin); OBSERVE(e.out_n);
    if (fin > 0) WITNESS("success");
    if (fin < 0) WITNESS("failure");
    free(p);
}
