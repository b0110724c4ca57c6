/* Suspending at any point: the state dumped after any part of the patch,
 * restored into a fresh object in a fresh environment positioned by the two
 * offsets, continues to the same result; work done after the dump and lost
 * does not matter. */
#include "shape.h"
#ifndef CH
#define CH 1
#endif
static struct detools_apply_patch_t ap, ap2;
static struct env env2;
static uint8_t store[sizeof(struct detools_apply_patch_t) + 64];
static size_t stored, loaded;
static int sfail;

static int st_write(void *a, const void *b, size_t n)
{
    (void)a;
    if (sfail) return sfail;
    CHECK(stored + n <= sizeof(store), "the dump fits the object size");
    memcpy(store + stored, b, n);
    stored += n;
    return 0;
}
static int st_read(void *a, void *b, size_t n)
{
    (void)a;
    if (sfail) return sfail;
    CHECK(loaded + n <= stored, "restore reads no more than was dumped");
    memcpy(b, store + loaded, n);
    loaded += n;
    return 0;
}

static int feed(struct detools_apply_patch_t *p, size_t from, size_t to)
{
    int r = 0;
    for (; from < to && r == 0; from += CH)
        r = detools_apply_patch_process(p, &pbuf[from], to - from < CH ? to - from : CH);
    return r;
}

void harness_body(void)
{
    uint16_t cut, anysize;
    size_t at, more, poff, toff;
    int fin, rounds;

    build();
    sfail = 0;
    CHECK(ap_init(&ap, env_read, env_seek, pn, env_write, &e) == 0, "init succeeds");
    IN(cut);
    ASSUME(cut <= pn);
    at = symx_concretize(cut);
#ifdef STEP
    ASSUME(at % STEP == 0);
#endif
    CHECK(feed(&ap, 0, at) == 0, "each part is accepted");
    stored = loaded = 0;
    CHECK(detools_apply_patch_dump(&ap, st_write) == 0, "dumping succeeds");
    /* lost work */
    more = at + symx_concretize(in_lt(2)) * LOST;
    if (more > pn) more = pn;
    CHECK(feed(&ap, at, more) == 0, "each part is accepted after a dump");
#ifdef CONT
    /* no crash at all: dumping changes nothing */
    CHECK(feed(&ap, more, pn) == 0, "each part is accepted after a dump");
    fin = detools_apply_patch_finalize(&ap);
    CHECK(fin == (int)to_size && e.out_n == to_size, "dumping does not change the result");
    for (size_t i = 0; i < to_size; i++) CHECK(e.out[i] == want[i], "dumping does not change the output");
#endif

    rounds = 1 + (int)symx_concretize(in_lt(2));        /* restored once or, unused, twice */
    IN(anysize);                                /* not used when restoring */
    memcpy(env2.from, e.from, sizeof(e.from));
    for (int k = 0; k < rounds; k++) {
        env_reset(&env2);
        env2.from_n = e.from_n;
        loaded = 0;
        CHECK(ap_init(&ap2, env_read, env_seek, anysize, env_write, &env2) == 0, "init succeeds");
        CHECK(detools_apply_patch_restore(&ap2, st_read) == 0, "restoring succeeds");
    }
    poff = detools_apply_patch_get_patch_offset(&ap2);
    toff = detools_apply_patch_get_to_offset(&ap2);
    OBSERVE(poff); OBSERVE(toff);
    CHECK(poff <= at, "the patch offset is not past what was handed over");
    CHECK(toff <= to_size, "the to offset is within the output");
    /* the to-stream is rewound to the offset */
    memcpy(env2.out, e.out, toff <= ENV_OUT ? toff : 0);
    CHECK(toff <= e.out_n, "the to offset is not past what was written");
    env2.out_n = toff;
    CHECK(feed(&ap2, poff, pn) == 0, "each part is accepted after restoring");
    fin = detools_apply_patch_finalize(&ap2);
    OBSERVE(fin);
    CHECK(fin == (int)to_size, "finalize returns the to-size after restoring");
    CHECK(env2.out_n == to_size, "exactly the to-size is written in total");
    for (size_t i = 0; i < to_size; i++)
        CHECK(env2.out[i] == want[i], "the output is the same as without the interruption");
    WITNESS("restored");
}
