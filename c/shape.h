/* A well-formed sequential patch of chosen shape (segment sizes picked from
 * small tables, so that they sit on the boundaries of the size encoding and of
 * typical buffers) with symbolic data, together with what it must produce. */
#ifndef SHAPE_H
#define SHAPE_H
#ifndef ENV_OUT
#define ENV_OUT 700
#endif
#ifndef ENV_FROM
#define ENV_FROM 400
#endif
#include "enc.h"
#include "env.h"

#ifndef COMP
#define COMP 0
#endif
#ifndef D1
#define D1 {0, 1, 127, 128, 129, 257}
#endif
#ifndef E1
#define E1 {0, 1, 128, 130}
#endif
#ifndef D2
#define D2 {0, 2}
#endif
#ifndef E2
#define E2 {0, 1}
#endif
#ifndef ADJ
#define ADJ {0, 63, 64, -1}
#endif
static size_t to_size;
static struct env e;
static uint8_t want[ENV_OUT];
static const int d1[] = D1, e1[] = E1, d2[] = D2, e2[] = E2, adj[] = ADJ;
#define PICK(t) t[symx_concretize(in_lt(sizeof(t) / sizeof(t[0])))]

static struct stretch reps[4];
static struct backref refs[8];
static int nreps, nrefs;

static void data(size_t n)
{
#if COMP == 4
    /* Bit streams of symbolic data are costly: only the ends are symbolic. */
    size_t k = n < 5 ? n : 3, t = n < 5 ? 0 : 2;
    raw_syms(k);
    for (size_t i = k; i < n - t; i++) raw_put((uint8_t)(i * 37 + 11));
    raw_syms(t);
#else
    raw_syms(n);
#endif
}

static void diff(int n, size_t *w, int64_t *pos)
{
    raw_size(n);
#if COMP == 2
    /* the middle of long diffs is a run, as CRLE is meant for */
    if (n >= 100) {
        uint8_t v = in_u8();
        raw_syms(3);
        reps[nreps].start = rawn;
        reps[nreps++].len = (size_t)n - 5;
        for (int i = 0; i < n - 5; i++) raw_put(v);
        raw_syms(2);
    } else
#elif COMP == 4
    if (n >= 100) {
        uint8_t v = in_u8();
        raw_syms(2);
        raw_put(v);
        for (int i = 3; i < n - 2;) {
            int k = n - 2 - i < 128 ? n - 2 - i : 128;
            refs[nrefs].start = rawn; refs[nrefs].dist = 1; refs[nrefs++].len = (size_t)k;
            for (int j = 0; j < k; j++) raw_put(v);
            i += k;
        }
        raw_syms(2);
    } else
#endif
        data((size_t)n);
    for (int i = 0; i < n; i++)
        want[(*w)++] = (uint8_t)(raw[rawn - n + i] + e.from[(*pos)++]);
}

static void extra(int n, size_t *w)
{
    raw_size(n);
    data((size_t)n);
    for (int i = 0; i < n; i++) want[(*w)++] = raw[rawn - n + i];
}

/* Builds pbuf[0..pn), want[0..to_size) and e.from. */
static void build(void)
{
    size_t w = 0;
    int64_t pos = 0;
    int a, da, ea, db, eb;

    env_reset(&e);
    e.from_n = ENV_FROM;
    symx_bytes(e.from, ENV_FROM);
    da = PICK(d1); ea = PICK(e1); db = PICK(d2); eb = PICK(e2); a = PICK(adj);
    ASSUME(da + a >= 0 && da + a + db <= ENV_FROM);
    to_size = (size_t)(da + ea + db + eb);
    ASSUME(to_size > 0);
#ifdef PADS
    { static const int pads[] = PADS; enc_min = (size_t)PICK(pads); }
#endif
    rawn = pn = 0;
    nreps = nrefs = 0;
    raw_size(0);
    diff(da, &w, &pos);
    extra(ea, &w);
    raw_size(a);
    pos += a;
    if (db + eb > 0) {
        diff(db, &w, &pos);
        extra(eb, &w);
        raw_size(pos > 3 ? -3 : -pos);
    }
    p_put(COMP);
    p_size((int64_t)to_size);
#if COMP == 0
    enc_none();
#elif COMP == 2
    enc_crle(reps, nreps, 150);
#else
    enc_hs(refs, nrefs);
#endif

}
#endif
