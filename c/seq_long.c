/* Long stretches: diff, extra and adjustments beyond 16 bits.  The from-data is
 * a fixed pattern; the ends of the stretches and the repeated value are free. */
#define RAWCAP 300000
#include "enc.h"
#include "env.h"
#ifndef COMP
#define COMP 0
#endif
#ifndef LENS
#define LENS {1, 65535, 65536, 66000}
#endif
#ifndef XLENS
#define XLENS {0, 65537}
#endif
#ifndef MOVE
#define MOVE {0, 66000, -65536}
#endif
#ifndef CH
#define CH 70000
#endif
static const int lens[] = LENS, xlens[] = XLENS, moves[] = MOVE;
#define PICK(t) t[symx_concretize(in_lt(sizeof(t) / sizeof(t[0])))]
static struct detools_apply_patch_t ap;
static struct stretch reps[4];
static struct backref refs[2048];
static int nreps, nrefs;
static int64_t fpos;
static size_t wn, rd_at;                        /* bytes written; the place in raw[] they come from */
static size_t d1, x1, dat1, xat1, dat2;         /* sizes and places of the data in raw[] */
static int64_t move, pre;
#ifndef PREMOVE
#define PREMOVE {0}
#endif
static const int premoves[] = PREMOVE;         /* a move before everything, undone after the first diff */
#ifdef DUMPAT
static const int dumpat[] = DUMPAT;             /* where the state is dumped, in percent of the patch */
static struct detools_apply_patch_t ap2;
static uint8_t store[sizeof(struct detools_apply_patch_t) + 64];
static size_t stored, loaded;
static int st_write(void *a, const void *b, size_t n)
{
    (void)a;
    CHECK(stored + n <= sizeof(store), "the dump fits the object size");
    memcpy(store + stored, b, n);
    stored += n;
    return 0;
}
static int st_read(void *a, void *b, size_t n)
{
    (void)a;
    CHECK(loaded + n <= stored, "restore reads no more than was dumped");
    memcpy(b, store + loaded, n);
    loaded += n;
    return 0;
}
#endif
#define FROM(i) ((uint8_t)((i) * 31 + ((i) >> 8) + ((i) >> 16) * 5 + ((i) >> 24) * 3))

static int rd(void *a, uint8_t *b, size_t n)
{
    (void)a;
    CHECK(fpos >= 0, "the from-position is the sum of all moves");
    for (size_t i = 0; i < n; i++) { b[i] = FROM(fpos); fpos++; }
    return 0;
}
static int sk(void *a, int o) { (void)a; fpos += o; return 0; }
static uint8_t expected(size_t i)
{
    if (i < d1) return (uint8_t)(raw[dat1 + i] + FROM(pre + (int64_t)i));
    if (i < d1 + x1) return raw[xat1 + i - d1];
    i -= d1 + x1;
    return (uint8_t)(raw[dat2 + i] + FROM((int64_t)(d1 + i) + move));
}
static int wr(void *a, const uint8_t *b, size_t n)
{
    (void)a;
    for (size_t i = 0; i < n; i++, wn++) {
        CHECK(wn < d1 + x1 + 2, "no more than the to-size is written");
        CHECK(b[i] == expected(wn), "every written byte is the one the patch describes");
    }
    return 0;
}
static int feed(struct detools_apply_patch_t *p, size_t off, size_t end)
{
    int res = 0;
    for (; off < end && res == 0; off += CH)
        res = detools_apply_patch_process(p, &pbuf[off], end - off < CH ? end - off : CH);
    return res;
}
static size_t stretch(size_t n)
{
    size_t at = rawn;
    if (n < 8) { raw_syms(n); return at; }
    raw_syms(2);
#if COMP == 2 && !defined(SCATTER)
    {
        uint8_t v = in_u8();
        reps[nreps].start = rawn; reps[nreps++].len = n - 4;
        for (size_t i = 0; i < n - 4; i++) raw_put(v);
    }
#elif COMP == 4
    for (size_t i = 0; i < n - 4;) {
        size_t k = n - 4 - i < 128 ? n - 4 - i : 128;
        refs[nrefs].start = rawn; refs[nrefs].dist = 2; refs[nrefs++].len = k;
        for (size_t j = 0; j < k; j++) raw_put(raw[rawn - 2]);
        i += k;
    }
#else
    for (size_t i = 0; i < n - 4; i++) raw_put((uint8_t)(i * 7 + (i >> 8)));
#endif
    raw_syms(2);
    return at;
}
void harness_body(void)
{
    int res = 0, fin;

    rawn = pn = wn = 0; fpos = 0; nreps = nrefs = 0;
    d1 = (size_t)PICK(lens); x1 = (size_t)PICK(xlens); move = PICK(moves);
    ASSUME((int64_t)d1 + move >= 0);
    pre = PICK(premoves);
    raw_size(0);
    if (pre) { raw_size(0); raw_size(0); raw_size(pre); }
    raw_size((int64_t)d1); dat1 = stretch(d1);
    raw_size((int64_t)x1); xat1 = stretch(x1);
    raw_size(move - pre);
    raw_size(2); dat2 = stretch(2);
    raw_size(0); raw_size(0);
    p_put(COMP);
    p_size((int64_t)(d1 + x1 + 2));
#if COMP == 0
    enc_none();
#elif COMP == 2
    enc_crle(reps, nreps, 200000);
#else
    enc_hs(refs, nrefs);
#endif
    CHECK(ap_init(&ap, rd, sk, pn, wr, NULL) == 0, "init succeeds");
#ifdef DUMPAT
    {
        size_t at = pn * (size_t)PICK(dumpat) / 100, off;
        CHECK(feed(&ap, 0, at) == 0, "each part is accepted");
        stored = loaded = 0;
        CHECK(detools_apply_patch_dump(&ap, st_write) == 0, "dumping succeeds");
        CHECK(ap_init(&ap2, rd, sk, 1, wr, NULL) == 0, "init succeeds");
        fpos = 0;
        CHECK(detools_apply_patch_restore(&ap2, st_read) == 0, "restoring succeeds");
        off = detools_apply_patch_get_patch_offset(&ap2);
        CHECK(off <= at && detools_apply_patch_get_to_offset(&ap2) <= wn, "the offsets are not past what was done");
        wn = detools_apply_patch_get_to_offset(&ap2);
        res = feed(&ap2, off, pn);
        CHECK(res == 0, "each part is accepted after restoring");
        fin = detools_apply_patch_finalize(&ap2);
    }
#else
    res = feed(&ap, 0, pn);
    CHECK(res == 0, "each part is accepted");
    fin = detools_apply_patch_finalize(&ap);
#endif
    OBSERVE(fin); OBSERVE(wn);
    CHECK(fin == (int)(d1 + x1 + 2), "finalize returns the to-size");
    CHECK(wn == d1 + x1 + 2, "exactly the to-size is written");
    WITNESS("applied");
}
