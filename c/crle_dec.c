/* CRLE streams of chosen segments (kind, length, padding of the length) with
 * symbolic data: the decoded data is the concatenation of the segments. */
#ifndef ENV_OUT
#define ENV_OUT 1400
#endif
#include "enc.h"
#include "env.h"
#ifndef LENS
#define LENS {0, 1, 2, 127, 128, 129, 300}
#endif
#ifndef NSEGS
#define NSEGS 2
#endif
#ifndef CHS
#define CHS {1, 64, 5000}
#endif
static const int lens[] = LENS, chs[] = CHS;
#define PICK(t) t[symx_concretize(in_lt(sizeof(t) / sizeof(t[0])))]
static struct detools_apply_patch_t ap;
static struct env e;
static uint8_t want[ENV_OUT];

static void seg(int kind, size_t len, int pad, const uint8_t *d)
{
    p_put((uint8_t)kind);
    pn += put_usize(&pbuf[pn], len);
    if (pad) { pbuf[pn - 1] |= 0x80; p_put(0); }
    if (kind) p_put(d[0]);
    else for (size_t i = 0; i < len; i++) p_put(d[i]);
}

void harness_body(void)
{
    static uint8_t sz[16];
    struct { int kind, pad, len; } s[NSEGS];
    size_t w = 0, n = 0, ch, off;
    int res = 0, fin, style;

    env_reset(&e);
    pn = 0;
    for (int k = 0; k < NSEGS; k++) {
        s[k].kind = (int)symx_concretize(in_lt(2));
        s[k].len = PICK(lens);
        s[k].pad = (int)symx_concretize(in_lt(2));
        n += (size_t)s[k].len;
    }
    ASSUME(n > 0);
    style = (int)symx_concretize(in_lt(3));
    p_put(2);
    p_size((int64_t)n);
    sz[0] = 0; sz[1] = 0;
    off = 2 + put_size(&sz[2], (int64_t)n);
    if (style == 0) seg(0, off, 0, sz);                         /* sizes in one segment */
    else if (style == 1) for (size_t i = 0; i < off; i++) seg(i & 1, 1, i == 2, &sz[i]);
    else { seg(1, 2, 0, sz); seg(0, off - 2, 1, &sz[2]); }
    for (int k = 0; k < NSEGS; k++) {
        if (s[k].kind) {
            uint8_t v = in_u8();
            seg(1, (size_t)s[k].len, s[k].pad, &v);
            for (int i = 0; i < s[k].len; i++) want[w++] = v;
        } else {
            if (s[k].len) symx_bytes(&want[w], (size_t)s[k].len);
            seg(0, (size_t)s[k].len, s[k].pad, &want[w]);
            w += (size_t)s[k].len;
        }
    }
    sz[0] = 0;
    seg(style == 1, 1, 0, sz);                                  /* adjustment */
    ch = (size_t)PICK(chs);
    CHECK(ap_init(&ap, env_read, env_seek, pn, env_write, &e) == 0, "init succeeds");
    for (off = 0; off < pn && res == 0; off += ch)
        res = detools_apply_patch_process(&ap, &pbuf[off], pn - off < ch ? pn - off : ch);
    CHECK(res == 0, "each part is accepted");
    fin = detools_apply_patch_finalize(&ap);
    OBSERVE(fin); OBSERVE(e.calls);
    CHECK(fin == (int)n, "finalize returns the to-size");
    CHECK(e.out_n == n, "exactly the to-size is written");
    for (size_t i = 0; i < n; i++) CHECK(e.out[i] == want[i], "every byte is decoded as encoded");
    WITNESS("decoded");
}
