/* Heatshrink streams of chosen literals and back references with symbolic
 * literals: the decoded data is what the references describe, with a window
 * of zeros before the first byte. */
#ifndef ENV_OUT
#define ENV_OUT 900
#endif
#include "enc.h"
#include "env.h"
#ifndef LENS
#define LENS {1, 2, 127, 128}
#endif
#ifndef DISTS
#define DISTS {1, 2, 128, 255, 256}
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef CHS
#define CHS {1, 5000}
#endif
#ifndef FILL
#define FILL {0, 130, 256}
#endif
static const int lens[] = LENS, dists[] = DISTS, chs[] = CHS, fills[] = FILL;
#define PICK(t) t[symx_concretize(in_lt(sizeof(t) / sizeof(t[0])))]
static struct detools_apply_patch_t ap;
static struct env e;
static uint8_t dec[ENV_OUT + 32];
static size_t dn;

static void lit(uint8_t v) { hs_put(1, 1); hs_put(v, 8); dec[dn++] = v; }
static void ref(int dist, int len)
{
    hs_put(0, 1); hs_put((unsigned)dist - 1, 8); hs_put((unsigned)len - 1, 7);
    for (int i = 0; i < len; i++) { dec[dn] = dn >= (size_t)dist ? dec[dn - (size_t)dist] : 0; dn++; }
}

void harness_body(void)
{
    static uint8_t sz[16];
    struct { int lit, n, d; } op[NOPS];
    size_t n = 0, ch, off, hn, fill;
    int res = 0, fin;

    env_reset(&e);
    pn = 0; dn = 0; hs_bits = 0;
    fill = (size_t)PICK(fills);
    n = fill;
    for (int k = 0; k < NOPS; k++) {
        op[k].lit = (int)symx_concretize(in_lt(2));
        if (op[k].lit) { op[k].n = 1 + 2 * (int)symx_concretize(in_lt(2)); op[k].d = 0; }
        else { op[k].n = PICK(lens); op[k].d = PICK(dists); }
        n += (size_t)op[k].n;
    }
    p_put(4);
    p_size((int64_t)n);
    p_put(0x44);
    sz[0] = 0; sz[1] = 0;
    hn = 2 + put_size(&sz[2], (int64_t)n);
    for (size_t i = 0; i < hn; i++) lit(sz[i]);
    if (fill) {                                 /* something to refer to, wrapping the window */
        lit(in_u8()); lit(in_u8()); lit(in_u8());
        for (off = 3; off < fill; off += (size_t)fin) {
            fin = fill - off < 100 ? (int)(fill - off) : 100;
            ref(3, fin);
        }
    }
    for (int k = 0; k < NOPS; k++) {
        if (op[k].lit) for (int i = 0; i < op[k].n; i++) lit(in_u8());
        else ref(op[k].d, op[k].n);
    }
    lit(0);                                     /* adjustment */
    ch = (size_t)PICK(chs);
    CHECK(ap_init(&ap, env_read, env_seek, pn, env_write, &e) == 0, "init succeeds");
    for (off = 0; off < pn && res == 0; off += ch)
        res = detools_apply_patch_process(&ap, &pbuf[off], pn - off < ch ? pn - off : ch);
    CHECK(res == 0, "each part is accepted");
    fin = detools_apply_patch_finalize(&ap);
    OBSERVE(fin); OBSERVE(e.calls);
    CHECK(fin == (int)n, "finalize returns the to-size");
    CHECK(e.out_n == n, "exactly the to-size is written");
    for (size_t i = 0; i < n; i++) CHECK(e.out[i] == dec[hn + i], "every byte is decoded as encoded");
    WITNESS("decoded");
}
