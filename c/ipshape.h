/* A well-formed in-place patch of chosen shape with symbolic data, as the
 * creation side makes them: one sequence of segments per to-segment, reading
 * the shifted from-data that is still there. */
#ifndef IPSHAPE_H
#define IPSHAPE_H
#include "enc.h"
#include "ipenv.h"
#ifndef COMP
#define COMP 0
#endif
/* memory, segment, shift, from, to */
#ifndef CFGS
#define CFGS {24, 4, 4, 7, 9}, {20, 4, 8, 9, 8}, {12, 4, 4, 12, 10}, {8, 8, 8, 0, 3}, {40, 4, 16, 8, 5}
#endif
#ifndef NPAT
#define NPAT 5
#endif
#ifndef NSEG
#define NSEG 3                          /* to-segments with a chosen pattern; the others use pattern 0 or 1 */
#endif
#ifndef SYMCAP
#define SYMCAP 1000000                  /* so many bytes are free, the others fixed */
#endif
static const int cfgs[][5] = {CFGS};
static int msize, ssize, shsize, fsize, tosize;
static uint8_t from[IP_MEM], want[IP_MEM];
static struct backref iprefs[4];
static struct stretch ipreps[4];

/* free bytes; of long stretches the ends only */
static size_t ip_nsym;
static void ip_syms(uint8_t *p, size_t n)
{
    if (n <= 2000 && (ip_nsym += n) > SYMCAP) {
        for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(ip_nsym * 5 + i);
    } else if (n > 2000) {
        for (size_t i = 0; i < n; i++) p[i] = (uint8_t)(i * 7 + (i >> 8));
        symx_bytes(p, 2);
        symx_bytes(p + n - 2, 2);
    } else if (n) symx_bytes(p, n);
}
static void ip_raw(size_t n) { ip_syms(&raw[rawn], n); rawn += n; }

/* one diff + extra + adjustment */
static void pair(int d, int x, int adj, int *pos, int *w)
{
    raw_size(d);
    ip_raw((size_t)d);
    for (int i = 0; i < d; i++)
        want[(*w)++] = (uint8_t)(raw[rawn - (size_t)d + (size_t)i] + from[*pos - shsize + i]);
    *pos += d;
    raw_size(x);
    ip_raw((size_t)x);
    for (int i = 0; i < x; i++) want[(*w)++] = raw[rawn - (size_t)x + (size_t)i];
    raw_size(adj);
    *pos += adj;
}

static void ip_build(void)
{
    const int *c = cfgs[symx_concretize(in_lt(sizeof(cfgs) / sizeof(cfgs[0])))];
    int avail, w = 0;

    msize = c[0]; ssize = c[1]; shsize = c[2]; fsize = c[3]; tosize = c[4];
    ip_nsym = 0;
    ip_reset(&ip);
    ip.size = (size_t)msize;
    ip_syms(from, (size_t)fsize);
    memcpy(ip.mem, from, (size_t)fsize);
    avail = fsize < msize - shsize ? fsize : msize - shsize;
#ifdef PADS
    { static const int pads[] = PADS; enc_min = (size_t)pads[symx_concretize(in_lt(sizeof(pads) / sizeof(pads[0])))]; }
#endif
    rawn = pn = 0;
    for (int s = 0; s * ssize < tosize; s++) {
        int n = tosize - s * ssize < ssize ? tosize - s * ssize : ssize;
        int pos = (s + 1) * ssize > shsize ? (s + 1) * ssize : shsize;
        int left = shsize + avail - pos;        /* from-data that is still there */
        int pat = s < NSEG ? (int)symx_concretize(in_lt(NPAT)) : (s & 1);
        if (left < 0) left = 0;
        raw_size(0);
        switch (pat) {
        case 0: {                               /* all diff, as far as there is data */
            int d = n < left ? n : left;
            pair(d, n - d, 0, &pos, &w);
            break;
        }
        case 1:                                 /* all extra, then a move that does not matter */
            pair(0, n, -5, &pos, &w);
            break;
        case 2: {                               /* two pairs, moving forward */
            int a = n / 2 < left ? n / 2 : left;
            int m = left - a > 0 ? 1 : 0;
            int b = n - a < left - a - m ? n - a : left - a - m;
            pair(a, 0, m, &pos, &w);
            pair(b, n - a - b, 3, &pos, &w);
            break;
        }
        case 3: {                               /* two pairs, moving back */
            int a = n / 2 < left ? n / 2 : left;
            int b = n - a - 1 < left ? n - a - 1 : left;
            if (n - a - 1 <= 0) { pair(a, n - a, 0, &pos, &w); break; }
            pair(a, 1, -a, &pos, &w);
            pair(b, n - a - 1 - b, 0, &pos, &w);
            break;
        }
        default: {                              /* an empty pair first */
            int m = left / 2;
            int d = n < left - m ? n : left - m;
            pair(0, 0, m, &pos, &w);
            pair(d, n - d, 64, &pos, &w);
            break;
        }
        }
    }
    p_put(0x10 | COMP);
    p_size(msize); p_size(ssize); p_size(shsize); p_size(fsize); p_size(tosize);
#if COMP == 0
    enc_none();
#elif COMP == 2
    enc_crle(ipreps, 0, 5);
#else
    enc_hs(iprefs, 0);
#endif
}
#endif
