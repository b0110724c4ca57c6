/* Patches holding any uncompressed stream of RAWN bytes, in a compression
 * frame of a chosen form: no framing, literals only (heatshrink), or CRLE
 * segments whose kinds and lengths are picked from a table. */
#ifndef RAWPATCH_H
#define RAWPATCH_H
#include "enc.h"
#ifndef RAWN
#define RAWN 7
#endif
#ifndef SEGS                    /* CRLE: repeated stretches {start, length} */
#define SEGS {0, 0}, {RAWN - 3, 3}, {1, 2}
#endif
#ifndef MAXSEG
#define MAXSEG {150, 2}
#endif
static const struct stretch segs[] = {SEGS};
static const int maxseg[] = MAXSEG;

static void raw_patch(int comp, uint8_t to)
{
    rawn = pn = 0;
    p_put((uint8_t)comp);
    p_put(to);
    if (comp == 0) {
        raw_syms(RAWN);
        enc_none();
    } else if (comp == 4) {
        raw_syms(RAWN);
        enc_hs(NULL, 0);
    } else {
        struct stretch s = segs[symx_concretize(in_lt(sizeof(segs) / sizeof(segs[0])))];
        size_t m = (size_t)maxseg[symx_concretize(in_lt(sizeof(maxseg) / sizeof(maxseg[0])))];
        raw_syms(s.start);
        if (s.len) {
            uint8_t v = in_u8();
            for (size_t i = 0; i < s.len; i++) raw_put(v);
        }
        raw_syms(RAWN - rawn);
        enc_crle(&s, 1, m);
    }
}
#endif
