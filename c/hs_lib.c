/* The bundled heatshrink decoder by itself: any compressed bytes, any window
 * and lookahead, any interleaving of sinking and polling give the decoded
 * bytes, and finishing tells whether anything is left. */
#include "h.h"
#include "heatshrink_decoder.h"
#ifndef NOPS
#define NOPS 3
#endif
#define CAP (4 * NOPS + 12)
#ifndef MAXL
#define MAXL 1000
#endif
static uint8_t comp[CAP], ref[NOPS * MAXL + 8];
static void put(unsigned v, unsigned count, size_t *bit)
{
    while (count--) {
        comp[*bit / 8] = (uint8_t)(comp[*bit / 8] | (((v >> count) & 1u) << (7 - *bit % 8)));
        ++*bit;
    }
}
#ifndef WL
#define WL {4, 3}, {5, 4}, {8, 7}
#endif
#ifndef OUTS
#define OUTS {1, 3}
#endif
#ifndef DISTS
#define DISTS {1, 2, 999}
#endif
#ifndef LENS
#define LENS {1, 2, 999}
#endif
#ifndef INS
#define INS {1, 2, 99}
#endif
static const int dists[] = DISTS, lens[] = LENS, ins[] = INS;
static const int wl[][2] = {WL};
static const int outs[] = OUTS;
#define PICK(t) (size_t)t[symx_concretize(in_lt(sizeof(t) / sizeof(t[0])))]
static uint8_t obuf[512];
void harness_body(void)
{
    int win, look;
    size_t rn = 0, on = 0, off = 0, bit = 0, n, in_step, out_step;
    int greedy, rounds = 0, rounds_max;
    heatshrink_decoder *d;

#if HEATSHRINK_DYNAMIC_ALLOC
    {
        int c = (int)symx_concretize(in_lt(sizeof(wl) / sizeof(wl[0])));
        win = wl[c][0]; look = wl[c][1];
    }
    d = heatshrink_decoder_alloc(INBUF, (uint8_t)win, (uint8_t)look);
    CHECK(d != NULL, "a decoder is set up");
#else
    static heatshrink_decoder sd;
    d = &sd;
    win = HEATSHRINK_STATIC_WINDOW_BITS; look = HEATSHRINK_STATIC_LOOKAHEAD_BITS;
    heatshrink_decoder_reset(d);
#endif
    /* any stream is complete operations followed by an incomplete one */
    memset(comp, 0, sizeof(comp));
    for (int o = 0; o < NOPS; o++) {
#ifdef KINDS
        static const size_t kinds[] = KINDS;
        size_t kind = kinds[o];
#else
        size_t kind = symx_concretize(in_lt(3));
#endif
        if (kind == 0) break;
        if (kind == 1) {
            uint8_t v = in_u8();
            put(1, 1, &bit); put(v, 8, &bit);
            ref[rn++] = v;
        } else {
            unsigned v = (unsigned)PICK(dists), l = (unsigned)PICK(lens);
            if (v > (1u << win)) v = 1u << win;
            if (l > (1u << look)) l = 1u << look;
            put(0, 1, &bit); put(v - 1, (unsigned)win, &bit); put(l - 1, (unsigned)look, &bit);
            for (unsigned i = 0; i < l; i++) { ref[rn] = rn >= v ? ref[rn - v] : 0; rn++; }
        }
    }
    {
        unsigned tag = (unsigned)symx_concretize(in_lt(2));
        unsigned max = tag ? 7 : (unsigned)(win + look - 1), have = (unsigned)((8 - bit % 8) % 8);
        uint8_t pad[2];
        IN(pad);
        if (symx_concretize(in_lt(2)) && have + 8 <= max + 1) have += 8;
        if (have) {
            put(tag, 1, &bit);
            put(pad[0], have - 1 < 8 ? have - 1 : 8, &bit);
            if (have - 1 > 8) put(pad[1], have - 9, &bit);
        }
    }
    n = (bit + 7) / 8;
    ASSUME(n > 0);
    rounds_max = (int)(9 * n + rn);
    in_step = PICK(ins);
    out_step = PICK(outs);
    greedy = (int)symx_concretize(in_lt(2));
    while (1) {
        size_t k = 0, want;
        HSD_poll_res pr;
        while (off < n) {                       /* sink one part, or as much as fits */
            HSD_sink_res sr;
            want = n - off < in_step ? n - off : in_step;
            sr = heatshrink_decoder_sink(d, &comp[off], want, &k);
            CHECK(k <= want, "no more is taken than offered");
            if (sr == HSDR_SINK_OK) CHECK(k > 0, "something is taken");
            else CHECK(sr == HSDR_SINK_FULL && k == 0, "or the input is full");
            off += k;
            if (!greedy || k == 0) break;
        }
        do {                                    /* poll once, or until empty */
            pr = heatshrink_decoder_poll(d, obuf, out_step, &k);
            CHECK(k <= out_step, "no more is delivered than there is room for");
            CHECK(pr == HSDR_POLL_EMPTY || pr == HSDR_POLL_MORE, "polling does not fail");
            CHECK(on + k <= rn, "no more is delivered than was encoded");
            for (size_t i = 0; i < k; i++) CHECK(obuf[i] == ref[on + i], "every byte is decoded as encoded");
            on += k;
        } while (pr == HSDR_POLL_MORE && (greedy || off == n));
        if (off == n && pr == HSDR_POLL_EMPTY) break;
        if (++rounds > rounds_max) break;
    }
    CHECK(rounds <= rounds_max, "decoding makes progress");
    CHECK(on == rn, "everything encoded is delivered");
    OBSERVE(on);
    {
        HSD_finish_res f = heatshrink_decoder_finish(d);
        CHECK(f == HSDR_FINISH_DONE || f == HSDR_FINISH_MORE, "finishing does not fail");
    }
#if HEATSHRINK_DYNAMIC_ALLOC
    heatshrink_decoder_free(d);
#endif
    WITNESS("decoded");
}
