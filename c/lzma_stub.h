/* A model of liblzma: a decoder that delivers the bytes of raw[] as it is
 * given, in order, the compressed bytes comp[0..compn).  When it consumes and
 * delivers within liblzma's contract is chosen by the solver.  As with liblzma
 * and streams of unknown size, the last bytes (the end marker needs at least
 * 26 bits) are consumed once all data is delivered, and as soon as they are
 * there. */
#ifndef LZMA_STUB_H
#define LZMA_STUB_H
#include <lzma.h>
#include "enc.h"

static const uint8_t *lz_comp;          /* compressed bytes it must be given */
static size_t lz_compn, lz_in, lz_out;
static int lz_shape;                    /* when output becomes available */
static int lz_eager;                    /* consumes all input although the output is full */
static int lz_poor, lz_fin;
static size_t lz_left;
static int lz_err_at = -1, lz_err, lz_calls, lz_live, lz_init_err;

#define LZ_MARK 3
static size_t lz_ready(void)
{
    size_t h = 3;                                       /* header */
    if (lz_in + LZ_MARK >= lz_compn) return rawn;
    if (lz_in < h) return 0;
    switch (lz_shape) {
    case 0: return 0;                                   /* everything at the end */
    case 1: { size_t r = (lz_in - h) * 2; return r < rawn ? r : rawn; }
    default: return rawn > 1 ? rawn - 1 : 0;            /* nearly everything at once */
    }
}
lzma_ret lzma_alone_decoder(lzma_stream *s, uint64_t lim)
{
    lz_fin = 0;
    lz_poor = lim < (UINT64_C(10) << 20);   /* the default preset needs this much */
    if (lim == 0) return LZMA_PROG_ERROR;
    if (lz_init_err) return (lzma_ret)lz_init_err;
    CHECK(s->next_in == NULL && s->avail_in == 0, "the decoder is initialised from a cleared stream");
    lz_live++;
    s->internal = (void *)&lz_live;
    lz_in = lz_out = 0;
    return LZMA_OK;
}
lzma_ret lzma_code(lzma_stream *s, lzma_action a)
{
    size_t in0 = s->avail_in, out0 = s->avail_out;
    /* the decoder of .lzma streams knows these two only, and after
     * LZMA_FINISH neither more input nor another action is accepted */
    if (a != LZMA_RUN && a != LZMA_FINISH) return LZMA_PROG_ERROR;
    if (lz_fin && (a != LZMA_FINISH || s->avail_in != lz_left)) return LZMA_PROG_ERROR;
    if (lz_poor && lz_in + s->avail_in > 3) return LZMA_MEMLIMIT_ERROR;
    CHECK(lz_live == 1, "only a live decoder is used");
    if (lz_calls++ == lz_err_at) return (lzma_ret)lz_err;
    while (1) {
        if (s->avail_out > 0 && lz_out < lz_ready()) {
            *s->next_out++ = raw[lz_out++];
            s->avail_out--;
        } else if (s->avail_in > 0 && lz_in < lz_compn
                   && (lz_out == rawn || (lz_in + LZ_MARK < lz_compn && (s->avail_out > 0 || lz_eager)))) {
            CHECK(*s->next_in == lz_comp[lz_in], "the decoder is given the patch bytes in order");
            lz_in++;
            s->next_in++;
            s->avail_in--;
        } else {
            break;
        }
    }
    lz_fin = a == LZMA_FINISH;
    lz_left = s->avail_in;
    if (lz_out == rawn && lz_in == lz_compn) return LZMA_STREAM_END;
    if (in0 == s->avail_in && out0 == s->avail_out) return LZMA_BUF_ERROR;
    return LZMA_OK;
}
void lzma_end(lzma_stream *s)
{
    if (s->internal) lz_live--;
    s->internal = NULL;
}
#endif
