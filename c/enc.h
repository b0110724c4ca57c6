/* Reference encoder: builds patches from chosen sizes and symbolic data. */
#ifndef ENC_H
#define ENC_H
#include "h.h"

#ifndef RAWCAP
#define RAWCAP 1024
#endif

static uint8_t raw[RAWCAP];     /* uncompressed stream following the header */
static size_t rawn;
static uint8_t pbuf[2 * RAWCAP + 64];
static size_t pn;

static size_t enc_min = 1;      /* sizes are padded to at least this many bytes */

static void raw_put(uint8_t b) { raw[rawn++] = b; }

static size_t put_size(uint8_t *p, int64_t v)
{
    size_t n = 0;
    uint8_t s = 0;
    if (v < 0) { s = 0x40; v = -v; }
    p[n++] = (uint8_t)(s | (v & 0x3f));
    v >>= 6;
    while (v > 0) { p[n - 1] |= 0x80; p[n++] = (uint8_t)(v & 0x7f); v >>= 7; }
    while (n < enc_min) { p[n - 1] |= 0x80; p[n++] = 0; }
    return n;
}
static size_t put_usize(uint8_t *p, uint64_t v)
{
    size_t n = 0;
    p[n++] = (uint8_t)(v & 0x7f);
    v >>= 7;
    while (v > 0) { p[n - 1] |= 0x80; p[n++] = (uint8_t)(v & 0x7f); v >>= 7; }
    while (n < enc_min) { p[n - 1] |= 0x80; p[n++] = 0; }
    return n;
}
static void raw_size(int64_t v) { rawn += put_size(&raw[rawn], v); }
static void raw_syms(size_t n) { if (n) symx_bytes(&raw[rawn], n); rawn += n; }

static void p_put(uint8_t b) { pbuf[pn++] = b; }
static void p_size(int64_t v) { pn += put_size(&pbuf[pn], v); }

/* None. */
static void enc_none(void)
{
    memcpy(&pbuf[pn], raw, rawn);
    pn += rawn;
}

/* CRLE: the stretches rep[i] = {start, length} become repeated segments (the
 * caller has put equal bytes there), the rest scattered segments of at most
 * maxs bytes. */
struct stretch { size_t start; size_t len; };

static void enc_crle(const struct stretch *rep, int nrep, size_t maxs)
{
    size_t i = 0;
    int r = 0;
    while (i < rawn) {
        while (r < nrep && rep[r].len == 0) r++;
        if (r < nrep && i == rep[r].start) {
            p_put(1);
            pn += put_usize(&pbuf[pn], rep[r].len);
            p_put(raw[i]);
            i += rep[r].len;
            r++;
        } else {
            size_t end = r < nrep ? rep[r].start : rawn;
            size_t len = end - i < maxs ? end - i : maxs;
            p_put(0);
            pn += put_usize(&pbuf[pn], len);
            memcpy(&pbuf[pn], &raw[i], len);
            pn += len;
            i += len;
        }
    }
}

/* Heatshrink, window 8, lookahead 7: the stretches ref[i] become back
 * references with the given distance (the caller has put a copy there), the
 * rest literals. */
struct backref { size_t start; size_t len; size_t dist; };

static unsigned hs_bits;
static void hs_put(unsigned v, unsigned count)
{
    while (count--) {
        unsigned bit = (v >> count) & 1u;
        if (hs_bits == 0) p_put(0);
        pbuf[pn - 1] = (uint8_t)(pbuf[pn - 1] | (bit << (7 - hs_bits)));
        hs_bits = (hs_bits + 1) & 7;
    }
}
static void enc_hs(const struct backref *ref, int nref)
{
    size_t i = 0;
    int r = 0;
    p_put(0x44);
    hs_bits = 0;
    while (i < rawn) {
        while (r < nref && ref[r].len == 0) r++;
        if (r < nref && i == ref[r].start) {
            hs_put(0, 1);
            hs_put((unsigned)ref[r].dist - 1, 8);
            hs_put((unsigned)ref[r].len - 1, 7);
            i += ref[r].len;
            r++;
        } else {
            hs_put(1, 1);
            hs_put(raw[i], 8);
            i++;
        }
    }
}
#endif
