/* Reference semantics of the detools patch format, written from the format
 * documentation and independent of the implementation's structure: whole
 * patch in memory, one byte at a time, no resumption. */
#ifndef REF_H
#define REF_H
#include "h.h"

#ifndef REF_MAX
#define REF_MAX 64              /* capacity of out[] */
#endif
#ifndef CRLE_LIM
#define CRLE_LIM 24             /* stated bound: longest CRLE run explored */
#endif

#ifndef REF_COMPS
#define REF_COMPS 0x15          /* compressions compiled in: none, CRLE, heatshrink */
#endif

enum { REF_OK = 0, REF_TRUNC = 1, REF_BAD = 2, REF_IO = 3, REF_EMPTY = 4,
       REF_TYPE = 5, REF_COMP = 6, REF_DF = 7, REF_OVERFLOW = 8, REF_KIND = 9, REF_HSHDR = 10 };

struct ref_src {                /* decompressed byte source */
    const uint8_t *p;
    size_t n;
    size_t off;
    int comp;
    /* crle */
    int kind;                   /* -1 idle, 0 scattered, 1 repeated */
    uint32_t left;
    uint8_t value;
    /* heatshrink */
    int hs_init;
    unsigned bits;              /* unread bits of cur */
    uint8_t cur;
    uint8_t win[256];
    unsigned head;
    unsigned back_left;
    unsigned back_off;
};

static void ref_src_init(struct ref_src *s, const uint8_t *p, size_t n, size_t off, int comp)
{
    memset(s, 0, sizeof(*s));
    s->p = p; s->n = n; s->off = off; s->comp = comp; s->kind = -1;
}

static int ref_raw(struct ref_src *s, uint8_t *b)
{
    if (s->off == s->n) return REF_TRUNC;
    *b = s->p[s->off++];
    return REF_OK;
}

static int ref_bits(struct ref_src *s, unsigned count, unsigned *out)
{
    unsigned v = 0;
    while (count--) {
        if (s->bits == 0) {
            int r = ref_raw(s, &s->cur);
            if (r) return r;
            s->bits = 8;
        }
        s->bits--;
        v = (v << 1) | ((s->cur >> s->bits) & 1u);
    }
    *out = v;
    return REF_OK;
}

static int ref_byte(struct ref_src *s, uint8_t *b)
{
    int r;
    unsigned v;

    switch (s->comp) {
    case 0:
        return ref_raw(s, b);
    case 2:
        while (s->left == 0) {
            uint8_t kind, x;
            uint32_t val = 0;
            unsigned shift = 0;
            if ((r = ref_raw(s, &kind))) return r;
            if (kind > 1) return REF_KIND;
            do {
                if ((r = ref_raw(s, &x))) return r;
                if (shift > 21) return REF_OVERFLOW;
                val |= (uint32_t)(x & 0x7f) << shift;
                shift += 7;
            } while (x & 0x80);
            ASSUME(val <= CRLE_LIM);
            if (kind == 1 && (r = ref_raw(s, &s->value))) return r;
            s->kind = kind;
            s->left = val;
        }
        if (s->kind == 0) {
            if ((r = ref_raw(s, b))) return r;
        } else {
            *b = s->value;
        }
        s->left--;
        return REF_OK;
    case 4:
        if (!s->hs_init) {
            uint8_t hdr;
            if ((r = ref_raw(s, &hdr))) return r;
            if (hdr != 0x44) return REF_HSHDR;      /* window 8, lookahead 7 */
            s->hs_init = 1;
        }
        if (s->back_left == 0) {
            if ((r = ref_bits(s, 1, &v))) return r;
            if (v) {
                if ((r = ref_bits(s, 8, &v))) return r;
                *b = (uint8_t)v;
                s->win[s->head++ & 255] = *b;
                return REF_OK;
            }
            if ((r = ref_bits(s, 8, &v))) return r;
            s->back_off = v + 1;
            if ((r = ref_bits(s, 7, &v))) return r;
            s->back_left = v + 1;
        }
        *b = s->win[(s->head - s->back_off) & 255];
        s->win[s->head++ & 255] = *b;
        s->back_left--;
        return REF_OK;
    default:
        return REF_COMP;
    }
}

/* Signed size: first byte has sign and 6 bits, then 7 bits each.  The
 * implementation's documented int range: at most four bytes. */
static int ref_size(struct ref_src *s, int32_t *v)
{
    uint8_t x;
    int r, neg;
    uint32_t val;
    unsigned shift = 6;

    if ((r = ref_byte(s, &x))) return r;
    neg = x & 0x40;
    val = x & 0x3f;
    while (x & 0x80) {
        if ((r = ref_byte(s, &x))) return r;
        if (shift > 20) return REF_OVERFLOW;
        val |= (uint32_t)(x & 0x7f) << shift;
        shift += 7;
    }
    *v = neg ? -(int32_t)val : (int32_t)val;
    return REF_OK;
}

/* Unsigned header size at *off. */
static int ref_hdr_size(const uint8_t *p, size_t n, size_t *off, uint32_t *v)
{
    unsigned shift = 6;
    uint8_t x;
    if (*off == n) return REF_TRUNC;
    x = p[(*off)++];
    *v = x & 0x3f;
    while (x & 0x80) {
        if (*off == n) return REF_TRUNC;
        x = p[(*off)++];
        if (shift > 20) return REF_OVERFLOW;
        *v |= (uint32_t)(x & 0x7f) << shift;
        shift += 7;
    }
    return REF_OK;
}

struct ref_res {
    int status;
    int comp;
    uint32_t to_size;
    size_t out_n;               /* bytes produced (also when it fails) */
    uint8_t out[REF_MAX];
    size_t used;                /* patch bytes consumed */
    int pending;                /* decoded but undelivered data at the end */
    size_t hdr;                 /* header length */
};

static void ref_seq(struct ref_res *r, const uint8_t *p, size_t n, const uint8_t *from, size_t nfrom)
{
    static struct ref_src s;
    int64_t fpos = 0;
    size_t off = 1;
    int32_t v;
    uint8_t b;

    memset(r, 0, sizeof(*r));
    if (n == 0) { r->status = REF_EMPTY; return; }
    r->comp = p[0] & 0xf;
    if (((p[0] >> 4) & 7) != 0) { r->status = REF_TYPE; return; }
    if ((r->status = ref_hdr_size(p, n, &off, &r->to_size))) { r->to_size = 0; return; }
    r->hdr = off;
    if (!((REF_COMPS >> r->comp) & 1)) { r->status = REF_COMP; return; }
    ref_src_init(&s, p, n, off, r->comp);
    if (r->to_size > 0) {
        if ((r->status = ref_size(&s, &v))) return;
        if (v > 0) { r->status = REF_DF; return; }
        do {
            for (int extra = 0; extra < 2; extra++) {
                if ((r->status = ref_size(&s, &v))) return;
                if (v < 0 || (uint32_t)v > r->to_size - r->out_n) { r->status = REF_BAD; return; }
                for (int32_t i = 0; i < v; i++) {
                    if ((r->status = ref_byte(&s, &b))) return;
                    if (!extra) {
                        if (fpos < 0 || fpos >= (int64_t)nfrom) { r->status = REF_IO; return; }
                        b = (uint8_t)(b + from[fpos++]);
                    }
                    if (r->out_n < REF_MAX) r->out[r->out_n] = b;
                    r->out_n++;
                }
            }
            if ((r->status = ref_size(&s, &v))) return;
            fpos += v;
        } while (r->out_n < r->to_size);
    }
    r->used = s.off;
    r->pending = s.comp == 4 ? s.back_left > 0 : s.left > 0;
    r->status = REF_OK;
}
#endif
