/* A recording environment for the public sequential API. */
#ifndef ENV_H
#define ENV_H
#include "h.h"
#include "detools.h"

#ifndef ENV_OUT
#define ENV_OUT 64
#endif
#ifndef ENV_FROM
#define ENV_FROM 8
#endif

struct env {
    uint8_t from[ENV_FROM];
    size_t from_n;
    int64_t pos;
    uint8_t out[ENV_OUT];
    size_t out_n;
    int calls;                  /* callbacks made */
    int fail_at;                /* call number that fails; -1: none */
    int fail_code;
    int failed;                 /* a callback has failed */
    int after_fail;             /* callbacks made after a failure */
};

static int env_tick(struct env *e)
{
    if (e->failed) e->after_fail++;
    if (e->calls++ == e->fail_at) { e->failed = 1; return e->fail_code; }
    return 0;
}
static int env_read(void *a, uint8_t *b, size_t n)
{
    struct env *e = a;
    int r = env_tick(e);
    if (r) return r;
    for (size_t i = 0; i < n; i++) {
        if (e->pos < 0 || e->pos >= (int64_t)e->from_n) { e->failed = 1; return -1; }
        b[i] = e->from[e->pos++];
    }
    return 0;
}
static int env_seek(void *a, int o)
{
    struct env *e = a;
    int r = env_tick(e);
    if (r) return r;
    e->pos += o;
    return 0;
}
static int env_write(void *a, const uint8_t *b, size_t n)
{
    struct env *e = a;
    int r = env_tick(e);
    if (r) return r;
    for (size_t i = 0; i < n; i++) {
        if (e->out_n < ENV_OUT) e->out[e->out_n] = b[i];
        e->out_n++;
    }
    return 0;
}
static void env_reset(struct env *e)
{
    e->pos = 0; e->out_n = 0; e->calls = 0; e->fail_at = -1; e->fail_code = -1; e->failed = 0; e->after_fail = 0;
}
/* The object holds no defined value before it is set up. */
static int ap_init(struct detools_apply_patch_t *p, detools_read_t fr, detools_seek_t fs, size_t n, detools_write_t tw, void *a)
{
    symx_poison(p, sizeof(*p));
    return detools_apply_patch_init(p, fr, fs, n, tw, a);
}
#endif
