/* A recording memory for the in-place API, with NOR flash rules: an erased byte
 * has no defined content, and only an erased byte may be written.  The memory
 * and the stored step survive a crash; after the crash point every callback
 * fails and does nothing. */
#ifndef IPENV_H
#define IPENV_H
#include "h.h"
#include "detools.h"

#ifndef IP_MEM
#define IP_MEM 64
#endif

struct ipenv {
    uint8_t mem[IP_MEM];
    uint8_t erased[IP_MEM];
    size_t size;                /* usable memory */
    int step;
    int have_steps;
    int ops;                    /* modifying operations (erase, write, step set) so far */
    int after;                  /* steps stored before operations count */
    int crash_at;               /* the modifying operation that does not complete; -1: none */
    int torn;                   /* how the interrupted operation is cut: 0 before, 1 torn, 2 complete */
    int dead;
    int calls;                  /* all callbacks */
    int fail_at, fail_code, failed, after_fail;
    int bad_reads;              /* reads outside the memory, refused */
    int nerase, nwrite, nset, cleared;
};
static struct ipenv ip;

static int ip_tick(struct ipenv *e)
{
    if (e->failed) e->after_fail++;
    if (e->calls++ == e->fail_at) { e->failed = 1; return e->fail_code; }
    return e->dead ? -1 : 0;
}
static int ip_in(struct ipenv *e, uintptr_t a, size_t n) { return n <= e->size && a <= e->size - n; }

static int ip_read(void *arg, void *dst, uintptr_t a, size_t n)
{
    struct ipenv *e = arg;
    int r = ip_tick(e);
    if (r) return r;
    if (!ip_in(e, a, n)) { e->bad_reads++; e->failed = 1; return -1; }
    a = symx_concretize(a); n = symx_concretize(n);
    memcpy(dst, &e->mem[a], n);
    return 0;
}
static int ip_op(struct ipenv *e)   /* 0: perform, 1: torn, 2: not at all */
{
    if (e->nset >= e->after && e->ops++ == e->crash_at) { e->dead = 1; return e->torn == 0 ? 2 : e->torn == 1 ? 1 : 3; }
    return 0;
}
static int ip_write(void *arg, uintptr_t a, void *src, size_t n)
{
    struct ipenv *e = arg;
    const uint8_t *s = src;
    int r = ip_tick(e), o;
    if (r) return r;
    CHECK(n > 0 && ip_in(e, a, n), "writes stay inside the memory");
    a = symx_concretize(a); n = symx_concretize(n);
    for (size_t i = 0; i < n; i++) CHECK(e->erased[a + i], "only erased memory is written");
    o = ip_op(e);
    if (o == 2) return -1;
    e->nwrite++;
    for (size_t i = 0; i < n; i++) e->erased[a + i] = 0;
    if (o == 1) symx_poison(&e->mem[a], n); else memcpy(&e->mem[a], s, n);
    return o ? -1 : 0;
}
static int ip_erase(void *arg, uintptr_t a, size_t n)
{
    struct ipenv *e = arg;
    int r = ip_tick(e), o;
    if (r) return r;
    CHECK(n > 0 && ip_in(e, a, n), "erases stay inside the memory");
    a = symx_concretize(a); n = symx_concretize(n);
    o = ip_op(e);
    if (o == 2) return -1;
    e->nerase++;
    symx_poison(&e->mem[a], n);
    for (size_t i = 0; i < n; i++) e->erased[a + i] = o != 1;
    return o ? -1 : 0;
}
static int ip_step_set(void *arg, int s)
{
    struct ipenv *e = arg;
    int r = ip_tick(e), o;
    if (r) return r;
    o = ip_op(e);
    if (o == 2 || o == 1) return -1;        /* storing the step is atomic */
    e->nset++;
    e->step = s;
    if (s == 0) e->cleared = 1;                 /* all steps done */
    return o ? -1 : 0;
}
static int ip_step_get(void *arg, int *s)
{
    struct ipenv *e = arg;
    int r = ip_tick(e);
    if (r) return r;
    *s = e->step;
    return 0;
}
static void ip_reset(struct ipenv *e)
{
    memset(e, 0, sizeof(*e));
    e->crash_at = e->fail_at = -1;
    e->have_steps = 1;
}
static int ip_init(struct detools_apply_patch_in_place_t *p, struct ipenv *e, size_t n)
{
    symx_poison(p, sizeof(*p));                 /* no defined value before it is set up */
    return detools_apply_patch_in_place_init(p, ip_read, ip_write, ip_erase, e->have_steps ? ip_step_set : NULL,
                                             e->have_steps ? ip_step_get : NULL, n, e);
}
#endif
