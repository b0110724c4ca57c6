/* A small file system behind stdio: three named files, and any one call may
 * fail.  Used through the linker's --wrap natively. */
#ifndef VFS_H
#define VFS_H
#include "h.h"
#include <stdio.h>
#ifndef VCAP
#define VCAP 1200
#endif
struct vfile { const char *name; uint8_t b[VCAP]; size_t n; int exists; };
struct vhandle { struct vfile *f; long pos; int open, wr, closed; };
static struct vfile vf[3];
static struct vhandle vh[6];
static int vhn, v_calls, v_fail_at = -1, v_failed, v_after_modify;

static int v_tick(void) { int r = v_calls++ == v_fail_at; if (r) v_failed = 1; return r; }
static struct vhandle *v_get(FILE *p)
{
    struct vhandle *h = (struct vhandle *)(void *)p;
    CHECK(h >= vh && h < vh + vhn && h->open, "only open files are used");
    return h;
}
FILE *__wrap_fopen(const char *name, const char *mode)
{
    struct vhandle *h;
    if (v_tick()) return NULL;
    for (int i = 0; i < 3; i++) {
        CHECK(vf[i].name != NULL, "the environment is set up");
        if (strcmp(vf[i].name, name) != 0) continue;
        if (mode[0] == 'w') { vf[i].n = 0; vf[i].exists = 1; }
        if (!vf[i].exists) { v_failed = 1; return NULL; }
        CHECK(vhn < 6, "no more files are opened than needed");
        h = &vh[vhn++];
        h->f = &vf[i]; h->pos = 0; h->open = 1; h->closed = 0;
        h->wr = mode[0] == 'w' || (mode[1] != 0 && (mode[1] == '+' || mode[2] == '+'));
        return (FILE *)(void *)h;
    }
    v_failed = 1;
    return NULL;
}
int __wrap_fclose(FILE *p)
{
    struct vhandle *h = v_get(p);
    h->open = 0;
    h->closed++;
    return v_tick() ? EOF : 0;
}
size_t __wrap_fread(void *b, size_t size, size_t n, FILE *p)
{
    struct vhandle *h = v_get(p);
    size_t left = h->pos < (long)h->f->n ? h->f->n - (size_t)h->pos : 0, k;
    if (v_tick()) {                             /* an error after half of it */
        k = size * n < left ? (size * n) / 2 : left / 2;
        memset(b, 0x5a, k);
        h->pos += (long)k;
        return size ? k / size : 0;
    }
    k = size * n;
    if (k > left) { k = left; v_failed = 1; }
    memcpy(b, &h->f->b[h->pos], k);
    h->pos += (long)k;
    return size ? k / size : 0;
}
size_t __wrap_fwrite(const void *b, size_t size, size_t n, FILE *p)
{
    struct vhandle *h = v_get(p);
    size_t k = size * n;
    CHECK(h->wr, "only files opened for writing are written");
    if (v_tick()) {                             /* an error after half of it */
        k /= 2;
        if ((size_t)h->pos + k > VCAP) return 0;
        memcpy(&h->f->b[h->pos], b, k);
        h->pos += (long)k;
        if ((size_t)h->pos > h->f->n) h->f->n = (size_t)h->pos;
        return size ? k / size : 0;
    }
    if ((size_t)h->pos + k > VCAP) { v_failed = 1; return 0; }
    memcpy(&h->f->b[h->pos], b, k);
    h->pos += (long)k;
    if ((size_t)h->pos > h->f->n) h->f->n = (size_t)h->pos;
    return n;
}
int __wrap_fseek(FILE *p, long off, int whence)
{
    struct vhandle *h = v_get(p);
    long to = whence == SEEK_SET ? off : whence == SEEK_CUR ? h->pos + off : (long)h->f->n + off;
    if (v_tick()) return -1;
    if (to < 0) { v_failed = 1; return -1; }
    h->pos = to;
    return 0;
}
long __wrap_ftell(FILE *p)
{
    struct vhandle *h = v_get(p);
    if (v_tick()) return -1;
    return h->pos;
}
static void v_reset(const char *a, const char *b, const char *c)
{
    vhn = v_calls = v_failed = 0; v_fail_at = -1;
    memset(vh, 0, sizeof(vh));
    vf[0].name = a; vf[1].name = b; vf[2].name = c;
    for (int i = 0; i < 3; i++) { vf[i].n = 0; vf[i].exists = 0; }
}
static void v_closed(void)
{
    for (int i = 0; i < vhn; i++) CHECK(vh[i].closed == 1, "every opened file is closed once");
}
#endif
