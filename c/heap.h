/* Counts allocations of the code under check and lets any of them fail. */
#ifndef HEAP_H
#define HEAP_H
#include "h.h"
static int heap_live, heap_calls, heap_fail_at = -1, heap_failed;
void *__real_malloc(size_t n);
void __real_free(void *p);
void *__wrap_malloc(size_t n)
{
    void *p;
    if (heap_calls++ == heap_fail_at) { heap_failed = 1; return NULL; }
    p = __real_malloc(n);
    heap_live++;
    return p;
}
void __wrap_free(void *p)
{
    if (p) heap_live--;
    __real_free(p);
}
#endif
