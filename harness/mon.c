#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
/* Allocation monitor: every object allocation and release that crosses a module boundary is
 * routed through these wrappers by the linker (--wrap), so the counts are taken at the heap's
 * interface, not inside it. */
#include "rfh.h"
extern raw_p __real_heap_alloc(i64_t size);
extern raw_p __real_heap_realloc(raw_p p, i64_t size);
extern nil_t __real_heap_free(raw_p p);
#include <malloc.h>
static long long nalloc, nfree, nbytes, npeak;
static void up(long long n) {
    long long v = __atomic_add_fetch(&nbytes, n, __ATOMIC_RELAXED);
    if (v > __atomic_load_n(&npeak, __ATOMIC_RELAXED))
        __atomic_store_n(&npeak, v, __ATOMIC_RELAXED);
}
#ifdef SYS_MALLOC
static long long sz(void *p) { return p ? (long long)malloc_usable_size(p) : 0; }
#else
static long long sz(void *p) { (void)p; return 0; }
#endif
raw_p __wrap_heap_alloc(i64_t size) {
    raw_p p = __real_heap_alloc(size);
    if (p) {
        __atomic_fetch_add(&nalloc, 1, __ATOMIC_RELAXED);
        up(sz(p));
    }
    return p;
}
nil_t __wrap_heap_free(raw_p p) {
    if (p != NULL && p != (raw_p)NULL_OBJ) {
        __atomic_fetch_add(&nfree, 1, __ATOMIC_RELAXED);
        __atomic_fetch_sub(&nbytes, sz(p), __ATOMIC_RELAXED);
    }
    __real_heap_free(p);
}
raw_p __wrap_heap_realloc(raw_p p, i64_t size) {
    raw_p q;
    if (p) __atomic_fetch_sub(&nbytes, sz(p), __ATOMIC_RELAXED);
    else __atomic_fetch_add(&nalloc, 1, __ATOMIC_RELAXED);
    q = __real_heap_realloc(p, size);
    up(sz(q));
    return q;
}
long long mon_live_blocks(void) { return nalloc - nfree; }
long long mon_live_bytes(void) { return nbytes; }
void mon_peak_reset(void) { npeak = nbytes; }
long long mon_peak(void) { return npeak; }
long long mon_allocs(void) { return nalloc; }
long long mon_frees(void) { return nfree; }
void *__real_realloc_libc(void *p, size_t n) { return realloc(p, n); }
/* Parallel runs, by the place that starts them. */

#include <dlfcn.h>
obj_p __real_pool_run(pool_p p);
nil_t __real_pool_map(i64_t n, pool_map_fn fn, void *ctx);
#define SITES 256
static struct { void *at; long long runs, tasks; } site[SITES];
static void count(void *at, long long tasks) {
    int i;
    for (i = 0; i < SITES - 1 && site[i].at && site[i].at != at; i++)
        ;
    site[i].at = at;
    site[i].runs++;
    site[i].tasks += tasks;
}
obj_p __wrap_pool_run(pool_p p) {
    if (p->executors_count > 1)
        count(__builtin_return_address(0), p->tasks_count);
    return __real_pool_run(p);
}
nil_t __wrap_pool_map(i64_t n, pool_map_fn fn, void *ctx) {
    if (pool_split_by(pool_get(), n, 0) > 1)
        count(__builtin_return_address(0), pool_split_by(pool_get(), n, 0));
    __real_pool_map(n, fn, ctx);
}
void mon_sites(FILE *f) {
    int i;
    Dl_info d;
    fputs("{\"sites\":[", f);
    for (i = 0; i < SITES && site[i].at; i++)
        fprintf(f, "%s[\"%llx\",%lld,%lld]", i ? "," : "", dladdr(site[i].at, &d) ? (unsigned long long)((char *)site[i].at - (char *)d.dli_fbase) : 0ULL, site[i].runs, site[i].tasks);
    fputs("]}\n", f);
}
