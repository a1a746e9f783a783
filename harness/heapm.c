/* heapm: monitors the allocator under histories of calls from several heaps.
 *   heapm sim <seed> <ops> <heaps> <maxlog2> <cycles>    one thread plays all the interpreter's threads, runs and merges included
 *   heapm thr <seed> <cores> <runs> <tasks> <ops>        the real worker pool; blocks change hands between tasks
 * A shadow of every live block (address, size, pattern) is kept; prints "BAD <class> ..." per violation (first 20) and one
 * JSON line of what was observed. */
#include "rfh.h"
#include "core/mmap.h"
#include "core/eval.h"

typedef unsigned long long u64;
static __thread u64 rs;
static u64 rnd(void) {
    rs ^= rs << 13;
    rs ^= rs >> 7;
    rs ^= rs << 17;
    return rs * 0x2545F4914F6CDD1DULL;
}
static u64 below(u64 n) { return (rnd() >> 11) % n; }
static int bad;
#define BAD(c, ...) do { if (__atomic_fetch_add(&bad, 1, __ATOMIC_RELAXED) < 20) { printf("BAD %s ", c); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)

typedef struct { char *p; u64 n, tag; int heap; } blk;

static u64 pat(u64 tag, u64 off) { return (tag * 0x9E3779B97F4A7C15ULL) ^ (off * 0xC2B2AE3D27D4EB4FULL); }
/* visits the offsets of a block that carry the pattern: all words of the first and last 4K, one per page between */
#define EACH(n, off, body) do { u64 off; \
    for (off = 0; off + 8 <= (n) && off < 4096; off += 8) { body; } \
    for (off = 8192; off + 8192 <= (n); off += 4096) { body; } \
    for (off = (n) > 8192 ? (((n) - 4096) & ~7ULL) : 4096; off + 8 <= (n); off += 8) { body; } } while (0)
static void fill(blk *b) {
    EACH(b->n, o, (*(u64 *)(b->p + o) = pat(b->tag, o)));
    for (u64 o = b->n & ~7ULL; o < b->n; o++)
        b->p[o] = (char)(b->tag + o);
}
static void check(blk *b, u64 n, const char *when) {
    EACH(b->n, o, if (o + 8 <= n && *(u64 *)(b->p + o) != pat(b->tag, o)) { BAD("content", "%s: block %p of %llu bytes (heap %d) damaged at %llu: %016llx", when, b->p, b->n, b->heap, o, *(u64 *)(b->p + o)); return; });
    if (n == b->n)
        for (u64 o = b->n & ~7ULL; o < b->n; o++)
            if (b->p[o] != (char)(b->tag + o)) {
                BAD("content", "%s: block %p of %llu bytes (heap %d) damaged at its end", when, b->p, b->n, b->heap);
                return;
            }
}
static u64 pick_size(int maxlog) {
    int k = (int)below(100), lg;
    if (k < 55) lg = 1 + (int)below(9);
    else if (k < 85) lg = 1 + (int)below(14);
    else if (k < 97) lg = 1 + (int)below(maxlog > 21 ? 21 : maxlog);
    else lg = 1 + (int)below(maxlog);
    u64 n = (1ULL << lg);
    switch (below(4)) {
        case 0: return n;                               /* powers of two and their neighbours */
        case 1: return n - 16 > 0 && n > 16 ? n - 16 : 1; /* exactly fills a block with its header */
        case 2: return n > 16 ? n - 15 : n;
        default: return 1 + below(n);
    }
}

/* ---- one thread, every heap */
#define MAXB 6000
static blk live[MAXB];
static int nlive;
static u64 tags, n_alloc, n_free, n_realloc, n_foreign, n_phase, n_null, n_grow, n_shrink, n_bytes;
/* addresses of live blocks, ordered */
static int ord[MAXB];
static int find(char *p) {          /* first position whose address is above p */
    int a = 0, b = nlive;
    while (a < b) {
        int m = (a + b) / 2;
        if (live[ord[m]].p > p) b = m; else a = m + 1;
    }
    return a;
}
static void add(char *p, u64 n, int h, const char *how) {
    int k = find(p), i = nlive;
    if ((u64)p % 16)
        BAD("alignment", "%s of %llu bytes gave %p", how, n, p);
    if (k > 0 && live[ord[k - 1]].p + live[ord[k - 1]].n > p)
        BAD("overlap", "%s of %llu bytes in heap %d gave %p inside the live block %p of %llu bytes (heap %d)", how, n, h, p, live[ord[k - 1]].p, live[ord[k - 1]].n, live[ord[k - 1]].heap);
    if (k < nlive && live[ord[k]].p < p + n)
        BAD("overlap", "%s of %llu bytes in heap %d gave %p reaching into the live block %p of %llu bytes (heap %d)", how, n, h, p, live[ord[k]].p, live[ord[k]].n, live[ord[k]].heap);
    live[i] = (blk){p, n, ++tags, h};
    memmove(ord + k + 1, ord + k, (nlive - k) * sizeof(int));
    ord[k] = i;
    nlive++;
    fill(&live[i]);
    n_bytes += n;
}
static void del(int i) {
    int k = find(live[i].p) - 1, l = nlive - 1, kl;
    n_bytes -= live[i].n;
    if (i != l)
        kl = find(live[l].p) - 1;
    memmove(ord + k, ord + k + 1, (nlive - 1 - k) * sizeof(int));
    nlive--;
    if (i != l) {
        if (kl > k)
            kl--;
        live[i] = live[l];
        ord[kl] = i;
    }
}
static u64 vsz(void) {
    u64 a = 0;
    FILE *f = fopen("/proc/self/statm", "r");
    if (f) {
        if (fscanf(f, "%llu", &a) != 1)
            a = 0;
        fclose(f);
    }
    return a * 4096;
}
static heap_p hs[64];
static u64 cap_live;
static void op(int h, int maxlog) {
    int k = (int)below(100);
    VM->heap = hs[h];
    if (nlive > 0 && (k < 45 || nlive >= MAXB - 2 || n_bytes > cap_live)) {
        int i = (int)below(nlive);
        if (below(3) == 0 && nlive > 8)
            i = nlive - 1 - (int)below(8);      /* often something recent */
        check(&live[i], live[i].n, "at free");
        if (live[i].heap != h)
            n_foreign++;
        char *p = live[i].p;
        del(i);
        heap_free(p);
        n_free++;
    } else if (nlive > 0 && k < 57) {
        int i = (int)below(nlive);
        u64 n = below(3) ? pick_size(maxlog) : live[i].n / (1 + below(8)) + below(64) + 1, m = n < live[i].n ? n : live[i].n;
        blk b = live[i];
        check(&b, b.n, "at realloc");
        del(i);
        char *p = heap_realloc(b.p, n);
        n_realloc++;
        *(n > b.n ? &n_grow : &n_shrink) += 1;
        if (p == NULL) {
            n_null++;
            return;
        }
        check(&(blk){p, b.n, b.tag, h}, m & ~7ULL, "after realloc");
        add(p, n, h, "realloc");
    } else {
        u64 n = pick_size(maxlog);
        char *p = heap_alloc(n);
        n_alloc++;
        if (p == NULL) {
            n_null++;
            return;
        }
        add(p, n, h, "alloc");
    }
}
#ifndef SYS_MALLOC
static u64 free_bytes(heap_p h, u64 *nblk) {
    u64 t = 0, guard = 0;
    for (int i = MIN_BLOCK_ORDER; i <= MAX_POOL_ORDER; i++)
        for (block_p b = h->freelist[i]; b; b = b->next) {
            t += 1ULL << i;
            (*nblk)++;
            if (++guard > 50000000) {
                BAD("freelist", "endless free list of order %d", i);
                return t;
            }
        }
    for (int i = 0; i < SLAB_ORDERS; i++)
        for (int j = 0; j < h->slabs[i].count; j++)
            t += 1ULL << h->slabs[i].stack[j]->order;
    for (block_p b = h->foreign_blocks; b; b = b->next)
        t += 1ULL << b->order;
    return t;
}
#else
static u64 free_bytes(heap_p h, u64 *nblk) { return 0; }
#endif
static int sim(int argc, char **argv) {
    u64 seed = strtoull(argv[2], 0, 10), ops = strtoull(argv[3], 0, 10), base, peak1 = 0, peak2 = 0;
    int n = atoi(argv[4]), maxlog = atoi(argv[5]), cycles = atoi(argv[6]);
    rs = seed * 7919 + 12345;
    for (int i = 0; i < 20; i++) rnd();
    hs[0] = VM->heap;
    long long m0 = hs[0]->memstat.heap;
    for (int i = 1; i < n; i++)
        hs[i] = heap_create(i);
    cap_live = 64ULL << 20;
    /* what the interpreter itself holds */
    u64 nb = 0, own = (u64)m0 - free_bytes(hs[0], &nb);
    (void)own;
    base = vsz();
    for (int c = 0; c < cycles && bad < 20; c++) {
        u64 left = ops / cycles;
        int lim = 50 + (int)below(MAXB - 100);
        u64 s = rs;
        rs = seed * 31 + c % 3;           /* the same few histories again and again: memory must not grow */
        rnd();
        (void)s; (void)lim;
        while (left > 0 && bad < 20) {
            u64 k = 1 + below(400);
            if (k > left)
                k = left;
            left -= k;
            if (n > 1 && below(3)) {      /* a run */
                VM->heap = hs[0];
                VM->rc_sync = 1;
                for (int i = 1; i < n; i++)
                    heap_borrow(hs[i]);
                int some = 1 + (int)below(n);
                while (k--)
                    op((int)below(some), maxlog);
                VM->heap = hs[0];
                for (int i = 1; i < n; i++)
                    heap_merge(hs[i]);
                VM->rc_sync = 0;
                heap_reclaim();
                n_phase++;
            } else {
                while (k--)
                    op(0, maxlog);
                VM->heap = hs[0];
                if (below(10) == 0)
                    heap_gc();
            }
        }
        VM->heap = hs[0];
        u64 v = vsz() - base;
        if (c < cycles / 2) { if (v > peak1) peak1 = v; } else if (v > peak2) peak2 = v;
        while (nlive) {
            int i = (int)below(nlive);
            check(&live[i], live[i].n, "at the end");
            char *p = live[i].p;
            del(i);
            heap_free(p);
            n_free++;
        }
        if (c == 0)
            m0 = 0;
        heap_gc();
    }
    /* free memory of the heaps, besides what the interpreter holds */
    u64 f = 0;
    long long pools = 0;
    nb = 0;
    for (int i = 0; i < n; i++) {
        f += free_bytes(hs[i], &nb);
        pools += hs[i]->memstat.heap;
    }
#ifndef SYS_MALLOC
    if (f + own != (u64)pools)
        BAD("lost", "all blocks are free: the heaps can hand out %llu bytes, the interpreter holds %llu, the pools have %lld", f, own, pools);
#endif
    if (peak2 > peak1 * 5 / 4 + (128ULL << 20))
        BAD("growth", "repeating the same histories the process grew from %llu to %llu bytes", peak1, peak2);
    printf("{\"alloc\":%llu,\"free\":%llu,\"realloc\":%llu,\"grow\":%llu,\"shrink\":%llu,\"foreign_frees\":%llu,\"runs\":%llu,\"refused\":%llu,\"peak_first\":%llu,\"peak_second\":%llu}\n",
           n_alloc, n_free, n_realloc, n_grow, n_shrink, n_foreign, n_phase, n_null, peak1, peak2);
    return bad ? 1 : 0;
}

/* ---- the real pool */
#define SLOTS 512
static blk *slot[SLOTS];
static u64 t_alloc, t_free, t_swap, t_cross, t_ran;
static u64 t_ops, t_seed;
static obj_p task(raw_p a, raw_p b) {
    u64 id = (u64)a, save = rs;
    enum { K = 48 };
    blk *mine[K] = {0};
    u64 al = 0, fr = 0, sw = 0, cr = 0;
    int me = (int)VM->id;
    rs = t_seed + id * 1000003 + 77;
    rnd();
    for (u64 i = 0; i < t_ops; i++) {
        int j = (int)below(K);
        if (mine[j] == NULL) {
            u64 n = pick_size(22);
            blk *x = heap_alloc(sizeof(blk));
            char *p = heap_alloc(n);
            if (!x || !p)
                continue;
            *x = (blk){p, n, (id << 32) + i + 1, me};
            fill(x);
            mine[j] = x;
            al += 2;
        } else if (below(3) == 0) {
            /* hand it over, take what another left */
            int s = (int)below(SLOTS);
            mine[j] = __atomic_exchange_n(&slot[s], mine[j], __ATOMIC_ACQ_REL);
            sw++;
        } else if (below(4) == 0) {
            u64 n = pick_size(18), m = n < mine[j]->n ? n : mine[j]->n;
            check(mine[j], mine[j]->n, "task at realloc");
            char *p = heap_realloc(mine[j]->p, n);
            if (p == NULL) { mine[j] = NULL; continue; }
            check(&(blk){p, mine[j]->n, mine[j]->tag, me}, m & ~7ULL, "task after realloc");
            *mine[j] = (blk){p, n, mine[j]->tag + 1, me};
            fill(mine[j]);
        } else {
            check(mine[j], mine[j]->n, "task at free");
            cr += mine[j]->heap != me;
            heap_free(mine[j]->p);
            heap_free(mine[j]);
            mine[j] = NULL;
            fr += 2;
        }
    }
    for (int j = 0; j < K; j++)
        if (mine[j]) {
            check(mine[j], mine[j]->n, "task at its end");
            if (below(2)) {
                mine[j] = __atomic_exchange_n(&slot[below(SLOTS)], mine[j], __ATOMIC_ACQ_REL);
                sw++;
            }
            if (mine[j]) {
                cr += mine[j]->heap != me;
                heap_free(mine[j]->p);
                heap_free(mine[j]);
                fr += 2;
            }
        }
    rs = save;
    __atomic_fetch_add(&t_alloc, al, __ATOMIC_RELAXED);
    __atomic_fetch_add(&t_free, fr, __ATOMIC_RELAXED);
    __atomic_fetch_add(&t_swap, sw, __ATOMIC_RELAXED);
    __atomic_fetch_add(&t_cross, cr, __ATOMIC_RELAXED);
    __atomic_fetch_add(&t_ran, 1, __ATOMIC_RELAXED);
    (void)b;
    return i64((i64_t)id);
}
static int cmpb(const void *a, const void *b) {
    char *x = (*(blk **)a)->p, *y = (*(blk **)b)->p;
    return x < y ? -1 : x > y;
}
static int thr(int argc, char **argv) {
    u64 seed = strtoull(argv[2], 0, 10), runs = strtoull(argv[4], 0, 10), tasks = strtoull(argv[5], 0, 10), between = 0, peak1 = 0, peak2 = 0, base;
    pool_p pool = runtime_get()->pool;
    t_ops = strtoull(argv[6], 0, 10);
    t_seed = seed * 1000;
    rs = seed * 7919 + 5;
    rnd();
    int n = pool ? (int)pool->executors_count : 1;
    hs[0] = VM->heap;
    for (int i = 1; i < n; i++)
        hs[i] = pool->executors[i].heap;
    u64 nb = 0, own = (u64)hs[0]->memstat.heap - free_bytes(hs[0], &nb);
    base = vsz();
    for (u64 r = 0; r < runs && bad < 20; r++) {
        if (pool) {
            pool_prepare(pool);
            for (u64 i = 0; i < tasks; i++)
                pool_add_task(pool, (raw_p)task, 2, (raw_p)(r * tasks + i), NULL);
            obj_p v = pool_run(pool);
            for (u64 i = 0; i < tasks; i++)
                if (v->type != TYPE_I64 && v->type != TYPE_LIST)
                    BAD("result", "run %llu gave type %d", r, v->type);
            drop_obj(v);
        } else
            for (u64 i = 0; i < tasks; i++)
                drop_obj(task((raw_p)(r * tasks + i), NULL));
        /* what the tasks left must be disjoint */
        static blk *all[SLOTS];
        int k = 0;
        for (int i = 0; i < SLOTS; i++)
            if (slot[i])
                all[k++] = slot[i];
        qsort(all, k, sizeof *all, cmpb);
        for (int i = 1; i < k; i++)
            if (all[i - 1]->p + all[i - 1]->n > all[i]->p)
                BAD("overlap", "after run %llu: live blocks %p of %llu bytes and %p", r, all[i - 1]->p, all[i - 1]->n, all[i]->p);
        u64 v = vsz() - base;
        if (r < runs / 2) { if (v > peak1) peak1 = v; } else if (v > peak2) peak2 = v;
        /* the main thread goes on with them between the runs */
        for (int i = 0; i < SLOTS; i++)
            if (slot[i] && below(r % 5 == 4 ? 1 : 3) == 0) {
                check(slot[i], slot[i]->n, "between runs");
                heap_free(slot[i]->p);
                heap_free(slot[i]);
                slot[i] = NULL;
                between++;
            } else if (slot[i] == NULL && below(4) == 0) {
                u64 sz = pick_size(20);
                blk *x = heap_alloc(sizeof(blk));
                *x = (blk){heap_alloc(sz), sz, seed * 131 + r * 997 + i, 0};
                fill(x);
                slot[i] = x;
            }
        if (below(4) == 0)
            heap_gc();
    }
    for (int i = 0; i < SLOTS; i++)
        if (slot[i]) {
            check(slot[i], slot[i]->n, "at the end");
            heap_free(slot[i]->p);
            heap_free(slot[i]);
        }
    heap_gc();
#ifndef SYS_MALLOC
    u64 f = 0;
    long long pools = 0;
    for (int i = 0; i < n; i++) {
        f += free_bytes(hs[i], &nb);
        pools += hs[i]->memstat.heap;
    }
    /* results and queues of the pool may stay with the interpreter */
    if (!bad && (f + own != (u64)pools))
        BAD("lost", "all blocks are free: the heaps can hand out %llu bytes, the interpreter held %llu, the pools have %lld", f, own, pools);
#endif
    if (peak2 > peak1 * 3 / 2 + (256ULL << 20))
        BAD("growth", "repeating runs the process grew from %llu to %llu bytes", peak1, peak2);
    printf("{\"alloc\":%llu,\"free\":%llu,\"handed_over\":%llu,\"foreign_frees\":%llu,\"tasks\":%llu,\"freed_between\":%llu,\"peak_first\":%llu,\"peak_second\":%llu}\n", t_alloc, t_free, t_swap, t_cross, t_ran, between, peak1, peak2);
    if (t_ran != runs * tasks && !bad)
        BAD("tasks", "%llu of %llu tasks ran", t_ran, runs * tasks);
    return bad ? 1 : 0;
}
int main(int argc, char **argv) {
    char *av[] = {"heapm", "-c", strcmp(argv[1], "thr") ? "1" : argv[3], NULL};
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (runtime_create(3, av) == NULL)
        return 96;
    if (!strcmp(argv[1], "sim"))
        return sim(argc, argv);
    return thr(argc, argv);
}
