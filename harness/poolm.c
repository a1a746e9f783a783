/* poolm: monitors the worker pool.
 *   poolm run <seed> <cores> <runs> <mode>      every task run exactly once, with its own arguments, result at its position
 *   poolm map <seed> <cores> <runs>             pool_map covers [0,len) exactly once
 *   poolm stop <seed> <cores> <runs>            some runs, then the runtime is destroyed: must end
 * Calls of the pthread primitives made by the pool get random delays (linked with --wrap). */
#include "rfh.h"
#include <pthread.h>
#include <sched.h>
#include <time.h>

typedef unsigned long long u64;
static u64 mix(u64 x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}
static u64 seed;
static __thread u64 rs;
static u64 rnd(void) {
    if (!rs) {
        struct timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        rs = mix(seed ^ (u64)pthread_self() ^ (u64)t.tv_nsec) | 1;
    }
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return rs * 0x2545F4914F6CDD1DULL;
}
static u64 below(u64 n) { return (rnd() >> 11) % n; }
static int bad;
#define BAD(c, ...) do { if (__atomic_fetch_add(&bad, 1, __ATOMIC_RELAXED) < 20) { printf("BAD %s ", c); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)
static int lag;           /* 0: none, else chance in 1000 of a delay */
#define LAG __atomic_load_n(&lag, __ATOMIC_RELAXED)
#define SETLAG(v) __atomic_store_n(&lag, (int)(v), __ATOMIC_RELAXED)
#define GET(v) __atomic_load_n(&(v), __ATOMIC_RELAXED)
static u64 n_lag, n_wait, n_signal, n_lock;
static void delay(void) {
    int l = LAG;
    if (!l || below(1000) >= (u64)l)
        return;
    __atomic_fetch_add(&n_lag, 1, __ATOMIC_RELAXED);
    switch (below(4)) {
        case 0: sched_yield(); break;
        case 1: usleep(1 + below(30)); break;
        case 2: usleep(1 + below(400)); break;
        default: for (volatile u64 i = below(4000); i; i--) ; break;
    }
}
int __real_pthread_mutex_lock(pthread_mutex_t *m);
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __real_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m);
int __real_pthread_cond_signal(pthread_cond_t *c);
int __real_pthread_cond_broadcast(pthread_cond_t *c);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { __atomic_fetch_add(&n_lock, 1, __ATOMIC_RELAXED); delay(); int r = __real_pthread_mutex_lock(m); delay(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); delay(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    __atomic_fetch_add(&n_wait, 1, __ATOMIC_RELAXED);
    delay();
    if (LAG && below(40) == 0) {      /* a spurious wake-up, as POSIX allows */
        __real_pthread_mutex_unlock(m);
        sched_yield();
        return __real_pthread_mutex_lock(m);
    }
    int r = __real_pthread_cond_wait(c, m);
    delay();
    return r;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { __atomic_fetch_add(&n_signal, 1, __ATOMIC_RELAXED); delay(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { __atomic_fetch_add(&n_signal, 1, __ATOMIC_RELAXED); delay(); return __real_pthread_cond_broadcast(c); }

/* ---- tasks: argument j of task id in run r is tok(r,id,j); the first one names the task */
#define MAXT 40000
static unsigned char ran[MAXT];       /* atomically counted */
static long long inflight, total, by_thread[64], runs_on;
static u64 cur_run, how;
static u64 tok(u64 run, u64 id, u64 j) { return j == 0 ? (run << 32 | id) : mix(run * 1000003 + id * 8 + j); }
static obj_p result(u64 run, u64 id) {
    switch (how == 9 ? mix(run * 77 + id) % 7 : how) {
        case 0: return NULL_OBJ;
        case 1: return i64((i64_t)(run * 1000000 + id));
        case 2: { obj_p v = I64(3); AS_I64(v)[0] = run; AS_I64(v)[1] = id; AS_I64(v)[2] = 7; return v; }
        case 3: return vn_list(2, i64(run), i64(id));
        case 4: return f64((double)id + 0.5);
        case 5: { char b[64]; int n = snprintf(b, sizeof b, "%llu/%llu", run, id); return string_from_str(b, n); }
        default: { char b[64]; int n = snprintf(b, sizeof b, "s%llu", id % 1000); i64_t s = symbols_intern(b, n); return symboli64(s); }
    }
}
static int same(obj_p a, obj_p b) {
    if (a == NULL_OBJ || b == NULL_OBJ)
        return a == b;
    if (!a || !b || a->type != b->type)
        return 0;
    return cmp_obj(a, b) == 0;
}
static obj_p body(raw_p *a, int n) {
    u64 run = (u64)a[0] >> 32, id = (u64)a[0] & 0xffffffffu;
    __atomic_fetch_add(&inflight, 1, __ATOMIC_ACQ_REL);
    if (run != cur_run || id >= MAXT)
        BAD("arguments", "a task got %llx in run %llu", (u64)a[0], cur_run);
    else {
        __atomic_fetch_add(&ran[id], 1, __ATOMIC_RELAXED);
        for (int j = 1; j < n; j++)
            if ((u64)a[j] != tok(run, id, j))
                BAD("arguments", "run %llu task %llu of %d arguments got a wrong argument %d", run, id, n, j);
        if (n != (int)(1 + mix(run * 131 + id) % 8))
            BAD("arguments", "run %llu task %llu was called with %d arguments", run, id, n);
    }
    __atomic_fetch_add(&total, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&by_thread[VM->id & 63], 1, __ATOMIC_RELAXED);
    delay();
    obj_p r = result(run, id);
    __atomic_fetch_sub(&inflight, 1, __ATOMIC_ACQ_REL);
    return r;
}
static obj_p t1(raw_p a) { raw_p v[] = {a}; return body(v, 1); }
static obj_p t2(raw_p a, raw_p b) { raw_p v[] = {a, b}; return body(v, 2); }
static obj_p t3(raw_p a, raw_p b, raw_p c) { raw_p v[] = {a, b, c}; return body(v, 3); }
static obj_p t4(raw_p a, raw_p b, raw_p c, raw_p d) { raw_p v[] = {a, b, c, d}; return body(v, 4); }
static obj_p t5(raw_p a, raw_p b, raw_p c, raw_p d, raw_p e) { raw_p v[] = {a, b, c, d, e}; return body(v, 5); }
static obj_p t6(raw_p a, raw_p b, raw_p c, raw_p d, raw_p e, raw_p f) { raw_p v[] = {a, b, c, d, e, f}; return body(v, 6); }
static obj_p t7(raw_p a, raw_p b, raw_p c, raw_p d, raw_p e, raw_p f, raw_p g) { raw_p v[] = {a, b, c, d, e, f, g}; return body(v, 7); }
static obj_p t8(raw_p a, raw_p b, raw_p c, raw_p d, raw_p e, raw_p f, raw_p g, raw_p h) { raw_p v[] = {a, b, c, d, e, f, g, h}; return body(v, 8); }
static long long n0;
static obj_p t0(void) { __atomic_fetch_add(&n0, 1, __ATOMIC_RELAXED); delay(); return i64(-5); }
static obj_p tfail(raw_p a) {
    __atomic_fetch_add(&total, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add(&ran[(u64)a & 0xffffffffu], 1, __ATOMIC_RELAXED);
    delay();
    return ((u64)a & 1) ? err_user("boom") : i64((i64_t)((u64)a & 0xffffffffu));
}
static raw_p fns[] = {t0, t1, t2, t3, t4, t5, t6, t7, t8};

static u64 pick_count(u64 cores) {
    switch (below(14)) {
        case 0: return 1;
        case 1: return cores;
        case 2: return cores > 1 ? cores - 1 : 1;
        case 3: return cores + 1;
        case 4: return 2046 + below(5);          /* around the initial capacity of the queues */
        case 5: return 4093 + below(8);
        case 6: return 2049 + below(9000);
        case 7: return below(4) ? 1 + below(100) : 30000 + below(9000);
        case 8: return 0;
        default: return 1 + below(200);
    }
}
static long long n_grown, n_errors, n_zero, n_idle;
static void one_run(pool_p p, u64 r, u64 cores, int mode) {
    u64 n = pick_count(cores);
    cur_run = r;
    how = below(10);
    SETLAG(mode == 0 ? 0 : below(3) == 0 ? 0 : n > 500 ? 2 : (int)(1 + below(300)));
    memset(ran, 0, n);
    __atomic_store_n(&n0, 0, __ATOMIC_RELAXED);
    int kind = (int)below(12);           /* 0: argument-less tasks, 1: some fail, others: the rest */
    u64 before = total;
    if (below(6) == 0)
        usleep(below(600));
    pool_prepare(p);
    for (u64 i = 0; i < n; i++) {
        raw_p a[8];
        for (int j = 0; j < 8; j++)
            a[j] = (raw_p)tok(r, i, j);
        int k = 1 + mix(r * 131 + i) % 8;
        if (kind == 0)
            pool_add_task(p, fns[0], 0);
        else if (kind == 1)
            pool_add_task(p, tfail, 1, (raw_p)i);
        else
            switch (k) {
                case 1: pool_add_task(p, fns[1], 1, a[0]); break;
                case 2: pool_add_task(p, fns[2], 2, a[0], a[1]); break;
                case 3: pool_add_task(p, fns[3], 3, a[0], a[1], a[2]); break;
                case 4: pool_add_task(p, fns[4], 4, a[0], a[1], a[2], a[3]); break;
                case 5: pool_add_task(p, fns[5], 5, a[0], a[1], a[2], a[3], a[4]); break;
                case 6: pool_add_task(p, fns[6], 6, a[0], a[1], a[2], a[3], a[4], a[5]); break;
                case 7: pool_add_task(p, fns[7], 7, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
                default: pool_add_task(p, fns[8], 8, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
            }
        if (n < 300)
            delay();
    }
    obj_p v = pool_run(p);
    SETLAG(0);
    if (__atomic_load_n(&inflight, __ATOMIC_ACQUIRE))
        BAD("early", "run %llu of %llu tasks returned while %lld of its tasks were running", r, n, inflight);
    if (VM->rc_sync)
        BAD("state", "reference counts are still synchronised after run %llu", r);
    if (n > 2048) n_grown++;
    if (n == 0) n_zero++;
    if (kind == 0) {
        if (n0 != (long long)n)
            BAD("count", "run %llu: %lld executions of %llu tasks", r, n0, n);
        total += n;
    } else {
        for (u64 i = 0; i < n; i++)
            if (ran[i] != 1)
                BAD("count", "run %llu of %llu tasks: task %llu ran %d times", r, n, i, ran[i]);
    }
    if (kind == 1 && n > 1) {
        n_errors++;
        if (v->type != TYPE_ERR)
            BAD("error", "run %llu: a task failed, the result has type %d", r, v->type);
    } else if (v->type != TYPE_LIST || v->len != (i64_t)n)
        BAD("result", "run %llu of %llu tasks: the result has type %d and length %lld", r, n, v->type, (long long)v->len);
    else
        for (u64 i = 0; i < n; i++) {
            obj_p w = kind == 0 ? i64(-5) : kind == 1 ? i64((i64_t)i) : result(r, i);
            if (!same(AS_LIST(v)[i], w))
                BAD("result", "run %llu of %llu tasks: position %llu holds another result (kind %d)", r, n, i, kind);
            drop_obj(w);
        }
    drop_obj(v);
    (void)before;
}
/* ---- pool_map */
static unsigned char *cover;
static void *mctx = &cover;
static long long chunks;
static obj_p mapf(i64_t len, i64_t off, void *ctx) {
    if (ctx != mctx)
        BAD("arguments", "pool_map passed another context");
    __atomic_fetch_add(&chunks, 1, __ATOMIC_RELAXED);
    for (i64_t i = 0; i < len; i++)
        __atomic_fetch_add(&cover[off + i], 1, __ATOMIC_RELAXED);
    delay();
    return NULL_OBJ;
}
int main(int argc, char **argv) {
    char *av[] = {"poolm", "-c", argv[3], NULL};
    seed = strtoull(argv[2], 0, 10) * 1000003 + 17;
    u64 cores = strtoull(argv[3], 0, 10), runs = strtoull(argv[4], 0, 10);
    int mode = argc > 5 ? atoi(argv[5]) : 1, stop = !strcmp(argv[1], "stop");
    setvbuf(stdout, NULL, _IOLBF, 0);
    rs = mix(seed) | 1;
    if (stop)
        SETLAG(1 + below(400));            /* during start-up as well */
    if (runtime_create(3, av) == NULL)
        return 96;
    SETLAG(0);
    pool_p p = runtime_get()->pool;
    if (p == NULL)
        return 95;
    if (!strcmp(argv[1], "map")) {
        u64 items = 0;
        for (u64 r = 0; r < runs && bad < 20; r++) {
            static const i64_t edge[] = {0, 1, 2, 7, 8, 9, 16383, 16384, 16385, 16390, 20000, 32768, 65537};
            i64_t n = below(2) ? edge[below(sizeof edge / sizeof *edge)] : (i64_t)below(100000);
            cover = calloc(n + 1, 1);
            SETLAG(below(400));
            pool_map(n, mapf, mctx);
            SETLAG(0);
            for (i64_t i = 0; i < n; i++)
                if (cover[i] != 1) {
                    BAD("cover", "pool_map over %lld: element %lld visited %d times", (long long)n, (long long)i, cover[i]);
                    break;
                }
            if (cover[n])
                BAD("cover", "pool_map over %lld went beyond the end", (long long)n);
            items += n;
            free(cover);
        }
        printf("{\"maps\":%llu,\"elements\":%llu,\"chunks\":%lld,\"delays\":%llu}\n", runs, items, GET(chunks), GET(n_lag));
        return bad ? 1 : 0;
    }
    for (u64 r = 1; r <= runs && bad < 20; r++)
        one_run(p, r, cores, stop ? 1 : mode);
    int threads = 0;
    for (int i = 0; i < 64; i++)
        threads += by_thread[i] > 0;
    printf("{\"runs\":%llu,\"tasks\":%lld,\"threads_seen\":%d,\"grown\":%lld,\"failing_runs\":%lld,\"empty_runs\":%lld,\"delays\":%llu,\"waits\":%llu,\"signals\":%llu,\"locks\":%llu}\n",
           runs, total, threads, n_grown, n_errors, n_zero, GET(n_lag), GET(n_wait), GET(n_signal), GET(n_lock));
    fflush(stdout);
    if (stop) {
        SETLAG(1 + below(500));
        if (below(2))
            usleep(below(300));
        runtime_destroy();
        printf("STOPPED\n");
    }
    fflush(stdout);
    return bad ? 1 : 0;
}
