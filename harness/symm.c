/* symm: monitors symbol interning.
 *   symm seq <seed> <strings>                     one thread: id <-> text over a growing set of all kinds of strings
 *   symm thr <seed> <cores> <rounds> <strings>    pool tasks intern overlapping sets at the same time
 *   symm many <seed> <cores> <count>              very many distinct names, interned by all threads
 */
#include "rfh.h"
#include "core/string.h"
#include <sched.h>

typedef unsigned long long u64;
static u64 mix(u64 x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}
static __thread u64 rs;
static u64 rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static u64 below(u64 n) { return (rnd() >> 11) % n; }
static int bad;
#define BAD(c, ...) do { if (__atomic_fetch_add(&bad, 1, __ATOMIC_RELAXED) < 20) { printf("BAD %s ", c); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)

/* the universe: string i is deterministic */
typedef struct { char *s; u64 n; i64_t id; const char *at; } ent;
static ent *U;
static u64 nU;
static char *gen(u64 *np) {
    u64 n, k = below(20);
    if (k < 8) n = 1 + below(12);
    else if (k < 13) n = 1 + below(64);
    else if (k < 16) n = 100 + below(600);
    else if (k < 17) n = 4096 - 40 + below(80);
    else if (k < 18 && below(40) == 0) n = 10000 + below(300000);
    else n = 1 + below(8);
    char *s = malloc(n + 1);
    int style = (int)below(5);
    for (u64 i = 0; i < n; i++)
        switch (style) {
            case 0: s[i] = 'a' + below(26); break;
            case 1: s[i] = (char)below(256); break;       /* any byte, NUL included */
            case 2: s[i] = "ab"[below(2)]; break;
            case 3: s[i] = (char)(0x80 + below(64)); break;
            default: s[i] = "0123456789.- /\"'"[below(16)];
        }
    s[n] = 0;
    *np = n;
    return s;
}
/* relatives of an earlier string: prefixes, extensions, one byte changed, same bytes reordered */
static char *vary(ent *e, u64 *np) {
    u64 n = e->n, k = below(6);
    char *s = malloc(n + 10);
    memcpy(s, e->s, n);
    switch (k) {
        case 0: if (n > 1) n--; break;
        case 1: s[n++] = (char)below(256); break;
        case 2: s[n++] = 0; break;
        case 3: s[below(n)] ^= (char)(1 << below(8)); break;
        case 4: s[n - 1] ^= (char)(1 << below(8)); break;
        default: { u64 a = below(n), b = below(n); char t = s[a]; s[a] = s[b]; s[b] = t; }
    }
    s[n] = 0;
    *np = n;
    return s;
}
/* names that share a bucket of the table */
static u64 collide(u64 want) {
    symbols_p y = runtime_get()->symbols;
    u64 size = (u64)y->size, N = size, got = 0;
    unsigned char *cnt = calloc(size, 1);
    for (u64 i = 0; i < N; i++) {
        char b[32];
        int n = snprintf(b, sizeof b, "k%llu", i);
        cnt[str_hash(b, n) % size]++;
    }
    int lim = 9;
    for (; lim > 2; lim--) {
        u64 c = 0;
        for (u64 i = 0; i < size; i++) c += cnt[i] >= lim ? cnt[i] : 0;
        if (c >= want) break;
    }
    for (u64 i = 0; i < N && got < want; i++) {
        char b[32];
        int n = snprintf(b, sizeof b, "k%llu", i);
        if (cnt[str_hash(b, n) % size] >= lim) {
            U[nU].s = memcpy(malloc(n + 1), b, n + 1);
            U[nU++].n = n;
            got++;
        }
    }
    free(cnt);
    return got;
}
static int cmpent(const void *a, const void *b) {
    const ent *x = *(ent **)a, *y = *(ent **)b;
    if (x->n != y->n) return x->n < y->n ? -1 : 1;
    return memcmp(x->s, y->s, x->n);
}
static int cmpid(const void *a, const void *b) {
    i64_t x = (*(ent **)a)->id, y = (*(ent **)b)->id;
    return x < y ? -1 : x > y;
}
static void show(ent *e, const char *cls, const char *what) {
    char b[200];
    u64 k = 0;
    for (u64 i = 0; i < e->n && k < 150; i++)
        k += snprintf(b + k, sizeof b - k, e->s[i] > 32 && e->s[i] < 127 ? "%c" : "\\%02x", (unsigned char)e->s[i]);
    BAD(cls, "%s: \"%s\" (%llu bytes) id %lld", what, b, e->n, (long long)e->id);
}
static u64 n_text;
static void text(ent *e, i64_t id, const char *when) {
    const char *p = str_from_symbol(id);
    __atomic_fetch_add(&n_text, 1, __ATOMIC_RELAXED);
    if ((u64)symbol_strlen(id) != e->n || memcmp(p, e->s, e->n) || p[e->n] != 0)
        show(e, "text", when);
}
/* after all: equal strings equal ids, different strings different ids, texts in place */
static void final(void) {
    ent **p = malloc((nU + 1) * sizeof *p);
    u64 n = 0, m;
    for (u64 i = 0; i < nU; i++)
        if (U[i].id != NULL_I64)
            p[n++] = &U[i];
    qsort(p, n, sizeof *p, cmpent);
    m = 0;
    for (u64 i = 0; i < n; i++)
        if (i && cmpent(&p[i], &p[i - 1]) == 0) {
            if (p[i]->id != p[m - 1]->id)
                show(p[i], "split", "two ids for one string");
        } else
            p[m++] = p[i];
    qsort(p, m, sizeof *p, cmpid);
    for (u64 i = 1; i < m; i++)
        if (p[i]->id == p[i - 1]->id) {
            show(p[i - 1], "merge", "one id for two strings");
            show(p[i], "merge", "one id for two strings");
        }
    for (u64 i = 0; i < m; i++) {
        text(p[i], p[i]->id, "at the end");
        i64_t again = symbols_intern(p[i]->s, p[i]->n);
        if (again != p[i]->id)
            show(p[i], "split", "another id at the end");
    }
    printf("{\"strings\":%llu,\"distinct\":%llu,\"texts\":%llu,\"count\":%lld}\n", n, m, n_text, (long long)symbols_count(runtime_get()->symbols));
    free(p);
}
static int *order;
static i64_t *seen;            /* [task][string] */
static u64 t_round, t_n, t_tasks;
static int ready;
static obj_p task(raw_p a, raw_p b) {
    u64 id = (u64)a, spin = 0;
    u64 save = rs;
    rs = mix(t_round * 1000 + id + 5) | 1;
    __atomic_fetch_add(&ready, 1, __ATOMIC_ACQ_REL);
    while (__atomic_load_n(&ready, __ATOMIC_ACQUIRE) < (int)t_tasks && spin++ < 20000)
        sched_yield();
    u64 start = below(8) ? 0 : below(t_n), step = below(3) ? 1 : 7919;
    for (u64 i = 0; i < t_n; i++) {
        u64 j = (start + i * step) % t_n;
        ent *e = &U[order[j]];
        char stack[512], *q = e->n < sizeof stack ? memcpy(stack, e->s, e->n) : e->s;   /* from a buffer of its own, not terminated */
        i64_t s = symbols_intern(q, e->n);
        seen[id * t_n + j] = s;
        if (s == NULL_I64)
            show(e, "refused", "no symbol");
        else
            text(e, s, "in a task");
        if (below(64) == 0)
            sched_yield();
    }
    rs = save;
    (void)b;
    return NULL_OBJ;
}
static obj_p bulk(raw_p a, raw_p b) {
    for (u64 i = (u64)a; i < (u64)b; i++) {
        char s[40];
        int n = snprintf(s, sizeof s, "sym%llx_%llu", mix(i) & 0xffff, i);
        U[i].id = symbols_intern(s, n);
    }
    return NULL_OBJ;
}
int main(int argc, char **argv) {
    int par = strcmp(argv[1], "seq");
    char *av[] = {"symm", "-c", par ? argv[3] : "1", NULL};
    setvbuf(stdout, NULL, _IOLBF, 0);
    if (runtime_create(3, av) == NULL)
        return 96;
    u64 seed = strtoull(argv[2], 0, 10);
    rs = mix(seed + 99) | 1;
    pool_p p = runtime_get()->pool;
    if (!strcmp(argv[1], "seq")) {
        u64 n = strtoull(argv[3], 0, 10), k;
        U = calloc(n + 2000, sizeof *U);
        collide(600);
        for (u64 i = 0; i < nU; i++)
            U[i].id = NULL_I64;
        k = nU;
        /* what the interpreter knew before */
        for (u64 i = nU; i < n + k; i++) {
            ent *e = &U[i];
            e->s = i > k + 10 && below(3) == 0 ? vary(&U[below(i)], &e->n) : gen(&e->n);
            e->id = NULL_I64;
        }
        nU = n + k;
        order = malloc(nU * sizeof *order);
        for (u64 i = 0; i < nU; i++) order[i] = i;
        for (u64 i = nU - 1; i > 0; i--) { u64 j = below(i + 1); int t = order[i]; order[i] = order[j]; order[j] = t; }
        for (u64 i = 0; i < nU && bad < 20; i++) {
            ent *e = &U[order[i]];
            e->id = symbols_intern(e->s, e->n);
            if (e->id == NULL_I64) { show(e, "refused", "no symbol"); continue; }
            text(e, e->id, "just interned");
            e->at = str_from_symbol(e->id);
            if (i && below(2)) {
                ent *f = &U[order[below(i)]];
                if (f->id != NULL_I64) {
                    text(f, f->id, "later");
                    char *c = memcpy(malloc(f->n), f->s, f->n);     /* exact size: reading beyond it is an error */
                    if (symbols_intern(c, f->n) != f->id)
                        show(f, "split", "another id later");
                    free(c);
                }
            }
        }
        if (symbols_intern("", 0) != NULL_I64)
            BAD("empty", "the empty name is not null");
        final();
    } else if (!strcmp(argv[1], "thr")) {
        u64 cores = strtoull(argv[3], 0, 10), rounds = strtoull(argv[4], 0, 10), per = strtoull(argv[5], 0, 10);
        U = calloc(rounds * per + 8000, sizeof *U);
        collide(2000);
        u64 nc = nU, usedc = 0;
        for (u64 r = 0; r < rounds && bad < 20; r++) {
            u64 first = nU;
            order = malloc((per + 300) * sizeof *order);
            u64 no = 0;
            for (u64 i = 0; i < 200 && usedc < nc; i++)
                order[no++] = usedc++;
            while (no < per) {
                ent *e = &U[nU];
                e->s = nU > first + 10 && below(3) == 0 ? vary(&U[first + below(nU - first)], &e->n) : gen(&e->n);
                e->id = NULL_I64;
                order[no++] = below(10) ? (int)nU : (int)below(nU);
                nU++;
            }
            t_n = no;
            t_tasks = below(3) ? cores : cores * 2;
            t_round = seed * 1000 + r;
            seen = malloc(t_tasks * t_n * sizeof *seen);
            __atomic_store_n(&ready, 0, __ATOMIC_RELEASE);
            pool_prepare(p);
            for (u64 i = 0; i < t_tasks; i++)
                pool_add_task(p, (raw_p)task, 2, (raw_p)i, NULL);
            drop_obj(pool_run(p));
            for (u64 i = 0; i < t_n; i++) {
                ent *e = &U[order[i]];
                for (u64 t = 0; t < t_tasks; t++) {
                    i64_t s = seen[t * t_n + i];
                    if (e->s && t == 0 && (e->id == NULL_I64 || e->id == 0))
                        e->id = s;
                    if (s != e->id)
                        show(e, "split", "two tasks got two ids");
                }
            }
            free(seen);
            free(order);
        }
        for (u64 i = 0; i < nU; i++)
            if (i < nc && i >= usedc)
                U[i].id = NULL_I64;
        final();
    } else {
        u64 n = strtoull(argv[4], 0, 10), T = strtoull(argv[3], 0, 10) * 3, before = symbols_count(runtime_get()->symbols);
        U = calloc(n, sizeof *U);
        pool_prepare(p);
        for (u64 i = 0; i < T; i++)      /* neighbours overlap by half */
            pool_add_task(p, (raw_p)bulk, 2, (raw_p)(n * i / T), (raw_p)(i + 1 == T ? n : n * (i + 1) / T));
        drop_obj(pool_run(p));
        char *got = calloc(n + before + 16, 1);
        for (u64 i = 0; i < n && bad < 20; i++) {
            char s[40];
            int k = snprintf(s, sizeof s, "sym%llx_%llu", mix(i) & 0xffff, i);
            ent e = {s, k, U[i].id};
            if (U[i].id < 0 || U[i].id >= (i64_t)(n + before + 16) || got[U[i].id]++)
                show(&e, "merge", "its id is another's or out of range");
            else
                text(&e, U[i].id, "after all");
            if (symbols_intern(s, k) != U[i].id)
                show(&e, "split", "another id");
        }
        printf("{\"strings\":%llu,\"distinct\":%llu,\"texts\":%llu,\"count\":%lld}\n", n, n, n_text, (long long)symbols_count(runtime_get()->symbols));
    }
    return bad ? 1 : 0;
}
