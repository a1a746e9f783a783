/* cal: sweeps the calendar code against an independent civil calendar.
 *   cal <day step for texts> <timestamps per class> <seed>
 * prints one line per class: <class> <cases> and "BAD <class> <what>" for each difference (first 20). */
#include "rfh.h"
#include "core/date.h"
#include "core/time.h"
#include "core/timestamp.h"
#include "core/temporal.h"

static long long cnt[64];
static const char *nm[64];
static int nn, bad;

static long long *cls(const char *s) {
    int i;
    for (i = 0; i < nn; i++)
        if (nm[i] == s || !strcmp(nm[i], s)) return &cnt[i];
    nm[nn] = s;
    return &cnt[nn++];
}
#define BAD(c, ...) do { if (bad++ < 20) { printf("BAD %s ", c); printf(__VA_ARGS__); printf("\n"); } } while (0)
#define CASE(c) ((*cls(c))++)

/* the oracle: walk the calendar forwards and backwards one day at a time */
static int isleap(int y) { return y % 400 == 0 || (y % 4 == 0 && y % 100 != 0); }
static int mlen(int y, int m) {
    switch (m) { case 2: return isleap(y) ? 29 : 28; case 4: case 6: case 9: case 11: return 30; default: return 31; }
}
typedef struct { short y; signed char m, d; } civ;
static civ *tab;            /* day index from 0001-01-01 */
static int lo, hi;          /* day numbers, epoch 2000-01-01 = 0 */

static unsigned long long rs;
static unsigned long long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

static obj_p evs(const char *s) {
    obj_p src = vector(TYPE_C8, strlen(s)), r;
    memcpy(AS_C8(src), s, strlen(s));
    r = ray_eval_str(src, NULL_OBJ);
    drop_obj(src);
    return r;
}
static char *fmt(obj_p o, char *b) {
    obj_p f = obj_fmt(o, B8_TRUE);
    size_t n = f->len < 200 ? f->len : 199;
    memcpy(b, AS_C8(f), n);
    b[n] = 0;
    while (n && b[n - 1] == 0) n--;
    drop_obj(f);
    return b;
}

static void text_date(int k, civ c) {
    char want[64], got[256];
    obj_p a = adate(k), v;
    CASE("date text");
    sprintf(want, "%04d.%02d.%02d", c.y, c.m, c.d);
    fmt(a, got);
    if (strcmp(want, got)) BAD("date text", "day %d: want %s got %s", k, want, got);
    drop_obj(a);
    if (date_into_i32(date_from_str(want, strlen(want))) != k)
        BAD("date from text", "%s: want %d got %d", want, k, date_into_i32(date_from_str(want, strlen(want))));
    v = evs(want);
    if (v->type != -TYPE_DATE || v->i32 != k) BAD("date literal", "%s: want %d got type %d %d", want, k, v->type, v->i32);
    drop_obj(v);
    sprintf(got, "%04d-%02d-%02d", c.y, c.m, c.d);
    if (date_into_i32(date_from_str(got, strlen(got))) != k) BAD("date from iso text", "%s", got);
}

static void ts(int k, long long ns, int literal) {
    char want[96], got[256];
    civ c = tab[k - lo];
    long long v = (long long)k * 86400000000000LL + ns, g;
    int H = ns / 3600000000000LL, M = ns / 60000000000LL % 60, S = ns / 1000000000LL % 60, N = ns % 1000000000LL;
    timestamp_t t = timestamp_from_i64(v), u = {0};
    obj_p a;
    CASE("timestamp");
    if (t.null || t.year != c.y || t.month != c.m || t.day != c.d || t.hours != H || t.mins != M || t.secs != S || (int)t.nanos != N)
        BAD("timestamp fields", "%lld: want %d.%d.%dD%d:%d:%d.%d got %d.%d.%dD%d:%d:%d.%u", v, c.y, c.m, c.d, H, M, S, N, t.year,
            t.month, t.day, t.hours, t.mins, t.secs, t.nanos);
    u.year = c.y, u.month = c.m, u.day = c.d, u.hours = H, u.mins = M, u.secs = S, u.nanos = N;
    g = timestamp_into_i64(u);
    if (g != v) BAD("timestamp from fields", "%d.%d.%dD%d:%d:%d.%d: want %lld got %lld", c.y, c.m, c.d, H, M, S, N, v, g);
    if (!literal) return;
    CASE("timestamp text");
    sprintf(want, "%04d.%02d.%02dD%02d:%02d:%02d.%09d", c.y, c.m, c.d, H, M, S, N);
    a = timestamp(v);
    fmt(a, got);
    if (strcmp(want, got)) BAD("timestamp text", "%lld: want %s got %s", v, want, got);
    drop_obj(a);
    g = timestamp_into_i64(timestamp_from_str(want, strlen(want)));
    if (g != v) BAD("timestamp from text", "%s: want %lld got %lld", want, v, g);
    a = evs(want);
    if (a->type != -TYPE_TIMESTAMP || a->i64 != v) BAD("timestamp literal", "%s: want %lld got type %d %lld", want, v, a->type, a->i64);
    drop_obj(a);
    /* ISO forms, with fractions and offsets */
    {
        int fd = rnd() % 10, i, oh = rnd() % 24, om = (rnd() % 4) * 15, neg = rnd() & 1;
        long long frac = N, cut = 1;
        for (i = 0; i < 9 - fd; i++) cut *= 10;
        frac = N / cut;
        if (fd == 0)
            sprintf(want, "%04d-%02d-%02d%c%02d:%02d:%02d", c.y, c.m, c.d, rnd() & 1 ? 'T' : ' ', H, M, S);
        else
            sprintf(want, "%04d-%02d-%02d%c%02d:%02d:%02d.%0*lld", c.y, c.m, c.d, rnd() & 1 ? 'T' : ' ', H, M, S, fd, frac);
        v -= N - (fd ? frac * cut : 0);
        switch (rnd() % 4) {
            case 0: strcat(want, "Z"); break;
            case 1:
                if (k > lo + 1 && k < hi - 1) {
                    sprintf(want + strlen(want), "%c%02d:%02d", neg ? '-' : '+', oh, om);
                    v -= (neg ? -1LL : 1LL) * (oh * 60 + om) * 60000000000LL;
                }
                break;
            case 2:
                if (k > lo + 1 && k < hi - 1) {
                    sprintf(want + strlen(want), "%c%02d%02d", neg ? '-' : '+', oh, om);
                    v -= (neg ? -1LL : 1LL) * (oh * 60 + om) * 60000000000LL;
                }
                break;
        }
        g = timestamp_into_i64(timestamp_from_str(want, strlen(want)));
        CASE("timestamp iso text");
        if (g != v) BAD("timestamp from iso text", "%s: want %lld got %lld", want, v, g);
    }
}

int main(int argc, char **argv) {
    char *av[] = {"cal", "-c", "1", NULL};
    int step = atoi(argv[1]), i, k, y, m, d, K;
    long long n = atoll(argv[2]), j;
    civ c;
    rs = 88172645463325252ULL ^ ((unsigned long long)atoll(argv[3]) * 0x9E3779B97F4A7C15ULL);
    for (i = 0; i < 10; i++) rnd();
    if (!runtime_create(3, av)) return 96;
    /* build the table from year 1 to 9999 by counting days */
    tab = calloc(3652100, sizeof *tab);
    for (y = 1, k = 0, K = -1; y <= 9999; y++)
        for (m = 1; m <= 12; m++)
            for (d = 1; d <= mlen(y, m); d++, k++) {
                tab[k].y = y, tab[k].m = m, tab[k].d = d;
                if (y == 2000 && m == 1 && d == 1) K = k;
            }
    lo = -K, hi = k - K - 1;
    /* every day */
    for (k = lo; k <= hi; k++) {
        datestruct_t g = date_from_i32(k), u = {0};
        c = tab[k - lo];
        CASE("date");
        if (g.null || g.year != c.y || g.month != c.m || g.day != c.d)
            BAD("date fields", "day %d: want %d.%d.%d got %d.%d.%d", k, c.y, c.m, c.d, g.year, g.month, g.day);
        u.year = c.y, u.month = c.m, u.day = c.d;
        if (date_into_i32(u) != k) BAD("date from fields", "%d.%d.%d: want %d got %d", c.y, c.m, c.d, k, date_into_i32(u));
        if (c.d == 1) {
            CASE("month");
            if (days_in_month(c.y, c.m) != mlen(c.y, c.m)) BAD("days in month", "%d.%d", c.y, c.m);
            if (!!leap_year(c.y) != isleap(c.y)) BAD("leap year", "%d", c.y);
        }
        /* texts: month ends, leap days, a stride through the rest, every day of the present era */
        if ((k - lo) % step == 0 || (c.y >= 1995 && c.y <= 2005) || (c.m == 2 && c.d >= 28 && c.y % 10 == 0) || (c.m == 12 && c.d == 31 && c.y % 7 == 0))
            text_date(k, c);
    }
    if (!date_from_i32(NULL_I32).null) BAD("date null", "fields");
    /* timestamps: 64-bit nanoseconds span 1707.09.23 .. 2292.04.10 */
    {
        int tlo = -106751, thi = 106750;
        long long edge[] = {0, 1, 999999999, 1000000000, 59999999999LL, 60000000000LL, 3599999999999LL, 3600000000000LL, 43200000000000LL, 86399999999999LL};
        for (k = tlo; k <= thi; k++) {
            ts(k, 0, k % (step * 3) == 0);
            ts(k, 86399999999999LL, k % (step * 3) == 1);
            ts(k, edge[rnd() % 10], k % (step * 3) == 2);
        }
        for (j = 0; j < n; j++)
            ts(tlo + (int)(rnd() % (unsigned)(thi - tlo + 1)), (long long)(rnd() % 86400000000000ULL), j % 4 == 0);
        for (j = 0; j < n; j++) {            /* near the epoch, both sides */
            ts((int)(rnd() % 7) - 3, (long long)(rnd() % 86400000000000ULL), j % 4 == 0);
        }
    }
    /* times: every second of the day with its boundaries, both signs, and random milliseconds */
    for (k = 0; k < 86400; k++)
        for (i = 0; i < 4; i++) {
            int ms = i == 0 ? 0 : i == 1 ? 999 : i == 2 ? 1 : (int)(rnd() % 1000), sg = 1 - 2 * (int)(rnd() & 1), v, H = k / 3600, M = k / 60 % 60, S = k % 60;
            timestruct_t t, u = {0};
            char want[64], got[256];
            if (k == 0 && ms == 0) sg = 1;
            v = sg * (k * 1000 + ms);
            t = time_from_i32(v);
            CASE("time");
            if (t.null || t.hours != H || t.mins != M || t.secs != S || t.msecs != ms || ((t.sign == -1) != (sg < 0)))
                BAD("time fields", "%d: want %d %d:%d:%d.%d got %d %d:%d:%d.%d", v, sg, H, M, S, ms, t.sign, t.hours, t.mins, t.secs, t.msecs);
            u.sign = sg, u.hours = H, u.mins = M, u.secs = S, u.msecs = ms;
            if (time_into_i32(u) != v) BAD("time from fields", "%d: got %d", v, time_into_i32(u));
            if ((k * 4 + i) % (step * 2 + 1) == 0) {
                obj_p a = atime(v);
                CASE("time text");
                sprintf(want, "%s%02d:%02d:%02d.%03d", sg < 0 ? "-" : "", H, M, S, ms);
                fmt(a, got);
                if (strcmp(want, got)) BAD("time text", "%d: want %s got %s", v, want, got);
                drop_obj(a);
                if (time_into_i32(time_from_str(want, strlen(want))) != v) BAD("time from text", "%s", want);
                a = evs(want);
                if (a->type != -TYPE_TIME || a->i32 != v) BAD("time literal", "%s: want %d got type %d %d", want, v, a->type, a->i32);
                drop_obj(a);
            }
        }
    for (i = 0; i < nn; i++) printf("CASES %s|%lld\n", nm[i], cnt[i]);
    printf("TOTALBAD %d\n", bad);
    fflush(stdout);
    _exit(0);
}
