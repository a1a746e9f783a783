/* rfh: drives the real core as a library and reports what it did.
 *
 * stdin : a sequence of framed commands        stdout(fd 1 at start): one JSON line per command
 *   E <n>\n<bytes>            evaluate source, answer its value
 *   L <k> <n>\n<bytes>        evaluate source k times to warm up, then k times under the
 *                             allocation monitor; answer value + drift of live blocks
 *   X <fmt> <n>\n<bytes>      evaluate, read the whole result, answer its type (or error kind) and a hash
 *                             of its content; fmt 1 also formats it
 *   K <k> <n>\n<bytes>        evaluate 3k times, answer type, content hash and the live blocks gained by
 *                             each of the last two k; hashes of the first and last value
 *   P <n>\n<bytes>            parse only
 *   T <n>\n<bytes>            parse four times with source information, format the result; answer
 *                             the last value and the blocks the last two left over
 *   V <type> <cnt> <name>\n<raw>  bind global <name> to a vector built from raw memory
 *   Y <cnt> <nbytes> <name>\n<raw> bind global to a symbol vector (NUL-separated)
 *   S <n>\n<bytes>            evaluate, serialise, deserialise, answer all three
 *   D <n>\n<bytes>            deserialise raw bytes
 *   H <n>\n<bytes>            deserialise hostile bytes, format and serialise what comes out; answer
 *                             the outcome, blocks left over and the peak of live bytes
 *   F <full> <n>\n<bytes>     evaluate and answer obj_fmt text
 *   R <full> <n>\n<bytes>     evaluate, format (full 3 = as show does) and parse the text again
 *   W <precision> <width>      printed precision and row width
 *   M                          answer monitor counters
 *   Q                          quit through runtime_destroy
 */
#define _GNU_SOURCE
#include "rfh.h"
#include <sys/wait.h>
#include <signal.h>

static FILE *in, *out;
static char *buf;
static size_t bufcap;

static char *rd(size_t n) {
    if (n + 1 > bufcap) {
        bufcap = (n + 1) * 2;
        buf = __real_realloc_libc(buf, bufcap);
    }
    if (n && fread(buf, 1, n, in) != n)
        _exit(97);
    buf[n] = 0;
    return buf;
}

static obj_p ev(char *s, size_t n) {
    obj_p src = vector(TYPE_C8, n), r;
    memcpy(AS_C8(src), s, n);
    r = ray_eval_str(src, NULL_OBJ);
    drop_obj(src);
    return r;
}

static void state(void) {
    vm_p vm = VM;
    fprintf(out, "\"st\":[%d,%d,%d,%d,%d]", vm->sp, vm->rp, vm->query_ctx != NULL, (int)vm->rc_sync, vm->fn != NULL_OBJ);
}

static unsigned long long hsum;
static ssize_t hwrite(void *c, const char *b, size_t n) {
    size_t i;
    (void)c;
    for (i = 0; i < n; i++)
        hsum = (hsum ^ (unsigned char)b[i]) * 1099511628211ULL;
    return n;
}

static unsigned long long hash_of(obj_p r) {
    static FILE *hf;
    if (hf == NULL) {
        cookie_io_functions_t io = {NULL, hwrite, NULL, NULL};
        hf = fopencookie(NULL, "w", io);
        setvbuf(hf, NULL, _IOFBF, 1 << 16);
    }
    hsum = 14695981039346656037ULL;
    dump(hf, r);
    fflush(hf);
    return hsum;
}

static void clear_trace(void) {
    if (VM->trace != NULL_OBJ) {
        drop_obj(VM->trace);
        VM->trace = NULL_OBJ;
    }
}

int main(int argc, char **argv) {
    char line[512];
    const char *cores = argc > 1 ? argv[1] : "1";
    char *av[] = {"rfh", "-c", (char *)cores, NULL};
    int fd = dup(1), nul = open("/dev/null", O_WRONLY);
    signal(SIGPIPE, SIG_IGN);
    dup2(nul, 1);
    in = fdopen(dup(0), "r");
    out = fdopen(fd, "w");
    setvbuf(out, NULL, _IOFBF, 1 << 16);
    if (runtime_create(3, av) == NULL)
        return 96;
    if (getenv("RFH_SEED"))
        ; /* the language's own generator is not seedable; workloads never depend on it */
    while (fgets(line, sizeof line, in)) {
        size_t n;
        int k, ty;
        long long cnt;
        char name[256];
        obj_p r, s, d;
        switch (line[0]) {
            case 'E':
                sscanf(line + 1, "%zu", &n);
                r = ev(rd(n), n);
                fputs("{\"v\":", out);
                dump(out, r);
                fputs(",", out);
                drop_obj(r);
                state();
                fputs("}\n", out);
                break;
            case 'X':
                sscanf(line + 1, "%d %zu", &k, &n);
                r = ev(rd(n), n);
                fprintf(out, "{\"t\":%d,\"h\":\"%llx\",", r->type, hash_of(r));
                if (r->type == TYPE_ERR)
                    fprintf(out, "\"e\":\"%s\",", err_name(err_code(r)));
                if (k & 1) {
                    s = obj_fmt(r, 1);
                    drop_obj(s);
                }
                drop_obj(r);
                state();
                fputs("}\n", out);
                break;
            case 'O':
                mon_sites(out);
                break;
            case 'K': {
                int i, w;
                long long n0, g[3];
                unsigned long long h0 = 0, h1 = 0;
                int t = 0;
                sscanf(line + 1, "%d %zu", &k, &n);
                rd(n);
                for (w = 0; w < 3; w++) {
                    n0 = mon_live_blocks();
                    for (i = 0; i < k; i++) {
                        r = ev(buf, n);
                        if (w == 2 && i == k - 1) {
                            h1 = hash_of(r);
                            t = r->type;
                        } else if (w == 0 && i == 0)
                            h0 = hash_of(r);
                        drop_obj(r);
                    }
                    g[w] = mon_live_blocks() - n0;
                }
                fprintf(out, "{\"t\":%d,\"h\":[\"%llx\",\"%llx\"],\"g\":[%lld,%lld],", t, h0, h1, g[1], g[2]);
                state();
                fputs("}\n", out);
                break;
            }
            case 'P':
                sscanf(line + 1, "%zu", &n);
                rd(n);
                r = parse(buf, n, NULL_OBJ);
                fputs("{\"v\":", out);
                dump(out, r);
                fputs("}\n", out);
                drop_obj(r);
                clear_trace();
                break;
            case 'T': {
                int i;
                obj_p info;
                long long n0 = 0;
                sscanf(line + 1, "%zu", &n);
                rd(n);
                fputs("{", out);
                for (i = 0; i < 4; i++) {
                    if (i == 2)
                        n0 = mon_live_blocks();
                    s = vector(TYPE_C8, n);
                    memcpy(AS_C8(s), buf, n);
                    info = nfo(i & 1 ? NULL_OBJ : string_from_str("f.rfl", 5), s);
                    r = parse(AS_C8(s), n, info);
                    drop_obj(info);
                    if (i == 1) {
                        d = obj_fmt(r, 2);
                        drop_obj(d);
                    }
                    if (i == 3) {
                        fputs("\"v\":", out);
                        dump_quoted = 1;
                        dump(out, r);
                        dump_quoted = 0;
                    }
                    drop_obj(r);
                    clear_trace();
                }
                fprintf(out, ",\"leak\":%lld,", mon_live_blocks() - n0);
                state();
                fputs("}\n", out);
                break;
            }
            case 'L': {
                int i;
                long long b0, n0;
                sscanf(line + 1, "%d %zu", &k, &n);
                rd(n);
                for (i = 0; i < k; i++) {
                    drop_obj(ev(buf, n));
                }
                n0 = mon_live_blocks();
                b0 = mon_live_bytes();
                for (i = 0; i < k - 1; i++) {
                    drop_obj(ev(buf, n));
                }
                r = ev(buf, n);
                fputs("{\"v\":", out);
                dump(out, r);
                drop_obj(r);
                fprintf(out, ",\"d\":[%lld,%lld],", mon_live_blocks() - n0, mon_live_bytes() - b0);
                state();
                fputs("}\n", out);
                break;
            }
            case 'V':
                sscanf(line + 1, "%d %lld %255s", &ty, &cnt, name);
                {
                    obj_p v = vector(ty, cnt), nm;
                    n = (size_t)cnt * size_of_type(ty);
                    rd(n);
                    memcpy(v->raw, buf, n);
                    nm = symbol(name, strlen(name));
                    set_obj(&runtime_get()->env.variables, nm, v);
                    drop_obj(nm);
                    fputs("{}\n", out);
                }
                break;
            case 'Y':
                sscanf(line + 1, "%lld %zu %255s", &cnt, &n, name);
                {
                    obj_p v = vector(TYPE_SYMBOL, cnt), nm;
                    char *p;
                    long long i;
                    rd(n);
                    for (p = buf, i = 0; i < cnt; i++, p += strlen(p) + 1)
                        AS_I64(v)[i] = (p[0] == (char)0xff && p[1] == 0) ? NULL_I64 : symbols_intern(p, strlen(p));
                    nm = symbol(name, strlen(name));
                    set_obj(&runtime_get()->env.variables, nm, v);
                    drop_obj(nm);
                    fputs("{}\n", out);
                }
                break;
            case 'G':
                sscanf(line + 1, "%lld %zu %255s", &cnt, &n, name);
                {
                    obj_p v = vector(TYPE_LIST, cnt), nm;
                    char *p;
                    long long i, idx;
                    rd(n);
                    for (p = buf, i = 0; i < cnt; i++, p += strlen(p) + 1) {
                        idx = symbols_intern(p, strlen(p));
                        nm = symboli64(idx);
                        idx = find_obj_idx(AS_LIST(runtime_get()->env.variables)[0], nm);
                        drop_obj(nm);
                        AS_LIST(v)[i] = clone_obj(AS_LIST(AS_LIST(runtime_get()->env.variables)[1])[idx]);
                    }
                    nm = symbol(name, strlen(name));
                    set_obj(&runtime_get()->env.variables, nm, v);
                    drop_obj(nm);
                    fputs("{}\n", out);
                }
                break;
            case 'S':
                sscanf(line + 1, "%zu", &n);
                r = ev(rd(n), n);
                fputs("{\"v\":", out);
                dump(out, r);
                fputs(",\"s\":", out);
                s = ser_obj(r);
                dump(out, s);
                fputs(",\"d\":", out);
                if (!IS_ERR(s)) {
                    d = de_obj(s);
                    dump(out, d);
                    drop_obj(d);
                } else
                    fputs("null", out);
                drop_obj(s);
                drop_obj(r);
                fputs("}\n", out);
                break;
            case 'D':
                sscanf(line + 1, "%zu", &n);
                rd(n);
                s = vector(TYPE_U8, n);
                memcpy(AS_U8(s), buf, n);
                r = de_obj(s);
                drop_obj(s);
                fputs("{\"v\":", out);
                dump(out, r);
                fputs("}\n", out);
                drop_obj(r);
                clear_trace();
                break;
            case 'H': {
                long long n0, b0, y0;
                sscanf(line + 1, "%zu", &n);
                rd(n);
                s = vector(TYPE_U8, n);
                memcpy(AS_U8(s), buf, n);
                y0 = symbols_count(runtime_get()->symbols);
                n0 = mon_live_blocks();
                b0 = mon_live_bytes();
                mon_peak_reset();
                r = de_obj(s);
                b0 = mon_peak() - b0;
                if (IS_ERR(r))
                    fprintf(out, "{\"e\":\"%s\"", err_name(err_code(r)));
                else {
                    fprintf(out, "{\"t\":%d", r->type);
                    d = obj_fmt(r, 1);
                    drop_obj(d);
                    d = ser_obj(r);
                    if (!IS_ERR(d)) {
                        obj_p r2 = de_obj(d), d2 = ser_obj(r2);
                        fprintf(out, ",\"again\":%d", IS_ERR(r2) || IS_ERR(d2) || d2->len != d->len ? 0 : memcmp(AS_U8(d), AS_U8(d2), d->len) == 0);
                        drop_obj(r2);
                        drop_obj(d2);
                    }
                    drop_obj(d);
                }
                drop_obj(r);
                /* a new symbol stays, with one block of its own */
                fprintf(out, ",\"leak\":%lld,\"peak\":%lld}\n", mon_live_blocks() - n0 - (symbols_count(runtime_get()->symbols) - y0), b0);
                drop_obj(s);
                clear_trace();
                break;
            }
            case 'F':
                sscanf(line + 1, "%d %zu", &k, &n);
                r = ev(rd(n), n);
                s = obj_fmt(r, k);
                fputs("{\"v\":", out);
                dump(out, r);
                fputs(",\"f\":", out);
                dump(out, s);
                fputs("}\n", out);
                drop_obj(s);
                drop_obj(r);
                break;
            case 'R':
                sscanf(line + 1, "%d %zu", &k, &n);
                r = ev(rd(n), n);
                s = NULL_OBJ;
                if (k == 3)
                    obj_fmt_into(&s, 0, -1, 2, r);
                else
                    s = obj_fmt(r, k);
                fputs("{\"v\":", out);
                dump(out, r);
                fputs(",\"f\":", out);
                dump(out, s);
                fputs(",\"p\":", out);
                d = s == NULL_OBJ ? NULL_OBJ : parse(AS_C8(s), s->len, NULL_OBJ);
                dump(out, d);
                fputs("}\n", out);
                drop_obj(d);
                drop_obj(s);
                drop_obj(r);
                break;
            case 'W': {
                int w;
                sscanf(line + 1, "%d %d", &k, &w);
                format_set_fpr(k);
                format_set_display_width(w);
                fputs("{\"v\":[\"null\"]}\n", out);
                break;
            }
            case 'M':
                fprintf(out, "{\"live\":[%lld,%lld],\"allocs\":%lld,\"frees\":%lld,", mon_live_blocks(), mon_live_bytes(),
                        mon_allocs(), mon_frees());
                state();
                fputs("}\n", out);
                break;
            case 'Q':
                runtime_destroy();
                fputs("{\"q\":1}\n", out);
                fflush(out);
                return 0;
            default:
                if (frame_ext == NULL || !frame_ext(line, out))
                    _exit(95);
        }
        fflush(out);
    }
    return 0;
}
