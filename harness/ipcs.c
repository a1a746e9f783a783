/* A server under observation: the runtime, listening on a port, without the REPL, running its event
 * loop as the application does. Two functions are added to the language for the monitors:
 * (rf-blocks 0) the number of live heap blocks, (rf-nap ms) evaluation that takes a while.
 * The sockets' send and recv go through stand-ins that may transfer less than asked or be
 * interrupted, as a real network may (RF_SHORT = permille of calls, RF_SEED). */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include "rfh.h"
#include "core/poll.h"
#include "core/io.h"
#include "core/binary.h"
#include <errno.h>
#include <signal.h>
#include <sys/socket.h>
#include <time.h>

static unsigned long long rs = 88172645463325252ULL;
static int permille;
static unsigned rnd(void) {
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return (unsigned)(rs >> 16);
}
extern ssize_t __real_send(int, const void *, size_t, int);
extern ssize_t __real_recv(int, void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) {
    if (permille && rnd() % 1000 < (unsigned)permille) {
        if (rnd() % 4 == 0) { errno = EINTR; return -1; }
        if (n > 1) n = 1 + rnd() % (n < 64 ? n : rnd() % 2 ? 64 : n);
    }
    return __real_send(fd, b, n, f);
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) {
    if (permille && rnd() % 1000 < (unsigned)permille) {
        if (rnd() % 4 == 0) { errno = EINTR; return -1; }
        if (n > 1) n = 1 + rnd() % (n < 64 ? n : rnd() % 2 ? 64 : n);
    }
    return __real_recv(fd, b, n, f);
}
static obj_p fn_blocks(obj_p x) {
    (void)x;
    return i64(mon_live_blocks());
}
static obj_p fn_nap(obj_p x) {
    struct timespec t = {x->i64 / 1000, (x->i64 % 1000) * 1000000};
    while (nanosleep(&t, &t) == -1 && errno == EINTR)
        ;
    return i64(x->i64);
}
static void def(const char *name, obj_p (*f)(obj_p)) {
    obj_p s = symbol(name, strlen(name)), o = atom(-TYPE_UNARY), r;
    o->attrs = FN_NONE;
    o->i64 = (i64_t)f;
    r = binary_set(s, o);
    drop_obj(r);
    drop_obj(o);
    drop_obj(s);
}
int main(int argc, char **argv) {
    /* ipcs CORES PORT SCRIPT */
    char *av[] = {"ipcs", "-c", argv[1], "-p", argv[2], NULL};
    obj_p p, r;
    int code;
    if (argc < 4) return 95;
    if (getenv("RF_SEED")) rs ^= strtoull(getenv("RF_SEED"), NULL, 10) * 0x9E3779B97F4A7C15ULL;
    permille = getenv("RF_SHORT") ? atoi(getenv("RF_SHORT")) : 0;
    if (runtime_create(5, av) == NULL) return 96;
    def("rf-blocks", fn_blocks);
    def("rf-nap", fn_nap);
    p = string_from_str(argv[3], strlen(argv[3]));
    r = ray_load(p);
    drop_obj(p);
    if (IS_ERR(r)) {
        p = obj_fmt(r, 1);
        fprintf(stderr, "script: %.*s\n", (int)p->len, AS_C8(p));
        return 97;
    }
    drop_obj(r);
    code = runtime_run();
    runtime_destroy();
    return code;
}
