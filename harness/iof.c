/* File faults for C33: the core's own calls of the file primitives are routed here by the linker (--wrap).
 * Frame "I <class> <nth> <mode> <sticky>": the nth call of the class from now on fails (mode: an errno, -1 for a transfer of
 * half the size, -2 for an end of file); with sticky all later ones do too. Frame "J": disarms; reports the calls seen by
 * class, the faults that fired, open descriptors, file mappings and live heap blocks.
 * The unused rest of the last page of a file mapping is poisoned, so that reading beyond the file is reported.
 */
#include "rfh.h"
#include <errno.h>
#include <dirent.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>

enum { OPEN, FSTAT, READ, WRITE, MMAP, LSEEK, STAT, MKDIR, OPENDIR, READDIR, FTRUNC, UNLINK, RENAME, NCLS };
static const char *names[NCLS] = {"open", "fstat", "read", "write", "mmap", "lseek", "stat", "mkdir", "opendir", "readdir", "ftruncate", "unlink", "rename"};
static long calls[NCLS], fired;
static int cls = -1, mode, sticky, nth;

void __asan_poison_memory_region(void const volatile *p, size_t n) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *p, size_t n) __attribute__((weak));

static int hit(int c) {
    long k = __atomic_add_fetch(&calls[c], 1, __ATOMIC_RELAXED);
    if (c != cls || k < nth || (k > nth && !sticky))
        return 0;
    __atomic_add_fetch(&fired, 1, __ATOMIC_RELAXED);
    if (mode > 0)
        errno = mode;
    return mode;
}

int __real_open(const char *p, int f, ...);
int __wrap_open(const char *p, int f, ...) {
    va_list a;
    va_start(a, f);
    int m = va_arg(a, int);
    va_end(a);
    return hit(OPEN) ? -1 : __real_open(p, f, m);
}
int __real_fstat(int fd, struct stat *s);
int __wrap_fstat(int fd, struct stat *s) { return hit(FSTAT) ? -1 : __real_fstat(fd, s); }
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    int h = hit(READ);
    if (h > 0)
        return -1;
    return h == -2 ? 0 : __real_read(fd, b, h == -1 ? (n + 1) / 2 : n);
}
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    int h = hit(WRITE);
    return h > 0 ? -1 : __real_write(fd, b, h == -1 ? (n + 1) / 2 : n);
}
void *__real_mmap(void *a, size_t n, int p, int f, int fd, off_t o);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    if (fd >= 0 && hit(MMAP))
        return MAP_FAILED;
    char *r = __real_mmap(a, n, p, f, fd, o);
    if (r != MAP_FAILED && fd >= 0 && (n & 4095) && __asan_poison_memory_region)
        __asan_poison_memory_region(r + n, 4096 - (n & 4095));
    return r;
}
int __real_munmap(void *a, size_t n);
int __wrap_munmap(void *a, size_t n) {
    if (__asan_unpoison_memory_region)
        __asan_unpoison_memory_region((char *)a + n, -n & 4095);
    return __real_munmap(a, n);
}
off_t __real_lseek(int fd, off_t o, int w);
off_t __wrap_lseek(int fd, off_t o, int w) { return hit(LSEEK) ? -1 : __real_lseek(fd, o, w); }
int __real_stat(const char *p, struct stat *s);
int __wrap_stat(const char *p, struct stat *s) { return hit(STAT) ? -1 : __real_stat(p, s); }
int __real_mkdir(const char *p, mode_t m);
int __wrap_mkdir(const char *p, mode_t m) { return hit(MKDIR) ? -1 : __real_mkdir(p, m); }
DIR *__real_opendir(const char *p);
DIR *__wrap_opendir(const char *p) { return hit(OPENDIR) ? NULL : __real_opendir(p); }
struct dirent *__real_readdir(DIR *d);
struct dirent *__wrap_readdir(DIR *d) { return hit(READDIR) ? NULL : __real_readdir(d); }
int __real_ftruncate(int fd, off_t n);
int __wrap_ftruncate(int fd, off_t n) { return hit(FTRUNC) ? -1 : __real_ftruncate(fd, n); }
int __real_unlink(const char *p);
int __wrap_unlink(const char *p) { return hit(UNLINK) ? -1 : __real_unlink(p); }
int __real_rename(const char *p, const char *q);
int __wrap_rename(const char *p, const char *q) { return hit(RENAME) ? -1 : __real_rename(p, q); }

static int count_fds(void) {
    int n = 0;
    struct dirent *e;
    DIR *d = __real_opendir("/proc/self/fd");
    while ((e = __real_readdir(d)) != NULL)
        n += e->d_name[0] != '.';
    closedir(d);
    return n - 1;
}

static int count_maps(const char *part) {
    char b[4096];
    int n = 0;
    FILE *f = fopen("/proc/self/maps", "r");
    while (fgets(b, sizeof b, f))
        n += strstr(b, part) != NULL;
    fclose(f);
    return n;
}

int frame_ext(char *line, FILE *out) {
    char c[32];
    int i;
    switch (line[0]) {
        case 'I':
            sscanf(line + 1, "%31s %d %d %d", c, &nth, &mode, &sticky);
            cls = -1;
            for (i = 0; i < NCLS; i++)
                if (strcmp(c, names[i]) == 0)
                    cls = i;
            memset(calls, 0, sizeof calls);
            fired = 0;
            fputs("{}\n", out);
            return 1;
        case 'J':
            cls = -1;
            fprintf(out, "{\"fired\":%ld,\"fds\":%d,\"maps\":%d,\"blocks\":%lld,\"calls\":{", fired, count_fds(), count_maps(getenv("RFH_DIR")),
                    mon_live_blocks());
            for (i = 0; i < NCLS; i++)
                fprintf(out, "%s\"%s\":%ld", i ? "," : "", names[i], calls[i]);
            fputs("}}\n", out);
            memset(calls, 0, sizeof calls);
            fired = 0;
            return 1;
    }
    return 0;
}
