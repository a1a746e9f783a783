/* The interpreter pins thread i to processor i; many harness processes at once would all share processor 0. */
#include <stddef.h>
int __wrap_pthread_setaffinity_np(unsigned long t, size_t n, const void *s) { (void)t; (void)n; (void)s; return 0; }
