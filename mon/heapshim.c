/*
 * LD_PRELOAD library: counts the bytes held by malloc and its relatives, and writes the largest number at any time, the number
 * held at the end and the number of allocations to the file HEAPSHIM_OUT when the program exits.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static atomic_long held, peak, calls;

static void *in(void *p)
{
    if (p) {
        long h = atomic_fetch_add(&held, (long)malloc_usable_size(p)) + (long)malloc_usable_size(p), k = atomic_load(&peak);
        while (h > k && !atomic_compare_exchange_weak(&peak, &k, h))
            ;
        atomic_fetch_add(&calls, 1);
    }
    return p;
}

void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }

int posix_memalign(void **p, size_t a, size_t n)
{
    void *q = in(__libc_memalign(a, n));
    if (!q)
        return ENOMEM;
    *p = q;
    return 0;
}

void free(void *p)
{
    if (p)
        atomic_fetch_sub(&held, (long)malloc_usable_size(p));
    __libc_free(p);
}

void *realloc(void *p, size_t n)
{
    long was = p ? (long)malloc_usable_size(p) : 0;
    void *q = __libc_realloc(p, n);
    if (q || !n)
        atomic_fetch_sub(&held, was);
    return in(q);
}

__attribute__((destructor)) static void report(void)
{
    const char *f = getenv("HEAPSHIM_OUT");
    int fd = f ? open(f, O_WRONLY | O_CREAT | O_TRUNC, 0666) : -1;
    char line[100];
    if (fd >= 0) {
        int n = snprintf(line, sizeof(line), "%ld %ld %ld\n", atomic_load(&peak), atomic_load(&held), atomic_load(&calls));
        if (write(fd, line, n) != n)
            unlink(f);
        close(fd);
    }
}
