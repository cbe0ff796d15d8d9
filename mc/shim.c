/* Linked into every build of the library: routes its allocations and its CPUID
 * query through hooks the explorer controls.  Without hooks it is transparent. */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

struct mc_hooks
{
    void *(*alloc)(size_t align, size_t n, int zero);
    void *(*resize)(void *p, size_t n);
    int (*release)(void *p); /* returns 0 when it does not know the block */
    int cpuid_force;         /* 1: report the feature words below */
    int cpuid_cx, cpuid_dx, cpuid_ext_cx;
    char own_page[4096 - 3 * sizeof(void *) - 4 * sizeof(int)]; /* nothing of the library shares its page */
};
__attribute__((visibility("default"), aligned(4096))) struct mc_hooks mc_hooks;

void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
int __real_posix_memalign(void **r, size_t al, size_t n);

void *__wrap_malloc(size_t n) { return mc_hooks.alloc ? mc_hooks.alloc(0, n, 0) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
    if (!mc_hooks.alloc) return __real_calloc(a, b);
    if (b && a > (size_t) -1 / b) return NULL;
    return mc_hooks.alloc(0, a * b, 1);
}
void *__wrap_realloc(void *p, size_t n) { return mc_hooks.resize ? mc_hooks.resize(p, n) : __real_realloc(p, n); }
void __wrap_free(void *p)
{
    if (p == NULL) return;
    if (mc_hooks.release && mc_hooks.release(p)) return;
    __real_free(p);
}
int __wrap_posix_memalign(void **r, size_t al, size_t n)
{
    void *p;
    if (!mc_hooks.alloc) return __real_posix_memalign(r, al, n);
    p = mc_hooks.alloc(al, n, 0);
    if (!p) return ENOMEM;
    *r = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n)
{
    void *p = NULL;
    if (mc_hooks.alloc) return mc_hooks.alloc(al, n, 0);
    if (__real_posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n)) return NULL;
    return p;
}
void *__wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
char *__wrap_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = (char *) __wrap_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}

__attribute__((weak)) int __real_cpuid_amd64(int a, int c, int *ax, int *bx, int *cx, int *dx);
int __wrap_cpuid_amd64(int a, int c, int *ax, int *bx, int *cx, int *dx)
{
    int r = 0;
    if (__real_cpuid_amd64) r = __real_cpuid_amd64(a, c, ax, bx, cx, dx);
    if (mc_hooks.cpuid_force)
    {
        if (a == 1)
        {
            *cx = mc_hooks.cpuid_cx;
            *dx = mc_hooks.cpuid_dx;
        }
        else if (a == (int) 0x80000001u)
        {
            *cx = mc_hooks.cpuid_ext_cx;
        }
    }
    return r;
}
