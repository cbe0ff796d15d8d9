/* A 32-bit process without a C library that runs the library's i386 build on
 * behalf of the explorer: commands arrive on fd 3, answers leave on fd 4, the
 * data lie in the shared memory of fd 5. */
#include <stddef.h>
#include <stdarg.h>
#include <rfxcodec_common.h>
#include <rfxcodec_encode.h>
#include "proto.h"

static int sys3(int n, int a, int b, int c)
{
    int r;
    __asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
    return r;
}
static char *map(int addr, unsigned len, int prot, int flags, int fd)
{
    unsigned a[6] = {addr, len, prot, flags, fd, 0};
    return (char *) sys3(90, (int) a, 0, 0);
}
static void quit(int code)
{
    for (;;) sys3(252, code, 0, 0);
}

/* ---------------------------------------------- what the library asks of libc */
void *memcpy(void *d, const void *s, size_t n)
{
    void *r = d;
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void *memset(void *d, int v, size_t n)
{
    void *r = d;
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
void *memmove(void *d, const void *s, size_t n)
{
    char *p = d; const char *q = s;
    if (p <= q) return memcpy(d, s, n);
    while (n--) p[n] = q[n];
    return d;
}
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *p = a, *q = b;
    for (; n--; p++, q++) if (*p != *q) return *p < *q ? -1 : 1;
    return 0;
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int printf(const char *f, ...) { return 0; }
int __printf_chk(int k, const char *f, ...) { return 0; }
int puts(const char *s) { return 0; }
int putchar(int c) { return c; }
int abs(int x) { return x < 0 ? -x : x; }
void abort(void) { quit(134); }
void exit(int c) { quit(c); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) { quit(134); }

/* blocks of power-of-two size, each preceded by 16 bytes (block start, class) */
static char *freelist[32];
static void *get(size_t al, size_t n, int fillv)
{
    int cls = 6;
    char *b, *p;
    if (al < 16) al = 16;
    if (n > (1u << 28)) return NULL;
    while ((1u << cls) < n + al + 16) cls++;
    b = freelist[cls];
    if (b) freelist[cls] = *(char **) b;
    else
    {
        b = map(0, 1u << (cls < 12 ? 12 : cls), 3, 0x22, -1);
        if ((unsigned) b > 0xfffff000u) return NULL;
    }
    p = (char *) (((size_t) b + 16 + al - 1) & ~(al - 1));
    ((char **) p)[-1] = b;
    ((int *) p)[-2] = cls;
    ((int *) p)[-3] = n;
    memset(p, fillv, n);
    return p;
}
void *malloc(size_t n) { return get(16, n, 0xdb); }
void *calloc(size_t a, size_t b) { return b && a > 0xffffffffu / b ? NULL : get(16, a * b, 0); }
void free(void *p)
{
    if (p)
    {
        char *b = ((char **) p)[-1];
        int cls = ((int *) p)[-2];
        *(char **) b = freelist[cls];
        freelist[cls] = b;
    }
}
void *realloc(void *p, size_t n)
{
    void *q;
    size_t o;
    if (!p) return malloc(n);
    q = malloc(n);
    if (!q) return NULL;
    o = ((int *) p)[-3];
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
int posix_memalign(void **r, size_t al, size_t n) { *r = get(al, n, 0xdb); return *r ? 0 : 12; }
void *aligned_alloc(size_t al, size_t n) { return get(al, n, 0xdb); }
void *memalign(size_t al, size_t n) { return get(al, n, 0xdb); }

/* ---------------------------------------------------- 64-bit division helpers */
typedef unsigned long long u64;
static u64 dm(u64 a, u64 b, u64 *rem)
{
    u64 q = 0, r = 0;
    int i;
    for (i = 63; i >= 0; i--)
    {
        r = (r << 1) | ((a >> i) & 1);
        if (r >= b) { r -= b; q |= 1ull << i; }
    }
    *rem = r;
    return q;
}
u64 __udivdi3(u64 a, u64 b) { u64 r; return dm(a, b, &r); }
u64 __umoddi3(u64 a, u64 b) { u64 r; dm(a, b, &r); return r; }
long long __divdi3(long long a, long long b)
{
    u64 r, q = dm(a < 0 ? -(u64) a : (u64) a, b < 0 ? -(u64) b : (u64) b, &r);
    return (a < 0) != (b < 0) ? -q : q;
}
long long __moddi3(long long a, long long b)
{
    u64 r;
    dm(a < 0 ? -(u64) a : (u64) a, b < 0 ? -(u64) b : (u64) b, &r);
    return a < 0 ? -r : r;
}

/* ------------------------------------------------------------------- CPUID */
static int force, fcx, fdx, fex;
int __real_cpuid_x86(int a, int c, int *ax, int *bx, int *cx, int *dx);
int __wrap_cpuid_x86(int a, int c, int *ax, int *bx, int *cx, int *dx)
{
    int r = __real_cpuid_x86(a, c, ax, bx, cx, dx);
    if (force && a == 1) { *cx = fcx; *dx = fdx; }
    else if (force && a == (int) 0x80000001u) *cx = fex;
    return r;
}

static void *handles[64];
static struct rfxcodec_encode_internals in;
static int tmp_buf[2048 + 16];

static void serve(char *m, char *out)
{
    struct x32_cmd *k = (struct x32_cmd *) m;
    int *a = k->arg, i;
    short *t;
    switch (k->op)
    {
        case X32_PING:
            k->ret = 32;
            k->bytes = (in.rfxencode_dwt_shift_x86_sse2 ? 1 : 0) | (in.rfxencode_dwt_shift_x86_sse41 ? 2 : 0) | (in.rfxencode_dwt_2d && in.rfxencode_quantization ? 4 : 0);
            break;
        case X32_TRANSFORM: /* which, offset of the quantisation table, offset of the plane */
            t = (short *) (((size_t) tmp_buf + 15) & ~(size_t) 15);
            if (a[0] == 0) k->ret = in.rfxencode_dwt_shift_x86_sse2(m + a[1], (unsigned char *) m + a[2], (short *) (m + X32_COEF), t);
            else if (a[0] == 1) k->ret = in.rfxencode_dwt_shift_x86_sse41(m + a[1], (unsigned char *) m + a[2], (short *) (m + X32_COEF), t);
            else
            {
                k->ret = in.rfxencode_dwt_2d((unsigned char *) m + a[2], (short *) (m + X32_COEF), t);
                if (k->ret == 0) k->ret = in.rfxencode_quantization((short *) (m + X32_COEF), m + a[1]);
            }
            break;
        case X32_CREATE:
            force = a[4]; fcx = a[5]; fdx = a[6]; fex = a[7];
            for (i = 0; i < 64 && handles[i]; i++) { }
            k->handle = -1;
            if (i < 64)
            {
                k->ret = rfxcodec_encode_create_ex(a[0], a[1], a[2], a[3], &handles[i]);
                if (k->ret == 0) k->handle = i; else handles[i] = NULL;
            }
            force = 0;
            break;
        case X32_DESTROY:
            k->ret = rfxcodec_encode_destroy(handles[k->handle]);
            handles[k->handle] = NULL;
            break;
        case X32_ENCODE: /* capacity, width, height, stride, rects, tiles, quants, flags, pixel offset */
            k->bytes = a[0];
            k->ret = rfxcodec_encode_ex(handles[k->handle], out + X32_OUT_SIZE - a[0], &k->bytes, m + X32_PIX + a[8], a[1], a[2], a[3],
                                        (struct rfx_rect *) (m + X32_RECTS), a[4], (struct rfx_tile *) (m + X32_TILES), a[5],
                                        a[9] ? m + X32_QUANTS : NULL, a[6], a[7]);
            break;
        default: quit(3);
    }
}

__attribute__((force_align_arg_pointer, used)) void server_main(void)
{
    char *m, *out;
    char b;
    /* fixed places well apart from everything else; the page after the output stays inaccessible */
    m = map(0, X32_SIZE, 3, 1, 5);
    if ((unsigned) m > 0xfffff000u) quit(4);
    out = map(0, X32_OUT_SIZE + 4096, 0, 0x22, -1);
    if ((unsigned) out > 0xfffff000u) quit(4);
    {
        unsigned a[6] = {(unsigned) out, X32_OUT_SIZE, 3, 0x11, 5, X32_OUT};
        if (sys3(90, (int) a, 0, 0) != (int) out) quit(4);
    }
    rfxcodec_encode_get_internals(&in);
    for (;;)
    {
        int r = sys3(3, 3, (int) &b, 1);
        if (r == -4) continue;
        if (r != 1) quit(0);
        serve(m, out);
        while (sys3(4, 4, (int) &b, 1) == -4) { }
    }
}
__asm__(".globl _start\n_start: xorl %ebp, %ebp\n andl $-16, %esp\n call server_main\n hlt\n");
