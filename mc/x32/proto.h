/* Shared memory layout between the explorer (64 bit) and the 32-bit server. */
#ifndef X32_PROTO_H
#define X32_PROTO_H
enum
{
    X32_PING = 1, X32_TRANSFORM, X32_CREATE, X32_DESTROY, X32_ENCODE, X32_CODER
};
#define X32_PIX (1 << 20)          /* pixels, 8 MB */
#define X32_OUT (9 << 20)          /* output area, 5 MB, followed by an inaccessible page in the server */
#define X32_OUT_SIZE (5 << 20)
#define X32_SIZE (14 << 20)
#define X32_TILES (64 << 10)
#define X32_RECTS (512 << 10)
#define X32_QUANTS (900 << 10)
#define X32_PLANE (950 << 10)
#define X32_COEF (960 << 10)
#define X32_COEF2 (980 << 10)
struct x32_cmd
{
    int op;
    int arg[24];
    int ret;
    int bytes;
    int handle;
};
#endif
