/* Picture spaces shared by several checks. */
#pragma once
#include "mc.h"

/* sign matrices of the linear analysis maps: row i = signs of pixel weights in coefficient i */
struct SignMaps
{
    std::vector<int8_t> s; /* 4096 x 4096 */
    const int8_t *row(int i) const { return &s[(size_t) i * 4096]; }
};
const SignMaps &signs_classic();
const SignMaps &signs_pro();
/* synthesis gains: sum over the band's coefficients of |response| at each pixel */
struct Gains { std::vector<double> g[10]; };
const Gains &gains_classic();
const Gains &gains_pro();

/* the extremal picture of coefficient i (sign +1/-1): maximises / minimises it */
void pic_extremal(const SignMaps &m, int i, bool neg, uint8_t *p);
/* base everywhere, amp at one pixel */
void pic_impulse(int pos, int base, int amp, uint8_t *p);
/* two-level patterns; kind 0 vertical stripes, 1 horizontal stripes, 2 checker, 3 halves, 4 quarters, 5 period-4 stripes */
void pic_two(int kind, int a, int b, uint8_t *p);
/* 4x4 periodic binary pattern */
void pic_periodic(int bits, int lo, int hi, uint8_t *p);
/* small alphabet of distinct pictures (24) */
enum { NPIC = 24 };
void pic_alpha(int n, uint8_t *p);
/* a quantisation set, every nibble = v */
inline void qset(uint8_t *q, int v) { for (int i = 0; i < 5; i++) q[i] = v * 17; }
inline void qput(uint8_t *q, int slot, int v) { int s = (slot & 1) * 4; q[slot >> 1] = (q[slot >> 1] & ~(15 << s)) | (v << s); }
/* n-th distinct-looking valid quantisation set */
void qnth(uint8_t *q, unsigned n);
/* coding of one YUV 3- or 4-plane tile buffer as an Args for a single tile */
Args yuv_args(const uint8_t *tile, const uint8_t *quants, int nq);
struct YuvTile { uint8_t p[4][4096]; };
