#include "pics.h"
#include <math.h>
#include <algorithm>

/* linear (unrounded) analysis in double, to find the weights */
static void ana_lin(const double *x, int st, int n, int mode, double *lo, int lst, double *hi, int hst)
{
    int m = mode == 0 ? n / 2 : mode == 1 ? n / 2 : 31;
    double hp = 0;
    for (int i = 0; i < m; i++)
    {
        double x2 = (mode == 0 && i == m - 1) ? x[2 * i * st] : x[(2 * i + 2) * st];
        double h = (x[(2 * i + 1) * st] - (x[2 * i * st] + x2) / 2) / 2;
        if (i == 0) hp = h;
        hi[i * hst] = h;
        lo[i * lst] = x[2 * i * st] + (hp + h) / 2;
        hp = h;
    }
    if (mode == 1) lo[m * lst] = x[2 * m * st] + hp;
    if (mode == 2)
    {
        lo[31 * lst] = x[62 * st] + hp / 2;
        lo[32 * lst] = 2 * x[63 * st] - x[62 * st];
    }
}
static void dwt_lin(const double *px, double *c, bool pro)
{
    static const int NC[3] = {64, 32, 16}, LC[3] = {32, 16, 8}, HC[3] = {32, 16, 8};
    static const int NP[3] = {64, 33, 17}, LP[3] = {33, 17, 9}, HP[3] = {31, 16, 8};
    static double a[4096], t[65 * 65];
    memcpy(a, px, sizeof a);
    int off = 0;
    for (int lev = 0; lev < 3; lev++)
    {
        int n = pro ? NP[lev] : NC[lev], l = pro ? LP[lev] : LC[lev], h = pro ? HP[lev] : HC[lev];
        int mode = pro ? (lev == 0 ? 2 : 1) : 0;
        for (int x = 0; x < n; x++) ana_lin(a + x, n, n, mode, t + x, n, t + l * n + x, n);
        double *hl = c + off, *lh = hl + h * l, *hh = lh + l * h, *ll = hh + h * h;
        for (int y = 0; y < n; y++)
            ana_lin(t + y * n, 1, n, mode, y < l ? ll + y * l : lh + (y - l) * l, 1, y < l ? hl + y * h : hh + (y - l) * h, 1);
        off += 2 * h * l + h * h;
        memcpy(a, ll, l * l * sizeof(double));
    }
}
static void make_signs(SignMaps &m, bool pro)
{
    m.s.assign((size_t) 4096 * 4096, 0);
    std::vector<double> px(4096, 0), c(4096);
    for (int p = 0; p < 4096; p++)
    {
        px[p] = 1;
        dwt_lin(px.data(), c.data(), pro);
        px[p] = 0;
        for (int i = 0; i < 4096; i++) m.s[(size_t) i * 4096 + p] = c[i] > 0 ? 1 : c[i] < 0 ? -1 : 0;
    }
}
const SignMaps &signs_classic() { static SignMaps m; if (m.s.empty()) make_signs(m, false); return m; }
const SignMaps &signs_pro() { static SignMaps m; if (m.s.empty()) make_signs(m, true); return m; }
static void make_gains(Gains &g, bool pro)
{
    const ref::Band *B = pro ? ref::PBANDS : ref::CBANDS;
    std::vector<double> d(4096, 0), o(4096), z(4096);
    if (pro) ref::inv_pro(d.data(), z.data()); else ref::inv_classic(d.data(), z.data());
    for (int b = 0; b < 10; b++)
    {
        g.g[b].assign(4096, 0);
        for (int j = 0; j < B[b].w * B[b].h; j++)
        {
            d[B[b].off + j] = 32;
            if (pro) ref::inv_pro(d.data(), o.data()); else ref::inv_classic(d.data(), o.data());
            d[B[b].off + j] = 0;
            for (int i = 0; i < 4096; i++) g.g[b][i] += fabs(o[i] - z[i]);
        }
    }
}
const Gains &gains_classic() { static Gains g; if (g.g[0].empty()) make_gains(g, false); return g; }
const Gains &gains_pro() { static Gains g; if (g.g[0].empty()) make_gains(g, true); return g; }

void pic_extremal(const SignMaps &m, int i, bool neg, uint8_t *p)
{
    const int8_t *r = m.row(i);
    for (int k = 0; k < 4096; k++)
    {
        int s = neg ? -r[k] : r[k];
        p[k] = s > 0 ? 255 : s < 0 ? 0 : 128;
    }
}
void pic_impulse(int pos, int base, int amp, uint8_t *p)
{
    memset(p, base, 4096);
    p[pos & 4095] = amp;
}
void pic_two(int kind, int a, int b, uint8_t *p)
{
    for (int y = 0; y < 64; y++)
        for (int x = 0; x < 64; x++)
        {
            int s = 0;
            switch (kind)
            {
                case 0: s = x & 1; break;
                case 1: s = y & 1; break;
                case 2: s = (x + y) & 1; break;
                case 3: s = x >= 32; break;
                case 4: s = (x >= 32) ^ (y >= 32); break;
                case 5: s = ((x >> 2) ^ (y >> 2)) & 1; break;
                case 6: s = ((x >> 1) ^ (y >> 1)) & 1; break;
                case 7: s = y >= 61; break;
            }
            p[y * 64 + x] = s ? b : a;
        }
}
void pic_periodic(int bits, int lo, int hi, uint8_t *p)
{
    for (int y = 0; y < 64; y++)
        for (int x = 0; x < 64; x++)
            p[y * 64 + x] = (bits >> ((y & 3) * 4 + (x & 3))) & 1 ? hi : lo;
}
void pic_alpha(int n, uint8_t *p)
{
    switch (n % NPIC)
    {
        case 0: memset(p, 128, 4096); break;
        case 1: fill_noise(p, 4096, 1); break;
        case 2: memset(p, 0, 4096); break;
        case 3: memset(p, 255, 4096); break;
        case 4: for (int i = 0; i < 4096; i++) p[i] = (i % 64) * 4; break;
        case 5: for (int i = 0; i < 4096; i++) p[i] = (i / 64) * 4; break;
        case 6: pic_two(2, 0, 255, p); break;
        case 7: pic_two(0, 0, 255, p); break;
        case 8: pic_two(1, 0, 255, p); break;
        case 9: pic_two(3, 10, 240, p); break;
        case 10: fill_noise(p, 4096, 1); p[2080] ^= 0x40; break;                       /* one pixel off noise 1 */
        case 11: fill_noise(p, 4096, 1); for (int i = 0; i < 64; i++) p[i] = 200; break; /* noise 1 with a flat row */
        case 12: fill_noise(p, 4096, 2); break;
        case 13: for (int i = 0; i < 4096; i++) p[i] = 100 + ((i * 7) & 15); break;
        case 14: pic_impulse(0, 128, 255, p); break;
        case 15: pic_impulse(4095, 128, 0, p); break;
        case 16: for (int i = 0; i < 4096; i++) p[i] = (uint8_t) ((i % 64) * (i / 64)); break;
        case 17: pic_two(5, 40, 200, p); break;
        case 18: for (int i = 0; i < 4096; i++) p[i] = 128 + (int) (100 * sin(i * 0.05)); break;
        case 19: fill_noise(p, 4096, 3); for (int i = 0; i < 4096; i++) p[i] = 120 + (p[i] & 7); break;
        case 20: fill_noise(p, 4096, 4); for (int i = 0; i < 4096; i++) p[i] = p[i] > 128 ? 255 : 0; break;
        case 21: memset(p, 129, 4096); break;
        case 22: pic_two(4, 255, 0, p); break;
        default: for (int i = 0; i < 4096; i++) p[i] = (i % 64 + i / 64) & 1 ? i % 64 : 255 - i / 64; break;
    }
}
void qnth(uint8_t *q, unsigned n)
{
    /* every nibble 6..15; the first sets differ in every slot */
    for (int i = 0; i < 10; i++)
    {
        unsigned v = (n * (2 * i + 3) + i * 5 + n / 10) % 10 + 6;
        if (i == 0) q[0] = q[1] = q[2] = q[3] = q[4] = 0;
        qput(q, i, v);
    }
}
Args yuv_args(const uint8_t *tile, const uint8_t *quants, int nq)
{
    Args a;
    a.buf = tile;
    a.w = a.h = 64;
    a.stride = 256;
    a.rects.push_back(mk_rect(0, 0, 64, 64));
    a.tiles.push_back(mk_tile(0, 0));
    a.quants = quants;
    a.nquants = nq;
    return a;
}
