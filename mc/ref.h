/* Independent reference model of the RemoteFX wire format, entropy coding and
 * transforms (MS-RDPRFX, MS-RDPEGFX).  Written from the protocol rules; shares
 * no code with the library.  Everything is plain int arithmetic. */
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <stdio.h>
#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {

typedef std::vector<uint8_t> Bytes;
typedef std::array<int, 4096> Coefs;

inline std::string fmt(const char *f, ...)
{
    char b[1024];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n < (int) sizeof b) return b;
    std::string s(n + 1, 0);
    va_start(ap, f);
    vsnprintf(&s[0], n + 1, f, ap);
    va_end(ap);
    s.resize(n);
    return s;
}

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const uint8_t *b = (const uint8_t *) p;
    while (n >= 8)
    {
        uint64_t w;
        memcpy(&w, b, 8);
        h = (h ^ w) * 0x9E3779B97F4A7C15ULL;
        h ^= h >> 29;
        b += 8;
        n -= 8;
    }
    while (n--) h = (h ^ *b++) * 1099511628211ULL;
    h ^= h >> 32;
    return h;
}

inline int clampi(int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }

/* ------------------------------------------------------------------ colour */
inline void rgb2yuv(int r, int g, int b, uint8_t *y, uint8_t *u, uint8_t *v)
{
    *y = clampi((r * 19595 + g * 38470 + b * 7471) >> 16, 0, 255);
    *u = clampi(((r * -11071 + g * -21736 + b * 32807) >> 16) + 128, 0, 255);
    *v = clampi(((r * 32756 + g * -27429 + b * -5327) >> 16) + 128, 0, 255);
}

/* inverse ICT, values as a client computes them */
inline void yuv2rgb(double y, double cb, double cr, double *r, double *g, double *b)
{
    *r = y + 1.402525 * cr;
    *g = y - 0.343730 * cb - 0.714401 * cr;
    *b = y + 1.769905 * cb;
}

/* -------------------------------------------------------------------- quants */
/* the ten nibbles of a quantisation set, MS-RDPRFX order */
enum { QLL3, QLH3, QHL3, QHH3, QLH2, QHL2, QHH2, QLH1, QHL1, QHH1 };
inline int qnib(const uint8_t *q, int i) { return (q[i >> 1] >> ((i & 1) * 4)) & 15; }
inline int quant1(int v, int q) { int f = q - 1; return (v + (1 << (f - 1))) >> f; }

struct Band { int off, w, h, q; };
/* classic layout */
static const Band CBANDS[10] = {
    {0, 32, 32, QHL1}, {1024, 32, 32, QLH1}, {2048, 32, 32, QHH1},
    {3072, 16, 16, QHL2}, {3328, 16, 16, QLH2}, {3584, 16, 16, QHH2},
    {3840, 8, 8, QHL3}, {3904, 8, 8, QLH3}, {3968, 8, 8, QHH3}, {4032, 8, 8, QLL3}};
/* reduce-extrapolate layout */
static const Band PBANDS[10] = {
    {0, 31, 33, QHL1}, {1023, 33, 31, QLH1}, {2046, 31, 31, QHH1},
    {3007, 16, 17, QHL2}, {3279, 17, 16, QLH2}, {3551, 16, 16, QHH2},
    {3807, 8, 9, QHL3}, {3879, 9, 8, QLH3}, {3951, 8, 8, QHH3}, {4015, 9, 9, QLL3}};

/* ---------------------------------------------------------- forward classic */
/* one 5/3 analysis step over n samples with stride st: low half -> lo, high -> hi */
inline void ana_even(const int *x, int st, int n, int *lo, int lst, int *hi, int hst)
{
    int m = n / 2, hp = 0;
    for (int i = 0; i < m; i++)
    {
        int x0 = x[(2 * i) * st], x1 = x[(2 * i + 1) * st];
        int x2 = i == m - 1 ? x0 : x[(2 * i + 2) * st];
        int h = (x1 - ((x0 + x2) >> 1)) >> 1;
        if (i == 0) hp = h;
        hi[i * hst] = h;
        lo[i * lst] = x0 + ((hp + h) >> 1);
        hp = h;
    }
}
/* odd length n = 2m+1: m high, m+1 low, mirrored on both ends */
inline void ana_odd(const int *x, int st, int n, int *lo, int lst, int *hi, int hst)
{
    int m = n / 2, hp = 0;
    for (int i = 0; i < m; i++)
    {
        int h = (x[(2 * i + 1) * st] - ((x[(2 * i) * st] + x[(2 * i + 2) * st]) >> 1)) >> 1;
        if (i == 0) hp = h;
        hi[i * hst] = h;
        lo[i * lst] = x[(2 * i) * st] + ((hp + h) >> 1);
        hp = h;
    }
    lo[m * lst] = x[2 * m * st] + hp;
}
inline int sat16(int v) { return clampi(v, -32768, 32767); }
/* 64 samples, reduce-extrapolate: 31 high, 33 low; sample 64 is extrapolated linearly,
 * saturated to the 16 bit range of the coefficient type */
inline void ana_ext(const int *x, int st, int *lo, int lst, int *hi, int hst)
{
    int hp = 0;
    for (int i = 0; i < 31; i++)
    {
        int h = (x[(2 * i + 1) * st] - ((x[(2 * i) * st] + x[(2 * i + 2) * st]) >> 1)) >> 1;
        if (i == 0) hp = h;
        hi[i * hst] = h;
        lo[i * lst] = x[(2 * i) * st] + ((hp + h) >> 1);
        hp = h;
    }
    lo[31 * lst] = x[62 * st] + (hp >> 1);
    lo[32 * lst] = sat16(2 * x[63 * st] - x[62 * st]);
}

struct Scratch { int a[4096], b[65 * 65]; };
inline Scratch &scratch() { static thread_local Scratch s; return s; }

/* unquantised classic coefficients */
inline void dwt_classic(const uint8_t *p, int *c)
{
    int *a = scratch().a, *t = scratch().b;
    for (int i = 0; i < 4096; i++) a[i] = (p[i] - 128) * 32;
    int n = 64, off = 0;
    for (int lev = 0; lev < 3; lev++)
    {
        int m = n / 2;
        for (int x = 0; x < n; x++) ana_even(a + x, n, n, t + x, n, t + m * n + x, n);
        int *hl = c + off, *lh = hl + m * m, *hh = lh + m * m, *ll = hh + m * m;
        for (int y = 0; y < m; y++)
        {
            ana_even(t + y * n, 1, n, ll + y * m, 1, hl + y * m, 1);
            ana_even(t + (m + y) * n, 1, n, lh + y * m, 1, hh + y * m, 1);
        }
        memcpy(a, ll, m * m * sizeof(int));
        off += 3 * m * m;
        n = m;
    }
}
/* unquantised reduce-extrapolate coefficients */
inline void dwt_pro(const uint8_t *p, int *c)
{
    int *a = scratch().a, *t = scratch().b;
    for (int i = 0; i < 4096; i++) a[i] = (p[i] - 128) * 32;
    static const int N[3] = {64, 33, 17}, L[3] = {33, 17, 9}, H[3] = {31, 16, 8};
    int off = 0;
    for (int lev = 0; lev < 3; lev++)
    {
        int n = N[lev], l = L[lev], h = H[lev];
        for (int x = 0; x < n; x++)
        {
            if (lev == 0) ana_ext(a + x, n, t + x, n, t + l * n + x, n);
            else ana_odd(a + x, n, n, t + x, n, t + l * n + x, n);
        }
        int *hl = c + off, *lh = hl + h * l, *hh = lh + l * h, *ll = hh + h * h;
        for (int y = 0; y < n; y++)
        {
            int *lo = y < l ? ll + y * l : lh + (y - l) * l;
            int *hi = y < l ? hl + y * h : hh + (y - l) * h;
            if (lev == 0) ana_ext(t + y * n, 1, lo, 1, hi, 1);
            else ana_odd(t + y * n, 1, n, lo, 1, hi, 1);
        }
        off += 2 * h * l + h * h;
        memcpy(a, ll, l * l * sizeof(int));
    }
}
inline void quantise(int *c, const uint8_t *q, const Band *bands)
{
    for (int i = 0; i < 10; i++)
    {
        int n = bands[i].w * bands[i].h, qq = qnib(q, bands[i].q);
        int *p = c + bands[i].off;
        for (int j = 0; j < n; j++) p[j] = quant1(p[j], qq);
    }
}
inline void fwd_classic(const uint8_t *p, const uint8_t *q, Coefs &c) { dwt_classic(p, c.data()); quantise(c.data(), q, CBANDS); }
inline void fwd_pro(const uint8_t *p, const uint8_t *q, Coefs &c) { dwt_pro(p, c.data()); quantise(c.data(), q, PBANDS); }

/* ------------------------------------------------------------------ inverse */
/* synthesis in double precision: the exact linear inverse */
inline void syn_even(const double *lo, int lst, const double *hi, int hst, int n, double *x, int st)
{
    int m = n / 2;
    for (int i = 0; i < m; i++)
    {
        double hp = i ? hi[(i - 1) * hst] : hi[0];
        x[2 * i * st] = lo[i * lst] - (hp + hi[i * hst]) / 2;
    }
    for (int i = 0; i < m; i++)
    {
        double x0 = x[2 * i * st], x2 = i == m - 1 ? x0 : x[(2 * i + 2) * st];
        x[(2 * i + 1) * st] = 2 * hi[i * hst] + (x0 + x2) / 2;
    }
}
inline void syn_odd(const double *lo, int lst, const double *hi, int hst, int n, double *x, int st)
{
    int m = n / 2;
    for (int i = 0; i <= m; i++)
    {
        double hp = i ? hi[(i - 1) * hst] : hi[0], hn = i < m ? hi[i * hst] : hi[(m - 1) * hst];
        x[2 * i * st] = lo[i * lst] - (hp + hn) / 2;
    }
    for (int i = 0; i < m; i++) x[(2 * i + 1) * st] = 2 * hi[i * hst] + (x[2 * i * st] + x[(2 * i + 2) * st]) / 2;
}
inline void syn_ext(const double *lo, int lst, const double *hi, int hst, double *x, int st)
{
    double e[65];
    for (int i = 0; i < 31; i++)
    {
        double hp = i ? hi[(i - 1) * hst] : hi[0];
        e[2 * i] = lo[i * lst] - (hp + hi[i * hst]) / 2;
    }
    e[62] = lo[31 * lst] - hi[30 * hst] / 2;
    e[64] = lo[32 * lst];
    for (int i = 0; i < 31; i++) e[2 * i + 1] = 2 * hi[i * hst] + (e[2 * i] + e[2 * i + 2]) / 2;
    e[63] = (e[62] + e[64]) / 2;
    for (int i = 0; i < 64; i++) x[i * st] = e[i];
}
inline void dequant(const int *c, const uint8_t *q, const Band *bands, double *d)
{
    for (int i = 0; i < 10; i++)
    {
        int n = bands[i].w * bands[i].h, f = qnib(q, bands[i].q) - 1;
        for (int j = 0; j < n; j++) d[bands[i].off + j] = (double) c[bands[i].off + j] * (1 << f);
    }
}
/* d: dequantised coefficients in (11.5 fixed), out: pixel values 0..255 scale (not clamped) */
inline void inv_classic(const double *d, double *out)
{
    static thread_local double ll[4096], t[4096], o[4096];
    int n = 16, off = 3840;
    memcpy(ll, d + 4032, 64 * sizeof(double));
    for (int lev = 2; lev >= 0; lev--)
    {
        int m = n / 2;
        const double *hl = d + off, *lh = hl + m * m, *hh = lh + m * m;
        for (int y = 0; y < m; y++)
        {
            syn_even(ll + y * m, 1, hl + y * m, 1, n, t + y * n, 1);
            syn_even(lh + y * m, 1, hh + y * m, 1, n, t + (m + y) * n, 1);
        }
        for (int x = 0; x < n; x++) syn_even(t + x, n, t + m * n + x, n, n, o + x, n);
        memcpy(ll, o, n * n * sizeof(double));
        off -= 3 * n * n;
        n *= 2;
    }
    for (int i = 0; i < 4096; i++) out[i] = ll[i] / 32 + 128;
}
inline void inv_pro(const double *d, double *out)
{
    static thread_local double ll[4096], t[65 * 65], o[4096];
    static const int N[3] = {64, 33, 17}, L[3] = {33, 17, 9}, H[3] = {31, 16, 8}, O[3] = {0, 3007, 3807};
    memcpy(ll, d + 4015, 81 * sizeof(double));
    for (int lev = 2; lev >= 0; lev--)
    {
        int n = N[lev], l = L[lev], h = H[lev];
        const double *hl = d + O[lev], *lh = hl + h * l, *hh = lh + l * h;
        for (int y = 0; y < n; y++)
        {
            const double *lo = y < l ? ll + y * l : lh + (y - l) * l;
            const double *hi = y < l ? hl + y * h : hh + (y - l) * h;
            if (lev == 0) syn_ext(lo, 1, hi, 1, t + y * n, 1);
            else syn_odd(lo, 1, hi, 1, n, t + y * n, 1);
        }
        for (int x = 0; x < n; x++)
        {
            if (lev == 0) syn_ext(t + x, n, t + l * n + x, n, o + x, n);
            else syn_odd(t + x, n, t + l * n + x, n, n, o + x, n);
        }
        memcpy(ll, o, n * n * sizeof(double));
    }
    for (int i = 0; i < 4096; i++) out[i] = ll[i] / 32 + 128;
}

/* --------------------------------------------------------------------- RLGR */
struct BitReader
{
    const uint8_t *p;
    size_t nbits, pos;
    bool bad;
    BitReader(const uint8_t *b, size_t n) : p(b), nbits(n * 8), pos(0), bad(false) {}
    inline int bit()
    {
        if (pos >= nbits) { bad = true; return 0; }
        int r = (p[pos >> 3] >> (7 - (pos & 7))) & 1;
        pos++;
        return r;
    }
    inline unsigned bits(int n)
    {
        unsigned r = 0;
        while (n > 0)
        {
            if (pos >= nbits) { bad = true; return 0; }
            int avail = 8 - (pos & 7);
            int t = n < avail ? n : avail;
            r = (r << t) | ((p[pos >> 3] >> (avail - t)) & ((1u << t) - 1));
            pos += t;
            n -= t;
        }
        return r;
    }
    inline int ones(int lim)
    {
        int c = 0;
        while (bit())
        {
            if (++c > lim) { bad = true; return 0; }
        }
        return c;
    }
};
inline int bump(int &p, int d) { p = clampi(p + d, 0, 80); return p >> 3; }

inline int gr_decode(BitReader &b, int &krp)
{
    int kr = krp >> 3;
    int vk = b.ones(140000);
    unsigned rem = kr ? b.bits(kr) : 0;
    if (vk == 0) bump(krp, -2);
    else if (vk > 1) bump(krp, vk);
    return (vk << kr) | rem;
}
struct RlgrTrace { uint64_t visited = 0; };
/* state observer: called at every symbol boundary */
typedef void (*StateObs)(void *, int kp, int krp, int phase, int left);
/* decode exactly n coefficients; returns error text or "" */
inline std::string rlgr_decode(int variant, const uint8_t *buf, int len, int *out, int n,
                               StateObs obs = nullptr, void *obs_arg = nullptr)
{
    BitReader b(buf, len);
    int kp = 8, krp = 8, k = 1, i = 0;
    while (i < n)
    {
        if (obs) obs(obs_arg, kp, krp, (int) (b.pos & 7), n - i);
        if (b.bad) return fmt("entropy data exhausted at coefficient %d of %d (%d bytes)", i, n, len);
        if (k)
        {
            int run = 0;
            while (!b.bit())
            {
                if (b.bad) return fmt("entropy data exhausted in a zero run at coefficient %d (%d bytes)", i, len);
                run += 1 << k;
                if (run > n) return fmt("zero run beyond the last coefficient at %d", i);
                k = bump(kp, 4);
            }
            run += b.bits(k);
            if (b.bad) return fmt("entropy data exhausted in a run length at coefficient %d", i);
            if (i + run > n) return fmt("zero run of %d at coefficient %d is too long", run, i);
            for (int j = 0; j < run; j++) out[i++] = 0;
            if (i >= n) break;
            int sign = b.bit();
            int mag = gr_decode(b, krp) + 1;
            out[i++] = sign ? -mag : mag;
            k = bump(kp, -6);
        }
        else if (variant == 1)
        {
            int m = gr_decode(b, krp);
            out[i++] = (m & 1) ? -((m + 1) >> 1) : m >> 1;
            k = bump(kp, m ? -3 : 3);
        }
        else
        {
            int m = gr_decode(b, krp), nb = 0;
            for (int v = m; v; v >>= 1) nb++;
            int v1 = nb ? b.bits(nb) : 0;
            int v2 = m - v1;
            if (v2 < 0) return fmt("bad pair at coefficient %d", i);
            out[i++] = (v1 & 1) ? -((v1 + 1) >> 1) : v1 >> 1;
            if (i < n) out[i++] = (v2 & 1) ? -((v2 + 1) >> 1) : v2 >> 1;
            else if (v2 != 0) return "nonzero value coded after the last coefficient";
            if (v1 && v2) k = bump(kp, -6);
            else if (!v1 && !v2) k = bump(kp, 6);
        }
    }
    if (b.bad) return fmt("entropy data truncated: %d bytes do not hold %d coefficients", len, n);
    if ((int) ((b.pos + 7) / 8) != len) return fmt("entropy data has %d bytes but %d hold all coefficients", len, (int) ((b.pos + 7) / 8));
    if (b.pos & 7)
    {
        /* padding bits are not specified; not checked */
    }
    return "";
}
inline void undpcm(int *c, int count) { for (int i = 1; i < count; i++) c[i] += c[i - 1]; }

/* -------------------------------------------------------------------- alpha */
inline std::string alpha_decode(const uint8_t *d, int len, uint8_t *out)
{
    if (len < 1) return "alpha data empty";
    if (d[0] == 0)
    {
        if (len != 1 + 4096 + 1) return fmt("raw alpha plane has %d bytes instead of 4098", len);
        memcpy(out, d + 1, 4096);
        return "";
    }
    if (d[0] != 0x10) return fmt("alpha flags byte 0x%02x", d[0]);
    int p = 1;
    uint8_t row[64];
    for (int y = 0; y < 64; y++)
    {
        int x = 0, last = 0;
        while (x < 64)
        {
            if (p >= len) return fmt("alpha data ends in row %d", y);
            int c = d[p++], raw = c >> 4, run = c & 15;
            if (run == 1) { run = 16 + raw; raw = 0; }
            else if (run == 2) { run = 32 + raw; raw = 0; }
            if (x + raw + run > 64) return fmt("alpha row %d overflows: x %d raw %d run %d", y, x, raw, run);
            if (raw + run == 0) return fmt("empty alpha segment in row %d", y);
            if (p + raw > len) return fmt("alpha data ends in row %d", y);
            for (int i = 0; i < raw; i++) { row[x++] = d[p]; last = d[p++]; }
            for (int i = 0; i < run; i++) row[x++] = last;
        }
        for (x = 0; x < 64; x++)
        {
            if (y == 0) out[x] = row[x];
            else
            {
                int v = row[x];
                int delta = (v & 1) ? -((v >> 1) + 1) : v >> 1;
                out[y * 64 + x] = (uint8_t) (out[(y - 1) * 64 + x] + delta);
            }
        }
    }
    if (p != len) return fmt("alpha data has %d bytes but rows end at %d", len, p);
    return "";
}

/* ------------------------------------------------------------------ messages */
struct Rect { int x, y, cx, cy; bool operator==(const Rect &o) const { return x == o.x && y == o.y && cx == o.cx && cy == o.cy; } };
struct Tile
{
    int qidx[3], x, y, flags;   /* x, y: grid index */
    int off, len;               /* whole tile block within the message */
    int poff[4], plen[4];       /* component payloads (alpha is 3) */
};
struct Msg
{
    bool has_header = false;
    bool alpha = false;
    int ctx_props = -1, chan_w = -1, chan_h = -1, pro_ctx_flags = -1;
    uint32_t frame = 0;
    std::vector<Rect> rects;
    int ts_props = -1;
    Bytes quants;
    std::vector<Tile> tiles;
    int tiles_off = 0, tiles_len = 0;
};
struct Rd
{
    const uint8_t *p;
    int n, pos;
    bool bad;
    Rd(const uint8_t *b, int len) : p(b), n(len), pos(0), bad(false) {}
    unsigned u(int k)
    {
        if (pos + k > n) { bad = true; pos = n; return 0; }
        unsigned r = 0;
        for (int i = 0; i < k; i++) r |= (unsigned) p[pos + i] << (8 * i);
        pos += k;
        return r;
    }
};
#define REF_REQ(c, ...) do { if (!(c)) return ref::fmt(__VA_ARGS__); } while (0)

inline std::string parse_tiles(const uint8_t *b, int base, int len, int count, bool pro, bool alpha, Msg &m)
{
    int pos = base, end = base + len;
    for (int i = 0; i < count; i++)
    {
        Rd r(b, end);
        r.pos = pos;
        Tile t;
        t.off = pos;
        unsigned type = r.u(2);
        t.len = (int) r.u(4);
        REF_REQ(!r.bad, "tile %d: header outside the tile data", i);
        REF_REQ(type == (pro ? 0xCCC5u : 0xCAC3u), "tile %d: block type 0x%04x", i, type);
        for (int k = 0; k < 3; k++) t.qidx[k] = r.u(1);
        t.x = r.u(2);
        t.y = r.u(2);
        t.flags = pro ? (int) r.u(1) : 0;
        int np = alpha ? 4 : 3;
        t.plen[3] = 0;
        for (int k = 0; k < np; k++) t.plen[k] = r.u(2);
        if (pro)
        {
            int tail = r.u(2);
            REF_REQ(tail == 0, "tile %d: tail length %d", i, tail);
        }
        REF_REQ(!r.bad, "tile %d: header outside the tile data", i);
        int p = r.pos;
        for (int k = 0; k < 4; k++) { t.poff[k] = p; p += t.plen[k]; }
        REF_REQ(t.len == p - pos, "tile %d: block length %d but header and planes (%d,%d,%d,%d) take %d", i, t.len, t.plen[0], t.plen[1], t.plen[2], t.plen[3], p - pos);
        REF_REQ(p <= end, "tile %d: data outside the tile set", i);
        pos = p;
        m.tiles.push_back(t);
    }
    REF_REQ(pos == end, "tile data has %d bytes, the %d tiles take %d", len, count, pos - base);
    return "";
}

inline std::string parse_classic(const Bytes &v, Msg &m)
{
    const uint8_t *b = v.data();
    int n = (int) v.size(), pos = 0;
    int seen_sync = 0, seen_ctx = 0, seen_ver = 0, seen_chan = 0, stage = 0;
    while (pos < n)
    {
        Rd r(b, n);
        r.pos = pos;
        unsigned type = r.u(2);
        unsigned len = r.u(4);
        REF_REQ(!r.bad && len >= 6 && (unsigned) (n - pos) >= len, "block 0x%04x at %d: length %u, %d left", type, pos, len, n - pos);
        Rd q(b, pos + (int) len);
        q.pos = pos + 6;
        bool hdr = type == 0xCCC0 || type == 0xCCC1 || type == 0xCCC2 || type == 0xCCC3;
        if (hdr)
        {
            REF_REQ(stage == 0, "header block 0x%04x after the frame began", type);
            REF_REQ(type == 0xCCC0 || seen_sync, "header block 0x%04x before the sync block", type);
        }
        switch (type)
        {
            case 0xCCC0:
            {
                REF_REQ(len == 12 && !seen_sync++, "sync block length %u or repeated", len);
                unsigned mg = q.u(4), ver = q.u(2);
                REF_REQ(mg == 0xCACCACCA && ver == 0x0100, "sync block content");
                break;
            }
            case 0xCCC3:
            {
                REF_REQ(len == 13 && !seen_ctx++, "context block length %u or repeated", len);
                unsigned cid = q.u(1), ch = q.u(1), ctx = q.u(1), ts = q.u(2);
                m.ctx_props = q.u(2);
                REF_REQ(cid == 1 && ch == 255 && ctx == 0 && ts == 0x40, "context block content");
                break;
            }
            case 0xCCC1:
            {
                REF_REQ(len == 10 && !seen_ver++, "codec versions block length %u or repeated", len);
                unsigned nc = q.u(1), id = q.u(1), ver = q.u(2);
                REF_REQ(nc == 1 && id == 1 && ver == 0x0100, "codec versions content");
                break;
            }
            case 0xCCC2:
            {
                REF_REQ(len == 12 && !seen_chan++, "channels block length %u or repeated", len);
                unsigned nc = q.u(1), id = q.u(1);
                m.chan_w = q.u(2);
                m.chan_h = q.u(2);
                REF_REQ(nc == 1 && id == 0, "channels content");
                break;
            }
            case 0xCCC4:
            {
                REF_REQ(stage == 0 && len == 14, "frame begin out of order or length %u", len);
                unsigned cid = q.u(1), ch = q.u(1);
                m.frame = q.u(4);
                unsigned nr = q.u(2);
                REF_REQ(cid == 1 && ch == 0 && nr == 1, "frame begin content");
                stage = 1;
                break;
            }
            case 0xCCC6:
            {
                REF_REQ(stage == 1 && len >= 15, "region out of order or length %u", len);
                unsigned cid = q.u(1), ch = q.u(1), fl = q.u(1), nr = q.u(2);
                REF_REQ(len == 15 + 8 * nr, "region length %u for %u rects", len, nr);
                for (unsigned i = 0; i < nr; i++)
                {
                    Rect t;
                    t.x = q.u(2); t.y = q.u(2); t.cx = q.u(2); t.cy = q.u(2);
                    m.rects.push_back(t);
                }
                unsigned rt = q.u(2), nt = q.u(2);
                REF_REQ(cid == 1 && ch == 0 && (fl & 1) == 1 && rt == 0xCAC1 && nt == 1, "region content");
                stage = 2;
                break;
            }
            case 0xCCC7:
            case 0xDDD7:
            {
                REF_REQ(stage == 2 && len >= 22, "tile set out of order or length %u", len);
                m.alpha = type == 0xDDD7;
                unsigned cid = q.u(1), ch = q.u(1), sub = q.u(2), idx = q.u(2);
                m.ts_props = q.u(2);
                unsigned nq = q.u(1), ts = q.u(1), nt = q.u(2), dsz = q.u(4);
                REF_REQ(cid == 1 && ch == 0 && sub == 0xCAC2 && idx == 0 && ts == 0x40, "tile set content");
                REF_REQ(len >= 22 + nq * 5 && dsz == len - 22 - nq * 5, "tile set length %u, %u quants, data size %u", len, nq, dsz);
                m.quants.assign(b + q.pos, b + q.pos + nq * 5);
                m.tiles_off = q.pos + nq * 5;
                m.tiles_len = dsz;
                std::string e = parse_tiles(b, m.tiles_off, dsz, nt, false, m.alpha, m);
                if (!e.empty()) return e;
                q.pos = pos + len;
                stage = 3;
                break;
            }
            case 0xCCC5:
            {
                REF_REQ(stage == 3 && len == 8, "frame end out of order or length %u", len);
                unsigned cid = q.u(1), ch = q.u(1);
                REF_REQ(cid == 1 && ch == 0, "frame end content");
                stage = 4;
                break;
            }
            default:
                return fmt("unknown block 0x%04x at %d", type, pos);
        }
        REF_REQ(!q.bad && q.pos == pos + (int) len, "block 0x%04x: length %u does not match its content", type, len);
        pos += len;
        if (stage == 4) break;
    }
    REF_REQ(stage == 4 && pos == n, "message of %d bytes: frame complete %d, parsed up to %d", n, stage == 4, pos);
    int h = seen_sync + seen_ctx + seen_ver + seen_chan;
    REF_REQ(h == 0 || h == 4, "incomplete stream header (%d of 4 blocks)", h);
    m.has_header = h == 4;
    return "";
}

inline std::string parse_pro(const Bytes &v, Msg &m)
{
    const uint8_t *b = v.data();
    int n = (int) v.size(), pos = 0, stage = 0, seen_sync = 0, seen_ctx = 0;
    while (pos < n)
    {
        Rd r(b, n);
        r.pos = pos;
        unsigned type = r.u(2), len = r.u(4);
        REF_REQ(!r.bad && len >= 6 && (unsigned) (n - pos) >= len, "block 0x%04x at %d: length %u, %d left", type, pos, len, n - pos);
        Rd q(b, pos + (int) len);
        q.pos = pos + 6;
        switch (type)
        {
            case 0xCCC0:
            {
                REF_REQ(stage == 0 && !seen_ctx && len == 12 && !seen_sync++, "sync block");
                unsigned mg = q.u(4), ver = q.u(2);
                REF_REQ(mg == 0xCACCACCA && ver == 0x0100, "sync block content");
                break;
            }
            case 0xCCC3:
            {
                REF_REQ(stage == 0 && seen_sync && len == 10 && !seen_ctx++, "context block");
                unsigned ctx = q.u(1), ts = q.u(2);
                m.pro_ctx_flags = q.u(1);
                REF_REQ(ctx == 0 && ts == 0x40 && m.pro_ctx_flags == 1, "context block content");
                break;
            }
            case 0xCCC1:
            {
                REF_REQ(stage == 0 && len == 12, "frame begin out of order or length %u", len);
                m.frame = q.u(4);
                unsigned nr = q.u(2);
                REF_REQ(nr == 1, "frame begin region count %u", nr);
                stage = 1;
                break;
            }
            case 0xCCC4:
            {
                REF_REQ(stage == 1 && len >= 18, "region out of order or length %u", len);
                unsigned ts = q.u(1), nr = q.u(2), nq = q.u(1), np = q.u(1), fl = q.u(1), nt = q.u(2), dsz = q.u(4);
                REF_REQ(ts == 0x40 && np == 0 && fl == 1, "region content: tile size %u, prog quants %u, flags %u", ts, np, fl);
                REF_REQ(len >= 18 + 8 * nr + 5 * nq && dsz == len - 18 - 8 * nr - 5 * nq, "region length %u, %u rects, %u quants, data size %u", len, nr, nq, dsz);
                for (unsigned i = 0; i < nr; i++)
                {
                    Rect t;
                    t.x = q.u(2); t.y = q.u(2); t.cx = q.u(2); t.cy = q.u(2);
                    m.rects.push_back(t);
                }
                m.quants.assign(b + q.pos, b + q.pos + nq * 5);
                q.pos += nq * 5;
                m.tiles_off = q.pos;
                m.tiles_len = dsz;
                std::string e = parse_tiles(b, q.pos, dsz, nt, true, false, m);
                if (!e.empty()) return e;
                q.pos = pos + len;
                stage = 2;
                break;
            }
            case 0xCCC2:
                REF_REQ(stage == 2 && len == 6, "frame end out of order or length %u", len);
                stage = 3;
                break;
            default:
                return fmt("unknown block 0x%04x at %d", type, pos);
        }
        REF_REQ(!q.bad && q.pos == pos + (int) len, "block 0x%04x: length %u does not match its content", type, len);
        pos += len;
        if (stage == 3) break;
    }
    REF_REQ(stage == 3 && pos == n, "message of %d bytes: frame complete %d, parsed up to %d", n, stage == 3, pos);
    REF_REQ(seen_sync == seen_ctx, "incomplete stream header");
    m.has_header = seen_sync == 1;
    return "";
}

/* decode component k of a classic tile to coefficients (DPCM undone) */
inline std::string tile_coefs(const Bytes &v, const Tile &t, int k, int variant, bool pro, Coefs &c)
{
    std::string e = rlgr_decode(pro ? 1 : variant, v.data() + t.poff[k], t.plen[k], c.data(), 4096);
    if (!e.empty()) return fmt("component %d: %s", k, e.c_str());
    if (pro) undpcm(c.data() + 4015, 81);
    else undpcm(c.data() + 4032, 64);
    return "";
}

/* -------------------------------------------------------- progressive client */
struct Client
{
    typedef std::array<Coefs, 3> Cell;
    std::map<int, std::shared_ptr<Cell>> cells;
    std::string apply(const Bytes &v, const Msg &m)
    {
        for (size_t i = 0; i < m.tiles.size(); i++)
        {
            const Tile &t = m.tiles[i];
            REF_REQ((t.flags & ~1) == 0, "tile %d: flags %d", (int) i, t.flags);
            std::shared_ptr<Cell> n(new Cell);
            for (int k = 0; k < 3; k++)
            {
                std::string e = tile_coefs(v, t, k, 1, true, (*n)[k]);
                if (!e.empty()) return fmt("tile %d (%d,%d): %s", (int) i, t.x, t.y, e.c_str());
            }
            int key = t.x * 65536 + t.y;
            if (t.flags & 1)
            {
                auto it = cells.find(key);
                if (it != cells.end())
                    for (int k = 0; k < 3; k++)
                        for (int j = 0; j < 4096; j++) (*n)[k][j] += (*it->second)[k][j];
            }
            cells[key] = n;
        }
        return "";
    }
};

static const uint8_t DEFQ[5] = {0x66, 0x66, 0x77, 0x88, 0x98};
} /* namespace ref */
