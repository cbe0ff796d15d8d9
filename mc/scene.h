/* A complete argument set whose arrays lie in guarded, read-only memory of exactly the size the caller declares. */
#pragma once
#include "pics.h"

struct Cfg
{
    int fmt, rl, alpha, acc, pro; /* acc 0 none, 1 SSE2, 2 SSE4.1 */
    int create_flags() const { return (rl ? RFX_FLAGS_RLGR1 : 0) | (acc == 0 ? RFX_FLAGS_NOACCEL : 0) | (pro ? RFX_FLAGS_PRO1 : 0); }
    std::string name() const
    {
        static const char *F[5] = {"BGRA", "RGBA", "BGR", "RGB", "YUV"};
        static const char *A[3] = {"noaccel", "sse2", "sse4.1"};
        return std::string(F[fmt]) + (pro ? " progressive" : rl ? " rlgr1" : " rlgr3") + (alpha ? " alpha " : " ") + A[acc];
    }
};
/* all 60 classic configurations followed by the progressive one */
inline const std::vector<Cfg> &all_cfgs()
{
    static std::vector<Cfg> v;
    if (v.empty())
    {
        for (int f = 0; f < 5; f++)
            for (int r = 0; r < 2; r++)
                for (int a = 0; a < 2; a++)
                    for (int c = 0; c < 3; c++) v.push_back({f, r, a, c, 0});
        v.push_back({RFX_FORMAT_YUV, 0, 0, 2, 1});
    }
    return v;
}

struct Scene
{
    Cfg cfg;
    int n = 0;             /* tiles */
    int cx = 64, cy = 64;  /* size of the last tile (RGB) */
    std::vector<uint8_t> pix, quants;
    std::vector<rfx_tile> tiles;
    std::vector<rfx_rect> rects;
    int w = 0, h = 0, stride = 0;
    bool noquants = false;

    /* n tiles in a row; the last one is lcx x lcy for RGB; content picks the pictures */
    Scene(const Cfg &c, int n_, int content, int nq, int nr, int lcx = 64, int lcy = 64, int pad = 0) : cfg(c), n(n_), cx(lcx), cy(lcy)
    {
        if (c.fmt == RFX_FORMAT_YUV)
        {
            w = 64 * (n ? n : 1);
            h = 64;
            stride = w * 4;
            size_t per = 16384, last = c.alpha ? 16384 : 12288;
            pix.assign(n ? (n - 1) * per + last : 0, 0);
            for (int t = 0; t < n; t++)
                for (int k = 0; k < (t == n - 1 && !c.alpha ? 3 : 4); k++) picture(content, t, k, &pix[t * per + k * 4096]);
        }
        else
        {
            int b = bpp(c.fmt);
            w = 64 * (n ? n - 1 : 0) + lcx;
            h = n > 1 ? 64 : lcy;
            stride = w * b + pad;
            pix.assign(n ? (size_t) (h - 1) * stride + w * b : 0, 0);
            if (n > 1 && lcy < 64)
            {
                /* rows below the last tile belong to the earlier ones */
                pix.resize((size_t) (h - 1) * stride + 64 * (n - 1) * b);
            }
            static thread_local uint8_t p[4][4096];
            for (int t = 0; t < n; t++)
            {
                for (int k = 0; k < 4; k++) picture(content, t, k, p[k]);
                int tx = t == n - 1 ? lcx : 64, ty = t == n - 1 ? lcy : 64;
                for (int y = 0; y < ty; y++)
                    for (int x = 0; x < tx; x++)
                        for (int k = 0; k < b; k++)
                        {
                            size_t o = (size_t) y * stride + (t * 64 + x) * b + k;
                            if (o < pix.size()) pix[o] = p[k][y * 64 + x];
                        }
            }
        }
        quants.resize(5 * nq);
        for (int q = 0; q < nq; q++) { if (content >= 100) qset(&quants[5 * q], 6); else qnth(&quants[5 * q], q); }
        for (int t = 0; t < n; t++)
            tiles.push_back(mk_tile(t * 64, 0, t == n - 1 && c.fmt != RFX_FORMAT_YUV ? lcx : 64, t == n - 1 && c.fmt != RFX_FORMAT_YUV ? lcy : 64, nq ? t % nq : 0, nq ? (t + 1) % nq : 0, nq ? (nq - 1) : 0));
        for (int r = 0; r < nr; r++) rects.push_back(mk_rect(r, r * 2, 64 + r, 64));
        noquants = nq == 0;
    }
    static void picture(int content, int t, int k, uint8_t *p)
    {
        switch (content % 100)
        {
            case 0: memset(p, 100 + t, 4096); break;
            case 1: pic_alpha(t * 5 + k * 3, p); break;
            case 2: fill_noise(p, 4096, t * 4 + k); break;
            case 3: fill_noise(p, 4096, t * 4 + k); for (int i = 0; i < 4096; i++) p[i] = p[i] & 1 ? 255 : 0; break;
            case 4: pic_alpha(13 + t, p); break;                       /* weak texture: small payload */
            case 5: for (int i = 0; i < 4096; i++) p[i] = ((i & 63) * 3 + (i >> 6) * 5 + t * 17 + k * 40) & 255; break;
            default: pic_alpha(content + t + k, p);
        }
    }
    Args args() const
    {
        Args a;
        a.buf = pix.data();
        a.w = w; a.h = h; a.stride = stride;
        a.rects = rects;
        a.tiles = tiles;
        a.quants = noquants ? nullptr : quants.data();
        a.nquants = noquants ? 0 : (int) quants.size() / 5;
        a.flags = cfg.alpha ? RFX_FLAGS_ALPHAV1 : 0;
        return a;
    }
};

/* guarded copies of a scene's arrays */
class Guarded
{
public:
    Guard gp, gr, gt, gq;
    Scene *s = nullptr;
    bool start = false;
    const uint8_t *buf, *q;
    const rfx_rect *r;
    const rfx_tile *t;
    Guarded(size_t pixcap) : gp(pixcap), gr(66000 * sizeof(rfx_rect)), gt(4200 * sizeof(rfx_tile)), gq(5 * 30000) {}
    /* at_start: the arrays begin right after an inaccessible page instead of ending before one */
    void load(Scene &sc, bool at_start, int align = 0)
    {
        s = &sc;
        gp.readonly(false); gr.readonly(false); gt.readonly(false); gq.readonly(false);
        buf = put(gp, sc.pix.data(), sc.pix.size(), at_start);
        r = (const rfx_rect *) put(gr, sc.rects.data(), sc.rects.size() * sizeof(rfx_rect), at_start);
        t = (const rfx_tile *) put(gt, sc.tiles.data(), sc.tiles.size() * sizeof(rfx_tile), at_start);
        q = sc.noquants ? nullptr : put(gq, sc.quants.data(), sc.quants.size(), at_start);
        gp.readonly(true); gr.readonly(true); gt.readonly(true); gq.readonly(true);
    }
    int call(Lib &L, void *h, uint8_t *out, int *bytes, int extra_flags = 0) const
    {
        return L.encode_ex(h, (char *) out, bytes, (const char *) buf, s->w, s->h, s->stride, r, (int) s->rects.size(), t, (int) s->tiles.size(),
                           (const char *) q, s->noquants ? (int) s->rects.size() : (int) s->quants.size() / 5, (s->cfg.alpha ? RFX_FLAGS_ALPHAV1 : 0) | extra_flags);
    }
private:
    static uint8_t *put(Guard &g, const void *p, size_t n, bool at_start)
    {
        uint8_t *d = at_start ? g.at_start(n) : g.at_end(n);
        if (n) memcpy(d, p, n);
        return d;
    }
};

/* one call with far more tiles than the picture has: every tile of a 16 x 16 grid over and over, in changing order */
struct LongList
{
    std::vector<uint8_t> px, quants;
    Args a;
    LongList(int fmt, int n, bool alpha, unsigned seed, int grid = 16)
    {
        int b = bpp(fmt), planar = fmt == RFX_FORMAT_YUV, w = grid * 64;
        a.w = a.h = w;
        a.stride = planar ? w * 4 : w * b;
        px.resize(planar ? (size_t) grid * grid * 16384 : (size_t) a.stride * w);
        for (int t = 0; t < grid * grid; t++)
        {
            /* 4 x 4 blocks of flat colour per plane, different in every tile */
            for (int k = 0; k < (planar ? 4 : b); k++)
                for (int y = 0; y < 64; y++)
                    for (int x = 0; x < 64; x++)
                    {
                        unsigned h = (((unsigned) t * 4 + k) * 16 + (y / 16) * 4 + x / 16 + seed * 7919u) * 2654435761u;
                        uint8_t v = (uint8_t) (h >> 22);
                        if (planar) px[(size_t) t * 16384 + k * 4096 + y * 64 + x] = v;
                        else px[((size_t) (t / grid) * 64 + y) * a.stride + ((t % grid) * 64 + x) * b + k] = v;
                    }
        }
        quants.resize(5 * 3);
        for (int j = 0; j < 3; j++) qset(&quants[5 * j], 8 + j);
        a.buf = px.data();
        a.quants = quants.data();
        a.nquants = 3;
        a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        a.cap = 8 * 1024 * 1024 - 8192;
        a.rects.push_back(mk_rect(0, 0, w, w));
        for (int t = 0; t < n; t++)
        {
            int g = grid * grid, u = (t * 7 + t / g * 3) % g;
            a.tiles.push_back(mk_tile((u % grid) * 64, (u / grid) * 64, planar ? 64 : 64 - t % 3, planar ? 64 : 64 - t % 5, t % 3, (t + 1) % 3, t / 3 % 3));
        }
    }
};
