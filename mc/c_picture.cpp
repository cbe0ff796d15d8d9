/* C06: an independent decoder reproduces the picture */
#include "pro.h"
#include "scene.h"
#include <math.h>

namespace {

/* error allowed per pixel by a quantisation set: half a step of every coefficient plus transform rounding, through the synthesis gains */
void bound(const uint8_t *q, bool pro, double *b)
{
    const Gains &g = pro ? gains_pro() : gains_classic();
    const ref::Band *B = pro ? ref::PBANDS : ref::CBANDS;
    for (int i = 0; i < 4096; i++) b[i] = 1;
    for (int k = 0; k < 10; k++)
    {
        double e = ((1 << (ref::qnib(q, B[k].q) - 2)) + 4) / 32.0;
        for (int i = 0; i < 4096; i++) b[i] += g.g[k][i] * e;
    }
    if (pro) b[4095] += 33; /* the saturated corner sample */
}

struct Decoded { double p[3][4096], b[3][4096]; };

/* coefficients -> pixels with the tables of the message, checked against the prescribed pipeline */
std::string picture(const ref::Coefs *co, const ref::Msg &m, const ref::Tile &t, const Planes &src, bool pro, Decoded &D)
{
    static thread_local double d[4096], w[4096];
    static thread_local ref::Coefs want;
    const ref::Band *B = pro ? ref::PBANDS : ref::CBANDS;
    for (int k = 0; k < 3; k++)
    {
        if (t.qidx[k] * 5 + 5 > (int) m.quants.size()) return ref::fmt("quantisation index %d not in the message", t.qidx[k]);
        const uint8_t *q = m.quants.data() + 5 * t.qidx[k];
        ref::dequant(co[k].data(), q, B, d);
        if (pro) ref::inv_pro(d, D.p[k]); else ref::inv_classic(d, D.p[k]);
        if (pro) ref::fwd_pro(src.p[k], q, want); else ref::fwd_classic(src.p[k], q, want);
        if (memcmp(want.data(), co[k].data(), sizeof(int) * 4096))
        {
            ref::dequant(want.data(), q, B, d);
            if (pro) ref::inv_pro(d, w); else ref::inv_classic(d, w);
            for (int i = 0; i < 4096; i++)
                if (fabs(w[i] - D.p[k][i]) > 1e-6)
                    return ref::fmt("component %d decodes to %.3f at (%d,%d), the prescribed pipeline gives %.3f (source %d)", k, D.p[k][i], i % 64, i / 64, w[i], src.p[k][i]);
        }
        bound(q, pro, D.b[k]);
        for (int i = 0; i < 4096; i++)
            if (fabs(D.p[k][i] - src.p[k][i]) > D.b[k][i])
                return ref::fmt("component %d decodes to %.3f at (%d,%d), source %d, allowed error %.3f", k, D.p[k][i], i % 64, i / 64, src.p[k][i], D.b[k][i]);
    }
    return "";
}

/* full check of a classic message, down to RGB pixels for RGB sources */
std::string decode_classic(const Enc &e, const Args &a, const Res &r, Ctx &c)
{
    static thread_local Planes P;
    static thread_local ref::Coefs co[3];
    static thread_local Decoded D;
    ref::Msg m;
    std::string s = parse_msg(e, r, m);
    if (!s.empty()) return s;
    if ((int) m.tiles.size() != r.ret || r.ret > (int) a.tiles.size()) return ref::fmt("%d tiles in the message, returned %d", (int) m.tiles.size(), r.ret);
    for (size_t i = 0; i < m.tiles.size(); i++)
    {
        const ref::Tile &t = m.tiles[i];
        const rfx_tile &g = a.tiles[i];
        if (t.x != g.x / 64 || t.y != g.y / 64) return ref::fmt("tile %d lands at (%d,%d) instead of (%d,%d)", (int) i, t.x, t.y, g.x / 64, g.y / 64);
        expected_planes(e.format, a, g, P);
        for (int k = 0; k < 3; k++)
        {
            s = ref::tile_coefs(r.out, t, k, e.variant(), false, co[k]);
            if (!s.empty()) return ref::fmt("tile %d: %s", (int) i, s.c_str());
        }
        s = picture(co, m, t, P, false, D);
        if (!s.empty()) return ref::fmt("tile %d: %s", (int) i, s.c_str());
        if (e.format != RFX_FORMAT_YUV)
        {
            int n = bpp(e.format), ri = (e.format == RFX_FORMAT_BGRA || e.format == RFX_FORMAT_BGR) ? 2 : 0;
            for (int y = 0; y < g.cy; y++)
                for (int x = 0; x < g.cx; x++)
                {
                    const uint8_t *px = a.buf + (long) (g.y + y) * a.stride + (long) (g.x + x) * n;
                    int o = y * 64 + x;
                    double R, G, Bl;
                    ref::yuv2rgb(D.p[0][o], D.p[1][o] - 128, D.p[2][o] - 128, &R, &G, &Bl);
                    double ey = D.b[0][o], eb = D.b[1][o], er = D.b[2][o];
                    if (fabs(R - px[ri]) > ey + 1.41 * er + 4 || fabs(G - px[1]) > ey + 0.35 * eb + 0.72 * er + 4 || fabs(Bl - px[2 - ri]) > ey + 1.78 * eb + 4)
                        return ref::fmt("tile %d pixel (%d,%d) decodes to rgb %.1f,%.1f,%.1f, source %d,%d,%d", (int) i, x, y, R, G, Bl, px[ri], px[1], px[2 - ri]);
                }
        }
        c.evals++;
        c.outcome(tile_hash(r, t));
    }
    return "";
}

/* progressive: client with per-cell source record */
struct ProView
{
    Enc e;
    ref::Client cl;
    ProView() : e(lib(), 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1) {}
    void put(Ctx &c, const Args &a)
    {
        static thread_local Planes P;
        static thread_local Decoded D;
        if (!e.h) c.fail("creation failed");
        Res r = e.call(a);
        ref::Msg m;
        c.req(parse_msg(e, r, m));
        if ((int) m.tiles.size() != r.ret || r.ret > (int) a.tiles.size()) c.fail("%d tiles in the message, returned %d", (int) m.tiles.size(), r.ret);
        for (size_t i = 0; i < m.tiles.size(); i++)
        {
            ref::Msg one = m;
            one.tiles.assign(1, m.tiles[i]);
            c.req(cl.apply(r.out, one));
            const ref::Tile &t = m.tiles[i];
            const rfx_tile &g = a.tiles[i];
            if (t.x != g.x / 64 || t.y != g.y / 64) c.fail("tile %d lands at (%d,%d) instead of (%d,%d)", (int) i, t.x, t.y, g.x / 64, g.y / 64);
            expected_planes(RFX_FORMAT_YUV, a, g, P);
            std::string s = picture(cl.cells[t.x * 65536 + t.y]->data(), m, t, P, true, D);
            if (!s.empty()) c.fail("%s tile %d: %s", t.flags & 1 ? "difference" : "full", (int) i, s.c_str());
            c.evals++;
            c.outcome(tile_hash(r, t));
        }
    }
    void put(Ctx &c, const YuvTile &t, const uint8_t *q, int nq, const int *qi = nullptr)
    {
        Args a = yuv_args(t.p[0], q, nq);
        if (qi) { a.tiles[0].quant_y = qi[0]; a.tiles[0].quant_cb = qi[1]; a.tiles[0].quant_cr = qi[2]; }
        put(c, a);
    }
};

/* single-tile arguments over three planes taken as YUV or as the first three bytes of each pixel */
struct One
{
    Args a;
    std::vector<uint8_t> px;
    One(int fmt, const YuvTile &t, const uint8_t *q, int nq, int cx = 64, int cy = 64)
    {
        if (fmt == RFX_FORMAT_YUV) { a = yuv_args(t.p[0], q, nq); return; }
        int n = bpp(fmt);
        px.resize((size_t) cx * cy * n);
        for (int y = 0; y < cy; y++)
            for (int x = 0; x < cx; x++)
                for (int k = 0; k < n; k++) px[(y * cx + x) * n + k] = t.p[k][y * 64 + x];
        a = yuv_args(px.data(), q, nq);
        a.w = cx; a.h = cy; a.stride = cx * n;
        a.tiles[0] = mk_tile(0, 0, cx, cy);
    }
};
void go(Ctx &c, int fmt, int rl, int acc, const YuvTile &t, const uint8_t *q, int nq, const int *qi = nullptr, int cx = 64, int cy = 64, int alpha = 0)
{
    force_cpu(lib(), acc);
    Enc e(lib(), 64, 64, fmt, (rl ? RFX_FLAGS_RLGR1 : 0) | (acc == 0 ? RFX_FLAGS_NOACCEL : 0));
    force_cpu(lib(), -1);
    if (!e.h) c.fail("creation failed");
    One o(fmt, t, q, nq, cx, cy);
    if (qi) { o.a.tiles[0].quant_y = qi[0]; o.a.tiles[0].quant_cb = qi[1]; o.a.tiles[0].quant_cr = qi[2]; }
    if (alpha) o.a.flags = RFX_FLAGS_ALPHAV1;
    Res r = e.call(o.a);
    if (r.ret != 1) c.fail("call returned %d", r.ret);
    c.req(decode_classic(e, o.a, r, c));
}
const uint8_t Q6[5] = {0x66, 0x66, 0x66, 0x66, 0x66};

} /* namespace */

CHECK_DEF(C06)
{
    bool th = !K.quick();
    K.rule = "Every case encodes one or more tiles with the real library, decodes the message with an independent decoder (entropy decoding, dequantisation with the tables found in the message, inverse wavelet, inverse colour conversion), requires the decoded planes to equal those of the prescribed pipeline and every pixel to lie within the error bound derived from the synthesis gains of those tables. Distinct: tile bytes differ from all others (hash).";
    K.assumptions.push_back("quantisation values are in the protocol's range 6..15");
    K.assumptions.push_back("the corner pixel (63,63) of a progressive tile may carry up to 33 grey levels more error because the extrapolated corner sample saturates");
    gains_classic(); gains_pro(); signs_classic(); signs_pro();
    K.add("pictures", (uint64_t) NPIC * 10 * 30, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pic = d.next(NPIC), v = d.next(10) + 6, fmt = d.next(5), rl = d.next(2), acc = d.next(3);
        static YuvTile t;
        for (int k = 0; k < 4; k++) pic_alpha(pic + k * 7, t.p[k]);
        uint8_t q[15];
        qset(q, v); qset(q + 5, v == 6 ? 15 : v - 1); qnth(q + 10, (unsigned) i);
        int qi[3] = {0, (pic & 1), (pic % 3)};
        go(c, fmt, rl, acc, t, q, 3, qi, 64, 64, pic & 1);
    }, [](uint64_t i) { Dim d(i); int pic = d.next(NPIC), v = d.next(10) + 6, fmt = d.next(5); return case_name("picture %d, quantisation %d, format %d, variant %d", pic, v, fmt, (int) d.i); });
    K.add("sizes", 4096ull * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cx = d.next(64) + 1, cy = d.next(64) + 1, fmt = d.i;
        static YuvTile t;
        for (int k = 0; k < 4; k++) pic_alpha((cx + cy) % 2 ? 12 + k : 16 + k * 7, t.p[k]);
        go(c, fmt, (cx ^ cy) & 1, (cx + cy) % 3, t, Q6, 1, nullptr, cx, cy, (cx >> 1) & 1);
    }, [](uint64_t i) { Dim d(i); int cx = d.next(64) + 1, cy = d.next(64) + 1; return case_name("tile of %dx%d pixels, format %d", cx, cy, (int) d.i); });
    K.add("impulse", 4096ull * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pos = d.next(4096), b = d.i;
        static YuvTile t;
        for (int k = 0; k < 4; k++) pic_impulse(pos + k * 1365, b & 1 ? 0 : 128, b & 2 ? 255 : 200, t.p[k]);
        go(c, (pos + b) % 5, pos & 1, pos % 3, t, Q6, 1);
    }, [](uint64_t i) { return case_name("impulse at pixel %d, kind %d", (int) (i % 4096), (int) (i / 4096)); });
    K.add("extremal", 8192, [](Ctx &c, uint64_t i) {
        static YuvTile t;
        for (int k = 0; k < 3; k++) pic_extremal(signs_classic(), (i + k * 1365) & 4095, (i / 4096) ^ (k & 1), t.p[k]);
        go(c, i & 1 ? RFX_FORMAT_YUV : (int) (i / 2 % 4), (i / 16) & 1, (int) (i % 3), t, Q6, 1);
    }, [](uint64_t i) { return case_name("picture extremal for coefficient %d", (int) (i % 4096)); });
    {
        /* colours: every step-th level in each channel, 64 colours per tile */
        int step = th ? 1 : 5;
        int lv = 255 / step + 1;
        uint64_t ncol = (uint64_t) lv * lv * lv;
        K.add("colours", (ncol + 63) / 64, [step, lv, ncol](Ctx &c, uint64_t i) {
            static YuvTile t;
            for (int b = 0; b < 64; b++)
            {
                uint64_t n = (i * 64 + b) % ncol;
                int v[3] = {(int) (n % lv) * step, (int) (n / lv % lv) * step, (int) (n / lv / lv) * step};
                for (int k = 0; k < 3; k++)
                    for (int y = 0; y < 8; y++) memset(&t.p[k][((b / 8) * 8 + y) * 64 + (b % 8) * 8], v[k], 8);
            }
            memset(t.p[3], (int) i, 4096);
            go(c, (int) (i % 4), (int) (i / 4 % 2), 2, t, Q6, 1);
        }, [](uint64_t i) { return case_name("colour block %d", (int) i); });
    }
    K.add("quant-slot", 100ull * NPIC * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC), pro = d.i;
        uint8_t q[10];
        qset(q, 6); qput(q, slot, v);
        qset(q + 5, 12); qput(q + 5, slot, v);
        static YuvTile t;
        for (int k = 0; k < 4; k++) pic_alpha(pic + k * 5, t.p[k]);
        int qi[3] = {0, 1, pic & 1};
        if (pro)
        {
            ProView p;
            p.put(c, t, q, 2, qi);
            t.p[0][pic * 100] ^= 0x40; t.p[1][5] ^= 0x20;
            p.put(c, t, q, 2, qi);
        }
        else go(c, (slot + pic) % 5, v & 1, pic % 3, t, q, 2, qi);
    }, [](uint64_t i) { Dim d(i); int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC); return case_name("quantisation slot %d = %d, picture %d, %s", slot, v, pic, d.i ? "progressive" : "classic"); });
    K.add("tile-lists", 48 * 5, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(48) + 1, fmt = d.i;
        for (int s = 0; s < 3; s++)
        {
            Cfg g{fmt, n & 1, s == 2, s, 0};
            Scene sc(g, n, s == 0 ? 1 : s == 1 ? 5 : 2, 3, 1, 1 + (n * 11) % 64, 1 + (n * 5) % 64, n % 5);
            force_cpu(lib(), s);
            Enc e(lib(), sc.w, sc.h, fmt, g.create_flags());
            force_cpu(lib(), -1);
            Args a = sc.args();
            Res r = e.call(a);
            if (r.ret != n) c.fail("call returned %d of %d", r.ret, n);
            c.req(decode_classic(e, a, r, c));
        }
    }, [](uint64_t i) { return case_name("%d tiles in one call, format %d", (int) (i % 48) + 1, (int) (i / 48)); });
    K.add("long-lists", 5 * 2, [](Ctx &c, uint64_t i) {
        int fmt = i % 5, rl = (int) i / 5;
        LongList L(fmt, 2100, (fmt + rl) & 1, (unsigned) i);
        force_cpu(lib(), (fmt + rl) % 3);
        Enc e(lib(), 1024, 1024, fmt, rl ? RFX_FLAGS_RLGR1 : 0);
        force_cpu(lib(), -1);
        Res r = e.call(L.a);
        if (r.ret != 2100) c.fail("call returned %d of 2100", r.ret);
        c.req(decode_classic(e, L.a, r, c));
    }, [](uint64_t i) { return case_name("2100 tiles in one call, format %d, rlgr%d", (int) (i % 5), i / 5 ? 1 : 3); });
    K.add("session", 20, [](Ctx &c, uint64_t i) {
        Cfg g{(int) (i % 5), (int) (i / 5 % 2), 0, (int) (i % 3), 0};
        force_cpu(lib(), g.acc);
        Enc e(lib(), 256, 64, g.fmt, g.create_flags());
        force_cpu(lib(), -1);
        for (int f = 0; f < 300; f++)
        {
            g.alpha = f % 3 == 1;
            Scene sc(g, 1 + f % 3, f % 6, 1 + f % 5, f % 3, 1 + (f * 7) % 64, 1 + (f * 13) % 64, f % 7);
            Args a = sc.args();
            Res r = e.call(a);
            if (r.ret != (int) a.tiles.size()) c.fail("frame %d: call returned %d", f, r.ret);
            std::string s = decode_classic(e, a, r, c);
            if (!s.empty()) c.fail("frame %d: %s", f, s.c_str());
        }
    }, [](uint64_t i) { return case_name("300 frames on one encoder, configuration %d", (int) i); });
    /* progressive */
    K.add("pro-pairs", (uint64_t) NPIC * NPIC * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(NPIC), b = d.next(NPIC), qv = d.i;
        static YuvTile t, u;
        for (int k = 0; k < 3; k++) { pic_alpha(a + k * 5, t.p[k]); pic_alpha(b + k * 5, u.p[k]); }
        uint8_t q[10];
        qset(q, qv == 1 ? 9 : 6);
        if (qv >= 2) qnth(q, (unsigned) i);
        qset(q + 5, qv == 3 ? 12 : 6);
        ProView p;
        int z[3] = {0, 0, 0}, x[3] = {1, 0, 1};
        p.put(c, t, q, 2, z);
        p.put(c, u, q, 2, qv == 3 ? x : z);
        p.put(c, t, q, 2, z);
        p.put(c, t, q, 2, qv == 3 ? x : z);
    }, [](uint64_t i) { Dim d(i); int a = d.next(NPIC), b = d.next(NPIC); return case_name("progressive pictures %d, %d, %d, %d, quantisation class %d", a, b, a, a, (int) d.i); });
    /* only some of the components change */
    K.add("pro-components", (uint64_t) NPIC * NPIC * 6, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(NPIC), b = d.next(NPIC), mask = d.i + 1;
        static YuvTile t;
        for (int k = 0; k < 3; k++) pic_alpha(a + k * 5, t.p[k]);
        ProView p;
        p.put(c, t, Q6, 1);
        for (int k = 0; k < 3; k++) if (mask & (1 << k)) pic_alpha(b + k * 3, t.p[k]);
        p.put(c, t, Q6, 1);
        /* then a few pixels of every component */
        for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) t.p[k][(j * 1500 + k * 77 + a) & 4095] ^= 0x44;
        p.put(c, t, Q6, 1);
        for (int k = 0; k < 3; k++) if (!(mask & (1 << k))) pic_alpha(b + k * 3, t.p[k]);
        p.put(c, t, Q6, 1);
        /* and a shift of the whole level, which leaves the detail bands as they are */
        for (int k = 0; k < 3; k++) if (mask & (1 << k)) for (int j = 0; j < 4096; j++) t.p[k][j] += 16;
        p.put(c, t, Q6, 1);
        t.p[1][2000] ^= 0x30;
        p.put(c, t, Q6, 1);
    }, [](uint64_t i) { Dim d(i); int a = d.next(NPIC), b = d.next(NPIC); return case_name("progressive: picture %d, components of mask %d become picture %d, then others", a, (int) d.i + 1, b); });
    K.add("pro-impulse", 4096ull * 2, [](Ctx &c, uint64_t i) {
        static YuvTile t;
        int pos = i % 4096, b = i / 4096;
        for (int k = 0; k < 3; k++) { if (b) fill_noise(t.p[k], 4096, 9 + k); else pic_alpha(4 + k, t.p[k]); }
        ProView p;
        p.put(c, t, Q6, 1);
        for (int k = 0; k < 3; k++) t.p[k][(pos + k * 1365) & 4095] ^= b ? 0x80 : 0xff;
        p.put(c, t, Q6, 1);
        for (int k = 0; k < 3; k++) pic_impulse(pos + k * 1365, 128, b ? 255 : 0, t.p[k]);
        p.put(c, t, Q6, 1);
    }, [](uint64_t i) { return case_name("progressive: change of pixel %d, background %d", (int) (i % 4096), (int) (i / 4096)); });
    K.add("pro-extremal", 8192, [](Ctx &c, uint64_t i) {
        static YuvTile t;
        for (int k = 0; k < 3; k++) pic_extremal(signs_pro(), (i + k * 1365) & 4095, (i / 4096) ^ (k & 1), t.p[k]);
        ProView p;
        p.put(c, t, Q6, 1);
        for (int k = 0; k < 3; k++) for (int j = 0; j < 4096; j++) t.p[k][j] = 255 - t.p[k][j];
        p.put(c, t, Q6, 1);
    }, [](uint64_t i) { return case_name("progressive: picture extremal for coefficient %d, then its negative", (int) (i % 4096)); });
    K.add("pro-words", 4096, [](Ctx &c, uint64_t i) {
        /* six updates, each of one of two positions with one of four pictures (two of them close), position from the index */
        Dim d(i);
        std::vector<uint8_t> pix(2 * 16384);
        ProView p;
        uint8_t q[10];
        qset(q, 6); qnth(q + 5, 3);
        for (int s = 0; s < 6; s++)
        {
            int pic = d.next(4), pos = (i >> s) & 1;
            static const int PC[4] = {1, 10, 4, 6};
            for (int k = 0; k < 3; k++) pic_alpha(PC[pic], &pix[pos * 16384 + k * 4096]);
            Args a;
            a.buf = pix.data(); a.w = 128; a.h = 64; a.stride = 512;
            a.rects.push_back(mk_rect(0, 0, 128, 64));
            int qi = (i >> (s + 3)) & 1;
            a.tiles.push_back(mk_tile(pos * 64, 0, 64, 64, qi, 0, qi));
            if (s % 3 == 2) a.tiles.push_back(mk_tile((1 - pos) * 64, 0, 64, 64, 0, 0, 1));
            a.quants = q; a.nquants = 2;
            p.put(c, a);
        }
    }, [](uint64_t i) { return case_name("progressive history %d (six updates over two positions)", (int) i); });
    /* long tables: each component takes its set from anywhere in the table */
    K.add("quant-index", 255ull * 3 * 11, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int idx = d.next(255), k = d.next(3), v = d.i;
        int nq = idx < 40 ? 40 : 255;
        std::vector<uint8_t> q(5 * nq);
        for (int j = 0; j < nq; j++) qnth(&q[5 * j], j * 3 + 1);
        static YuvTile t;
        for (int j = 0; j < 4; j++) pic_alpha(6 + j * 5 + idx % 3, t.p[j]);
        int qi[3] = {(idx * 7 + 1) % nq, (idx * 5 + 2) % nq, (idx * 3) % nq};
        qi[k] = idx;
        if (v == 10)
        {
            ProView p;
            p.put(c, t, q.data(), nq, qi);
            t.p[k][idx * 16] ^= 0x30;
            qi[(k + 1) % 3] = nq - 1 - idx;
            p.put(c, t, q.data(), nq, qi);
        }
        else go(c, v % 5, idx & 1, idx % 3, t, q.data(), nq, qi, 64, 64, v / 5);
    }, [](uint64_t i) { Dim d(i); int idx = d.next(255), k = d.next(3); return case_name("set %d of a long table for component %d, %s, format %d", idx, k, d.i == 10 ? "progressive" : d.i >= 5 ? "classic with alpha" : "classic", (int) (d.i % 5)); });
    /* one encoder, one pixel buffer, contents replaced between calls */
    K.add("same-buffer", (uint64_t) NPIC * NPIC * 10, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int p0 = d.next(NPIC), p1 = d.next(NPIC), fmt = d.next(5), alpha = d.i, acc = (p0 + p1) % 3;
        static YuvTile t, u;
        for (int k = 0; k < 4; k++) { pic_alpha(p0 + k * 7, t.p[k]); pic_alpha(p1 + k * 3, u.p[k]); }
        force_cpu(lib(), acc);
        Enc e(lib(), 64, 64, fmt, (p0 & 1) | (acc == 0 ? RFX_FLAGS_NOACCEL : 0));
        force_cpu(lib(), -1);
        One o(fmt, t, Q6, 1), o2(fmt, u, Q6, 1);
        std::vector<uint8_t> buf(16384);
        for (int s = 0; s < 3; s++)
        {
            const One &x = s == 1 ? o2 : o;
            memcpy(buf.data(), x.a.buf, fmt == RFX_FORMAT_YUV ? 16384 : x.px.size());
            Args a = x.a;
            a.buf = buf.data();
            a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
            Res r = e.call(a);
            if (r.ret != 1) c.fail("call returned %d", r.ret);
            c.req(decode_classic(e, a, r, c));
        }
    }, [](uint64_t i) { Dim d(i); int a = d.next(NPIC), b = d.next(NPIC), f = d.next(5); return case_name("pictures %d, %d, %d in the same buffer, format %d%s", a, b, a, f, d.i ? ", alpha" : ""); });
}
