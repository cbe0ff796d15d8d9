/* C05 (classic coefficients), C16 (progressive coefficients) */
#include "pro.h"
#include "scene.h"
#include <memory>
#include <sys/mman.h>

namespace {

const int NACC = 3;
const uint8_t Q6[5] = {0x66, 0x66, 0x66, 0x66, 0x66};
int acc_flags(int acc) { return acc == 0 ? RFX_FLAGS_NOACCEL : 0; }

/* encode one YUV tile on a fresh classic encoder and compare all coefficients with the model */
void one_classic(Ctx &c, const YuvTile &t, const uint8_t *q, int nq, int acc, int rl, const int *qi = nullptr, bool alpha = false)
{
    Lib &L = lib();
    force_cpu(L, acc);
    Enc e(L, 64, 64, RFX_FORMAT_YUV, acc_flags(acc) | (rl ? RFX_FLAGS_RLGR1 : 0));
    if (!e.h) c.fail("creation failed");
    Args a = yuv_args(t.p[0], q, nq);
    if (qi) { a.tiles[0].quant_y = qi[0]; a.tiles[0].quant_cb = qi[1]; a.tiles[0].quant_cr = qi[2]; }
    if (alpha) a.flags |= RFX_FLAGS_ALPHAV1;
    Res r = e.call(a);
    if (r.ret != 1) c.fail("call returned %d instead of 1 tile", r.ret);
    ref::Msg m;
    c.req(parse_msg(e, r, m));
    if (m.tiles.size() != 1) c.fail("%d tiles in the message", (int) m.tiles.size());
    c.req(check_payload(e, a, r, m, false));
    c.evals++;
    c.outcome(ref::hash_bytes(r.out.data() + m.tiles[0].poff[0], m.tiles[0].plen[0] + m.tiles[0].plen[1] + m.tiles[0].plen[2]));
}

/* n tiles side by side in any format from per-tile planes; returns the call's arguments */
struct Planar
{
    std::vector<uint8_t> buf;
    Args a;
    int fmt, n;
    Planar(int fmt_, int n_) : fmt(fmt_), n(n_)
    {
        int bp = bpp(fmt), stride = n * 64 * bp;
        buf.resize(fmt == RFX_FORMAT_YUV ? (size_t) n * 16384 : (size_t) stride * 64);
        a.buf = buf.data();
        a.w = 64 * n; a.h = 64; a.stride = stride;
        a.rects.push_back(mk_rect(0, 0, 64 * n, 64));
        for (int j = 0; j < n; j++) a.tiles.push_back(mk_tile(j * 64, 0));
    }
    /* plane k of tile t: Y/R, Cb/G, Cr/B, A */
    void set(int t, int k, const uint8_t *p)
    {
        if (fmt == RFX_FORMAT_YUV) { memcpy(&buf[(size_t) t * 16384 + k * 4096], p, 4096); return; }
        int bp = bpp(fmt), o = k == 1 || k == 3 ? k : (fmt == RFX_FORMAT_BGRA || fmt == RFX_FORMAT_BGR) ? 2 - k : k;
        if (o >= bp) return;
        for (int y = 0; y < 64; y++)
            for (int x = 0; x < 64; x++) buf[(size_t) y * a.stride + (t * 64 + x) * bp + o] = p[y * 64 + x];
    }
    void fill(int t, int k, int v) { uint8_t p[4096]; memset(p, v, 4096); set(t, k, p); }
    void block(int t, int k, int bx, int by, int sz, int v)
    {
        int bp = bpp(fmt), o = k == 1 || k == 3 ? k : (fmt == RFX_FORMAT_BGRA || fmt == RFX_FORMAT_BGR) ? 2 - k : k;
        if (o >= bp) return;
        for (int y = 0; y < sz; y++)
            for (int x = 0; x < sz; x++) buf[(size_t) (by * sz + y) * a.stride + (t * 64 + bx * sz + x) * bp + o] = v;
    }
    /* encode on a fresh classic encoder and check every coefficient */
    void run(Ctx &c, int acc, int rl)
    {
        force_cpu(lib(), acc);
        Enc e(lib(), 64 * n, 64, fmt, acc_flags(acc) | (rl ? RFX_FLAGS_RLGR1 : 0));
        force_cpu(lib(), -1);
        if (!e.h) c.fail("creation failed");
        call(c, e);
    }
    void call(Ctx &c, Enc &e)
    {
        Res r = e.call(a);
        if (r.ret != (int) a.tiles.size()) c.fail("call returned %d of %d tiles", r.ret, (int) a.tiles.size());
        ref::Msg m;
        c.req(parse_msg(e, r, m));
        if (m.tiles.size() != a.tiles.size()) c.fail("%d tiles in the message", (int) m.tiles.size());
        c.req(check_payload(e, a, r, m, false));
        c.evals++;
        c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
    }
};
const char *FN[5] = {"BGRA", "RGBA", "BGR", "RGB", "YUV"};

const int BASES[4][2] = {{128, 255}, {0, 255}, {255, 0}, {128, 127}};

void add_pictures(Check &K, bool pro)
{
    auto enc = [pro](Ctx &c, const YuvTile &t, const uint8_t *q, int nq, int sel, const int *qi = nullptr) {
        if (pro)
        {
            /* sel bit 0: on a fresh history; otherwise over a related picture so that differences are coded */
            ProEnc p;
            if (sel & 1)
            {
                static thread_local YuvTile b;
                b = t;
                for (int k = 0; k < 3; k++) b.p[k][(sel * 769 + k * 1111) & 4095] ^= 0x80;
                p.put(c, b, q, nq, qi);
            }
            p.put(c, t, q, nq, qi);
        }
        else one_classic(c, t, q, nq, sel % 3, (sel / 3) & 1, qi);
    };
    int nsel = pro ? 2 : 6;
    bool thorough = !K.quick();
    /* every pixel position */
    K.add("impulse", 4096ull * 4 * (thorough ? nsel : (pro ? 2 : 3)), [enc, pro, thorough](Ctx &c, uint64_t i) {
        Dim d(i);
        int pos = d.next(4096), b = d.next(4);
        int sel = d.i;
        static thread_local YuvTile t;
        for (int k = 0; k < 3; k++) pic_impulse(pos + k * 1365, BASES[b][0], BASES[b][1], t.p[k]);
        enc(c, t, Q6, 1, pro || thorough ? sel : sel + 3 * (pos & 1));
    }, [](uint64_t i) { Dim d(i); int pos = d.next(4096), b = d.next(4); return case_name("impulse at pixel %d base %d value %d, variant %d", pos, BASES[b][0], BASES[b][1], (int) d.i); });
    /* pictures that drive each coefficient to its extreme values */
    if (pro) signs_pro(); else signs_classic();
    K.add("extremal", 4096ull * 2 * (thorough ? nsel : pro ? 2 : 3), [enc, pro](Ctx &c, uint64_t i) {
        Dim d(i);
        int co = d.next(4096), neg = d.next(2), sel = d.i;
        static thread_local YuvTile t;
        const SignMaps &S = pro ? signs_pro() : signs_classic();
        for (int k = 0; k < 3; k++) pic_extremal(S, (co + k * 1365) & 4095, neg ^ (k & 1), t.p[k]);
        enc(c, t, Q6, 1, sel);
    }, [](uint64_t i) { Dim d(i); int co = d.next(4096), neg = d.next(2); return case_name("picture extremal for coefficient %d (%s), variant %d", co, neg ? "min" : "max", (int) d.i); });
    /* all pairs of levels in two-level pictures */
    K.add("two-level", 65536ull * (thorough ? 2 : 1), [enc, pro](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(256), b = d.next(256), w = d.i;
        static thread_local YuvTile t;
        pic_two(w ? 3 : 0, a, b, t.p[0]);
        pic_two(w ? 5 : 1, a, b, t.p[1]);
        pic_two(w ? 6 : 2, a, b, t.p[2]);
        enc(c, t, Q6, 1, pro ? 0 : (a + b) % 6);
    }, [](uint64_t i) { Dim d(i); int a = d.next(256), b = d.next(256); return case_name("two-level pictures, levels %d and %d, set %d", a, b, (int) d.i); });
    /* all 4x4-periodic binary pictures */
    K.add("periodic", 21846ull * (thorough ? 2 : 1), [enc, pro](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(21846), w = d.i;
        static thread_local YuvTile t;
        for (int k = 0; k < 3; k++) pic_periodic((n * 3 + k) & 0xffff, w ? 100 : 0, w ? 133 : 255, t.p[k]);
        enc(c, t, Q6, 1, pro ? n & 1 : n % 6);
    }, [](uint64_t i) { return case_name("4x4-periodic binary pictures %d..", (int) (i % 21846) * 3); });
    /* every quantisation value in every slot, over a set of pictures */
    K.add("quant-slot", 100ull * NPIC * nsel, [enc](Ctx &c, uint64_t i) {
        Dim d(i);
        int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC), sel = d.i;
        uint8_t q[10];
        qset(q, 6); qput(q, slot, v);
        qset(q + 5, 15); qput(q + 5, slot, v);
        static thread_local YuvTile t;
        for (int k = 0; k < 3; k++) pic_alpha(pic + k * 7, t.p[k]);
        int qi[3] = {0, 1, (pic & 1)};
        enc(c, t, q, 2, sel, qi);
    }, [](uint64_t i) { Dim d(i); int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC); return case_name("quantisation slot %d = %d (others 6 / 15), picture %d, variant %d", slot, v, pic, (int) d.i); });
    /* every pair of slots x values on one noise picture */
    K.add("quant-pairs", 10000ull, [enc](Ctx &c, uint64_t i) {
        Dim d(i);
        int s1 = d.next(10), s2 = d.next(10), v1 = d.next(10) + 6, v2 = d.next(10) + 6;
        uint8_t q[5];
        qset(q, 8); qput(q, s1, v1); qput(q, s2, v2);
        static thread_local YuvTile t;
        for (int k = 0; k < 3; k++) fill_noise(t.p[k], 4096, 100 + k + (i & 7) * 3);
        enc(c, t, q, 1, i % 6);
    }, [](uint64_t i) { Dim d(i); int s1 = d.next(10), s2 = d.next(10), v1 = d.next(10) + 6, v2 = d.next(10) + 6; return case_name("quantisation slots %d=%d %d=%d", s1, v1, s2, v2); });
    /* every level x quantisation value, flat pictures and steps: rounding of every reachable low band value */
    K.add("level-quant", 256ull * 10, [enc](Ctx &c, uint64_t i) {
        Dim d(i);
        int lv = d.next(256), v = d.next(10) + 6;
        uint8_t q[5];
        qset(q, v);
        static thread_local YuvTile t;
        memset(t.p[0], lv, 4096);
        pic_two(3, lv, 128, t.p[1]);
        pic_two(4, 255 - lv, lv, t.p[2]);
        for (int s = 0; s < 6; s++) enc(c, t, q, 1, s);
    }, [](uint64_t i) { Dim d(i); int lv = d.next(256); return case_name("level %d at quantisation %d", lv, (int) d.i + 6); });
    /* number of sets 1..255 and every index of every set count, in every format with and without alpha */
    K.add("quant-index", 255 * (pro ? 1 : 10), [pro](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(255) + 1, fmt = pro ? 4 : d.next(5), alpha = d.i;
        static thread_local uint8_t t[4][4096];
        std::vector<uint8_t> q(5 * n);
        for (int j = 0; j < n; j++) qnth(&q[5 * j], j * 7 + n);
        Planar P(fmt, 1);
        for (int k = 0; k < 4; k++) { pic_alpha(n + k * 5, t[k]); P.set(0, k, t[k]); }
        P.a.quants = q.data();
        P.a.nquants = n;
        P.a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        ProEnc p;
        Enc e(lib(), 64, 64, fmt, (n + fmt) & 1);
        int step = n <= 40 ? 1 : n <= 100 ? 3 : 7;
        if (n == 255 || n == 128 || n == 129) step = 1;
        for (int j = 0; j < n; j += step)
        {
            P.a.tiles[0].quant_y = j;
            P.a.tiles[0].quant_cb = (j + n / 3) % n;
            P.a.tiles[0].quant_cr = n - 1 - j;
            if (pro) p.put(c, P.a);
            else P.call(c, e);
        }
    }, [pro](uint64_t i) { Dim d(i); int n = d.next(255) + 1, f = pro ? 4 : d.next(5); return case_name("%d quantisation sets, indices swept per component, %s%s", n, FN[f], d.i ? ", alpha" : ""); });
    /* many tiles in one call, each with its own sets */
    K.add("tile-list", 96 * (pro ? 1 : 10), [pro](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(96) + 1, fmt = pro ? 4 : d.next(5), alpha = d.i;
        static thread_local uint8_t t[4096];
        Planar P(fmt, n);
        for (int j = 0; j < n; j++)
            for (int k = 0; k < 4; k++) { pic_alpha(j * 5 + k * 3 + n, t); P.set(j, k, t); }
        std::vector<uint8_t> q(5 * 17);
        for (int j = 0; j < 17; j++) qnth(&q[5 * j], j + n);
        P.a.tiles.clear();
        for (int j = 0; j < n; j++) P.a.tiles.push_back(mk_tile((pro ? j % 64 : j) * 64, 0, 64, 64, j % 17, (j * 3) % 17, (j * 5 + 1) % 17));
        P.a.quants = q.data();
        P.a.nquants = 17;
        P.a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        if (pro) { ProEnc p; p.put(c, P.a); p.put(c, P.a); }
        else if (n % 4 == 0) for (int f = 0; f < 6; f++) P.run(c, f % 3, f / 3);
        else P.run(c, n % 3, (n / 3) & 1);
    }, [pro](uint64_t i) { Dim d(i); int n = d.next(96) + 1, f = pro ? 4 : d.next(5); return case_name("%d tiles in one call with differing quantisation indices, %s%s", n, FN[f], d.i ? ", alpha" : ""); });
    /* very long tile lists */
    K.add("long-lists", pro ? 2 : 20, [pro](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = pro ? 4 : d.next(5), alpha = d.next(2), rl = d.i;
        LongList L(fmt, pro ? 4500 : 2100, alpha, (unsigned) i, pro ? 64 : 16);
        if (pro)
        {
            LongList M(fmt, 4500, alpha, (unsigned) i + 9, 64);
            ProEnc p;
            p.put(c, L.a);
            p.put(c, M.a);
            return;
        }
        Planar P(fmt, 1);
        P.a = L.a;
        P.run(c, (fmt + rl) % 3, rl);
    }, [pro](uint64_t i) { Dim d(i); int f = pro ? 4 : d.next(5), al = d.next(2); return case_name("%s%s, %d tiles in one call, rlgr%d", FN[f], al ? ", alpha" : "", pro ? 4500 : 2100, d.i ? 1 : 3); });
    /* rounding ties: the extremal pictures of one coefficient per band and parity at every amplitude, every quantisation value */
    K.add("amplitudes", 40ull * 128 * (thorough ? 2 : 1), [enc, pro](Ctx &c, uint64_t i) {
        static const int OFF[2][10] = {{0, 1024, 2048, 3072, 3328, 3584, 3840, 3904, 3968, 4032}, {0, 1023, 2046, 3007, 3279, 3551, 3807, 3879, 3951, 4015}};
        static const int SZ[2][10] = {{1024, 1024, 1024, 256, 256, 256, 64, 64, 64, 64}, {1023, 1023, 961, 272, 272, 256, 72, 72, 64, 81}};
        Dim d(i);
        int band = d.next(10), pl = d.next(4), amp = d.next(128), v2 = d.i;
        const SignMaps &S = pro ? signs_pro() : signs_classic();
        static thread_local YuvTile t;
        for (int k = 0; k < 3; k++)
        {
            int n = SZ[pro][band], co = OFF[pro][band] + (pl == 0 ? 0 : pl == 1 ? n - 1 : pl == 2 ? n / 2 + 3 : n / 3);
            if (v2) co = OFF[pro][band] + (co - OFF[pro][band] + 7 + k * 5) % n;
            pic_extremal(S, co, k & 1, t.p[k]);
            for (int j = 0; j < 4096; j++)
            {
                int x = t.p[k][j] >= 128 ? 1 : -1;
                t.p[k][j] = k < 2 ? 128 + x * amp : 128 + (x > 0 ? amp : 0);
            }
        }
        uint8_t q[50];
        for (int v = 0; v < 10; v++) qset(q + 5 * v, v + 6);
        for (int v = 0; v < 10; v++)
        {
            int qi[3] = {v, v, v};
            enc(c, t, q, 10, pro ? 0 : (int) (i + v) % 6, qi);
        }
    }, [](uint64_t i) { Dim d(i); int band = d.next(10), pl = d.next(4), amp = d.next(128); return case_name("band %d, place %d, pictures of amplitude %d, all quantisation values, set %d", band, pl, amp, (int) d.i); });
    /* pixel noise; also long sessions on one encoder */
    K.add("noise", thorough ? 20000 : 2000, [enc](Ctx &c, uint64_t i) {
        static thread_local YuvTile t;
        uint8_t q[5];
        qnth(q, (unsigned) i);
        for (int k = 0; k < 3; k++)
        {
            fill_noise(t.p[k], 4096, 1000 + i * 3 + k);
            if (i % 4 == 1) for (int j = 0; j < 4096; j++) t.p[k][j] = 128 + ((int8_t) t.p[k][j] >> (i % 7));
            if (i % 4 == 2) for (int j = 1; j < 4096; j++) t.p[k][j] = (t.p[k][j - 1] * 7 + t.p[k][j]) / 8;
        }
        enc(c, t, i & 8 ? Q6 : q, 1, (int) (i % 6));
    }, [](uint64_t i) { return case_name("noise picture, seed %d", (int) i); });
    K.add("session", pro ? 8 : 12, [pro](Ctx &c, uint64_t i) {
        force_cpu(lib(), (int) (i % 3));
        ProEnc p;
        Enc e(lib(), 64, 64, RFX_FORMAT_YUV, acc_flags((int) (i % 3)) | (int) (i / 3 % 2));
        static thread_local YuvTile t;
        for (int f = 0; f < 700; f++)
        {
            uint8_t q[15];
            for (int k = 0; k < 3; k++)
            {
                pic_alpha(f * (int) (i + 1) + k * 11 + f / 24, t.p[k]);
                qnth(q + 5 * k, f / 3 + (unsigned) i);
            }
            Args a = yuv_args(t.p[0], f % 5 ? q : nullptr, f % 5 ? 3 : 0);
            if (f % 5) { a.tiles[0].quant_cb = 1; a.tiles[0].quant_cr = 2; }
            if (pro) p.put(c, a);
            else
            {
                a.flags = f % 3 == 0 ? RFX_FLAGS_ALPHAV1 : 0;
                pic_alpha(f + 1, t.p[3]);
                Res r = e.call(a);
                if (r.ret != 1) c.fail("frame %d: call returned %d", f, r.ret);
                ref::Msg m;
                std::string s = parse_msg(e, r, m);
                if (s.empty()) s = check_payload(e, a, r, m, false);
                if (!s.empty()) c.fail("frame %d: %s", f, s.c_str());
                c.evals++;
                c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
            }
        }
    }, [](uint64_t i) { return case_name("700 frames on one encoder, variant %d", (int) i); });
}

} /* namespace */

CHECK_DEF(C05)
{
    K.rule = "Each case is one or more tiles encoded by the real library and entropy-decoded; every one of the 4096 coefficients of every component is compared with an independent model of the prescribed pipeline. Non-trivial and distinct: the entropy-coded payload differs from every other payload seen (hash).";
    K.assumptions.push_back("quantisation values are in the protocol's range 6..15");
    K.assumptions.push_back("images outside the enumerated spaces (all impulses, per-coefficient extremal pictures, all two-level and 4x4-periodic pictures, all colours, listed noise) are not covered");
    /* all 2^24 colours, 16 per tile in 16x16 blocks, four tiles per call */
    K.add("all-colours", 262144ull * (K.quick() ? 1 : 8), [](Ctx &c, uint64_t i) {
        /* quick: all colours once, the formats alternating; thorough: all colours in each RGB format with and without alpha */
        uint64_t g = i % 262144, rep = i / 262144;
        int fmt = (int) ((g / 1021 + rep) % 4), alpha = (int) ((g / 4099 + rep / 4) & 1);
        static thread_local std::unique_ptr<Planar> PP[4];
        if (!PP[fmt]) PP[fmt].reset(new Planar(fmt, 4));
        Planar &P = *PP[fmt];
        for (int k = 0; k < 4; k++)
            for (int blk = 0; blk < 16; blk++)
            {
                unsigned col = (unsigned) (g * 64 + k * 16 + blk);
                P.block(k, 0, blk % 4, blk / 4, 16, col >> 16);
                P.block(k, 1, blk % 4, blk / 4, 16, (col >> 8) & 255);
                P.block(k, 2, blk % 4, blk / 4, 16, col & 255);
                if (bpp(fmt) == 4) P.block(k, 3, blk % 4, blk / 4, 16, (col * 37) & 255);
            }
        P.a.quants = Q6;
        P.a.nquants = 1;
        P.a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        P.run(c, g % 3, g & 1);
    }, [](uint64_t i) { return case_name("colours 0x%06x..0x%06x", (unsigned) (i % 262144) * 64, (unsigned) (i % 262144) * 64 + 63); });
    /* flat tiles: a 17x17x17 grid of colours and all greys, every format, with and without alpha */
    K.add("flat-colours", (4913ull + 256) * 8, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(4913 + 256), fmt = d.next(4), alpha = d.i, col[3];
        for (int k = 0, m = n; k < 3; k++, m /= 17) col[k] = n >= 4913 ? n - 4913 : m % 17 == 16 ? 255 : m % 17 * 16;
        Planar P(fmt, 1);
        for (int k = 0; k < 3; k++) P.fill(0, k, col[k]);
        P.fill(0, 3, n & 255);
        P.a.quants = Q6;
        P.a.nquants = 1;
        P.a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        P.run(c, n % 3, n & 1);
    }, [](uint64_t i) { Dim d(i); int n = d.next(4913 + 256), f = d.next(4); return case_name("flat colour %d, %s%s", n, FN[f], d.i ? ", alpha" : ""); });
    add_pictures(K, false);
    /* one encoder, one pixel buffer, contents replaced between calls */
    K.add("same-buffer", (uint64_t) NPIC * NPIC * 10, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int p0 = d.next(NPIC), p1 = d.next(NPIC), fmt = d.next(5), alpha = d.i, acc = (p0 + p1) % 3;
        force_cpu(lib(), acc);
        Enc e(lib(), 64, 64, fmt, acc_flags(acc) | (p0 & 1));
        force_cpu(lib(), -1);
        if (!e.h) c.fail("creation failed");
        Planar P(fmt, 1);
        uint8_t t[4096];
        P.a.quants = Q6;
        P.a.nquants = 1;
        P.a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        for (int s = 0; s < 3; s++)
        {
            for (int k = 0; k < 4; k++) { pic_alpha(s == 1 ? p1 + k * 3 : p0 + k * 7, t); P.set(0, k, t); }
            P.call(c, e);
        }
    }, [](uint64_t i) { Dim d(i); int a = d.next(NPIC), b = d.next(NPIC), f = d.next(5); return case_name("pictures %d, %d, %d in the same buffer, %s%s", a, b, a, FN[f], d.i ? ", alpha" : ""); });
}

CHECK_DEF(C16)
{
    K.rule = "Each case sends one or two pictures through the real progressive encoder, entropy-decodes every tile, applies it to a client model (replace or add) and compares all 4096 coefficients of all components with an independent reduce-extrapolate model. Distinct: the payload plus difference flag differs from every other (hash).";
    K.assumptions.push_back("quantisation values are in the protocol's range 6..15");
    K.assumptions.push_back("the extrapolated corner sample is saturated to the 16-bit coefficient range");
    K.add("picture-pairs", (uint64_t) NPIC * NPIC * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(NPIC), b = d.next(NPIC), qv = d.next(4);
        static thread_local YuvTile t, u;
        for (int k = 0; k < 3; k++) { pic_alpha(a + k * 5, t.p[k]); pic_alpha(b + k * 5, u.p[k]); }
        uint8_t q[10];
        qset(q, qv == 0 ? 6 : qv == 1 ? 8 : qv == 2 ? 10 : 6);
        qset(q + 5, qv == 3 ? 12 : 6);
        ProEnc p;
        int z[3] = {0, 0, 0}, o[3] = {1, 1, 1}, x[3] = {0, 1, 0};
        p.put(c, t, q, 2, z);
        int f1 = p.put(c, u, q, 2, qv == 3 ? o : z);
        int f2 = p.put(c, t, q, 2, qv == 3 ? x : z);
        int f3 = p.put(c, t, q, 2, qv == 3 ? x : z);
        c.state(a * 100000 + b * 1000 + qv * 100 + f1 * 4 + f2 * 2 + f3);
    }, [](uint64_t i) { Dim d(i); int a = d.next(NPIC), b = d.next(NPIC); return case_name("progressive: picture %d then %d then %d twice, quantisation class %d", a, b, a, (int) d.i); });
    add_pictures(K, true);
    /* every grid position, with its neighbours: the history a difference refers to is that of its own position */
    K.add("positions", 4096, [](Ctx &c, uint64_t i) {
        int x = i % 64, y = (int) i / 64;
        int at[4][2] = {{x, y}, {(x + 1) & 63, y}, {x, (y + 1) & 63}, {63 - x, (y + 32) & 63}};
        static uint8_t *fr;
        const size_t N = 4096ull * 16384;
        if (!fr) { fr = (uint8_t *) mmap(0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (fr == MAP_FAILED) { fr = nullptr; throw std::runtime_error("mmap"); } }
        ProEnc p;
        Args a;
        a.buf = fr; a.w = a.h = 4096; a.stride = 64 * 256;
        a.rects.push_back(mk_rect(0, 0, 4096, 4096));
        a.quants = Q6; a.nquants = 1;
        for (int s = 0; s < 3; s++)
        {
            a.tiles.clear();
            for (int j = 0; j < 4; j++)
            {
                uint8_t *t = fr + ((size_t) at[j][1] * 64 + at[j][0]) * 16384;
                for (int k = 0; k < 3; k++) { fill_noise(t + k * 4096, 4096, i % 7 * 12 + k); for (int n = 0; n <= s; n++) t[k * 4096 + 100 + n * 1000 + j * 64] ^= 0x55; }
                a.tiles.push_back(mk_tile(at[j][0] * 64, at[j][1] * 64));
            }
            p.put(c, a);
        }
        if (i % 256 == 255) madvise(fr, N, MADV_DONTNEED);
    }, [](uint64_t i) { return case_name("history around grid position (%d,%d)", (int) (i % 64), (int) (i / 64)); });
}
