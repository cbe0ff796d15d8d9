/* C08: alpha planes are lossless, self-delimiting and do not disturb the colour planes */
#include "scene.h"

namespace {

const uint8_t Q8[5] = {0x88, 0x88, 0x88, 0x88, 0x88};

/* one tile with the given alpha plane in format fmt, checked against the source and against the same call without alpha */
void one(Ctx &c, const uint8_t *al, int fmt, int rl = 0, int cx = 64, int cy = 64, int pad = 0)
{
    static std::vector<uint8_t> px;
    Args a;
    if (fmt == RFX_FORMAT_YUV)
    {
        px.resize(16384);
        for (int k = 0; k < 3; k++) memset(&px[4096 * k], 60 + k * 50, 4096);
        for (int i = 0; i < 64; i++) px[i * 65] = i;
        memcpy(&px[12288], al, 4096);
        a = yuv_args(px.data(), Q8, 1);
        a.tiles[0] = mk_tile(0, 0, cx, cy); /* the declared size has no meaning for YUV tiles */
    }
    else
    {
        int n = bpp(fmt), st = cx * n + pad;
        px.assign((size_t) st * cy, 0xee);
        for (int y = 0; y < cy; y++)
            for (int x = 0; x < cx; x++)
            {
                uint8_t *p = &px[y * st + x * n];
                p[0] = 40; p[1] = x == y ? 90 : 80; p[2] = 200;
                if (n == 4) p[3] = al[y * 64 + x];
            }
        a = yuv_args(px.data(), Q8, 1);
        a.w = cx; a.h = cy; a.stride = st;
        a.tiles[0] = mk_tile(0, 0, cx, cy);
    }
    a.flags = RFX_FLAGS_ALPHAV1;
    Enc e(lib(), 64, 64, fmt, rl ? RFX_FLAGS_RLGR1 : 0);
    if (!e.h) c.fail("creation failed");
    Res r = e.call(a);
    if (r.ret != 1) c.fail("call returned %d", r.ret);
    ref::Msg m, m0;
    c.req(parse_msg(e, r, m));
    if (m.tiles.size() != 1) c.fail("%d tiles in the message", (int) m.tiles.size());
    if (!m.alpha) c.fail("the message carries no alpha");
    c.req(check_payload(e, a, r, m));
    /* the same without alpha, on an encoder in the same state */
    Enc f(lib(), 64, 64, fmt, rl ? RFX_FLAGS_RLGR1 : 0);
    Args b = a;
    b.flags = 0;
    Res s = f.call(b);
    c.req(parse_msg(f, s, m0));
    if (m0.alpha || m0.tiles.size() != 1) c.fail("message without alpha is wrong");
    for (int k = 0; k < 3; k++)
        if (m.tiles[0].plen[k] != m0.tiles[0].plen[k] || memcmp(&r.out[m.tiles[0].poff[k]], &s.out[m0.tiles[0].poff[k]], m.tiles[0].plen[k]))
            c.fail("colour component %d differs when alpha is requested", k);
    c.evals++;
    c.outcome(ref::hash_bytes(&r.out[m.tiles[0].poff[3]], m.tiles[0].plen[3]));
}

/* the value of a row given the coded value the encoder has to produce for it */
uint8_t undelta(uint8_t above, uint8_t code)
{
    int delta = (code & 1) ? -((code >> 1) + 1) : code >> 1;
    return (uint8_t) (above + delta);
}
/* a plane in which row y (>= 1) is coded as codes[y]; row 0 is coded literally */
void from_codes(const uint8_t codes[64][64], uint8_t *p)
{
    memcpy(p, codes[0], 64);
    for (int y = 1; y < 64; y++)
        for (int x = 0; x < 64; x++) p[y * 64 + x] = undelta(p[(y - 1) * 64 + x], codes[y][x]);
}
int fmt_of(uint64_t i)
{
    static const int F[3] = {RFX_FORMAT_BGRA, RFX_FORMAT_RGBA, RFX_FORMAT_YUV};
    return F[i % 3];
}
/* filler kinds for row segments */
uint8_t seg(int kind, int x, int seed)
{
    switch (kind)
    {
        case 0: return 0;                              /* zeros */
        case 1: return (uint8_t) (seed * 2 + 7);       /* a run */
        case 2: return (uint8_t) (x * 37 + seed * 11 + 1); /* all different */
        default: return x & 1 ? 3 : 250;               /* alternating */
    }
}

} /* namespace */

CHECK_DEF(C08)
{
    bool th = !K.quick();
    K.rule = "Every case encodes a tile with a chosen alpha plane through the real library, decodes the alpha payload with an independent decoder that must consume exactly the declared length, compares all 4096 values with the source, and compares the colour payloads byte for byte with those of the same call without alpha. Distinct: alpha payload bytes differ from all others (hash).";
    K.assumptions.push_back("24-bit formats carry no alpha; their alpha plane is zero");
    K.add("two-level", 65536ull * (th ? 4 : 1), [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        Dim d(i);
        int a = d.next(256), b = d.next(256), w = d.i;
        pic_two(w * 2 + ((a + b) & 1), a, b, p);
        one(c, p, fmt_of(a + b / 3), a & 1);
    }, [](uint64_t i) { return case_name("two-level alpha, %d and %d, kind %d", (int) (i & 255), (int) (i >> 8 & 255), (int) (i >> 16)); });
    K.add("vertical-pairs", 2048, [](Ctx &c, uint64_t i) {
        /* flat rows a, b, a, b', ...: every value above and below every other */
        static uint8_t p[4096];
        int a = i % 256, b0 = (int) (i / 256) * 32;
        for (int y = 0; y < 64; y++) memset(p + y * 64, y & 1 ? b0 + y / 2 : a, 64);
        one(c, p, fmt_of(i), 0);
    }, [](uint64_t i) { return case_name("flat rows, value %d against %d..%d", (int) (i % 256), (int) (i / 256) * 32, (int) (i / 256) * 32 + 31); });
    K.add("impulse", 4096ull * 4, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        static const int B[4][2] = {{0, 255}, {255, 0}, {128, 129}, {7, 200}};
        pic_impulse(i % 4096, B[i / 4096][0], B[i / 4096][1], p);
        one(c, p, fmt_of(i), (i >> 3) & 1);
    }, [](uint64_t i) { return case_name("alpha impulse at %d, kind %d", (int) (i % 4096), (int) (i / 4096)); });
    /* every run length x value */
    K.add("value-run", 256, [](Ctx &c, uint64_t i) {
        static uint8_t codes[64][64], p[4096];
        for (int v = 0; v < 3; v++)
        {
            for (int y = 0; y < 64; y++)
                for (int x = 0; x < 64; x++)
                    codes[y][x] = v == 0 ? (x <= y ? i : 0) : v == 1 ? (x >= y ? i : (uint8_t) (x * 29 + y + 1)) : (x % (y + 1) == 0 ? i : (uint8_t) (i + 1));
            from_codes(codes, p);
            one(c, p, fmt_of(i + v), v & 1);
        }
    }, [](uint64_t i) { return case_name("runs of coded value %d, every length", (int) i); });
    /* all rows of sixteen 4-pixel cells, zero or not */
    K.add("cell-rows", 65536 / 64 * 4, [](Ctx &c, uint64_t i) {
        static uint8_t codes[64][64], p[4096];
        int kind = i / 1024, t = i % 1024;
        for (int y = 0; y < 64; y++)
            for (int x = 0; x < 64; x++)
            {
                int on = ((t * 64 + y) >> (x / 4)) & 1;
                codes[y][x] = kind == 0 ? (on ? 9 : 0) : kind == 1 ? (on ? (uint8_t) (x * 7 + 1) : 5) : kind == 2 ? (on ? 255 : 254) : (on ? (uint8_t) (x * x + y) : 0);
            }
        from_codes(codes, p);
        one(c, p, fmt_of(i), (i >> 2) & 1);
    }, [](uint64_t i) { return case_name("cell rows %d.., kind %d", (int) (i % 1024) * 64, (int) (i / 1024)); });
    /* all rows cut into three segments, each filled in one of four ways */
    {
        uint64_t rows = 65ull * 65 * 64; /* first cut, second cut, kinds */
        K.add("three-segments", rows / 64, [](Ctx &c, uint64_t i) {
            static uint8_t codes[64][64], p[4096];
            int c1 = i % 65, c2 = i / 65 % 65;
            if (c1 > c2) return;
            for (int y = 0; y < 64; y++)
                for (int x = 0; x < 64; x++)
                {
                    int k = x < c1 ? y & 3 : x < c2 ? (y >> 2) & 3 : (y >> 4) & 3;
                    codes[y][x] = seg(k, x, x < c1 ? 1 : x < c2 ? 2 : 3);
                }
            from_codes(codes, p);
            one(c, p, fmt_of(i), i & 1);
        }, [](uint64_t i) { return case_name("rows cut at %d and %d, all fillings", (int) (i % 65), (int) (i / 65 % 65)); });
    }
    /* four segments: all cuts, fillings zero/run/literal */
    K.add("four-segments", th ? 65ull * 65 * 65 * 2 : 65ull * 65 * 65, [](Ctx &c, uint64_t i) {
        static uint8_t codes[64][64], p[4096];
        Dim d(i);
        int c1 = d.next(65), c2 = d.next(65), c3 = d.next(65);
        if (c1 >= c2 || c2 >= c3 || c3 >= 64 || c1 == 0) return;
        for (int y = 0; y < 64; y++)
        {
            int f = y + (int) d.i * 17;
            int k[4] = {f % 3, f / 3 % 3, f / 9 % 3, f / 27 % 3};
            for (int x = 0; x < 64; x++)
            {
                int s = x < c1 ? 0 : x < c2 ? 1 : x < c3 ? 2 : 3;
                codes[y][x] = seg(k[s], x, s + 1);
            }
        }
        from_codes(codes, p);
        one(c, p, fmt_of(i), i & 1);
    }, [](uint64_t i) { return case_name("four-segment rows, case %d", (int) i); });
    /* where run-length coding stops paying off: n noisy values, the rest flat; n flat rows */
    K.add("raw-switch", 4097ull * 4, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096], z[4096];
        int n = i % 4097, kind = i / 4097;
        fill_noise(z, 4096, 3 + kind);
        for (int k = 0; k < 4096; k++)
        {
            bool noisy = kind == 0 ? k < n : kind == 1 ? k >= 4096 - n : kind == 2 ? (k * 2731 & 4095) < n : ((k % 64) * 64 + k / 64) < n;
            p[k] = noisy ? z[k] : 40;
        }
        one(c, p, fmt_of(i), (i >> 2) & 1);
    }, [](uint64_t i) { return case_name("%d noisy alpha values, arrangement %d", (int) (i % 4097), (int) (i / 4097)); });
    /* fine steps around the switch: noise everywhere except the last row's prefix, plus low-entropy deltas */
    K.add("raw-switch-fine", 64 * 64 * 2, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        int rows = i % 64, run = i / 64 % 64, kind = i / 4096;
        fill_noise(p, 4096, 11 + kind);
        for (int y = 64 - rows; y < 64; y++)
            for (int x = 0; x < 64; x++) if (y) p[y * 64 + x] = kind ? p[(y - 1) * 64 + x] : (x < run ? 9 : p[y * 64 + x]);
        for (int x = 0; x < run; x++) p[x] = 77;
        one(c, p, fmt_of(i), 0);
    }, [](uint64_t i) { return case_name("noise with %d repeated rows and runs of %d, kind %d", (int) (i % 64), (int) (i / 64 % 64), (int) (i / 4096)); });
    K.add("sizes", 4096ull * 5 * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cx = d.next(64) + 1, cy = d.next(64) + 1, fmt = d.next(5), pic = d.i;
        static uint8_t p[4096];
        pic_alpha(pic ? 16 : 12, p);
        one(c, p, fmt, (cx ^ cy) & 1, cx, cy, (cx * cy) % 3 * 5);
    }, [](uint64_t i) { Dim d(i); int cx = d.next(64) + 1, cy = d.next(64) + 1, fmt = d.next(5); return case_name("alpha of a %dx%d tile, format %d, picture %d", cx, cy, fmt, (int) d.i); });
    K.add("pictures", 256 * 24, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        pic_alpha(i % 24, p);
        int v = i / 24;
        for (int k = 0; k < 4096; k++) p[k] += v;
        one(c, p, fmt_of(i / 24), i & 1);
    }, [](uint64_t i) { return case_name("picture %d as alpha, offset %d", (int) (i % 24), (int) (i / 24)); });
    K.add("noise", th ? 60000 : 6000, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        fill_noise(p, 4096, i + 1);
        int s = i % 9;
        for (int k = 0; k < 4096; k++) p[k] = s == 8 ? (p[k] < (i & 255) ? 200 : 100) : p[k] >> s;
        if (i & 16) for (int y = 1; y < 64; y++) for (int x = 0; x < 64; x++) if ((y * 7 + x / 8 + i) % 3) p[y * 64 + x] = p[y * 64 + x - 64];
        one(c, p, fmt_of(i), (i >> 4) & 1);
    }, [](uint64_t i) { return case_name("noise alpha %d", (int) i); });
    /* several tiles and calls, alpha on and off, on one encoder */
    K.add("lists-and-histories", 5 * 2 * 40, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(5), rl = d.next(2), n = d.i + 1;
        force_cpu(lib(), n % 3);
        Enc e(lib(), 64 * n, 64, fmt, rl ? RFX_FLAGS_RLGR1 : 0), f(lib(), 64 * n, 64, fmt, rl ? RFX_FLAGS_RLGR1 : 0);
        force_cpu(lib(), -1);
        for (int s = 0; s < 6; s++)
        {
            Cfg g{fmt, rl, (0x2d >> s) & 1, 2, 0};
            Scene sc(g, 1 + (n + s) % 40, s % 3 == 0 ? 1 : s % 3 == 1 ? 2 : 5, 2, 1, 1 + (n * 3 + s) % 64, 1 + (n * 5 + s) % 64, s);
            Args a = sc.args();
            Res r = e.call(a);
            if (r.ret != (int) a.tiles.size()) c.fail("call %d returned %d", s, r.ret);
            ref::Msg m, m0;
            c.req(parse_msg(e, r, m));
            if (m.alpha != (g.alpha == 1)) c.fail("call %d: alpha %d requested, message says %d", s, g.alpha, m.alpha);
            c.req(check_payload(e, a, r, m));
            Args b = a;
            b.flags = 0;
            Res r0 = f.call(b);
            c.req(parse_msg(f, r0, m0));
            if (m0.tiles.size() != m.tiles.size()) c.fail("call %d: %d tiles without alpha, %d with", s, (int) m0.tiles.size(), (int) m.tiles.size());
            for (size_t t = 0; t < m.tiles.size(); t++)
                for (int k = 0; k < 3; k++)
                    if (m.tiles[t].plen[k] != m0.tiles[t].plen[k] || memcmp(&r.out[m.tiles[t].poff[k]], &r0.out[m0.tiles[t].poff[k]], m.tiles[t].plen[k]))
                        c.fail("call %d tile %d: colour component %d differs when alpha is requested", s, (int) t, k);
            c.evals++;
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }
    }, [](uint64_t i) { Dim d(i); int fmt = d.next(5), rl = d.next(2); return case_name("calls with and without alpha, up to %d tiles, format %d, rlgr%d", (int) d.i + 1, fmt, rl ? 1 : 3); });
    /* very long tile lists */
    K.add("long-lists", 3 * 2 * 3, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = fmt_of(d.next(3)), rl = d.next(2), acc = d.i;
        LongList L(fmt, 2100, true, (unsigned) i);
        force_cpu(lib(), acc);
        Enc e(lib(), 1024, 1024, fmt, rl ? RFX_FLAGS_RLGR1 : 0), f(lib(), 1024, 1024, fmt, rl ? RFX_FLAGS_RLGR1 : 0);
        force_cpu(lib(), -1);
        Res r = e.call(L.a);
        ref::Msg m, m0;
        c.req(parse_msg(e, r, m));
        if (m.tiles.size() != 2100) c.fail("%d tiles of 2100", (int) m.tiles.size());
        c.req(check_payload(e, L.a, r, m));
        L.a.flags = 0;
        Res r0 = f.call(L.a);
        c.req(parse_msg(f, r0, m0));
        if (m0.tiles.size() != 2100) c.fail("%d tiles of 2100 without alpha", (int) m0.tiles.size());
        for (size_t t = 0; t < m.tiles.size(); t++)
            for (int k = 0; k < 3; k++)
                if (m.tiles[t].plen[k] != m0.tiles[t].plen[k] || memcmp(&r.out[m.tiles[t].poff[k]], &r0.out[m0.tiles[t].poff[k]], m.tiles[t].plen[k]))
                    c.fail("tile %d: colour component %d differs when alpha is requested", (int) t, k);
        c.evals++;
        c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
    }, [](uint64_t i) { Dim d(i); int f = fmt_of(d.next(3)), rl = d.next(2); return case_name("2100 tiles with alpha in one call, format %d, rlgr%d, processor %d", f, rl ? 1 : 3, (int) d.i); });
    /* space-limited calls: every tile that is delivered has its complete alpha plane */
    K.add("capacity", 3 * 4000, [](Ctx &c, uint64_t i) {
        int cfgi = i % 3, cap = 24600 + (int) (i / 3) * 11;
        Cfg g{fmt_of(cfgi), cfgi & 1, 1, 2, 0};
        static Scene *sc[3];
        if (!sc[cfgi]) sc[cfgi] = new Scene(g, 3, cfgi == 1 ? 1 : 2, 1, 1);
        Enc e(lib(), 192, 64, g.fmt, g.create_flags());
        Args a = sc[cfgi]->args();
        a.cap = cap;
        Res r = e.call(a, 0x77);
        if (r.ret < 0) return;
        ref::Msg m;
        c.req(parse_msg(e, r, m));
        if ((int) m.tiles.size() != r.ret) c.fail("%d tiles, returned %d", (int) m.tiles.size(), r.ret);
        c.req(check_payload(e, a, r, m));
        c.evals++;
        c.outcome(r.ret * 10 + cfgi);
    }, [](uint64_t i) { return case_name("alpha tiles in %d bytes, configuration %d", 24600 + (int) (i / 3) * 11, (int) (i % 3)); });
    /* one encoder, one buffer: alpha changed in place between calls, from every picture to every other, sizes changing */
    K.add("same-buffer", 24ull * 24 * 3 * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int p0 = d.next(24), p1 = d.next(24), fmt = fmt_of(d.next(3)), sz = d.i;
        static const int S[4][2] = {{64, 64}, {40, 23}, {1, 64}, {63, 1}};
        static uint8_t px[16384], al[4096];
        Enc e(lib(), 64, 64, fmt, p0 & 1);
        if (!e.h) c.fail("creation failed");
        fill_noise(px, sizeof px, 3);
        Args a = yuv_args(px, Q8, 1);
        a.flags = RFX_FLAGS_ALPHAV1;
        for (int s = 0; s < 3; s++)
        {
            int p = s == 1 ? p1 : p0;
            if (p == 22) memset(al, 0, 4096);
            else if (p == 23) memset(al, 255, 4096);
            else pic_alpha(p, al);
            if (fmt == RFX_FORMAT_YUV) memcpy(px + 12288, al, 4096);
            else
            {
                for (int k = 0; k < 4096; k++) px[k * 4 + 3] = al[k];
                if (s == 1) a.tiles[0] = mk_tile(0, 0, S[sz][0], S[sz][1]); else a.tiles[0] = mk_tile(0, 0);
            }
            Res r = e.call(a);
            if (r.ret != 1) c.fail("call returned %d", r.ret);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            c.req(check_payload(e, a, r, m));
            c.evals++;
            c.outcome(ref::hash_bytes(&r.out[m.tiles[0].poff[3]], m.tiles[0].plen[3]));
        }
    }, [](uint64_t i) { Dim d(i); int a = d.next(24), b = d.next(24), f = d.next(3); return case_name("alpha pictures %d, %d, %d in the same buffer, format %d, size class %d", a, b, a, fmt_of(f), (int) d.i); });
    K.add("changed-pixel", 4096ull * 3, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pos = d.next(4096), fmt = fmt_of(d.i);
        static uint8_t px[16384];
        fill_noise(px, sizeof px, 3);
        for (int k = 0; k < 4096; k++) px[fmt == RFX_FORMAT_YUV ? 12288 + k : k * 4 + 3] = pos & 1 ? 255 : (uint8_t) (k / 64);
        Enc e(lib(), 64, 64, fmt, 0);
        if (!e.h) c.fail("creation failed");
        Args a = yuv_args(px, Q8, 1);
        a.flags = RFX_FLAGS_ALPHAV1;
        for (int s = 0; s < 2; s++)
        {
            if (s) px[fmt == RFX_FORMAT_YUV ? 12288 + pos : pos * 4 + 3] ^= pos & 2 ? 1 : 0x80;
            Res r = e.call(a);
            if (r.ret != 1) c.fail("call returned %d", r.ret);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            c.req(check_payload(e, a, r, m));
            c.evals++;
            c.outcome(ref::hash_bytes(&r.out[m.tiles[0].poff[3]], m.tiles[0].plen[3]));
        }
    }, [](uint64_t i) { return case_name("alpha value %d changed in place, format %d", (int) (i % 4096), fmt_of(i / 4096)); });
}
