/* C04: accelerated and portable code paths produce identical results */
#include "scene.h"
#include "x32.h"

namespace {

typedef int (*shift_proc)(const char *, const unsigned char *, short *, short *);

struct Bufs
{
    Guard g1, g2, g3, g4;
    Bufs() : g1(8192), g2(8192), g3(8192), g4(8192) {}
    /* each array of exactly 4096 coefficients ends at an inaccessible page (8192 is a multiple of the page size: both ends guarded) */
    short *out_a() { return (short *) g1.at_end(8192); }
    short *tmp_a() { return (short *) g2.at_end(8192); }
    short *out_b() { return (short *) g3.at_end(8192); }
    short *tmp_b() { return (short *) g4.at_end(8192); }
};
Bufs &bufs() { static Bufs b; return b; }

void entry_points(Lib &L, std::vector<std::pair<const char *, shift_proc>> &v)
{
    auto &in = L.in;
    if (in.rfxencode_dwt_shift_amd64_sse2) v.push_back({"amd64 sse2", in.rfxencode_dwt_shift_amd64_sse2});
    if (in.rfxencode_dwt_shift_amd64_sse41) v.push_back({"amd64 sse4.1", in.rfxencode_dwt_shift_amd64_sse41});
    if (in.rfxencode_dwt_shift_x86_sse2) v.push_back({"x86 sse2", in.rfxencode_dwt_shift_x86_sse2});
    if (in.rfxencode_dwt_shift_x86_sse41) v.push_back({"x86 sse4.1", in.rfxencode_dwt_shift_x86_sse41});
}

/* one plane through the portable transform + quantisation and through every accelerated entry point */
void cmp_plane(Ctx &c, const uint8_t *p, const uint8_t *q)
{
    Lib &L = lib();
    Bufs &B = bufs();
    static std::vector<std::pair<const char *, shift_proc>> ep;
    if (ep.empty()) entry_points(L, ep);
    if (ep.empty()) c.fail("the accelerated build exports no accelerated transform");
    int r1 = L.in.rfxencode_dwt_2d(p, B.out_a(), B.tmp_a());
    int r2 = L.in.rfxencode_quantization(B.out_a(), (const char *) q);
    if (r1 || r2) c.fail("portable transform returned %d, quantisation %d", r1, r2);
    for (auto &e : ep)
    {
        memset(B.out_b(), 0x5a, 8192);
        int r = e.second((const char *) q, p, B.out_b(), B.tmp_b());
        if (r) c.fail("%s transform returned %d", e.first, r);
        if (memcmp(B.out_a(), B.out_b(), 8192))
        {
            int j = 0;
            while (B.out_a()[j] == B.out_b()[j]) j++;
            c.fail("%s: coefficient %d is %d, the portable transform gives %d", e.first, j, B.out_b()[j], B.out_a()[j]);
        }
        c.evals++;
    }
    c.outcome(ref::hash_bytes(B.out_a(), 8192));
}

const uint8_t Q6[5] = {0x66, 0x66, 0x66, 0x66, 0x66};

/* CPU feature words: bit 0 SSE2, 1 SSE3, 2 SSE4.1, 3 SSE4.2, 4 POPCNT, 5 LZCNT, 6 SSE4a */
void force_features(Lib &L, int f)
{
    L.hooks->cpuid_force = 1;
    L.hooks->cpuid_dx = f & 1 ? 1 << 26 : 0;
    L.hooks->cpuid_cx = (f & 2 ? 1 : 0) | (f & 4 ? 1 << 19 : 0) | (f & 8 ? 1 << 20 : 0) | (f & 16 ? 1 << 23 : 0);
    L.hooks->cpuid_ext_cx = (f & 32 ? 1 << 5 : 0) | (f & 64 ? 1 << 6 : 0);
}

struct Step
{
    int n, content, nq, lcx, lcy, pad, flags;
};
const Step STEPS[6] = {
    {2, 1, 3, 64, 64, 0, 0}, {1, 2, 1, 64, 64, 12, 0}, {3, 5, 2, 33, 17, 0, 0},
    {2, 3, 17, 1, 64, 4, 0}, {1, 102, 1, 64, 64, 0, RFX_FLAGS_PRO_KEY}, {4, 4, 0, 64, 5, 0, 0},
};
/* messages of a six-call session; capacities from caps (0: ample) */
void session(Lib &L, const Cfg &cfg, int create_flags, int alpha_mask, int cap, std::vector<Res> &out)
{
    Enc e(L, 300, 200, cfg.fmt, create_flags);
    out.clear();
    if (!e.h) { Res r; r.ret = -999; out.push_back(r); return; }
    for (int s = 0; s < 6; s++)
    {
        const Step &S = STEPS[s];
        Cfg g = cfg;
        g.alpha = (alpha_mask >> s) & 1;
        Scene sc(g, S.n, S.content, S.nq, s % 3, S.lcx, S.lcy, S.pad);
        Args a = sc.args();
        if (S.nq == 0) for (auto &t : a.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
        if (cfg.pro) a.flags |= S.flags;
        if (cap) a.cap = cap;
        out.push_back(e.call(a, 0xa5));
    }
}
std::string same(const std::vector<Res> &a, const std::vector<Res> &b)
{
    if (a.size() != b.size()) return "one of the creations failed";
    for (size_t i = 0; i < a.size(); i++)
    {
        if (a[i].ret != b[i].ret) return ref::fmt("call %d returns %d, the portable build %d", (int) i, a[i].ret, b[i].ret);
        if (a[i].ret < 0) continue;
        std::string s = diff_bytes(a[i].out, b[i].out);
        if (!s.empty()) return ref::fmt("call %d: %s (portable build second)", (int) i, s.c_str());
    }
    return "";
}

/* one plane through the 32-bit build's routines, position-independent and not */
void cmp_plane32(Ctx &c, const uint8_t *p, const uint8_t *q, int poff = 0, int qoff = 0)
{
    static const char *N[3] = {"x86 sse2", "x86 sse4.1", "32-bit portable"};
    Lib &L = lib("nosimd");
    Bufs &B = bufs();
    L.in.rfxencode_dwt_2d(p, B.out_a(), B.tmp_a());
    L.in.rfxencode_quantization(B.out_a(), (const char *) q);
    for (int pic = 0; pic < 2; pic++)
    {
        X32 &x = x32(pic);
        if (!x.start()) continue;
        for (int w = 0; w < (pic ? 2 : 3); w++)
        {
            if (!(x.caps & (1 << w))) continue;
            const short *o = x.transform(c, w, p, q, poff, qoff);
            if (memcmp(B.out_a(), o, 8192))
            {
                int j = 0;
                while (B.out_a()[j] == o[j]) j++;
                c.fail("%s%s: coefficient %d is %d, the portable transform gives %d", N[w], pic ? " (PIC)" : "", j, o[j], B.out_a()[j]);
            }
            c.evals++;
        }
    }
    c.outcome(ref::hash_bytes(B.out_a(), 8192));
}
/* the six-call session of session(), in the 32-bit build */
void session32(Ctx &c, X32 &x, const Cfg &cfg, int create_flags, int alpha_mask, int f, std::vector<Res> &out)
{
    int h = x.create(c, 300, 200, cfg.fmt, create_flags, f);
    out.clear();
    for (int s = 0; s < 6; s++)
    {
        const Step &S = STEPS[s];
        Cfg g = cfg;
        g.alpha = (alpha_mask >> s) & 1;
        Scene sc(g, S.n, S.content, S.nq, s % 3, S.lcx, S.lcy, S.pad);
        Args a = sc.args();
        if (S.nq == 0) for (auto &t : a.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
        if (cfg.pro) a.flags |= S.flags;
        out.push_back(x.encode(c, h, a, sc.pix.size(), 0xa5));
    }
    x.destroy(c, h);
}

} /* namespace */

static void add_x32(Check &K);

CHECK_DEF(C04)
{
    bool th = !K.quick();
    K.rule = "Transform families run one plane through the portable transform+quantisation and through every exported accelerated transform and compare all 4096 coefficients; session families run the same calls on encoders created under every reported CPU feature set / NOACCEL and on a build without SIMD code and compare return values and every message byte. Distinct: coefficient blocks / message sequences differ from all others (hash).";
    K.assumptions.push_back("quantisation values are in the protocol's range 6..15");
    K.add("plane-impulse", 4096ull * 6, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pos = d.next(4096), k = d.i;
        static uint8_t p[4096];
        static const int B[6][2] = {{128, 255}, {0, 255}, {255, 0}, {128, 127}, {-1, 0x80}, {-2, 0xff}};
        if (B[k][0] >= 0) pic_impulse(pos, B[k][0], B[k][1], p);
        else { fill_noise(p, 4096, 77 - B[k][0]); p[pos] ^= B[k][1]; }
        cmp_plane(c, p, Q6);
    }, [](uint64_t i) { return case_name("impulse at pixel %d, kind %d", (int) (i % 4096), (int) (i / 4096)); });
    signs_classic();
    K.add("plane-extremal", 8192, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        pic_extremal(signs_classic(), i % 4096, i / 4096, p);
        cmp_plane(c, p, Q6);
        uint8_t q[5];
        qnth(q, (unsigned) i);
        cmp_plane(c, p, q);
        for (int k = 0; k < 4096; k++) if (p[k] == 128) p[k] = (k * 29 + i) & 255;
        cmp_plane(c, p, Q6);
    }, [](uint64_t i) { return case_name("picture extremal for coefficient %d (%s)", (int) (i % 4096), i / 4096 ? "min" : "max"); });
    K.add("plane-two-level", 65536, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        for (int k = 0; k < 8; k++) { pic_two(k, i & 255, i >> 8, p); cmp_plane(c, p, Q6); }
    }, [](uint64_t i) { return case_name("two-level pictures, levels %d and %d", (int) (i & 255), (int) (i >> 8)); });
    K.add("plane-periodic", 65536, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        pic_periodic(i, 0, 255, p);
        cmp_plane(c, p, Q6);
        pic_periodic(i, 100, 133, p);
        cmp_plane(c, p, Q6);
    }, [](uint64_t i) { return case_name("4x4-periodic binary picture %d", (int) i); });
    K.add("plane-quant", 100ull * NPIC * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC), o = d.i;
        uint8_t q[5];
        static uint8_t p[4096];
        qset(q, o ? 15 : 6);
        qput(q, slot, v);
        pic_alpha(pic, p);
        cmp_plane(c, p, q);
        /* every pixel column/row shifted by one: exercises each lane's rounding */
        for (int s = 1; s < 16; s++)
        {
            static uint8_t r[4096];
            for (int k = 0; k < 4096; k++) r[k] = p[(k + s * 65) & 4095];
            cmp_plane(c, r, q);
        }
    }, [](uint64_t i) { Dim d(i); int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC); return case_name("quantisation slot %d = %d (others %d), picture %d and shifts", slot, v, d.i ? 15 : 6, pic); });
    K.add("plane-quant-pairs", 10000, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int s1 = d.next(10), s2 = d.next(10), v1 = d.next(10) + 6, v2 = d.next(10) + 6;
        uint8_t q[5];
        static uint8_t p[4096];
        qset(q, 7); qput(q, s1, v1); qput(q, s2, v2);
        fill_noise(p, 4096, i);
        cmp_plane(c, p, q);
    }, [](uint64_t i) { Dim d(i); int s1 = d.next(10), s2 = d.next(10), v1 = d.next(10) + 6; return case_name("quantisation slots %d=%d %d=%d on noise", s1, v1, s2, (int) d.i + 6); });
    K.add("plane-level-quant", 256 * 10, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int lv = d.next(256), v = d.next(10) + 6;
        uint8_t q[5];
        static uint8_t p[4096];
        qset(q, v);
        memset(p, lv, 4096);
        cmp_plane(c, p, q);
        for (int k = 0; k < 8; k++) { pic_two(k, lv, 128, p); cmp_plane(c, p, q); pic_two(k, lv, 255 - lv, p); cmp_plane(c, p, q); }
    }, [](uint64_t i) { return case_name("level %d at quantisation %d", (int) (i % 256), (int) (i / 256) + 6); });
    K.add("plane-noise", th ? 400000 : 40000, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        uint8_t q[5];
        qnth(q, (unsigned) i);
        fill_noise(p, 4096, i + 5);
        switch (i % 4)
        {
            case 1: for (int j = 0; j < 4096; j++) p[j] = 128 + ((int8_t) p[j] >> (i % 7)); break;
            case 2: for (int j = 1; j < 4096; j++) p[j] = (p[j - 1] * 7 + p[j]) / 8; break;
            case 3: for (int j = 0; j < 4096; j++) p[j] = p[j] > (i & 255) ? 255 : 0; break;
        }
        cmp_plane(c, p, i & 8 ? Q6 : q);
    }, [](uint64_t i) { return case_name("noise plane %d", (int) i); });
    K.add("plane-alignment", 64 * NPIC, [](Ctx &c, uint64_t i) {
        static Guard g(4096 + 4096);
        int off = i % 64;
        uint8_t *p = off ? g.at_end_off(4096, off) : g.at_end(4096);
        pic_alpha(i / 64, p);
        uint8_t qq[64];
        for (int o = 0; o < 32; o++) { qnth(qq + o, (unsigned) i); cmp_plane(c, p, qq + o); }
    }, [](uint64_t i) { return case_name("plane at address offset -%d, quantisation table at every alignment", (int) (i % 64)); });

    /* all reported feature sets */
    K.add("features", 128ull * 2 * 21, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(21), na = d.next(2), f = d.i;
        Cfg cfg = cf < 20 ? Cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0} : Cfg{RFX_FORMAT_YUV, 0, 0, 2, 1};
        int fl = (cfg.rl ? RFX_FLAGS_RLGR1 : 0) | (cfg.pro ? RFX_FLAGS_PRO1 : 0);
        int am = cfg.pro ? 0 : cfg.alpha ? 0x2d : 0;
        static std::vector<Res> want[21], got;
        if (want[cf].empty()) session(lib("nosimd"), cfg, fl, am, 0, want[cf]);
        force_features(lib(), f);
        session(lib(), cfg, fl | (na ? RFX_FLAGS_NOACCEL : 0) | (f % 3 ? 0 : RFX_FLAGS_OPT1) | (f % 5 ? 0 : RFX_FLAGS_OPT2), am, 0, got);
        force_cpu(lib(), -1);
        c.req(same(got, want[cf]));
        c.evals += got.size();
        uint64_t h = cf * 2 + na;
        for (auto &r : got) h = ref::hash_bytes(r.out.data(), r.out.size(), h);
        c.outcome(h + f * 1000);
    }, [](uint64_t i) { Dim d(i); int cf = d.next(21), na = d.next(2); return case_name("configuration %d, reported CPU features %#x%s", cf, (int) d.i, na ? ", NOACCEL" : ""); });
    /* capacities: the accelerated and the portable coder react alike to every amount of space */
    K.add("capacity", th ? 4 * 21 * 120000 : 21 * 2600, [th](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(21);
        int cap = th ? (int) (d.i / 4) + 1 : 1 + (int) d.i * 37;
        Cfg cfg = cf < 20 ? Cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0} : Cfg{RFX_FORMAT_YUV, 0, 0, 2, 1};
        int acc = 1 + (cap & 1);
        std::vector<Res> w, g;
        auto run = [&](Lib &L, std::vector<Res> &o) {
            Enc e(L, 300, 200, cfg.fmt, (cfg.rl ? RFX_FLAGS_RLGR1 : 0) | (cfg.pro ? RFX_FLAGS_PRO1 : 0));
            static Scene *sc[21];
            if (!sc[cf]) sc[cf] = new Scene(cfg, 3, 102, 1, 1);
            Args a = sc[cf]->args();
            a.cap = cap;
            o.push_back(e.call(a, 0x11));
        };
        run(lib("nosimd"), w);
        force_cpu(lib(), acc);
        run(lib(), g);
        force_cpu(lib(), -1);
        c.req(same(g, w));
        c.evals++;
        c.outcome(cf * 1000 + g[0].ret + (g[0].bytes << 10));
    }, [th](uint64_t i) { Dim d(i); int cf = d.next(21); return case_name("configuration %d, capacity %d", cf, th ? (int) (d.i / 4) + 1 : 1 + (int) d.i * 37); });
    /* pixel buffers at every alignment, through the whole encoder */
    K.add("api-alignment", 64 * 20, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int off = d.next(64), cf = d.i;
        Cfg cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0};
        Scene sc(cfg, 2, 1, 2, 1, 47, 61);
        std::vector<uint8_t> room(sc.pix.size() + 128);
        uint8_t *p = (uint8_t *) (((uintptr_t) room.data() + 63) & ~(uintptr_t) 63) + off;
        memcpy(p, sc.pix.data(), sc.pix.size());
        Args a = sc.args();
        Res w, g;
        {
            Enc e(lib("nosimd"), 128, 64, cfg.fmt, cfg.create_flags());
            w = e.call(a);
        }
        a.buf = p;
        for (int acc = 0; acc < 3; acc++)
        {
            force_cpu(lib(), acc);
            Enc e(lib(), 128, 64, cfg.fmt, cfg.create_flags());
            g = e.call(a);
            force_cpu(lib(), -1);
            c.req(same({g}, {w}));
            c.evals++;
        }
        c.outcome(ref::hash_bytes(g.out.data(), g.out.size()) + off);
    }, [](uint64_t i) { return case_name("pixel buffer at offset %d, configuration %d", (int) (i % 64), (int) (i / 64)); });
    /* pictures through the whole encoder: entropy coders of the two paths on extreme payloads */
    K.add("api-pictures", 4096ull * 2 + NPIC * NPIC * 10, [](Ctx &c, uint64_t i) {
        static YuvTile t;
        uint8_t q[5];
        memcpy(q, Q6, 5);
        if (i < 8192)
        {
            for (int k = 0; k < 3; k++) pic_extremal(signs_classic(), (i + k * 1365) & 4095, (i / 4096) ^ (k & 1), t.p[k]);
            pic_alpha((int) i, t.p[3]);
        }
        else
        {
            Dim d(i - 8192);
            int a = d.next(NPIC), b = d.next(NPIC);
            pic_alpha(a, t.p[0]); pic_alpha(b, t.p[1]); pic_alpha(a + b, t.p[2]); pic_alpha(a * 3 + b, t.p[3]);
            qset(q, 6 + (int) d.i);
        }
        Args a = yuv_args(t.p[0], q, 1);
        a.flags = i & 4 ? RFX_FLAGS_ALPHAV1 : 0;
        int rl = i & 1 ? RFX_FLAGS_RLGR1 : 0;
        Res w;
        {
            Enc e(lib("nosimd"), 64, 64, RFX_FORMAT_YUV, rl);
            w = e.call(a);
        }
        for (int acc = 0; acc < 3; acc++)
        {
            force_cpu(lib(), acc);
            Enc e(lib(), 64, 64, RFX_FORMAT_YUV, rl | (acc == 0 && (i & 2) ? RFX_FLAGS_NOACCEL : 0));
            Res g = e.call(a);
            force_cpu(lib(), -1);
            c.req(same({g}, {w}));
            c.evals++;
        }
        c.outcome(ref::hash_bytes(w.out.data(), w.out.size()));
    }, [](uint64_t i) { return case_name("picture case %d through all code paths", (int) i); });
    /* long sessions on one encoder per path */
    K.add("api-session", 20, [](Ctx &c, uint64_t i) {
        Cfg cfg{(int) (i % 5), (int) (i / 5 % 2), (int) (i / 10), 2, 0};
        std::vector<Enc *> es;
        es.push_back(new Enc(lib("nosimd"), 640, 480, cfg.fmt, cfg.rl));
        for (int acc = 0; acc < 3; acc++) { force_cpu(lib(), acc); es.push_back(new Enc(lib(), 640, 480, cfg.fmt, cfg.rl)); }
        force_cpu(lib(), -1);
        es.push_back(new Enc(lib(), 640, 480, cfg.fmt, cfg.rl | RFX_FLAGS_NOACCEL));
        for (int f = 0; f < 600; f++)
        {
            Cfg g = cfg;
            g.alpha = cfg.alpha && f % 3;
            Scene sc(g, 1 + f % 4, f % 6, 1 + f % 7, f % 4, 1 + (f * 7) % 64, 1 + (f * 13) % 64, f % 9);
            Args a = sc.args();
            Res w = es[0]->call(a);
            for (size_t k = 1; k < es.size(); k++)
            {
                Res r = es[k]->call(a);
                std::string s = same({r}, {w});
                if (!s.empty()) c.fail("frame %d, path %d: %s", f, (int) k, s.c_str());
                c.evals++;
            }
            c.outcome(ref::hash_bytes(w.out.data(), w.out.size()));
        }
        for (Enc *e : es) delete e;
    }, [](uint64_t i) { return case_name("600 frames, configuration %d", (int) i); });
    /* the sources' fallbacks for other architectures and compilers */
    if (have_lib("generic"))
    {
        K.add("generic-sessions", 21 * 64, [](Ctx &c, uint64_t i) {
            Dim d(i);
            int cf = d.next(21), am = d.i;
            Cfg cfg = cf < 20 ? Cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0} : Cfg{RFX_FORMAT_YUV, 0, 0, 2, 1};
            int fl = (cfg.rl ? RFX_FLAGS_RLGR1 : 0) | (cfg.pro ? RFX_FLAGS_PRO1 : 0);
            std::vector<Res> w, g;
            session(lib("nosimd"), cfg, fl, cfg.pro ? 0 : am, 0, w);
            session(lib("generic"), cfg, fl, cfg.pro ? 0 : am, 0, g);
            c.req(same(g, w));
            c.evals += g.size();
            uint64_t h = i;
            for (auto &r : g) h = ref::hash_bytes(r.out.data(), r.out.size(), h);
            c.outcome(h);
        }, [](uint64_t i) { return case_name("build with the fallbacks for other architectures: configuration %d, alpha calls %#x", (int) (i % 21), (int) (i / 21)); });
        K.add("generic-pictures", 8192, [](Ctx &c, uint64_t i) {
            static YuvTile t;
            for (int k = 0; k < 3; k++) pic_extremal(signs_classic(), (i + k * 1365) & 4095, (i / 4096) ^ (k & 1), t.p[k]);
            pic_alpha((int) i, t.p[3]);
            Args a = yuv_args(t.p[0], Q6, 1);
            a.flags = i & 4 ? RFX_FLAGS_ALPHAV1 : 0;
            Res r[2];
            for (int k = 0; k < 2; k++)
            {
                Enc e(lib(k ? "generic" : "nosimd"), 64, 64, RFX_FORMAT_YUV, i & 2 ? RFX_FLAGS_PRO1 : i & 1 ? RFX_FLAGS_RLGR1 : 0);
                if (i & 2) a.flags = 0;
                r[k] = e.call(a);
            }
            c.req(same({r[1]}, {r[0]}));
            c.evals++;
            c.outcome(ref::hash_bytes(r[0].out.data(), r[0].out.size()));
        }, [](uint64_t i) { return case_name("build with the fallbacks for other architectures: picture case %d", (int) i); });
        K.add("generic-fields", 65536, [](Ctx &c, uint64_t i) {
            /* every 16-bit value through the region and tile-position fields */
            static Scene *sc;
            if (!sc) sc = new Scene(Cfg{RFX_FORMAT_YUV, 0, 0, 2, 0}, 1, 0, 1, 1);
            Args a = sc->args();
            a.rects[0] = mk_rect((int) i, (int) i ^ 0x5aa5, (int) (i * 7) & 0xffff, (int) (i * 3 + 1) & 0xffff);
            Res r[2];
            for (int k = 0; k < 2; k++)
            {
                Enc e(lib(k ? "generic" : "nosimd"), (int) i, 65535 - (int) i, RFX_FORMAT_YUV, 0);
                r[k] = e.call(a);
            }
            c.req(same({r[1]}, {r[0]}));
            c.evals++;
        }, [](uint64_t i) { return case_name("build with the fallbacks for other architectures: field value %d", (int) i); });
        K.add("generic-coders", 65536 * 2, [](Ctx &c, uint64_t i) {
            /* every value next to every smaller power of two, with runs; all exported coders, both builds */
            static short v[4096], w[4096];
            static uint8_t o[2][65536];
            int val = (int) (i & 65535) - 32768;
            if (val == -32768) val = 1;
            for (int k = 0; k < 4096; k++)
            {
                int a = (k * 5 + (k >> 6)) % 16;
                v[k] = i >> 16 ? (a < 3 ? 0 : a & 1 ? val : (val >> a)) : (a > 11 ? val : a > 7 ? -(val >> (k & 15)) : 0);
            }
            auto &A = lib("nosimd").in, &B = lib("generic").in;
            for (int k = 0; k < 4; k++)
            {
                int n[2];
                for (int b = 0; b < 2; b++)
                {
                    auto &I = b ? B : A;
                    memcpy(w, v, sizeof w);
                    memset(o[b], 0x77, sizeof o[b]);
                    n[b] = k == 0 ? I.rfxencode_rlgr1(w, o[b], 65536) : k == 1 ? I.rfxencode_rlgr3(w, o[b], 65536) : k == 2 ? I.rfxencode_diff_rlgr1(w, o[b], 65536, 64) : I.rfxencode_diff_rlgr3(w, o[b], 65536, 64);
                }
                if (n[0] != n[1] || memcmp(o[0], o[1], n[0] > 0 ? n[0] : 0)) c.fail("coder %d: %d and %d bytes (portable build first), or different bytes", k, n[0], n[1]);
                c.evals++;
                c.outcome(ref::hash_bytes(o[0], n[0] > 0 ? n[0] : 0));
            }
        }, [](uint64_t i) { return case_name("build with the fallbacks for other architectures: coders on value %d, arrangement %d", (int) (i & 65535) - 32768, (int) (i >> 16)); });
    }
    else K.assumptions.push_back("the build with the fallbacks for other architectures could not be made: its families were left out");
    add_x32(K);
}

/* The i386 build (C code, SSE2 and SSE4.1 assembly, position-independent and not) in its own process. */
static void add_x32(Check &K)
{
    bool th = !K.quick();
    bool ok[2];
    for (int pic = 0; pic < 2; pic++) { ok[pic] = x32(pic).start(); if (ok[pic]) x32(pic).stop(); }
    if (!ok[0] && !ok[1])
    {
        K.assumptions.push_back("the 32-bit build could not be made or run here: its families were left out");
        return;
    }
    K.assumptions.push_back(ref::fmt("the 32-bit build runs in a process without a C library of its own (mc/x32); variants run: %s%s", ok[0] ? "static " : "", ok[1] ? "position-independent" : ""));
    K.add("x32-plane-impulse", 4096ull * 3, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pos = d.next(4096), k = d.i;
        static uint8_t p[4096];
        static const int B[3][2] = {{0, 255}, {255, 0}, {-2, 0xff}};
        if (B[k][0] >= 0) pic_impulse(pos, B[k][0], B[k][1], p);
        else { fill_noise(p, 4096, 77 - B[k][0]); p[pos] ^= B[k][1]; }
        cmp_plane32(c, p, Q6);
    }, [](uint64_t i) { return case_name("32-bit build: impulse at pixel %d, kind %d", (int) (i % 4096), (int) (i / 4096)); });
    K.add("x32-plane-extremal", 8192, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        pic_extremal(signs_classic(), i % 4096, i / 4096, p);
        cmp_plane32(c, p, Q6);
        uint8_t q[5];
        qnth(q, (unsigned) i);
        cmp_plane32(c, p, q);
    }, [](uint64_t i) { return case_name("32-bit build: picture extremal for coefficient %d (%s)", (int) (i % 4096), i / 4096 ? "min" : "max"); });
    K.add("x32-plane-two-level", th ? 65536 : 16384, [th](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        int a = th ? i & 255 : (i & 127) * 2 + 1, b = th ? i >> 8 : (i >> 7) * 2;
        for (int k = 0; k < 8; k += th ? 1 : 3) { pic_two(k, a, b, p); cmp_plane32(c, p, Q6); }
    }, [](uint64_t i) { return case_name("32-bit build: two-level pictures, case %d", (int) i); });
    K.add("x32-plane-periodic", th ? 65536 : 16384, [th](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        pic_periodic(th ? i : i * 4 + i % 4, i & 1 ? 100 : 0, i & 1 ? 133 : 255, p);
        cmp_plane32(c, p, Q6);
    }, [](uint64_t i) { return case_name("32-bit build: 4x4-periodic binary picture %d", (int) i); });
    K.add("x32-plane-quant", 100ull * NPIC * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC), o = d.i;
        uint8_t q[5];
        static uint8_t p[4096];
        qset(q, o ? 15 : 6);
        qput(q, slot, v);
        pic_alpha(pic, p);
        cmp_plane32(c, p, q);
        for (int s = 1; s < 16; s++)
        {
            static uint8_t r[4096];
            for (int k = 0; k < 4096; k++) r[k] = p[(k + s * 65) & 4095];
            cmp_plane32(c, r, q, s % 16, s);
        }
    }, [](uint64_t i) { Dim d(i); int slot = d.next(10), v = d.next(10) + 6, pic = d.next(NPIC); return case_name("32-bit build: quantisation slot %d = %d (others %d), picture %d and shifts", slot, v, d.i ? 15 : 6, pic); });
    K.add("x32-plane-noise", th ? 200000 : 20000, [](Ctx &c, uint64_t i) {
        static uint8_t p[4096];
        uint8_t q[5];
        qnth(q, (unsigned) i);
        fill_noise(p, 4096, i + 5);
        switch (i % 4)
        {
            case 1: for (int j = 0; j < 4096; j++) p[j] = 128 + ((int8_t) p[j] >> (i % 7)); break;
            case 2: for (int j = 1; j < 4096; j++) p[j] = (p[j - 1] * 7 + p[j]) / 8; break;
            case 3: for (int j = 0; j < 4096; j++) p[j] = p[j] > (i & 255) ? 255 : 0; break;
        }
        cmp_plane32(c, p, i & 8 ? Q6 : q);
    }, [](uint64_t i) { return case_name("32-bit build: noise plane %d", (int) i); });
    /* all reported feature sets, whole sessions, against the 64-bit portable build */
    K.add("x32-features", 128ull * 2 * 21, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(21), na = d.next(2), f = d.i;
        Cfg cfg = cf < 20 ? Cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0} : Cfg{RFX_FORMAT_YUV, 0, 0, 2, 1};
        int fl = (cfg.rl ? RFX_FLAGS_RLGR1 : 0) | (cfg.pro ? RFX_FLAGS_PRO1 : 0);
        int am = cfg.pro ? 0 : cfg.alpha ? 0x2d : 0;
        static std::vector<Res> want[21], got;
        if (want[cf].empty()) session(lib("nosimd"), cfg, fl, am, 0, want[cf]);
        X32 &x = x32(f & 1 && x32(1).start() ? 1 : 0);
        if (!x.start()) return;
        session32(c, x, cfg, fl | (na ? RFX_FLAGS_NOACCEL : 0) | (f % 3 ? 0 : RFX_FLAGS_OPT1) | (f % 5 ? 0 : RFX_FLAGS_OPT2), am, f, got);
        c.req(same(got, want[cf]));
        c.evals += got.size();
        uint64_t h = cf * 2 + na;
        for (auto &r : got) h = ref::hash_bytes(r.out.data(), r.out.size(), h);
        c.outcome(h + f * 1000);
    }, [](uint64_t i) { Dim d(i); int cf = d.next(21), na = d.next(2); return case_name("32-bit build: configuration %d, reported CPU features %#x%s", cf, (int) d.i, na ? ", NOACCEL" : ""); });
    K.add("x32-capacity", th ? 21 * 20000 : 21 * 2600, [th](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(21), cap = 1 + (int) d.i * (th ? 5 : 37), acc = cap % 3;
        Cfg cfg = cf < 20 ? Cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0} : Cfg{RFX_FORMAT_YUV, 0, 0, 2, 1};
        int fl = (cfg.rl ? RFX_FLAGS_RLGR1 : 0) | (cfg.pro ? RFX_FLAGS_PRO1 : 0);
        static Scene *sc[21];
        if (!sc[cf]) sc[cf] = new Scene(cfg, 3, 102, 1, 1);
        Args a = sc[cf]->args();
        a.cap = cap;
        X32 &x = x32(0);
        if (!x.start()) return;
        Res w;
        {
            Enc e(lib("nosimd"), 300, 200, cfg.fmt, fl);
            w = e.call(a, 0x11);
        }
        int h = x.create(c, 300, 200, cfg.fmt, fl, acc == 2 ? 5 : acc);
        Res g = x.encode(c, h, a, sc[cf]->pix.size(), 0x11);
        x.destroy(c, h);
        c.req(same({g}, {w}));
        c.evals++;
        c.outcome(cf * 1000 + g.ret + (g.bytes << 10));
    }, [th](uint64_t i) { Dim d(i); int cf = d.next(21); return case_name("32-bit build: configuration %d, capacity %d", cf, 1 + (int) d.i * (th ? 5 : 37)); });
    K.add("x32-pictures", 4096ull * 2, [](Ctx &c, uint64_t i) {
        static YuvTile t;
        for (int k = 0; k < 3; k++) pic_extremal(signs_classic(), (i + k * 1365) & 4095, (i / 4096) ^ (k & 1), t.p[k]);
        pic_alpha((int) i, t.p[3]);
        Args a = yuv_args(t.p[0], Q6, 1);
        a.flags = i & 4 ? RFX_FLAGS_ALPHAV1 : 0;
        int rl = i & 1 ? RFX_FLAGS_RLGR1 : 0;
        Res w;
        {
            Enc e(lib("nosimd"), 64, 64, RFX_FORMAT_YUV, rl);
            w = e.call(a);
        }
        X32 &x = x32(0);
        if (!x.start()) return;
        for (int acc = 0; acc < 3; acc++)
        {
            int h = x.create(c, 64, 64, RFX_FORMAT_YUV, rl, acc == 2 ? 5 : acc);
            Res g = x.encode(c, h, a, 16384);
            x.destroy(c, h);
            c.req(same({g}, {w}));
            c.evals++;
        }
        c.outcome(ref::hash_bytes(w.out.data(), w.out.size()));
    }, [](uint64_t i) { return case_name("32-bit build: extremal picture case %d through all code paths", (int) i); });
    /* progressive sessions: the reference content of the 32-bit build against the 64-bit portable one */
    K.add("x32-progressive", 64, [](Ctx &c, uint64_t i) {
        Enc e(lib("nosimd"), 640, 480, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
        X32 &x = x32(i & 1 && x32(1).start() ? 1 : 0);
        if (!x.start()) return;
        int h = x.create(c, 640, 480, RFX_FORMAT_YUV, RFX_FLAGS_PRO1, (i & 2 ? 1 : 0) | (i & 4 ? 4 : 0));
        Cfg cfg{RFX_FORMAT_YUV, 0, 0, 2, 1};
        for (int f = 0; f < 40; f++)
        {
            Scene sc(cfg, 1 + (f + (int) i) % 4, (f * 5 + (int) i) % 6, 1 + f % 3, f % 3);
            Args a = sc.args();
            if (f % 13 == (int) (i % 13)) a.flags |= RFX_FLAGS_PRO_KEY;
            if (f % 5 == 3) a.cap = 300 + 97 * (int) i;
            Res w = e.call(a), g = x.encode(c, h, a, sc.pix.size());
            std::string s = same({g}, {w});
            if (!s.empty()) c.fail("frame %d: %s", f, s.c_str());
            c.evals++;
            c.outcome(ref::hash_bytes(w.out.data(), w.out.size()) + f);
        }
        x.destroy(c, h);
    }, [](uint64_t i) { return case_name("32-bit build: progressive session %d", (int) i); });
}
