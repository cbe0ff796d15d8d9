/* C01 (memory bounds at every capacity), C14 (space-limited calls) */
#include "scene.h"

namespace {

Guarded &guarded()
{
    static Guarded *g = new Guarded(4 * 1024 * 1024);
    return *g;
}
/* one call on a fresh or used encoder at one capacity; only memory behaviour and the reported size are judged */
struct Bed
{
    Lib &L;
    Scene sc;
    bool at_start;
    Bed(Lib &l, const Cfg &c, int n, int content, int nq, int nr, bool st = false, int lcx = 64, int lcy = 64, int pad = 0) : L(l), sc(c, n, content, nq, nr, lcx, lcy, pad), at_start(st)
    {
        force_cpu(L, c.acc);
        guarded().load(sc, st);
    }
    /* canary bytes before the output catch underruns that stay on the page */
    int call(Ctx &c, void *h, int cap, bool out_start = false, int flags = 0)
    {
        Guard &g = out_guard();
        uint8_t *o = out_start ? g.at_start(cap) : g.at_end(cap);
        int pre = out_start ? 0 : 64, bytes = cap;
        int post = out_start ? 4096 : 0;
        memset(o - pre, 0x5A, pre);
        if (post) memset(o + cap, 0xA5, post);
        int ret = guarded().call(L, h, o, &bytes, flags);
        for (int i = 1; i <= pre; i++) if (o[-i] != 0x5A) c.fail("capacity %d: byte %d before the output buffer was written", cap, i);
        for (int i = 0; i < post; i++) if (o[cap + i] != 0xA5) c.fail("capacity %d: byte %d after the output buffer was written", cap, i);
        if (ret >= 0 && (bytes < 0 || bytes > cap)) c.fail("capacity %d: %d bytes reported (returned %d)", cap, bytes, ret);
        if (ret > sc.n) c.fail("capacity %d: returned %d for %d tiles", cap, ret, sc.n);
        c.evals++;
        c.outcome(((uint64_t) (unsigned) ret << 32) | (unsigned) bytes);
        return ret < 0 ? -1 : bytes;
    }
};
struct Handle
{
    Lib &L;
    void *h = nullptr;
    Handle(Lib &l, const Cfg &c) : L(l)
    {
        force_cpu(L, c.acc);
        if (L.create_ex(640, 480, c.fmt, c.create_flags(), &h)) h = nullptr;
    }
    ~Handle() { if (h) L.destroy(h); }
};

/* capacities lo..hi-1, each on a fresh encoder and on one that has sent its header */
void sweep(Ctx &c, Bed &b, int lo, int hi, bool used)
{
    for (int cap = lo; cap < hi; cap++)
    {
        Handle e(b.L, b.sc.cfg);
        if (!e.h) c.fail("creation failed");
        if (used) b.call(c, e.h, 2 * 1024 * 1024);
        b.call(c, e.h, cap, cap & 1);
    }
}
int need_of(Ctx &c, Bed &b)
{
    Handle e(b.L, b.sc.cfg);
    if (!e.h) c.fail("creation failed");
    int n = b.call(c, e.h, 3 * 1024 * 1024);
    return n < 0 ? 200 : n;
}

void c01_families(Check &K, const char *variant, bool asan)
{
    const auto &C = all_cfgs();
    int nc = (int) C.size();
    bool th = !K.quick();
    auto add = [&K, asan](const std::string &name, uint64_t n, std::function<void(Ctx &, uint64_t)> run, std::function<std::string(uint64_t)> d) {
        K.add((asan ? "asan-" : "") + name, n, run, d);
        K.fams.back().asan = asan;
    };
    std::string V = variant;
    /* every small capacity: all headers, regions and tables cut at every byte */
    int chunk = asan ? 64 : 32, hi = asan ? 640 : 1600;
    add("small-capacities", (uint64_t) nc * (hi / chunk) * 4, [V, chunk, hi](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(hi / chunk), shape = d.next(4);
        static const int N[4] = {1, 3, 0, 2}, NQ[4] = {1, 3, 0, 40}, NR[4] = {1, 5, 0, 30};
        Bed b(lib(V.c_str()), all_cfgs()[d.i], N[shape], 1, NQ[shape], NR[shape]);
        sweep(c, b, k * chunk, (k + 1) * chunk, false);
        if (shape < 2) sweep(c, b, k * chunk, (k + 1) * chunk, true);
    }, [chunk, hi](uint64_t i) { Dim d(i); int k = d.next(hi / chunk), s = d.next(4); return case_name("capacities %d..%d, shape %d, %s", k * chunk, (k + 1) * chunk - 1, s, all_cfgs()[d.i].name().c_str()); });
    /* every capacity up to what one / two tiles need and beyond */
    if (!asan)
    {
        struct Full { int cfg, n, content; };
        static std::vector<Full> full;
        full.clear();
        for (int k = 0; k < nc; k++)
        {
            bool pick = th || C[k].pro || C[k].acc == (C[k].fmt + C[k].rl + C[k].alpha) % 3;
            if (!pick) continue;
            full.push_back({k, 1, 103});
            if (C[k].pro) { full.push_back({k, 3, 4}); full.push_back({k, 2, 2}); }
            else full.push_back({k, 2, th ? 2 : 4});
        }
        int span = 90000, ch = 500;
        add("every-capacity", (uint64_t) full.size() * (span / ch), [V, span, ch](Ctx &c, uint64_t i) {
            Dim d(i);
            int k = d.next(span / ch);
            Full f = full[d.i];
            Bed b(lib(V.c_str()), all_cfgs()[f.cfg], f.n, f.content, 1, 1);
            int top = need_of(c, b) + (all_cfgs()[f.cfg].pro ? 300 : 24595 + 300);
            if (k * ch > top) return;
            sweep(c, b, k * ch, (k + 1) * ch < top ? (k + 1) * ch : top, false);
        }, [span, ch](uint64_t i) { Dim d(i); int k = d.next(span / ch); Full f = full[d.i]; return case_name("capacities %d.., %d tiles of content %d, %s", k * ch, f.n, f.content, all_cfgs()[f.cfg].name().c_str()); });
    }
    /* all tile sizes, arrays exactly as large as declared */
    add("tile-sizes", 64ull * 64 * (asan ? 2 : 4), [V](Ctx &c, uint64_t i) {
        Dim d(i);
        int cx = d.next(64) + 1, cy = d.next(64) + 1, f = d.i;
        for (int al = 0; al < 2; al++)
            for (int st = 0; st < 2; st++)
            {
                Cfg g = {f, (cx + cy) & 1, al, (cx ^ cy) % 3, 0};
                Bed b(lib(V.c_str()), g, 1, 2, 1, 1, st, cx, cy, st ? 0 : (cx * 7 + cy) % 9);
                Handle e(b.L, g);
                if (!e.h) c.fail("creation failed");
                b.call(c, e.h, 200000, st);
            }
    }, [](uint64_t i) { Dim d(i); int cx = d.next(64) + 1, cy = d.next(64) + 1; return case_name("one %dx%d tile, format %d", cx, cy, (int) d.i); });
    /* table, region and list sizes */
    add("table-sizes", 256ull * 3, [V](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(256), kind = d.i;
        for (int k = 0; k < 6; k++)
        {
            Cfg g = {k < 5 ? k : RFX_FORMAT_YUV, n & 1, (n >> 1) & 1, n % 3, k == 5};
            if (g.pro) g.alpha = 0;
            Bed b(lib(V.c_str()), g, kind == 2 ? n % 40 + 1 : 1, 4, kind == 0 ? n : 1, kind == 1 ? n * 2 : 1, k & 1);
            Handle e(b.L, g);
            if (!e.h) c.fail("creation failed");
            b.call(c, e.h, 3 * 1024 * 1024, n & 1);
            b.call(c, e.h, 3 * 1024 * 1024, n & 1);
        }
    }, [](uint64_t i) { Dim d(i); int n = d.next(256); static const char *W[3] = {"quantisation sets", "half regions", "tiles (mod 40)"}; return case_name("%d %s", n, W[d.i]); });
    /* counts beyond a byte and around the values where sizes in 16 bits wrap, with too little space around every boundary */
    add("large-counts", 44ull * 3, [V](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(44), kind = d.i;
        static const int CENTRE[11] = {256, 512, 1024, 2048, 4096, 8192, 13107, 16384, 26214, 32768, 65534};
        int n = CENTRE[k / 4] - (k % 4 == 0 ? 3 : k % 4 == 1 ? 2 : k % 4 == 2 ? 0 : -1);
        if (kind == 1 && n > 29000) return;
        Cfg g = {RFX_FORMAT_YUV, n & 1, 0, 2, kind == 2};
        Bed b(lib(V.c_str()), g, 1, 4, kind == 1 ? n : 1, kind != 1 ? n : 1);
        int size = kind == 1 ? 5 * n : 8 * n;
        for (int used = 0; used < 2; used++)
        {
            Handle e(b.L, g);
            if (!e.h) c.fail("creation failed");
            if (used) b.call(c, e.h, 3 * 1024 * 1024);
            static const int CAP[12] = {0, 40, 60, 61, 62, 80, 100, 110, 120, 200, 1000, 30000};
            for (int cap : CAP) b.call(c, e.h, cap);
            for (int x = 0; x < 160; x++) b.call(c, e.h, size + x);
            for (int w = 0; w < 4; w++)
                for (int x = 0; x < 130; x += 7) b.call(c, e.h, (size & 0xffff) + w * 8192 + x); /* what a wrapped size would accept */
            b.call(c, e.h, 3 * 1024 * 1024);
        }
    }, [](uint64_t i) { Dim d(i); int k = d.next(44); static const char *W[3] = {"regions", "quantisation sets", "regions, progressive"}; return case_name("large count %d of %s", k, W[d.i]); });
    /* quantisation indices that name no table: nothing outside the tables is read */
    add("bad-indices", (uint64_t) nc * 36, [V](Ctx &c, uint64_t i) {
        const Cfg &g = all_cfgs()[i / 36];
        int k = (int) (i % 36), nq = (int[]){1, 2, 5}[k / 12];
        for (int f = 0; f < 3; f++)
            for (int t = 0; t < 3; t++)
                for (int st = 0; st < 2; st++)
                {
                    const int X[12] = {nq, nq + 1, nq + 2, 255, 256, 1000, 30000, -1, -2, -3, -50, -1000};
                    Bed b(lib(V.c_str()), g, 3, 4, nq, 1, st);
                    rfx_tile &ti = b.sc.tiles[t];
                    (f == 0 ? ti.quant_y : f == 1 ? ti.quant_cb : ti.quant_cr) = X[k % 12];
                    guarded().load(b.sc, st);
                    Handle e(b.L, g);
                    if (!e.h) c.fail("creation failed");
                    b.call(c, e.h, 1024 * 1024);
                    b.call(c, e.h, 300);
                }
    }, [](uint64_t i) { return case_name("%s, quantisation index case %d", all_cfgs()[i / 36].name().c_str(), (int) (i % 36)); });
    /* negative counts and capacities */
    add("negative", 61ull * 3 * 10, [V](Ctx &c, uint64_t i) {
        Dim d(i);
        const Cfg &g = all_cfgs()[d.next(61)];
        int kind = d.next(3), v = (int[]){-1, -2, -3, -7, -13, -100, -256, -65536, -0x10000000, -0x7fffffff - 1}[d.i];
        Bed b(lib(V.c_str()), g, 2, 4, 2, 2);
        Handle e(b.L, g);
        if (!e.h) c.fail("creation failed");
        for (int used = 0; used < 2; used++)
        {
            for (int cap : {0, 60, 70, 120, 400, 100000})
            {
                uint8_t *o = out_guard().at_end(cap);
                int bytes = cap;
                int ret = b.L.encode_ex(e.h, (char *) o, &bytes, (const char *) guarded().buf, b.sc.w, b.sc.h, b.sc.stride, guarded().r, kind == 0 ? v : 2, guarded().t, kind == 1 ? v : 2,
                                        (const char *) guarded().q, kind == 2 ? v : 2, g.alpha);
                if (ret >= 0 && (bytes < 0 || bytes > cap)) c.fail("capacity %d: %d bytes reported", cap, bytes);
                c.evals++;
                c.outcome(ret);
            }
            uint8_t *o = out_guard().at_end(0);
            int bytes = v;
            int ret = guarded().call(b.L, e.h, o, &bytes);
            if (ret >= 0) c.fail("capacity %d: returned %d", v, ret);
            b.call(c, e.h, 100000);
        }
    }, [](uint64_t i) { Dim d(i); int cf = d.next(61), kind = d.next(3); return case_name("%s, negative count of %s or capacity, case %d", all_cfgs()[cf].name().c_str(), kind == 0 ? "regions" : kind == 1 ? "tiles" : "tables", (int) d.i); });
    /* multi-tile images, exactly sized, every position of the last tile's edge */
    add("edges", 64ull * 4 * 2, [V](Ctx &c, uint64_t i) {
        Dim d(i);
        int e1 = d.next(64) + 1, f = d.next(4), al = d.i;
        for (int k = 0; k < 2; k++)
        {
            Cfg g = {f, k, al, e1 % 3, 0};
            Bed b(lib(V.c_str()), g, 3, 1, 2, 2, k, k ? 64 : e1, k ? e1 : 64);
            Handle e(b.L, g);
            if (!e.h) c.fail("creation failed");
            b.call(c, e.h, 1024 * 1024);
        }
    }, [](uint64_t i) { Dim d(i); int e1 = d.next(64) + 1, f = d.next(4); return case_name("3 tiles, last one %d wide or high, format %d alpha %d", e1, f, (int) d.i); });
    /* short progressive histories at every capacity */
    add("progressive-history", asan ? 40 : 160, [V, asan](Ctx &c, uint64_t i) {
        Cfg g = {RFX_FORMAT_YUV, 0, 0, 2, 1};
        int ch = asan ? 8 : 40;
        Bed b0(lib(V.c_str()), g, 3, 4, 1, 1);
        int need = need_of(c, b0);
        for (int cap = (int) i * ch; cap < ((int) i + 1) * ch && cap <= need + 60; cap++)
        {
            Handle e(b0.L, g);
            if (!e.h) c.fail("creation failed");
            Bed a(lib(V.c_str()), g, 3, 4, 1, 1);
            a.call(c, e.h, cap);
            Bed b(lib(V.c_str()), g, 3, 1, 2, 1);
            b.call(c, e.h, cap * 2);
            b.call(c, e.h, cap, true);
            b.call(c, e.h, cap, false, RFX_FLAGS_PRO_KEY);
            b.call(c, e.h, 500000);
        }
    }, [asan](uint64_t i) { int ch = asan ? 8 : 40; return case_name("capacities %d.. over a 5-call progressive history", (int) i * ch); });
    /* entropy coders at every capacity, 4096 coefficients ending at an inaccessible page */
    add("coder-capacities", 4ull * 60, [V](Ctx &c, uint64_t i) {
        Dim d(i);
        int which = d.next(4), content = d.i;
        Lib &L = lib(V.c_str());
        static thread_local Guard gc(8192);
        int16_t *co = (int16_t *) gc.at_end(8192);
        int16_t src[4096];
        Rng r(content + 1);
        for (int j = 0; j < 4096; j++)
        {
            uint32_t x = r.next();
            int m = content % 6;
            src[j] = m == 0 ? 0 : m == 1 ? (int) (x % 3) - 1 : m == 2 ? (j % (content + 2) ? 0 : (int) (x % 99) - 49) : m == 3 ? (j & 1 ? 300 : -300) : m == 4 ? (j < content * 60 ? (int) (x % 21) - 10 : 0) : (j == 4095 - content ? -700 : 0);
        }
        /* every ending parity for the pair coder */
        if (content & 1) src[4095] = 5;
        int full = 0;
        for (int cap = 65536, first = 1; cap >= 0; )
        {
            memcpy(co, src, 8192);
            uint8_t *o = out_guard().at_end(cap);
            int n = which == 0 ? L.in.rfxencode_rlgr1(co, o, cap) : which == 1 ? L.in.rfxencode_rlgr3(co, o, cap) :
                    which == 2 ? L.in.rfxencode_diff_rlgr1(co, o, cap, 64) : L.in.rfxencode_diff_rlgr3(co, o, cap, 81);
            if (n > cap) c.fail("coder %d reports %d bytes in a buffer of %d", which, n, cap);
            c.evals++;
            if (first) { full = n; cap = n + 3; first = 0; c.outcome(ref::hash_bytes(o, n)); }
            else cap -= cap > full - 40 || cap < 40 ? 1 : 13;
        }
    }, [](uint64_t i) { Dim d(i); int w = d.next(4); return case_name("coder %d, coefficients %d, declared sizes from full to 0", w, (int) d.i); });
    /* transforms: exactly sized arrays */
    add("transforms", 24ull * 3, [V](Ctx &c, uint64_t i) {
        Dim d(i);
        int pic = d.next(24), which = d.i;
        Lib &L = lib(V.c_str());
        static thread_local Guard gi(4096), ga(8192), gb(8192), gq(4096);
        static thread_local YuvTile t;
        pic_alpha(pic, gi.at_end(4096));
        gi.readonly(true);
        for (int al = 0; al < 2; al++)
        {
            uint8_t *q = gq.at_end(5);
            gq.readonly(false);
            qnth(q, pic);
            gq.readonly(true);
            int16_t *a = (int16_t *) (al ? ga.at_start(8192) : ga.at_end(8192)), *b = (int16_t *) gb.at_end(8192);
            if (which == 0)
            {
                L.in.rfxencode_dwt_2d(gi.at_end(4096), a, b);
                L.in.rfxencode_quantization(a, (const char *) q);
                L.in.rfxencode_differential(a + 4096 - 64, 64);
            }
            else
            {
                auto fn = which == 1 ? L.in.rfxencode_dwt_shift_amd64_sse2 : L.in.rfxencode_dwt_shift_amd64_sse41;
                if (fn) fn((const char *) q, gi.at_end(4096), a, b);
            }
            c.evals++;
            c.outcome(ref::hash_bytes(a, 8192));
        }
        gi.readonly(false);
    }, [](uint64_t i) { Dim d(i); int p = d.next(24); return case_name("picture %d, transform %d", p, (int) d.i); });
}

/* ----------------------------------------------------------------------- C14 */
struct Limited
{
    Scene sc;
    Args a;
    Res full;
    ref::Msg fm;
    bool hdr;
    int related = 0;
    Limited(Ctx &c, const Cfg &g, int n, int content, int nq, int nr, int later, int lcx = 64, int lcy = 64) : sc(g, n, content, nq, nr, lcx, lcy)
    {
        a = sc.args();
        a.cap = 7 * 1024 * 1024;
        hdr = !later;
        related = later > 1 ? later - 1 : 0;
        Enc e(lib(), 640, 480, g.fmt, g.create_flags());
        warm(c, e);
        full = e.call(a);
        std::string s = full.ret < 0 ? "unlimited call failed" : parse_msg(e, full, fm);
        if (!s.empty()) c.fail("unlimited call: %s", s.c_str());
        if (full.ret != n || (int) fm.tiles.size() != n) c.fail("unlimited call delivered %d (message %d) of %d tiles", full.ret, (int) fm.tiles.size(), n);
    }
    void warm(Ctx &c, Enc &e)
    {
        if (!e.h) c.fail("creation failed");
        if (hdr) return;
        Args b = a;
        if (related)
        {
            /* the peer already holds slightly different content at every position */
            std::vector<uint8_t> p = sc.pix;
            for (size_t k = 50; k < p.size(); k += related == 1 ? 1999 : 37) p[k] ^= 0x48;
            b.buf = p.data();
            Res r = e.call(b);
            if (r.ret != (int) b.tiles.size()) c.fail("first call returned %d", r.ret);
            return;
        }
        b.tiles.resize(1);
        b.tiles[0].x = 64 * 60;
        b.tiles[0].y = 0;
        std::vector<uint8_t> p;
        if (sc.cfg.fmt == RFX_FORMAT_YUV) { p.assign(16384 * 62, 33); b.buf = p.data(); b.stride = 62 * 256; }
        else { b.tiles[0] = a.tiles[0]; b.tiles[0].quant_y = 0; }
        Res r = e.call(b);
        if (r.ret != 1) c.fail("first call returned %d", r.ret);
    }
    /* tiles of message m (from r) must be the bytes of tiles from.. of the unlimited message */
    std::string same(const Res &r, const ref::Msg &m, int from)
    {
        for (size_t i = 0; i < m.tiles.size(); i++)
        {
            const ref::Tile &x = m.tiles[i], &y = fm.tiles[from + i];
            if (x.len != y.len || memcmp(r.out.data() + x.off, full.out.data() + y.off, x.len))
                return ref::fmt("tile %d of the limited call (%d bytes) is not tile %d of the unlimited call (%d bytes)", (int) i, x.len, (int) (from + i), y.len);
        }
        return "";
    }
    /* returns tiles delivered */
    int once(Ctx &c, int cap)
    {
        Enc e(lib(), 640, 480, sc.cfg.fmt, sc.cfg.create_flags());
        warm(c, e);
        Args b = a;
        b.cap = cap;
        Res r = e.call(b);
        c.evals++;
        if (r.ret < 0) return 0;
        ref::Msg m;
        std::string s = parse_msg(e, r, m);
        if (s.empty() && (int) m.tiles.size() != r.ret) s = ref::fmt("returned %d but %d tiles are in the message", r.ret, (int) m.tiles.size());
        if (s.empty() && r.ret > (int) a.tiles.size()) s = ref::fmt("returned %d", r.ret);
        if (s.empty()) s = same(r, m, 0);
        if (!s.empty()) c.fail("capacity %d: %s", cap, s.c_str());
        c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        return r.ret;
    }
    int size_to(int k) const { return k ? fm.tiles[k - 1].off + fm.tiles[k - 1].len : 0; }
    /* tiles that a call with this capacity must at least deliver */
    int floor_of(int cap) const
    {
        int k = 0;
        for (int i = 0; i < (int) fm.tiles.size(); i++)
        {
            int need = sc.cfg.pro ? size_to(i + 1) + 6 : fm.tiles[i].off + 21 + 2 * 24595;
            if (cap >= need) k = i + 1;
        }
        return k;
    }
    void resubmit(Ctx &c, int cap)
    {
        Enc e(lib(), 640, 480, sc.cfg.fmt, sc.cfg.create_flags());
        warm(c, e);
        int done = 0, n = (int) a.tiles.size(), idle = 0;
        while (done < n)
        {
            Args b = a;
            b.cap = cap;
            b.tiles.assign(a.tiles.begin() + done, a.tiles.end());
            Res r = e.call(b);
            c.evals++;
            int big = sc.cfg.pro ? (fm.tiles[done].len + fm.tiles_off + 50) : fm.tiles_off + 50 + 2 * 24595;
            if (r.ret <= 0)
            {
                if (cap >= big) c.fail("capacity %d suffices for tile %d but the call returned %d", cap, done, r.ret);
                if (++idle > 1) cap = 7 * 1024 * 1024; /* what is left must still come out right */
                continue;
            }
            ref::Msg m;
            std::string s = parse_msg(e, r, m);
            if (s.empty() && (int) m.tiles.size() != r.ret) s = ref::fmt("returned %d but %d tiles are in the message", r.ret, (int) m.tiles.size());
            if (s.empty() && done + r.ret > n) s = "too many tiles";
            if (s.empty()) s = same(r, m, done);
            if (!s.empty()) c.fail("capacity %d, resubmission from tile %d: %s", cap, done, s.c_str());
            done += r.ret;
        }
        c.outcome(done * 131 + cap);
    }
};

} /* namespace */

CHECK_DEF(C01)
{
    K.rule = "Each case makes encode calls with every array (pixels, regions, tiles, tables) in read-only memory of exactly the declared size ending or starting at an inaccessible page, and the output area of exactly the declared capacity likewise; any stray access faults. Capacities are enumerated byte by byte. The asan families repeat the exploration on an address-sanitised build. Distinct: (return value, bytes reported) pairs.";
    K.assumptions.push_back("stray reads that stay inside the declared pixel area (row padding) are judged by C07");
    K.assumptions.push_back("tiles lie within the declared pixel area and are no larger than 64x64");
    c01_families(K, "accel", false);
    if (have_lib("asan")) c01_families(K, "asan", true);
    else K.capped = true;
}

CHECK_DEF(C14)
{
    const auto &C = all_cfgs();
    int nc = (int) C.size();
    bool th = !K.quick();
    K.rule = "For every capacity in the range, the message of a limited call is parsed and its tiles are compared byte for byte with those of the unlimited call; the count must equal the returned one, must not fall as capacity grows and must reach what the space allows; resubmission of the rest is followed to the end. Distinct: different messages.";
    K.assumptions.push_back("classic tiles: ample space means, besides headers and the tiles before, twice the bound of 24595 bytes that the library documents for a tile");
    /* every capacity, one chunk per case; each chunk starts one below so that monotonicity is checked across chunks */
    struct F { int cfg, n, content, later, step; };
    static std::vector<F> fs;
    fs.clear();
    for (int k = 0; k < nc; k++)
    {
        bool pick = th || C[k].pro || C[k].acc == (C[k].fmt + C[k].rl + 2 * C[k].alpha) % 3;
        if (!pick) continue;
        if (C[k].pro)
        {
            fs.push_back({k, 3, 4, 0, 1});
            fs.push_back({k, 3, 4, 1, 1});
            fs.push_back({k, 2, 103, 0, 1});
            fs.push_back({k, 5, 1, 1, 1});
        }
        else
        {
            fs.push_back({k, 1, 103, k & 1, th ? 1 : 61});
            if (th || C[k].acc == 2 || C[k].fmt == 4) fs.push_back({k, 2, th ? 102 : 5, (k >> 1) & 1, th ? 1 : 61});
        }
    }
    static const int SPAN = 110000, CH = 250;
    K.add("every-capacity", (uint64_t) fs.size() * (SPAN / CH), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(SPAN / CH);
        F f = fs[d.i];
        const Cfg &g = all_cfgs()[f.cfg];
        force_cpu(lib(), g.acc);
        Limited l(c, g, f.n, f.content, 2, 1, f.later);
        int top = (int) l.full.out.size() + (g.pro ? 40 : 2 * 24595 + 300);
        int lo = k * CH, hi = lo + CH < top ? lo + CH : top;
        if (lo > top) return;
        int prev = -1;
        for (int cap = lo; cap <= hi; cap++)
        {
            int n = l.once(c, cap);
            if (n < prev) c.fail("capacity %d delivers %d tiles, a smaller one delivered %d", cap, n, prev);
            int fl = l.floor_of(cap);
            if (n < fl) c.fail("capacity %d delivers %d tiles although there is room for %d", cap, n, fl);
            prev = n;
            /* everything delivered: the rest of the range is taken in steps */
            if (n == f.n && f.step > 1 && cap < hi) cap = cap + f.step < hi ? cap + f.step - 1 : hi - 1;
        }
    }, [](uint64_t i) { Dim d(i); int k = d.next(SPAN / CH); F f = fs[d.i]; return case_name("capacities %d..%d, %d tiles of content %d, %s%s", k * CH, (k + 1) * CH, f.n, f.content, all_cfgs()[f.cfg].name().c_str(), f.later ? ", later frame" : ""); });
    /* resubmission at a dense set of capacities for longer lists */
    K.add("resubmit", (uint64_t) nc * 60, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(60);
        const Cfg &g = all_cfgs()[d.i];
        force_cpu(lib(), g.acc);
        int n = 3 + k % 12;
        Limited l(c, g, n, k % 3 == 0 ? 1 : k % 3 == 1 ? 4 : 2, 1 + k % 5, k % 4, k & 1, 1 + (k * 7) % 64, 1 + (k * 11) % 64);
        int big = 0;
        for (auto &t : l.fm.tiles) if (t.len > big) big = t.len;
        for (int j = 0; j < 6; j++)
        {
            int cap = g.pro ? l.fm.tiles_off + big + 6 + k * 37 + j * 501 : 24595 + 200 + k * 1777 + j * 9000;
            l.resubmit(c, cap);
        }
    }, [](uint64_t i) { Dim d(i); int k = d.next(60); return case_name("resubmission, list %d, %s", k, all_cfgs()[d.i].name().c_str()); });
    /* every capacity step for progressive resubmission */
    K.add("resubmit-progressive", 128, [](Ctx &c, uint64_t i) {
        Cfg g = {RFX_FORMAT_YUV, 0, 0, 2, 1};
        force_cpu(lib(), 2);
        Limited l(c, g, 4, i & 1 ? 4 : 13, 2, 1, i & 1);
        int top = (int) l.full.out.size() + 30;
        for (int cap = (int) (i / 2); cap <= top; cap += 64) l.resubmit(c, cap);
    }, [](uint64_t i) { return case_name("progressive resubmission at capacities = %d mod 64", (int) i / 2); });
    /* lists repeated positions, any order */
    K.add("repeated-positions", 6 * 6 * 6, [](Ctx &c, uint64_t i) {
        Dim d(i);
        Cfg g = {RFX_FORMAT_YUV, 0, 0, 2, 1};
        Limited l(c, g, 6, 1, 2, 1, false);
        l.a.tiles = {l.a.tiles[d.next(6)], l.a.tiles[d.next(6)], l.a.tiles[d.next(6)], l.a.tiles[i % 5], l.a.tiles[i % 6]};
        Enc e(lib(), 640, 480, g.fmt, g.create_flags());
        l.full = e.call(l.a);
        l.fm = ref::Msg();
        c.req(parse_msg(e, l.full, l.fm));
        if (l.full.ret != 5) c.fail("unlimited call delivered %d of 5 tiles", l.full.ret);
        int prev = 0;
        for (int k = 0; k <= 5; k++)
            for (int x = -2; x <= 7; x++)
            {
                int cap = (k ? l.size_to(k) : l.fm.tiles_off) + x;
                int n = l.once(c, cap);
                if (n < l.floor_of(cap)) c.fail("capacity %d delivers %d tiles although there is room for %d", cap, n, l.floor_of(cap));
                if (n < prev) c.fail("capacity %d delivers fewer tiles than a smaller one", cap);
                prev = n;
                if (x == 6) l.resubmit(c, cap);
            }
    }, [](uint64_t i) { return case_name("progressive list with repeated positions %d", (int) i); });
    /* ample space: every tile delivered, content that codes worst, long lists */
    K.add("ample", (uint64_t) nc * 16, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(16);
        const Cfg &g = all_cfgs()[d.i];
        force_cpu(lib(), g.acc);
        Scene sc(g, 4 + k * 3, k % 4 == 0 ? 103 : k % 4 == 1 ? 102 : k % 4 == 2 ? 106 + k : 1, 3, 1);
        if (k % 4 == 3)
            for (auto &p : sc.pix) p = (&p - &sc.pix[0]) % 3 ? 255 * ((&p - &sc.pix[0]) / 3 & 1) : 0;
        Enc e(lib(), 640, 480, g.fmt, g.create_flags());
        Args a = sc.args();
        a.cap = 300 + 24595 + sc.n * (24595 + 4700);
        for (int f = 0; f < 2; f++)
        {
            Res r = e.call(a);
            if (r.ret != sc.n) c.fail("%d of %d tiles delivered with ample space", r.ret, sc.n);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            if (!g.pro) c.req(check_payload(e, a, r, m));
            else if (f == 0) c.req(check_payload(e, a, r, m));
            c.evals++;
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }
    }, [](uint64_t i) { Dim d(i); int k = d.next(16); return case_name("ample space, content %d, %d tiles, %s", k % 4, 4 + k * 3, all_cfgs()[d.i].name().c_str()); });
    /* extremal pictures: the largest payloads, single tile with space for exactly one worst case */
    K.add("worst-content", 4096ull * (th ? 4 : 1), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int co = d.next(4096), v = d.i;
        static const uint8_t Q6[5] = {0x66, 0x66, 0x66, 0x66, 0x66};
        static thread_local YuvTile t;
        for (int k = 0; k < 3; k++) pic_extremal(signs_classic(), (co + k * 777) & 4095, (co + v + k) & 1, t.p[k]);
        fill_noise(t.p[3], 4096, co);
        int cfg = co + v;
        force_cpu(lib(), cfg % 3);
        Enc e(lib(), 640, 480, RFX_FORMAT_YUV, (cfg / 3 & 1) | (cfg % 3 == 0 ? RFX_FLAGS_NOACCEL : 0));
        Args a = yuv_args(t.p[0], Q6, 1);
        a.flags = cfg / 6 & 1;
        a.cap = 200 + 2 * 24595;
        Res r = e.call(a);
        if (r.ret != 1) c.fail("tile not delivered with ample space (%d)", r.ret);
        ref::Msg m;
        c.req(parse_msg(e, r, m));
        c.req(check_payload(e, a, r, m));
        c.evals++;
        c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
    }, [](uint64_t i) { return case_name("picture extremal for coefficient %d", (int) (i % 4096)); });
    /* number of tiles in one call */
    K.add("list-length", th ? 120 : 40, [th](Ctx &c, uint64_t i) {
        int n = (int) (i * i) * (th ? 1 : 1) / (th ? 10 : 1) + 1;
        if (n > 1200) n = 1200 + (int) i;
        Cfg g = all_cfgs()[i % 2 ? 60 : (i * 7) % 60];
        int fmt = g.fmt;
        std::vector<uint8_t> pix;
        Args a;
        /* tiles share a small set of pixels: YUV tiles along x, RGB via tiny strides */
        if (fmt == RFX_FORMAT_YUV)
        {
            int cols = 60;
            pix.resize((size_t) cols * 16384 * (n / cols + 1));
            for (size_t t = 0; t < pix.size() / 4096; t++) pic_alpha((int) (t % 23), &pix[t * 4096]);
            a.stride = cols * 256;
            for (int t = 0; t < n; t++) a.tiles.push_back(mk_tile(t % cols * 64, t / cols * 64));
        }
        else
        {
            int b = bpp(fmt), cols = 16;
            a.stride = cols * 64 * b;
            pix.resize((size_t) a.stride * 64 * (n / cols + 1));
            for (size_t t = 0; t + 4096 <= pix.size(); t += 4096) pic_alpha((int) (t / 4096 % 23), &pix[t]);
            for (int t = 0; t < n; t++) a.tiles.push_back(mk_tile(t % cols * 64, t / cols * 64));
        }
        a.buf = pix.data();
        a.rects.push_back(mk_rect(0, 0, 64, 64));
        a.flags = g.alpha;
        a.cap = 8 * 1024 * 1024 - 100;
        force_cpu(lib(), g.acc);
        Enc e(lib(), 640, 480, fmt, g.create_flags());
        size_t done = 0;
        std::vector<rfx_tile> all = a.tiles;
        while (done < all.size())
        {
            a.tiles.assign(all.begin() + done, all.end());
            Res r = e.call(a);
            if (r.ret <= 0) c.fail("tile %d of %d: call returned %d with %d bytes of space", (int) done, n, r.ret, a.cap);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            if ((int) m.tiles.size() != r.ret) c.fail("returned %d but %d tiles are in the message", r.ret, (int) m.tiles.size());
            c.req(check_echo(e, a, r, m));
            c.req(check_payload(e, a, r, m));
            done += r.ret;
            c.evals++;
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }
    }, [th](uint64_t i) { return case_name("list length class %d", (int) i); });
    K.fams.back().case_limit = 60;
    /* updates: the tiles are (mostly) coded as differences to content delivered before */
    K.add("updates", 2ull * 3 * 128, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int rel = d.next(2), content = d.next(3), k = d.i;
        Cfg g = {RFX_FORMAT_YUV, 0, 0, 2, 1};
        force_cpu(lib(), 2);
        Limited l(c, g, 3, content == 0 ? 4 : content == 1 ? 1 : 2, 2, 1, 2 + rel);
        int top = (int) l.full.out.size() + 30;
        for (int cap = k; cap <= top; cap += 128)
        {
            int n = l.once(c, cap);
            if (n < l.floor_of(cap)) c.fail("capacity %d delivers %d tiles although there is room for %d", cap, n, l.floor_of(cap));
            l.resubmit(c, cap);
        }
    }, [](uint64_t i) { Dim d(i); int r = d.next(2), n = d.next(3); return case_name("updates, relation %d, content %d, capacities = %d mod 128", r, n, (int) d.i); });
    K.fams.back().case_limit = 60;
}
