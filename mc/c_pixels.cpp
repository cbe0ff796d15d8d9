/* C07 (each tile from its own pixels), C17 (pixel formats agree) */
#include "scene.h"
#include <sys/mman.h>

namespace {

const uint8_t Q6[5] = {0x66, 0x66, 0x66, 0x66, 0x66};
const char *FN[5] = {"BGRA", "RGBA", "BGR", "RGB", "YUV"};

/* a large sparse frame */
struct Sparse
{
    uint8_t *p;
    size_t n;
    Sparse(size_t n_) : n(n_)
    {
        p = (uint8_t *) mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) throw std::runtime_error("mmap");
    }
    ~Sparse() { munmap(p, n); }
    void drop() { madvise(p, n, MADV_DONTNEED); }
};
Sparse &sparse() { static Sparse s(2000000000ull); return s; }

/* run the call on a classic encoder and check every tile against the model of the caller's arguments */
void run_check(Ctx &c, int fmt, int rl, int acc, const Args &a, int ew = 64, int eh = 64)
{
    force_cpu(lib(), acc);
    Enc e(lib(), ew, eh, fmt, (rl ? RFX_FLAGS_RLGR1 : 0) | (acc == 0 ? RFX_FLAGS_NOACCEL : 0));
    force_cpu(lib(), -1);
    if (!e.h) c.fail("creation failed");
    Res r = e.call(a);
    if (r.ret != (int) a.tiles.size()) c.fail("call returned %d of %d tiles", r.ret, (int) a.tiles.size());
    ref::Msg m;
    c.req(parse_msg(e, r, m));
    if (m.tiles.size() != a.tiles.size()) c.fail("%d tiles in the message, %d given", (int) m.tiles.size(), (int) a.tiles.size());
    for (size_t i = 0; i < m.tiles.size(); i++)
        if (m.tiles[i].x != a.tiles[i].x / 64 || m.tiles[i].y != a.tiles[i].y / 64)
            c.fail("tile %d of the message is at (%d,%d) instead of (%d,%d)", (int) i, m.tiles[i].x, m.tiles[i].y, a.tiles[i].x / 64, a.tiles[i].y / 64);
    c.req(check_payload(e, a, r, m));
    c.evals++;
    for (auto &t : m.tiles) c.outcome(tile_hash(r, t));
}
Args base_args(const uint8_t *buf, int w, int h, int stride)
{
    Args a;
    a.buf = buf; a.w = w; a.h = h; a.stride = stride;
    a.rects.push_back(mk_rect(0, 0, w, h));
    a.quants = Q6; a.nquants = 1;
    return a;
}

} /* namespace */

CHECK_DEF(C07)
{
    bool th = !K.quick();
    K.rule = "Every case encodes tiles cut out of a frame whose other pixels and stride padding hold unrelated data; each tile's position and all its coefficients (and alpha values) are compared with a model computed from the tile's own source rectangle only. Distinct: tile bytes differ from all others (hash).";
    K.assumptions.push_back("offsets within the frame stay below 2 GB; strides are not negative; YUV strides are multiples of 256");
    /* every size, every RGB format, with and without alpha; surroundings are noise, two backgrounds */
    K.add("sizes", 4096ull * 8, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cx = d.next(64) + 1, cy = d.next(64) + 1, fmt = d.next(4), alpha = d.next(2);
        int n = bpp(fmt), stride = (64 * 2 + 5) * n;
        static std::vector<uint8_t> px;
        px.resize(stride * 130);
        fill_noise(px.data(), px.size(), i * 2 + 1);
        /* the tile sits at (64,64) and is surrounded by noise on all sides */
        Args a = base_args(px.data(), 64 + cx, 64 + cy, stride);
        a.tiles.push_back(mk_tile(64, 64, cx, cy));
        a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, fmt, (cx ^ cy) & 1, (cx + cy) % 3, a);
    }, [](uint64_t i) { Dim d(i); int cx = d.next(64) + 1, cy = d.next(64) + 1, fmt = d.next(4); return case_name("%dx%d tile, %s%s", cx, cy, FN[fmt], d.i ? ", alpha" : ""); });
    /* smooth content: replication of the last column and row with distinctive edges */
    K.add("edges", 4096ull * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cx = d.next(64) + 1, cy = d.next(64) + 1, fmt = d.i, n = bpp(fmt);
        static std::vector<uint8_t> px;
        px.assign(cx * cy * n, 10);
        for (int y = 0; y < cy; y++)
            for (int x = 0; x < cx; x++)
                for (int k = 0; k < n; k++)
                {
                    uint8_t &v = px[(y * cx + x) * n + k];
                    if (x == cx - 1) v = 255 - y * 3;
                    if (y == cy - 1) v = x * 2 + k * 30;
                    if (x == cx - 1 && y == cy - 1) v = 1 + k * 80;
                }
        Args a = base_args(px.data(), cx, cy, cx * n);
        a.tiles.push_back(mk_tile(0, 0, cx, cy));
        a.flags = (cx + cy) & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, fmt, cx & 1, cy % 3, a);
    }, [](uint64_t i) { Dim d(i); int cx = d.next(64) + 1, cy = d.next(64) + 1; return case_name("marked edges of a %dx%d tile, %s", cx, cy, FN[d.i]); });
    /* strides */
    K.add("strides", 5ull * 1200, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(5), s = d.i;
        int n = bpp(fmt);
        int stride = fmt == RFX_FORMAT_YUV ? 256 * (2 + s % 600) : 128 * n + (s < 600 ? s : (s - 600) * 97 + 601);
        Sparse &S = sparse();
        uint8_t *f = S.p;
        Args a = base_args(f, 128, 128, stride);
        a.flags = s & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        if (fmt == RFX_FORMAT_YUV)
        {
            /* four tiles, then the whole frame is (y<<8)*(stride>>8) + (x<<8) addressed */
            fill_noise(f, 64 * 256 * (size_t) (stride >> 8) + 2 * 16384, i + 1);
        }
        else fill_noise(f, (size_t) stride * 128, i + 1);
        for (int t = 0; t < 4; t++)
            a.tiles.push_back(mk_tile((t & 1) * 64, (t >> 1) * 64, 64 - (t & 1) * (s % 64), 64 - (t >> 1) * ((s * 3) % 64)));
        run_check(c, fmt, s & 1, s % 3, a, 128, 128);
    }, [](uint64_t i) { Dim d(i); int f = d.next(5); return case_name("%s, stride case %d", FN[f], (int) d.i); });
    /* pictures larger than 2 GB: offsets that do not fit in 32 bits, downwards and upwards */
    K.add("huge-pictures", 6ull * 2 * 2 * 16, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int f = d.next(6), al = d.next(2), up = d.next(2), k = d.i;
        bool pro = f == 5;
        int fmt = pro ? RFX_FORMAT_YUV : f, n = bpp(fmt);
        const size_t SPAN = 9500000000ull;
        static uint8_t *p;
        if (!p)
        {
            p = (uint8_t *) mmap(0, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) p = nullptr;
        }
        if (!p) { c.aux++; return; }
        /* byte distance of the tile row from the start: around 2^31, 2^32 and 2^33 */
        static const double AT[16] = {2.1e9, 2147483648., 2147490000., 2.2e9, 2.5e9, 3.0e9, 3.5e9, 4.2e9, 4294967296., 4294970000., 4.4e9, 5e9, 6e9, 6.5e9, 8e9, 8.7e9};
        int y = pro ? 4032 - 64 * (k % 5) : fmt == RFX_FORMAT_YUV ? 16384 + 64 * k : 20000 + 64 * k, x = 64 * (k % 7), stride;
        if (fmt == RFX_FORMAT_YUV) stride = 256 * (int) (AT[k] / ((double) y * 256));
        else stride = (int) (AT[k] / y);
        long off = fmt == RFX_FORMAT_YUV ? (long) (y << 8) * (stride >> 8) : (long) y * stride;
        uint8_t *buf = up ? p + off + 64l * stride : p;
        if (up) stride = -stride;
        Args a = base_args(buf, 16384, 16384, stride);
        a.tiles.push_back(mk_tile(x, y, 64 - k, 64 - (k & 3) * 9));
        a.tiles.push_back(mk_tile(64, 0, 64, 64));
        a.flags = al && !pro ? RFX_FLAGS_ALPHAV1 : 0;
        for (auto &t : a.tiles)
        {
            if (fmt == RFX_FORMAT_YUV) fill_noise(buf + (long) (t.y << 8) * (stride >> 8) + (t.x << 8), 16384, i + t.y);
            else for (int r = 0; r < t.cy; r++) fill_noise(buf + (long) (t.y + r) * stride + (long) t.x * n, 64 * n, i * 64 + r + t.y);
        }
        if (pro)
        {
            Enc e(lib(), 4096, 4096, fmt, RFX_FLAGS_PRO1);
            Res r = e.call(a);
            if (r.ret != 2) c.fail("call returned %d of 2 tiles", r.ret);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            c.req(check_payload(e, a, r, m));
            c.evals++;
            for (auto &t : m.tiles) c.outcome(tile_hash(r, t));
        }
        else run_check(c, fmt, k & 1, k % 3, a, 4096, 4096);
        madvise(p, SPAN, MADV_DONTNEED);
    }, [](uint64_t i) { Dim d(i); int f = d.next(6), al = d.next(2), up = d.next(2); return case_name("%s%s%s, picture larger than 2 GB, case %d", f == 5 ? "progressive" : FN[f], al ? ", alpha" : "", up ? ", upwards" : "", (int) d.i); });
    K.fams.back().case_limit = 60;
    /* strides that walk up the picture, or not at all */
    K.add("upward-strides", 5ull * 300, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(5), s = d.i;
        int n = bpp(fmt);
        int stride = fmt == RFX_FORMAT_YUV ? 256 * (2 + s % 300) : 128 * n + s;
        Sparse &S = sparse();
        bool none = s % 50 == 49;
        size_t bytes = fmt == RFX_FORMAT_YUV ? 64 * 256 * (size_t) (stride >> 8) + 2 * 16384 : (size_t) stride * 128;
        fill_noise(S.p, bytes, i + 1);
        /* row 0 of the frame is the last one in memory */
        uint8_t *f = none ? S.p : fmt == RFX_FORMAT_YUV ? S.p + 64 * 256 * (size_t) (stride >> 8) : S.p + (size_t) stride * 127;
        Args a = base_args(f, 128, 128, none ? 0 : -stride);
        a.flags = s & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        for (int t = 0; t < 4; t++)
            a.tiles.push_back(mk_tile((t & 1) * 64, (t >> 1) * 64, 64 - (t & 1) * (s % 64), 64 - (t >> 1) * ((s * 3) % 64)));
        run_check(c, fmt, s & 1, s % 3, a, 128, 128);
    }, [](uint64_t i) { Dim d(i); int f = d.next(5); return case_name("%s, negative or zero stride case %d", FN[f], (int) d.i); });
    /* every grid position of a 64x64-tile frame */
    K.add("positions", 4096ull * 5, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int tx = d.next(64), ty = d.next(64), fmt = d.i, n = bpp(fmt);
        Sparse &S = sparse();
        int stride = 4096 * n;
        size_t off, len;
        Args a = base_args(S.p, 4096, 4096, stride);
        int cx = 1 + (tx * 5 + ty) % 64, cy = 1 + (tx + ty * 3) % 64;
        a.tiles.push_back(mk_tile(tx * 64, ty * 64, cx, cy));
        a.flags = (tx ^ ty) & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        if (fmt == RFX_FORMAT_YUV)
        {
            off = (size_t) (ty * 64 << 8) * (stride >> 8) + (tx * 64 << 8);
            fill_noise(S.p + off, 16384, i + 7);
        }
        else
            for (int y = 0; y < 64; y++) fill_noise(S.p + (size_t) (ty * 64 + y) * stride + tx * 64 * n, 64 * n, i * 64 + y + 7);
        run_check(c, fmt, tx & 1, ty % 3, a, 4096, 4096);
        if (i % 512 == 511) S.drop();
    }, [](uint64_t i) { Dim d(i); int tx = d.next(64), ty = d.next(64); return case_name("%s tile at grid position (%d,%d)", FN[d.i], tx, ty); });
    /* far positions along the axes (16-bit tile indices, large frames) */
    K.add("far-positions", 5ull * 3 * 448, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(5), axis = d.next(3), p = (int) d.i + 64;
        int n = bpp(fmt);
        int tx = axis == 0 ? p : axis == 2 ? p / 4 : 1, ty = axis == 1 ? p : axis == 2 ? p / 4 : 1;
        int stride = fmt == RFX_FORMAT_YUV ? (tx + 1) * 64 * 4 : (tx + 1) * 64 * n + 3;
        Sparse &S = sparse();
        Args a = base_args(S.p, (tx + 1) * 64, (ty + 1) * 64, stride);
        a.tiles.push_back(mk_tile(tx * 64, ty * 64, 64, 64));
        a.flags = p & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        if (fmt == RFX_FORMAT_YUV) fill_noise(S.p + (size_t) (ty * 64 << 8) * (stride >> 8) + (tx * 64 << 8), 16384, i + 7);
        else for (int y = 0; y < 64; y++) fill_noise(S.p + (size_t) (ty * 64 + y) * stride + (size_t) tx * 64 * n, 64 * n, i * 64 + y + 7);
        run_check(c, fmt, p & 1, p % 3, a, 4096, 4096);
        if (i % 128 == 127) S.drop();
    }, [](uint64_t i) { Dim d(i); int f = d.next(5), ax = d.next(3); return case_name("%s, axis %d, index %d", FN[f], ax, (int) d.i + 64); });
    /* tiles that do not start at a multiple of 64 */
    K.add("off-grid", 4ull * 2 * 130 * 12, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(4), axis = d.next(2), p = d.next(130), v = d.i, n = bpp(fmt);
        int x = axis ? v * 11 : p, y = axis ? p : v * 11;
        int cx = v & 1 ? 64 : 1 + (p * 5) % 64, cy = v & 2 ? 64 : 1 + (p * 3 + v) % 64;
        int stride = 260 * n + (p & 3);
        static std::vector<uint8_t> px;
        px.resize((size_t) stride * 260);
        fill_noise(px.data(), px.size(), i + 7);
        Args a = base_args(px.data(), 260, 260, stride);
        a.tiles.push_back(mk_tile(x, y, cx, cy));
        a.flags = v & 4 ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, fmt, p & 1, v % 3, a, 260, 260);
    }, [](uint64_t i) { Dim d(i); int f = d.next(4), ax = d.next(2), p = d.next(130); return case_name("%s tile at %d on axis %d, variant %d", FN[f], p, ax, (int) d.i); });
    /* pixel addresses up to the ends of the coordinate range */
    K.add("farthest-positions", 4ull * 2 * 2 * 64, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(4), alpha = d.next(2), axis = d.next(2), p = 1024 - 1 - (int) d.i * 16 - ((int) d.i & 15), n = bpp(fmt);
        int tx = axis ? 0 : p, ty = axis ? p : 0, stride = (tx + 1) * 64 * n + 5;
        Sparse &S = sparse();
        Args a = base_args(S.p, (tx + 1) * 64, (ty + 1) * 64, stride);
        int cx = 64 - (p & 7), cy = 64 - (p & 3);
        a.tiles.push_back(mk_tile(tx * 64, ty * 64, cx, cy));
        a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        for (int y = 0; y < 64; y++) fill_noise(S.p + (size_t) (ty * 64 + y) * stride + (size_t) tx * 64 * n, 64 * n, i * 64 + y + 7);
        run_check(c, fmt, p & 1, p % 3, a, 4096, 4096);
        if (i % 64 == 63) S.drop();
    }, [](uint64_t i) { Dim d(i); int f = d.next(4), al = d.next(2), ax = d.next(2); return case_name("%s%s, axis %d, index %d", FN[f], al ? " with alpha" : "", ax, 1024 - 1 - (int) d.i * 16 - ((int) d.i & 15)); });
    /* words over a 2x2 grid of tiles: order, repetition, company */
    K.add("tile-words", (4 + 16 + 64 + 256 + 1024) * 5ull * (th ? 3 : 1), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(5);
        int w = d.next(1364), acc = (w + fmt + (int) d.i) % 3;
        int len = 1, base = 4;
        while (w >= base) { w -= base; base *= 4; len++; }
        int n = bpp(fmt), stride = fmt == RFX_FORMAT_YUV ? 512 : 128 * n + 4;
        static std::vector<uint8_t> px[5];
        if (px[fmt].empty()) { px[fmt].resize(fmt == RFX_FORMAT_YUV ? 65536 : stride * 128); fill_noise(px[fmt].data(), px[fmt].size(), 5); }
        Args a = base_args(px[fmt].data(), 128, 128, stride);
        a.flags = len & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        for (int k = 0; k < len; k++, w /= 4)
        {
            int t = w & 3;
            a.tiles.push_back(mk_tile((t & 1) * 64, (t >> 1) * 64, t & 1 ? 37 : 64, t & 2 ? 21 : 64));
        }
        run_check(c, fmt, len & 1, acc, a, 128, 128);
    }, [](uint64_t i) { return case_name("%s, tile word %d over a 2x2 grid", FN[i % 5], (int) (i / 5 % 1364)); });
    /* sequences of partial sizes in one call: state left by one tile must not reach the next */
    K.add("size-sequences", 12 * 12 * 12 * 4, [](Ctx &c, uint64_t i) {
        static const int S[12][2] = {{64, 64}, {1, 1}, {64, 1}, {1, 64}, {63, 64}, {64, 63}, {32, 16}, {17, 33}, {2, 3}, {8, 64}, {64, 8}, {15, 15}};
        Dim d(i);
        int k[3] = {d.next(12), d.next(12), d.next(12)}, fmt = d.i, n = bpp(fmt);
        static std::vector<uint8_t> px;
        px.resize(192 * n * 64);
        fill_noise(px.data(), px.size(), i + 9);
        Args a = base_args(px.data(), 192, 64, 192 * n);
        for (int t = 0; t < 3; t++) a.tiles.push_back(mk_tile(t * 64, 0, S[k[t]][0], S[k[t]][1]));
        a.flags = i & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, fmt, i & 2, (int) (i % 3), a, 192, 64);
    }, [](uint64_t i) { return case_name("three tiles of sizes %d,%d,%d, %s", (int) (i % 12), (int) (i / 12 % 12), (int) (i / 144 % 12), FN[i / 1728]); });
    /* YUV tiles are complete whatever cx, cy say */
    K.add("yuv-sizes", 4096ull * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cx = d.next(64) + 1, cy = d.next(64) + 1, alpha = d.i;
        static std::vector<uint8_t> px(4 * 16384);
        fill_noise(px.data(), px.size(), i + 3);
        Args a = base_args(px.data(), 128, 128, 512);
        a.tiles.push_back(mk_tile(64, 64, cx, cy));
        a.tiles.push_back(mk_tile(0, 64, cy, cx));
        a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, RFX_FORMAT_YUV, cx & 1, cy % 3, a, 128, 128);
    }, [](uint64_t i) { Dim d(i); int cx = d.next(64) + 1, cy = d.next(64) + 1; return case_name("YUV tile declared %dx%d", cx, cy); });
    /* declared frame and encoder sizes do not move pixels */
    K.add("frame-size", 5ull * 400, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(5), s = d.i, n = bpp(fmt), stride = fmt == RFX_FORMAT_YUV ? 768 : 192 * n;
        static std::vector<uint8_t> px;
        px.resize(fmt == RFX_FORMAT_YUV ? 9 * 16384 : stride * 192);
        fill_noise(px.data(), px.size(), i);
        int w = 128 + s % 65, h = 128 + (s * 7) % 65;
        Args a = base_args(px.data(), s % 3 ? w : 192, s % 5 ? h : 192, stride);
        a.tiles.push_back(mk_tile(64, 64, 64, 64));
        a.tiles.push_back(mk_tile(128, 128, w - 128 > 0 ? w - 128 : 1, h - 128 > 0 ? h - 128 : 1));
        a.flags = s & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, fmt, s & 1, s % 3, a, 16 + s * 3, 2000 - s);
    }, [](uint64_t i) { return case_name("%s, frame size case %d", FN[i % 5], (int) (i / 5)); });
    /* one source pixel at a time: changes exactly the tile that holds it, as the model predicts */
    K.add("single-pixel", 128ull * 128, [](Ctx &c, uint64_t i) {
        int x = i % 128, y = i / 128, fmt = (x + y) % 4, n = bpp(fmt);
        static std::vector<uint8_t> px;
        px.assign(130 * n * 130, 90);
        int stride = 130 * n;
        memset(&px[(y + 1) * stride + (x + 1) * n], 250, n);
        /* tiles cover (1..)+: four tiles with a ragged right and bottom edge */
        Args a = base_args(&px[stride + n], 128, 128, stride);
        for (int t = 0; t < 4; t++) a.tiles.push_back(mk_tile((t & 1) * 64, (t >> 1) * 64, t & 1 ? 50 : 64, t & 2 ? 43 : 64));
        a.flags = x & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, fmt, y & 1, x % 3, a, 128, 128);
    }, [](uint64_t i) { return case_name("single bright pixel at (%d,%d)", (int) (i % 128), (int) (i / 128)); });
    /* many tiles in one call */
    K.add("tile-counts", 5ull * 128, [](Ctx &c, uint64_t i) {
        int fmt = i % 5, nt = (int) (i / 5) + 1, n = bpp(fmt);
        int cols = 16, rows = (nt + 15) / 16, stride = cols * 64 * (fmt == RFX_FORMAT_YUV ? 4 : n);
        static std::vector<uint8_t> px;
        px.resize(fmt == RFX_FORMAT_YUV ? (size_t) cols * rows * 16384 : (size_t) stride * rows * 64);
        for (size_t k = 0; k + 4096 <= px.size(); k += 16384) pic_alpha((int) (k / 16384 * 7 + i), &px[k]);
        fill_noise(px.data(), px.size() / 2, i);
        Args a = base_args(px.data(), cols * 64, rows * 64, stride);
        for (int t = 0; t < nt; t++)
        {
            int u = (t * 7) % (rows * cols);
            a.tiles.push_back(mk_tile((u % cols) * 64, (u / cols) * 64, 1 + (u * 13) % 64, 1 + (u * 29) % 64));
        }
        a.flags = nt & 1 ? RFX_FLAGS_ALPHAV1 : 0;
        run_check(c, fmt, nt & 1, nt % 3, a, 1024, 1024);
    }, [](uint64_t i) { return case_name("%s, %d tiles in one call", FN[i % 5], (int) (i / 5) + 1); });
    /* very long tile lists: every position of the list gets its own pixels */
    K.add("long-lists", 5ull * 2 * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int fmt = d.next(5), alpha = d.next(2), rl = d.i;
        LongList L(fmt, 2100, alpha, (unsigned) i);
        run_check(c, fmt, rl, (fmt + alpha) % 3, L.a, 1024, 1024);
    }, [](uint64_t i) { Dim d(i); int f = d.next(5), al = d.next(2); return case_name("%s%s, 2100 tiles in one call, rlgr%d", FN[f], al ? ", alpha" : "", d.i ? 1 : 3); });
    /* progressive tiles: own pixels at every grid position, strides, order */
    K.add("progressive", 4096, [](Ctx &c, uint64_t i) {
        int tx = i % 64, ty = (int) i / 64;
        int stride = (tx < 63 ? 64 : 65) * 256 + 256 * (ty % 3);
        Sparse &S = sparse();
        Enc e(lib(), 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
        Args a = base_args(S.p, 4096, 4096, stride);
        a.tiles.push_back(mk_tile(tx * 64, ty * 64, 1 + tx, 1 + ty));
        a.tiles.push_back(mk_tile(((tx + 1) % 64) * 64, ((ty * 3 + 1) % 64) * 64, 64, 64));
        for (auto &t : a.tiles) fill_noise(S.p + (size_t) (t.y << 8) * (stride >> 8) + (t.x << 8), 12288, i * 2 + t.x + 7);
        Res r = e.call(a);
        if (r.ret != 2) c.fail("call returned %d", r.ret);
        ref::Msg m;
        c.req(parse_msg(e, r, m));
        if (m.tiles.size() != 2) c.fail("%d tiles", (int) m.tiles.size());
        for (int k = 0; k < 2; k++)
        {
            if (m.tiles[k].x != a.tiles[k].x / 64 || m.tiles[k].y != a.tiles[k].y / 64) c.fail("tile %d at (%d,%d)", k, m.tiles[k].x, m.tiles[k].y);
            if (m.tiles[k].flags) c.fail("first tile of a position marked as difference");
        }
        if (a.tiles[0].x == a.tiles[1].x && a.tiles[0].y == a.tiles[1].y) return;
        c.req(check_payload(e, a, r, m));
        c.evals++;
        c.outcome(tile_hash(r, m.tiles[0]));
        if (i % 512 == 511) S.drop();
    }, [](uint64_t i) { return case_name("progressive tile at grid position (%d,%d)", (int) (i % 64), (int) (i / 64)); });
    /* progressive calls with many tiles, in several orders, over several frames */
    K.add("progressive-lists", 64, [](Ctx &c, uint64_t i) {
        int nt = (int) i + 1, cols = 8, rows = 8, stride = cols * 256;
        std::vector<uint8_t> px((size_t) cols * rows * 16384);
        Enc e(lib(), 512, 512, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
        for (int f = 0; f < 3; f++)
        {
            fill_noise(px.data(), px.size(), i * 3 + f + 1);
            Args a = base_args(px.data(), 512, 512, stride);
            a.flags = RFX_FLAGS_PRO_KEY;
            for (int t = 0; t < nt; t++)
            {
                int u = (t * (f == 0 ? 1 : f == 1 ? 7 : 63) + f) % 64;
                a.tiles.push_back(mk_tile((u % cols) * 64, (u / cols) * 64));
            }
            Res r = e.call(a);
            if (r.ret != nt) c.fail("call returned %d of %d", r.ret, nt);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            if ((int) m.tiles.size() != nt) c.fail("%d tiles", (int) m.tiles.size());
            for (int k = 0; k < nt; k++)
                if (m.tiles[k].x != a.tiles[k].x / 64 || m.tiles[k].y != a.tiles[k].y / 64) c.fail("tile %d at (%d,%d)", k, m.tiles[k].x, m.tiles[k].y);
            c.req(check_payload(e, a, r, m));
            c.evals++;
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }
    }, [](uint64_t i) { return case_name("progressive key frames of %d tiles in three orders", (int) i + 1); });
    K.add("progressive-long-lists", 2, [](Ctx &c, uint64_t i) {
        LongList L(RFX_FORMAT_YUV, 4096, false, (unsigned) i + 1, 64);
        Enc e(lib(), 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
        Res r = e.call(L.a);
        if (r.ret != 4096) c.fail("call returned %d of 4096", r.ret);
        ref::Msg m;
        c.req(parse_msg(e, r, m));
        if ((int) m.tiles.size() != 4096) c.fail("%d tiles", (int) m.tiles.size());
        for (int k = 0; k < 4096; k++)
            if (m.tiles[k].x != L.a.tiles[k].x / 64 || m.tiles[k].y != L.a.tiles[k].y / 64) c.fail("tile %d at (%d,%d)", k, m.tiles[k].x, m.tiles[k].y);
        c.req(check_payload(e, L.a, r, m));
        c.evals++;
        c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
    }, [](uint64_t i) { return case_name("progressive frame of 4096 tiles, content %d", (int) i); });
    /* one encoder, one buffer: a pixel changed in place between calls, at every position */
    K.add("changed-pixel", 4096ull * 5 * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pos = d.next(4096), fmt = d.next(5), alpha = d.i, n = bpp(fmt), acc = (pos + fmt) % 3;
        static uint8_t px[16384];
        fill_noise(px, sizeof px, fmt + 1);
        Args a = base_args(px, 64, 64, 64 * n);
        a.tiles.push_back(mk_tile(0, 0));
        a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
        force_cpu(lib(), acc);
        Enc e(lib(), 64, 64, fmt, (pos & 1) | (acc == 0 ? RFX_FLAGS_NOACCEL : 0));
        force_cpu(lib(), -1);
        if (!e.h) c.fail("creation failed");
        for (int s = 0; s < 2; s++)
        {
            int comp = (pos + s) % (n == 4 && alpha ? 4 : 3);
            if (s) px[fmt == RFX_FORMAT_YUV ? comp * 4096 + pos : pos * n + comp] ^= 0x80;
            Res r = e.call(a);
            if (r.ret != 1) c.fail("call returned %d", r.ret);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            c.req(check_payload(e, a, r, m));
            c.evals++;
            c.outcome(tile_hash(r, m.tiles[0]));
        }
    }, [](uint64_t i) { Dim d(i); int p = d.next(4096), f = d.next(5); return case_name("pixel %d changed in place, %s%s", p, FN[f], d.i ? ", alpha" : ""); });
}

namespace {

/* a picture of w x h RGBA pixels; its encodings in all formats */
struct Pic
{
    int w, h;
    std::vector<uint8_t> px; /* R G B A */
    Pic(int w_, int h_) : w(w_), h(h_), px((size_t) w_ * h_ * 4) {}
    uint8_t *at(int x, int y) { return &px[((size_t) y * w + x) * 4]; }
};
/* all tiles of the picture in one call; format-specific buffer built by conversion */
struct Conv
{
    std::vector<uint8_t> buf;
    Args a;
    Conv(Pic &p, int fmt, bool alpha, int fourth, int pad)
    {
        int tw = (p.w + 63) / 64, thh = (p.h + 63) / 64;
        std::vector<rfx_tile> tiles;
        for (int ty = 0; ty < thh; ty++)
            for (int tx = 0; tx < tw; tx++)
                tiles.push_back(mk_tile(tx * 64, ty * 64, p.w - tx * 64 < 64 ? p.w - tx * 64 : 64, p.h - ty * 64 < 64 ? p.h - ty * 64 : 64));
        if (fmt == RFX_FORMAT_YUV)
        {
            int stride = tw * 256;
            buf.assign((size_t) tw * thh * 16384, 0);
            for (auto &t : tiles)
            {
                uint8_t *d = &buf[(size_t) (t.y << 8) * (stride >> 8) + (t.x << 8)];
                for (int y = 0; y < 64; y++)
                    for (int x = 0; x < 64; x++)
                    {
                        uint8_t *s = p.at(t.x + (x < t.cx ? x : t.cx - 1), t.y + (y < t.cy ? y : t.cy - 1));
                        int o = y * 64 + x;
                        ref::rgb2yuv(s[0], s[1], s[2], &d[o], &d[4096 + o], &d[8192 + o]);
                        d[12288 + o] = alpha ? s[3] : (uint8_t) fourth;
                    }
            }
            a = base_args(buf.data(), p.w, p.h, stride);
        }
        else
        {
            int n = bpp(fmt), ri = (fmt == RFX_FORMAT_BGRA || fmt == RFX_FORMAT_BGR) ? 2 : 0, stride = p.w * n + pad;
            buf.assign((size_t) stride * p.h, 0x3c);
            for (int y = 0; y < p.h; y++)
                for (int x = 0; x < p.w; x++)
                {
                    uint8_t *s = p.at(x, y), *d = &buf[(size_t) y * stride + x * n];
                    d[ri] = s[0]; d[1] = s[1]; d[2 - ri] = s[2];
                    if (n == 4) d[3] = alpha ? s[3] : (uint8_t) (fourth < 0 ? x * 7 + y * 13 : fourth);
                }
            a = base_args(buf.data(), p.w, p.h, stride);
        }
        a.tiles = tiles;
        a.flags = alpha ? RFX_FLAGS_ALPHAV1 : 0;
    }
};
struct Out
{
    Res r;
    ref::Msg m;
};
void enc_pic(Ctx &c, Pic &p, int fmt, bool alpha, int fourth, int rl, int acc, int pad, Out &o, const uint8_t *q)
{
    Conv v(p, fmt, alpha, fourth, pad);
    if (q) v.a.quants = q;
    force_cpu(lib(), acc);
    Enc e(lib(), p.w, p.h, fmt, (rl ? RFX_FLAGS_RLGR1 : 0) | (acc == 0 ? RFX_FLAGS_NOACCEL : 0));
    force_cpu(lib(), -1);
    if (!e.h) c.fail("creation failed (%s)", FN[fmt]);
    o.r = e.call(v.a);
    if (o.r.ret != (int) v.a.tiles.size()) c.fail("%s: call returned %d", FN[fmt], o.r.ret);
    o.m = ref::Msg();
    c.req(parse_msg(e, o.r, o.m));
    if (o.m.tiles.size() != v.a.tiles.size()) c.fail("%s: %d tiles", FN[fmt], (int) o.m.tiles.size());
    c.evals++;
}
void same_tiles(Ctx &c, const Out &a, const Out &b, bool alpha, const char *na, const char *nb)
{
    static const char *CN[4] = {"Y", "Cb", "Cr", "alpha"};
    if (a.m.tiles.size() != b.m.tiles.size()) c.fail("%s and %s: different tile counts", na, nb);
    for (size_t i = 0; i < a.m.tiles.size(); i++)
    {
        const ref::Tile &s = a.m.tiles[i], &t = b.m.tiles[i];
        if (s.x != t.x || s.y != t.y) c.fail("%s and %s: tile %d at different positions", na, nb, (int) i);
        for (int k = 0; k < (alpha ? 4 : 3); k++)
            if (s.plen[k] != t.plen[k] || memcmp(&a.r.out[s.poff[k]], &b.r.out[t.poff[k]], s.plen[k]))
                c.fail("tile %d: %s data of %s and %s differ", (int) i, CN[k], na, nb);
    }
}
/* all five formats, with and without alpha */
void all_formats(Ctx &c, Pic &p, int rl, int acc, int pad, const uint8_t *q = nullptr, int modes = 3)
{
    static Out ref_, o;
    if (modes & 1)
    {
        enc_pic(c, p, RFX_FORMAT_BGRA, false, 0, rl, acc, pad, ref_, q);
        for (int f = 1; f < 5; f++)
        {
            enc_pic(c, p, f, false, -1, rl, acc, pad, o, q);
            same_tiles(c, ref_, o, false, "BGRA", FN[f]);
        }
        c.outcome(ref::hash_bytes(ref_.r.out.data(), ref_.r.out.size()));
    }
    if (modes & 2)
    {
        static Out al;
        enc_pic(c, p, RFX_FORMAT_BGRA, true, 0, rl, acc, pad, al, q);
        if (modes & 1) same_tiles(c, ref_, al, false, "BGRA", "BGRA with alpha");
        for (int f = 1; f < 5; f++)
        {
            enc_pic(c, p, f, true, 0, rl, acc, pad, o, q);
            same_tiles(c, al, o, bpp(f) == 4, "BGRA with alpha", f == 1 ? "RGBA with alpha" : f == 4 ? "YUV with alpha" : f == 2 ? "BGR with alpha" : "RGB with alpha");
        }
        c.outcome(ref::hash_bytes(al.r.out.data(), al.r.out.size()));
    }
}

} /* namespace */

CHECK_DEF(C17)
{
    bool th = !K.quick();
    K.rule = "Every case encodes one picture in all five pixel formats (YUV planes by independent conversion) and compares the component payloads byte for byte, including the alpha payloads of the formats that carry alpha. Distinct: message bytes differ from all others (hash).";
    /* all 2^24 colours, 256 per tile (4x4 blocks) */
    K.add("all-colours", 65536, [th](Ctx &c, uint64_t i) {
        static Pic p(64, 64);
        for (int b = 0; b < 256; b++)
            for (int y = 0; y < 4; y++)
                for (int x = 0; x < 4; x++)
                {
                    uint8_t *s = p.at((b % 16) * 4 + x, (b / 16) * 4 + y);
                    s[0] = i >> 8; s[1] = i & 255; s[2] = b; s[3] = (uint8_t) (b * 3 + i);
                }
        all_formats(c, p, i & 1, (int) (i % 3), 0, nullptr, th ? 3 : i % 8 ? 1 : 3);
    }, [](uint64_t i) { return case_name("red %d green %d, all blues", (int) (i >> 8), (int) (i & 255)); });
    /* flat tiles, where a difference of one level cannot vanish in the quantisation */
    K.add("flat-colours", 4913 + 256 + 3 * 256 * (th ? 256 : 16), [th](Ctx &c, uint64_t i) {
        static Pic p(64, 64);
        int col[3];
        if (i < 4913) for (int k = 0, m = (int) i; k < 3; k++, m /= 17) col[k] = m % 17 == 16 ? 255 : m % 17 * 16;
        else if (i < 4913 + 256) col[0] = col[1] = col[2] = (int) i - 4913;
        else
        {
            /* faces of the cube */
            Dim d(i - 4913 - 256);
            int k = d.next(3), u = d.next(256), v = (int) d.i;
            if (!th) v = v * 17;
            col[k] = (u + v) & 1 ? 255 : 0;
            col[(k + 1) % 3] = u;
            col[(k + 2) % 3] = v;
        }
        for (int k = 0; k < 4096; k++) { uint8_t *s = &p.px[k * 4]; s[0] = col[0]; s[1] = col[1]; s[2] = col[2]; s[3] = (uint8_t) i; }
        all_formats(c, p, i & 1, (int) (i % 3), 0, nullptr, i % 4 ? 1 : 3);
    }, [](uint64_t i) { return case_name("flat colour %d", (int) i); });
    K.add("sizes", 4096, [](Ctx &c, uint64_t i) {
        int cx = i % 64 + 1, cy = (int) i / 64 + 1;
        Pic p(cx, cy);
        fill_noise(p.px.data(), p.px.size(), i + 1);
        all_formats(c, p, i & 1, (int) (i % 3), (int) (i % 4) * 3);
    }, [](uint64_t i) { return case_name("noise picture of %dx%d", (int) (i % 64) + 1, (int) i / 64 + 1); });
    K.add("edge-sizes", 4096, [](Ctx &c, uint64_t i) {
        int cx = i % 64 + 1, cy = (int) i / 64 + 1;
        Pic p(cx, cy);
        for (int y = 0; y < cy; y++)
            for (int x = 0; x < cx; x++) { uint8_t *s = p.at(x, y); s[0] = x * 4; s[1] = y * 4; s[2] = x == cx - 1 ? 255 : 10; s[3] = y == cy - 1 ? 200 : x; }
        all_formats(c, p, i & 1, (int) (i % 3), 0);
    }, [](uint64_t i) { return case_name("gradient picture of %dx%d with marked edges", (int) (i % 64) + 1, (int) i / 64 + 1); });
    K.add("fourth-byte", 256 * 4, [](Ctx &c, uint64_t i) {
        /* the unused fourth byte: constant values and patterns, against zero */
        static Pic p(64, 64);
        static Out a, b;
        fill_noise(p.px.data(), p.px.size(), 5 + i / 512);
        int fmt = (i / 256) & 1;
        enc_pic(c, p, fmt, false, 0, i & 1, (int) (i % 3), 0, a, nullptr);
        enc_pic(c, p, fmt, false, (int) (i & 255), i & 1, (int) (i % 3), 0, b, nullptr);
        same_tiles(c, a, b, false, "fourth byte 0", "fourth byte set");
        enc_pic(c, p, fmt, false, -1, i & 1, (int) (i % 3), 0, b, nullptr);
        same_tiles(c, a, b, false, "fourth byte 0", "fourth byte varying");
        /* and as alpha: any alpha plane leaves the colours alone */
        for (int k = 0; k < 4096; k++) p.px[k * 4 + 3] = i & 255;
        enc_pic(c, p, fmt, true, 0, i & 1, (int) (i % 3), 0, b, nullptr);
        same_tiles(c, a, b, false, "no alpha", "flat alpha");
        c.outcome(ref::hash_bytes(b.r.out.data(), b.r.out.size()));
    }, [](uint64_t i) { return case_name("fourth byte %d, %s, picture %d", (int) (i & 255), FN[(i / 256) & 1], (int) (i / 512)); });
    K.add("pictures", (uint64_t) NPIC * NPIC * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(NPIC), b = d.next(NPIC);
        static Pic p(64, 64);
        static uint8_t t[4][4096];
        pic_alpha(a, t[0]); pic_alpha(b, t[1]); pic_alpha(a * 3 + b, t[2]); pic_alpha(a + b * 5 + (int) d.i, t[3]);
        for (int k = 0; k < 4096; k++) for (int j = 0; j < 4; j++) p.px[k * 4 + j] = t[j][k];
        uint8_t q[5];
        qnth(q, (unsigned) i);
        all_formats(c, p, (int) (i & 1), (int) (i % 3), 0, i & 2 ? q : nullptr);
    }, [](uint64_t i) { return case_name("picture pair %d, variant %d", (int) (i % (NPIC * NPIC)), (int) (i / (NPIC * NPIC))); });
    K.add("impulses", 4096ull * 4, [](Ctx &c, uint64_t i) {
        static Pic p(64, 64);
        int pos = i % 4096, ch = i / 4096;
        memset(p.px.data(), 77, p.px.size());
        p.px[pos * 4 + ch] = 222;
        all_formats(c, p, (int) (i & 1), (int) (i % 3), (int) (i % 5));
    }, [](uint64_t i) { return case_name("impulse at pixel %d in channel %d", (int) (i % 4096), (int) (i / 4096)); });
    K.add("large-frames", 4, [](Ctx &c, uint64_t i) {
        int w = i & 1 ? 2048 : 1500, h = i & 1 ? 2048 : 1100;
        Pic p(w, h);
        for (int y = 0; y < h; y++)
            for (int x = 0; x < w; x++)
            {
                unsigned g = (unsigned) ((y / 8) * 256 + x / 8 + i * 77777) * 2654435761u;
                uint8_t *s = p.at(x, y);
                s[0] = x / 8 % 3 ? x / 16 : g >> 8; s[1] = y / 8 % 2 ? y / 16 : g >> 16; s[2] = (x + y) / 32; s[3] = g >> 27;
            }
        all_formats(c, p, (int) (i >> 1), (int) (i % 3), (int) i);
    }, [](uint64_t i) { return case_name("frame of %d tiles, content %d", i & 1 ? 1024 : 432, (int) i); });
    K.add("frames", 120, [](Ctx &c, uint64_t i) {
        int w = 65 + (int) (i * 37) % 300, h = 65 + (int) (i * 53) % 200;
        Pic p(w, h);
        fill_noise(p.px.data(), p.px.size(), i + 11);
        for (int y = 0; y < h / 2; y++) for (int x = 0; x < w; x++) { uint8_t *s = p.at(x, y); s[0] = x; s[1] = y; s[2] = x + y; s[3] = x / 3; }
        all_formats(c, p, (int) (i & 1), (int) (i % 3), (int) (i % 7));
    }, [](uint64_t i) { return case_name("multi-tile frame %d", (int) i); });
}
