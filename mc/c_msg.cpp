/* C02 (message structure), C11 (headers and frame numbers), C18 (creation options and entry points) */
#include <unistd.h>
#include "scene.h"
#include <sys/mman.h>

namespace {

/* every component decodes and uses exactly its declared length */
std::string check_lengths(const Enc &e, const Res &r, const ref::Msg &m)
{
    static thread_local ref::Coefs co;
    for (size_t i = 0; i < m.tiles.size(); i++)
    {
        for (int k = 0; k < 3; k++)
        {
            std::string s = ref::tile_coefs(r.out, m.tiles[i], k, e.variant(), e.pro(), co);
            if (!s.empty()) return ref::fmt("tile %d: %s", (int) i, s.c_str());
        }
        if (m.alpha)
        {
            uint8_t al[4096];
            std::string s = ref::alpha_decode(r.out.data() + m.tiles[i].poff[3], m.tiles[i].plen[3], al);
            if (!s.empty()) return ref::fmt("tile %d: %s", (int) i, s.c_str());
        }
    }
    return "";
}
/* one call, full structural check; returns delivered tiles or -1 */
int put(Ctx &c, Enc &e, const Args &a, ref::Msg *out = nullptr, bool plain = false)
{
    Res r = e.call(a, -1, plain);
    c.evals++;
    if (r.ret < 0) return -1;
    ref::Msg m;
    std::string s = parse_msg(e, r, m);
    if (s.empty()) s = check_echo(e, a, r, m);
    if (s.empty()) s = check_lengths(e, r, m);
    if (!s.empty()) throw Fail{s};
    c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
    if (out) *out = m;
    return r.ret;
}
/* a lot of readable address space without memory behind it, with some content */
const uint8_t *big_zero(size_t n)
{
    static std::map<size_t, uint8_t *> m;
    uint8_t *&p = m[n];
    if (!p)
    {
        p = (uint8_t *) mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); }
        madvise(p, n, MADV_NOHUGEPAGE);
    }
    return p;
}
void must(Ctx &c, int got, int want, const char *what)
{
    if (got != want) c.fail("%s: call returned %d instead of %d", what, got, want);
}

/* --------------------------------------------------------------------- C11 */
/* model: is a header due, which frame number comes next; after a failed key request both continuations are allowed */
struct Seqr
{
    bool header = true;
    uint32_t next = 0;
    bool maybe_key = false;
    std::string ok(const ref::Msg &m, bool key)
    {
        if (key) { header = true; next = 0; maybe_key = false; }
        bool good = m.has_header == header && m.frame == next;
        if (!good && maybe_key && m.has_header && m.frame == 0) good = true, next = 0;
        if (!good) return ref::fmt("message has %s header and frame number %u, expected %s header and frame number %u%s", m.has_header ? "a" : "no", m.frame, header ? "a" : "no", next, maybe_key ? " (or a key frame)" : "");
        header = false;
        maybe_key = false;
        next++;
        return "";
    }
};

struct Flat
{
    std::vector<uint8_t> yuv, rgb;
    Flat()
    {
        yuv.assign(16384 * 4, 128);
        rgb.assign(256 * 64 * 4, 90);
        for (int k = 0; k < 4; k++) pic_alpha(4 + k, &yuv[16384 * k]);
    }
};
Flat &flat() { static Flat f; return f; }
Args flat_args(int fmt, int n, int from = 0)
{
    Args a;
    a.cap = 600000;
    if (fmt == RFX_FORMAT_YUV) { a.buf = flat().yuv.data(); a.stride = 1024; }
    else { a.buf = flat().rgb.data(); a.stride = 256 * bpp(fmt); }
    a.w = 256; a.h = 64;
    a.rects.push_back(mk_rect(0, 0, 64, 64));
    for (int i = 0; i < n; i++) a.tiles.push_back(mk_tile(((from + i) & 3) * 64, 0));
    return a;
}
/* one operation of the alphabet; returns false if it is not a call that yields a message */
enum { C_ONE, C_THREE, C_NONE, C_ALPHA, C_PLAIN, C_PARTIAL, C_FAIL0, C_FAILMID, C_KEY, C_OPS };
const char *COP[] = {"one tile", "three tiles", "no tiles", "alpha", "plain entry point", "space for one of three", "no space", "space for the headers only", "all flag bits"};
enum { P_ONE, P_TWO, P_KEY, P_KEYPART, P_PART, P_FAIL0, P_FAILMID, P_BADQ, P_BADPOS, P_KEYFAIL, P_KEYBAD, P_NONE, P_OPS };
const char *POP[] = {"one tile", "two tiles", "key", "key with space for one of three", "space for one of three", "no space", "space for the headers only", "bad quantisation index", "bad position", "key without space", "key with a bad position", "no tiles"};

void op_call(Ctx &c, Enc &e, Seqr &q, int op, int stepno)
{
    bool pro = e.pro(), key = false, plain = false;
    Args a = flat_args(e.format, 1, stepno);
    if (!pro)
    {
        switch (op)
        {
            case C_THREE: a = flat_args(e.format, 3); break;
            case C_NONE: a.tiles.clear(); break;
            case C_ALPHA: a.flags = RFX_FLAGS_ALPHAV1; break;
            case C_PLAIN: plain = true; break;
            case C_PARTIAL: a = flat_args(e.format, 3); a.cap = 24595 + 600; break;
            case C_FAIL0: a.cap = 10; break;
            case C_FAILMID: a.cap = 47 + 14 + 20; break;
            case C_KEY: a.flags = ~RFX_FLAGS_ALPHAV1; break; /* a key request means nothing here */
            default: break;
        }
    }
    else
    {
        switch (op)
        {
            case P_TWO: a = flat_args(e.format, 2, stepno); break;
            case P_KEY: key = true; break;
            case P_KEYPART: key = true; a = flat_args(e.format, 3, stepno); a.cap = 900; break;
            case P_PART: a = flat_args(e.format, 3, stepno); a.cap = 900; break;
            case P_FAIL0: a.cap = 10; break;
            case P_FAILMID: a.cap = 22 + 12 + 40; break;
            case P_BADQ: a.tiles.push_back(a.tiles[0]); a.tiles[1].quant_cb = 1; break;
            case P_BADPOS: a.tiles.push_back(mk_tile(64 * 64, 0)); break;
            case P_KEYFAIL: key = true; a.cap = 30; break;
            case P_KEYBAD: key = true; a.tiles.push_back(mk_tile(0, 64 * 64)); break;
            case P_NONE: a.tiles.clear(); break;
            default: break;
        }
        if (key) a.flags |= RFX_FLAGS_PRO_KEY;
    }
    Res r = e.call(a, -1, plain);
    c.evals++;
    c.transitions++;
    if (r.ret < 0)
    {
        if (key) q.maybe_key = true;
        return;
    }
    ref::Msg m;
    std::string s = parse_msg(e, r, m);
    if (s.empty()) s = q.ok(m, key);
    if (!s.empty()) c.fail("call %d (%s): %s", stepno, pro ? POP[op] : COP[op], s.c_str());
    c.state(((uint64_t) q.next << 8) | (q.header << 1) | q.maybe_key | (pro ? 1ull << 50 : 0));
    c.outcome(m.frame * 2 + m.has_header);
}
std::string ops_name(uint64_t i, int nops, int depth, const char **names)
{
    std::string s;
    for (int k = 0; k < depth; k++) { s += (k ? " / " : "") + std::string(names[i % nops]); i /= nops; }
    return s;
}

} /* namespace */

CHECK_DEF(C02)
{
    const auto &C = all_cfgs();
    int nc = (int) C.size();
    bool th = !K.quick();
    K.rule = "Every message is parsed by an independent RemoteFX / RemoteFX Progressive block parser that must consume it completely; every length, count and size field is recomputed; regions, tables, positions, indices, screen size and properties are compared with the caller's; each payload must entropy-decode using exactly its declared length. Distinct: different messages.";
    K.assumptions.push_back("counts and coordinates are within the 16-bit (8-bit for quantisation sets) fields of the protocol");
    K.add("configurations", (uint64_t) nc * 7 * 4 * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(7), nr = d.next(4), nq = d.next(4);
        const Cfg &g = all_cfgs()[d.i];
        static const int NR[4] = {1, 0, 2, 7}, NQ[4] = {1, 0, 2, 9};
        force_cpu(lib(), g.acc);
        Scene sc(g, n, 1, NQ[nq], NR[nr], 1 + (int) (i % 64), 1 + (int) (i / 7 % 64), (int) (i % 5));
        Enc e(lib(), 100 + n, 200 + nr, g.fmt, g.create_flags());
        for (int f = 0; f < 3; f++) must(c, put(c, e, sc.args()), g.pro && n == 0 ? -1 : n, "call");
    }, [](uint64_t i) { Dim d(i); int n = d.next(7), nr = d.next(4), nq = d.next(4); return case_name("%d tiles, region class %d, table class %d, %s", n, nr, nq, all_cfgs()[d.i].name().c_str()); });
    K.add("region-count", th ? 4000 : 700, [](Ctx &c, uint64_t i) {
        for (int p = 0; p < 2; p++)
        {
            Enc e(lib(), 640, 480, RFX_FORMAT_YUV, p ? RFX_FLAGS_PRO1 : 0);
            Args a = flat_args(RFX_FORMAT_YUV, 1);
            a.rects.clear();
            for (int k = 0; k < (int) i; k++) a.rects.push_back(mk_rect((k * 7919) & 0xffff, (k * 104729 + 3) & 0xffff, (65535 - k) & 0xffff, (k * 31) & 0xffff));
            must(c, put(c, e, a), 1, "call");
        }
    }, [](uint64_t i) { return case_name("%d regions", (int) i); });
    K.add("region-values", 65536 / 8, [](Ctx &c, uint64_t i) {
        for (int p = 0; p < 2; p++)
        {
            Enc e(lib(), 640, 480, RFX_FORMAT_YUV, p ? RFX_FLAGS_PRO1 : 0);
            Args a = flat_args(RFX_FORMAT_YUV, 1);
            a.rects.clear();
            for (int k = 0; k < 8; k++)
            {
                int v = (int) i * 8 + k;
                a.rects.push_back(mk_rect(v, v ^ 0xffff, v ^ 0x5555, v ^ 0xAAAA));
            }
            must(c, put(c, e, a), 1, "call");
        }
    }, [](uint64_t i) { return case_name("region coordinates %d..%d and complements", (int) i * 8, (int) i * 8 + 7); });
    /* common extents in every pairing, in every field */
    K.add("region-extents", 48, [](Ctx &c, uint64_t i) {
        static const int V[48] = {0, 1, 2, 8, 16, 24, 32, 63, 64, 65, 127, 128, 129, 192, 240, 255, 256, 257, 320, 360, 384, 400, 480, 512, 576, 600, 640, 720, 768, 800, 900, 960, 1024, 1050, 1080, 1200, 1280, 1366, 1440, 1600, 1680, 1920, 2048, 2160, 2560, 3840, 4096, 65535};
        for (int p = 0; p < 2; p++)
            for (int k = 0; k < 48; k++)
            {
                Enc e(lib(), V[i], V[k], RFX_FORMAT_YUV, p ? RFX_FLAGS_PRO1 : 0);
                Args a = flat_args(RFX_FORMAT_YUV, 1);
                a.rects.clear();
                a.rects.push_back(mk_rect(0, 0, V[i], V[k]));
                a.rects.push_back(mk_rect(V[i], V[k], V[k], V[i]));
                a.rects.push_back(mk_rect(V[i], 0, V[k], 0));
                a.rects.push_back(mk_rect(V[i], V[i], V[k], V[k]));
                a.rects.push_back(mk_rect(V[i], V[k], 1, V[i]));
                for (int t = 0; t < 48; t++) a.rects.push_back(mk_rect(V[t], V[(i + t) % 48], V[i], V[k]));
                must(c, put(c, e, a), 1, "call");
            }
    }, [](uint64_t i) { return case_name("regions of the usual extents, first extent class %d", (int) i); });
    K.add("tile-count", th ? 2000 : 400, [](Ctx &c, uint64_t i) {
        int n = (int) i < 300 ? (int) i + 1 : 300 + ((int) i - 300) * 37;
        if (n > 4096) n = 4096 - (int) i % 50;
        int cols = 64;
        const uint8_t *z = big_zero((size_t) 64 * 64 * 16384);
        for (int p = 0; p < 3; p++)
        {
            Enc e(lib(), 640, 480, RFX_FORMAT_YUV, p == 1 ? RFX_FLAGS_PRO1 : p == 2 ? RFX_FLAGS_RLGR1 : 0);
            Args a = flat_args(RFX_FORMAT_YUV, 0);
            a.buf = z;
            a.stride = cols * 256;
            a.cap = 7 * 1024 * 1024;
            a.flags = p == 2 && n % 3 == 0 ? RFX_FLAGS_ALPHAV1 : 0;
            for (int k = 0; k < n; k++) a.tiles.push_back(mk_tile(k % cols * 64, k / cols * 64));
            must(c, put(c, e, a), n, "call");
        }
        /* the other formats; fewer of the long lists */
        for (int f = 0; f < 4; f++)
        {
            if ((int) i % 4 != f && n != 255 && n != 256 && n != 257) continue;
            int np = f < 2 ? 4 : 3;
            Enc e(lib(), 640, 480, f, i & 4 ? RFX_FLAGS_RLGR1 : 0);
            Args a = flat_args(f, 0);
            a.buf = z;
            a.stride = cols * 64 * np;
            a.cap = 7 * 1024 * 1024;
            a.flags = i & 8 ? RFX_FLAGS_ALPHAV1 : 0;
            for (int k = 0; k < n; k++) a.tiles.push_back(mk_tile(k % cols * 64, k / cols * 64));
            must(c, put(c, e, a), n, "call");
            if (n <= 300)
            {
                a.flags ^= RFX_FLAGS_ALPHAV1;
                must(c, put(c, e, a), n, "call");
            }
        }
    }, [](uint64_t i) { return case_name("tile count class %d", (int) i); });
    K.fams.back().case_limit = 60;
    /* messages beyond 2^24 and 2^25 bytes: sizes and lengths that need more than three bytes */
    K.add("big-messages", 8, [](Ctx &c, uint64_t i) {
        static const uint8_t Q6[5] = {0x66, 0x66, 0x66, 0x66, 0x66};
        bool pro = i & 1;
        int al = !pro && i & 2 ? 1 : 0, n = i & 4 ? 4096 : 1600;
        size_t all = (size_t) 4096 * 16384;
        uint8_t *p = (uint8_t *) mmap(0, all, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); }
        struct Un { uint8_t *p; size_t n; ~Un() { munmap(p, n); } } un = {p, all};
        static std::vector<uint8_t> noise(16384 * 2);
        fill_noise(noise.data(), noise.size(), 77);
        for (int k = 0; k < n; k++) memcpy(p + (size_t) k * 16384, &noise[k * 13 % 16384], 16384);
        Enc e(lib(), 4096, 4096, RFX_FORMAT_YUV, pro ? RFX_FLAGS_PRO1 : (int) (i >> 1 & 1));
        Args a = flat_args(RFX_FORMAT_YUV, 0);
        a.buf = p;
        a.stride = 64 * 256;
        a.cap = 150 * 1024 * 1024;
        a.flags = al;
        a.quants = Q6;
        a.nquants = 1;
        for (int k = 0; k < n; k++) a.tiles.push_back(mk_tile(k % 64 * 64, k / 64 * 64));
        ref::Msg m;
        must(c, put(c, e, a, &m), n, "call");
        size_t len = (size_t) m.tiles.back().off + m.tiles.back().len;
        if (len < (i & 4 ? 1u << 25 : 1u << 24)) { c.capped = true; }
    }, [](uint64_t i) { return case_name("%d tiles of noise at the finest table%s", i & 4 ? 4096 : 1600, i & 1 ? ", progressive" : ""); });
    K.fams.back().case_limit = 120;
    K.add("table-count", 256, [](Ctx &c, uint64_t i) {
        for (int p = 0; p < 4; p++)
        {
            Enc e(lib(), 640, 480, RFX_FORMAT_YUV, p == 1 ? RFX_FLAGS_PRO1 : p == 2 ? RFX_FLAGS_RLGR1 : 0);
            Args a = flat_args(RFX_FORMAT_YUV, 4);
            std::vector<uint8_t> q(5 * i + 1);
            for (int k = 0; k < (int) i; k++) qnth(&q[5 * k], k);
            if (i) { a.quants = q.data(); a.nquants = (int) i; }
            for (int k = 0; k < 4 && i; k++) { a.tiles[k].quant_y = (int) (i - 1); a.tiles[k].quant_cb = (k * 50) % (int) i; a.tiles[k].quant_cr = (k * 85 + 7) % (int) i; }
            if (p == 3) a.flags = RFX_FLAGS_ALPHAV1;
            must(c, put(c, e, a), 4, "call");
            must(c, put(c, e, a), 4, "call");
        }
    }, [](uint64_t i) { return case_name("%d quantisation sets", (int) i); });
    /* no table given: the default one, whatever count comes with it */
    K.add("default-table", 302, [](Ctx &c, uint64_t i) {
        int n = i < 300 ? (int) i : i == 300 ? 512 : 1000;
        for (int p = 0; p < 4; p++)
        {
            Enc e(lib(), 640, 480, p == 3 ? RFX_FORMAT_RGBA : RFX_FORMAT_YUV, p == 1 ? RFX_FLAGS_PRO1 : p == 2 ? RFX_FLAGS_RLGR1 : 0);
            Args a = flat_args(e.format, 3);
            a.nquants = n;
            if (p == 3) a.flags = RFX_FLAGS_ALPHAV1;
            must(c, put(c, e, a), 3, "call");
            must(c, put(c, e, a), 3, "call");
        }
    }, [](uint64_t i) { return case_name("no quantisation table, count case %d", (int) i); });
    /* arguments that a message cannot express: the call fails, or its message is well-formed all the same */
    K.add("inexpressible", 4ull * 60, [](Ctx &c, uint64_t i) {
        int p = (int) (i % 4), k = (int) (i / 4);
        static const int CNT[20] = {-1, -2, -3, -8, -100, -255, -256, -65535, 256, 257, 300, 511, 512, 513, 1000, 4000, 65535, 65536, 65537, 70000};
        int kind = k / 20, n = CNT[k % 20];
        Enc e(lib(), 640, 480, p == 3 ? RFX_FORMAT_RGBA : RFX_FORMAT_YUV, p == 1 ? RFX_FLAGS_PRO1 : p == 2 ? RFX_FLAGS_RLGR1 : 0);
        Args a = flat_args(e.format, 2);
        if (p == 3) a.flags = RFX_FLAGS_ALPHAV1;
        static std::vector<uint8_t> out(24 << 20), q(5 * 70000, 0x66);
        static std::vector<rfx_rect> rects(70000, mk_rect(0, 0, 64, 64));
        std::vector<rfx_tile> tiles(70000, mk_tile(0, 0));
        for (size_t t = 0; t < tiles.size(); t++) tiles[t].x = (int) (t % 4) * 64;
        int nr = kind == 1 ? n : 1, nt = kind == 2 ? n : 2, nq = kind == 0 ? n : 2;
        for (int rep = 0; rep < 2; rep++)
        {
            int bytes = (int) out.size();
            int ret = lib().encode_ex(e.h, (char *) out.data(), &bytes, (const char *) a.buf, a.w, a.h, a.stride, rects.data(), nr, tiles.data(), nt, (const char *) q.data(), nq, a.flags);
            c.evals++;
            if (ret < 0) { c.outcome(1); continue; }
            Res r;
            r.ret = ret;
            r.bytes = bytes;
            r.out.assign(out.begin(), out.begin() + bytes);
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            if ((int) m.tiles.size() != ret || ret > std::max(nt, 0)) c.fail("returned %d of %d tiles, the message holds %d", ret, nt, (int) m.tiles.size());
            if ((int) m.rects.size() != std::max(nr, 0)) c.fail("%d regions in the message, %d given", (int) m.rects.size(), nr);
            if ((int) m.quants.size() != 5 * std::max(nq, 0)) c.fail("%d table bytes in the message, %d tables given", (int) m.quants.size(), nq);
            for (size_t t = 0; t < m.tiles.size(); t++) if (m.tiles[t].x != (int) (t % 4)) c.fail("tile %d is at %d", (int) t, m.tiles[t].x);
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }
    }, [](uint64_t i) { return case_name("%s count case %d, mode %d", i / 80 == 0 ? "table" : i / 80 == 1 ? "region" : "tile", (int) (i / 4 % 20), (int) (i % 4)); });
    K.fams.back().case_limit = 60;
    /* a tile never names a table that is not in the message */
    K.add("bad-indices", 20ull * 3 * 3 * 30, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(20), tile = d.next(3), field = d.next(3), k = d.i;
        Cfg g{cf == 10 ? 4 : cf % 5, cf / 5 % 2, cf / 10 && cf != 10, 2, cf == 10};
        int nq = k < 10 ? 0 : k < 20 ? 1 : 7, n = nq ? nq : 1;
        const int V[10] = {n, n + 1, n + 2, 254, 255, 256, 256 + n, -1, -2, -256};
        Enc e(lib(), 640, 480, g.fmt, g.create_flags());
        Scene sc(g, 3, 1, nq, 1);
        std::vector<uint8_t> q(5 * 1200, 0x66);
        std::copy(sc.quants.begin(), sc.quants.end(), q.begin() + 5 * 600);
        Args a = sc.args();
        if (nq) a.quants = &q[5 * 600];
        else if (abs(V[k % 10]) > 10) return;
        (field == 0 ? a.tiles[tile].quant_y : field == 1 ? a.tiles[tile].quant_cb : a.tiles[tile].quant_cr) = V[k % 10];
        for (int rep = 0; rep < 2; rep++)
        {
            Res r = e.call(a);
            c.evals++;
            c.outcome(r.ret);
            if (r.ret < 0) continue;
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            c.req(check_echo(e, a, r, m));
            for (auto &t : m.tiles) for (int z = 0; z < 3; z++) if (t.qidx[z] >= (int) m.quants.size() / 5) c.fail("a tile names table %d of %d", t.qidx[z], (int) m.quants.size() / 5);
        }
    }, [](uint64_t i) { Dim d(i); int cf = d.next(20), tile = d.next(3), field = d.next(3); return case_name("configuration %d, tile %d component %d, bad index case %d", cf, tile, field, (int) d.i); });
    /* tables, lists and pictures changed in place between calls */
    K.add("reused-memory", (uint64_t) nc * 16, [](Ctx &c, uint64_t i) {
        const Cfg &g = all_cfgs()[i / 16];
        force_cpu(lib(), g.acc);
        Enc e(lib(), 1000, 700, g.fmt, g.create_flags());
        Scene sc(g, 3, (int) (i % 5), 3, 2, 33, 20, 1);
        Args a = sc.args();
        for (int f = 0; f < 12; f++)
        {
            int what = f < 4 ? f : (int) (i % 16 + f * 5) % 16;
            if (what & 1) for (size_t k = 0; k < sc.quants.size(); k++) sc.quants[k] = (uint8_t) (((k + f) % 4 + 6) | ((k * 3 + f) % 5 + 6) << 4);
            if (what & 2) for (auto &r : a.rects) { r.x += 1; r.y ^= 3; r.cx += 5; r.cy -= 1; }
            if (what & 4) for (auto &t : a.tiles) { t.quant_y = (t.quant_y + 1) % 3; t.quant_cb = (t.quant_cb + 2) % 3; t.quant_cr = (t.quant_cr + f) % 3; }
            if (what & 8) for (size_t k = 0; k < sc.pix.size(); k++) sc.pix[k] ^= (uint8_t) (k * 7 + f);
            must(c, put(c, e, a), 3, "call");
        }
    }, [](uint64_t i) { return case_name("arguments changed in place, %s, variant %d", all_cfgs()[i / 16].name().c_str(), (int) (i % 16)); });
    /* lists of every length with quantisation indices that differ from tile to tile and component to component */
    K.add("index-lists", 140ull * 5 * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = 1 + d.next(140), f = d.next(5), al = d.i;
        std::vector<uint8_t> q(5 * 255);
        for (int k = 0; k < 255; k++) qnth(&q[5 * k], k);
        const uint8_t *z = big_zero((size_t) 64 * 64 * 16384);
        for (int p = 0; p < (f == RFX_FORMAT_YUV && !al ? 2 : 1); p++)
        {
            Enc e(lib(), 640, 480, f, p ? RFX_FLAGS_PRO1 : n & 1);
            Args a = flat_args(f, 0);
            a.buf = z;
            a.stride = f == RFX_FORMAT_YUV ? 64 * 256 : 64 * 64 * bpp(f);
            a.cap = 7 * 1024 * 1024;
            a.flags = al ? RFX_FLAGS_ALPHAV1 : 0;
            a.quants = q.data();
            a.nquants = 255;
            for (int k = 0; k < n; k++)
            {
                a.tiles.push_back(mk_tile(k % 64 * 64, k / 64 * 64));
                a.tiles[k].quant_y = (k * 7 + n) % 255;
                a.tiles[k].quant_cb = (k * 11 + n * 3 + 100) % 255;
                a.tiles[k].quant_cr = (k * 13 + n * 5 + 200) % 255;
            }
            must(c, put(c, e, a), n, "call");
            must(c, put(c, e, a), n, "call");
        }
    }, [](uint64_t i) { Dim d(i); int n = 1 + d.next(140), f = d.next(5); return case_name("%d tiles with differing quantisation indices, format %d%s", n, f, d.i ? ", alpha" : ""); });
    K.fams.back().case_limit = 60;
    K.add("table-indices", 256ull * 3, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int v = d.next(255), comp = d.i;
        if (comp > 2) return;
        std::vector<uint8_t> q(5 * 255);
        for (int k = 0; k < 255; k++) qnth(&q[5 * k], k);
        for (int p = 0; p < 3; p++)
        {
            Enc e(lib(), 640, 480, p == 2 ? RFX_FORMAT_BGRA : RFX_FORMAT_YUV, p == 1 ? RFX_FLAGS_PRO1 : 0);
            Args a = flat_args(e.format, 2);
            a.quants = q.data();
            a.nquants = 255;
            (comp == 0 ? a.tiles[1].quant_y : comp == 1 ? a.tiles[1].quant_cb : a.tiles[1].quant_cr) = v;
            must(c, put(c, e, a), 2, "call");
        }
    }, [](uint64_t i) { return case_name("quantisation index %d in component %d", (int) (i % 255), (int) (i / 255)); });
    /* tile positions over the whole 16-bit coordinate range */
    K.add("positions", 1024ull * 3, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int v = d.next(1024), kind = d.i;
        const uint8_t *z = big_zero((size_t) 1 << 29);
        for (int f = 0; f < 5; f++)
            for (int al = 0; al < 2; al++)
            {
                Enc e(lib(), 640, 480, f, v & 1);
                Args a = flat_args(f, 0);
                a.buf = z;
                a.flags = al;
                int b = bpp(f);
                if (kind == 0) { a.stride = f == RFX_FORMAT_YUV ? 1024 * 256 : 65536 * b; a.tiles.push_back(mk_tile(v * 64, 0)); a.tiles.push_back(mk_tile((1023 - v) * 64, 0)); }
                else if (kind == 1) { a.stride = f == RFX_FORMAT_YUV ? 256 : 64 * b; a.tiles.push_back(mk_tile(0, v * 64)); a.tiles.push_back(mk_tile(0, (1023 - v) * 64)); }
                else { a.stride = f == RFX_FORMAT_YUV ? 256 * 100 : 6400 * b; a.tiles.push_back(mk_tile(v % 100 * 64, v / 10 * 64)); a.tiles.push_back(mk_tile(v % 97 * 64, (v * 7) % 100 * 64)); }
                must(c, put(c, e, a), 2, "call");
            }
    }, [](uint64_t i) { return case_name("tile index %d, direction %d", (int) (i % 1024), (int) (i / 1024)); });
    K.add("positions-progressive", 64 * 64, [](Ctx &c, uint64_t i) {
        int x = (int) i % 64, y = (int) i / 64;
        const uint8_t *z = big_zero((size_t) 1 << 29);
        Enc e(lib(), 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
        Args a = flat_args(RFX_FORMAT_YUV, 0);
        a.buf = z;
        a.stride = 64 * 256;
        a.tiles.push_back(mk_tile(x * 64, y * 64));
        a.tiles.push_back(mk_tile((63 - x) * 64, y * 64));
        must(c, put(c, e, a), 2, "call");
        must(c, put(c, e, a), 2, "call");
    }, [](uint64_t i) { return case_name("progressive tile at grid %d,%d", (int) i % 64, (int) i / 64); });
    /* every screen size value */
    K.add("screen-size", 65536 / 16, [](Ctx &c, uint64_t i) {
        for (int k = 0; k < 16; k++)
        {
            int v = (int) i * 16 + k;
            Enc e(lib(), v, v ^ 0xffff, RFX_FORMAT_BGR, v & 1);
            Enc f(lib(), (v * 40503) & 0xffff, v, RFX_FORMAT_YUV, 0);
            Args a = flat_args(RFX_FORMAT_BGR, 0), b = flat_args(RFX_FORMAT_YUV, 0);
            must(c, put(c, e, a), 0, "call");
            must(c, put(c, f, b), 0, "call");
        }
    }, [](uint64_t i) { return case_name("screen sizes %d..%d", (int) i * 16, (int) i * 16 + 15); });
    /* payload lengths over the whole range */
    K.add("payload-sizes", (uint64_t) nc * 50, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(50);
        const Cfg &g = all_cfgs()[d.i];
        force_cpu(lib(), g.acc);
        Scene sc(g, 3, k < 4 ? 100 + k : 1, 2, 1);
        if (k >= 4)
        {
            Rng r(k);
            for (auto &p : sc.pix) { uint32_t x = r.next(); p = (int) (x >> 8) % 50 < k ? 128 + (int) (x % (k * 5 + 1)) - k * 2 : 128; }
        }
        Enc e(lib(), 640, 480, g.fmt, g.create_flags());
        must(c, put(c, e, sc.args()), 3, "call");
        must(c, put(c, e, sc.args()), 3, "call");
    }, [](uint64_t i) { Dim d(i); int k = d.next(50); return case_name("content density %d, %s", k, all_cfgs()[d.i].name().c_str()); });
    /* partial results around every tile boundary */
    K.add("partial", (uint64_t) nc * 8, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(8);
        const Cfg &g = all_cfgs()[d.i];
        force_cpu(lib(), g.acc);
        Scene sc(g, 5, k & 1 ? 2 : 1, 2, 2);
        Args a = sc.args();
        ref::Msg m;
        {
            Enc e(lib(), 640, 480, g.fmt, g.create_flags());
            must(c, put(c, e, a, &m), 5, "call");
        }
        for (int t = 0; t < 5; t++)
            for (int x = -24; x <= 24; x += 1 + k / 2)
            {
                Enc e(lib(), 640, 480, g.fmt, g.create_flags());
                Args b = a;
                for (int comp = 0; comp < (g.pro ? 1 : 3); comp++)
                {
                    b.cap = g.pro ? m.tiles[t].off + m.tiles[t].len + x : m.tiles[t].poff[comp] + 24595 + x;
                    put(c, e, b);
                }
                b.cap = a.cap;
                must(c, put(c, e, b), 5, "call after a partial one");
            }
    }, [](uint64_t i) { Dim d(i); int k = d.next(8); return case_name("space-limited calls, variant %d, %s", k, all_cfgs()[d.i].name().c_str()); });
    /* long sessions mixing everything */
    K.add("sessions", nc, [th](Ctx &c, uint64_t i) {
        const Cfg &g = all_cfgs()[i];
        force_cpu(lib(), g.acc);
        Enc e(lib(), 1000, 700, g.fmt, g.create_flags());
        int frames = th ? 3000 : g.pro ? 1500 : 300;
        for (int f = 0; f < frames; f++)
        {
            Scene sc(g, 1 + f % 4, f % 7 == 0 ? 2 : f % 5, f % 6, f % 5, 1 + f % 64, 1 + (f * 13) % 64, f % 3);
            Args a = sc.args();
            if (g.pro && f % 97 == 96) a.flags |= RFX_FLAGS_PRO_KEY;
            if (!g.pro && f % 11 == 10) a.flags ^= RFX_FLAGS_ALPHAV1;
            if (a.flags & 1 && g.fmt == RFX_FORMAT_YUV) sc.pix.resize(sc.pix.size() + 8192, 7), a.buf = sc.pix.data();
            if (f % 13 == 12) a.cap = 26000;
            if (put(c, e, a) < 0 && f % 13 != 12) c.fail("frame %d failed", f);
        }
    }, [](uint64_t i) { return case_name("long session, %s", all_cfgs()[i].name().c_str()); });
    K.fams.back().case_limit = 60;
}

CHECK_DEF(C11)
{
    bool th = !K.quick();
    K.rule = "All operation sequences up to the depth over the listed alphabets are run on the real encoder; every successful message is parsed and its header presence and frame number compared with a two-variable state machine (header due, next number; after a failed key request either continuation). States: distinct model states reached; transitions: calls made, each validated against the implementation.";
    K.assumptions.push_back("frame numbers beyond the longest session explored are not covered");
    static int cd, pd;
    cd = th ? 7 : 6;
    pd = th ? 6 : 5;
    auto ipow = [](uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; };
    /* sequences of equal length share no work but are independent cases */
    K.add("classic-sequences", ipow(C_OPS, cd), [](Ctx &c, uint64_t i) {
        Enc e(lib(), 256, 64, i % 7 == 0 ? RFX_FORMAT_RGB : RFX_FORMAT_YUV, (int) (i % 2));
        Seqr q;
        uint64_t v = i;
        for (int k = 0; k < cd; k++) { op_call(c, e, q, v % C_OPS, k); v /= C_OPS; }
        c.traces++;
    }, [](uint64_t i) { return ops_name(i, C_OPS, cd, COP); });
    K.add("progressive-sequences", ipow(P_OPS, pd), [](Ctx &c, uint64_t i) {
        Enc e(lib(), 256, 64, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
        Seqr q;
        uint64_t v = i;
        for (int k = 0; k < pd; k++) { op_call(c, e, q, v % P_OPS, k); v /= P_OPS; }
        c.traces++;
    }, [](uint64_t i) { return ops_name(i, P_OPS, pd, POP); });
    /* two encoders in alternation: their numbering is their own */
    K.add("interleaved", ipow(4, 7) * 3, [](Ctx &c, uint64_t i) {
        int mode = (int) (i % 3);
        uint64_t v = i / 3;
        Enc e1(lib(), 256, 64, RFX_FORMAT_YUV, mode == 1 ? RFX_FLAGS_PRO1 : 0), e2(lib(), 256, 64, RFX_FORMAT_YUV, mode >= 1 ? RFX_FLAGS_PRO1 : RFX_FLAGS_RLGR1);
        Seqr q1, q2;
        for (int k = 0; k < 7; k++)
        {
            int o = v % 4;
            v /= 4;
            Enc &e = o & 1 ? e2 : e1;
            Seqr &q = o & 1 ? q2 : q1;
            op_call(c, e, q, e.pro() ? (o & 2 ? P_KEY : P_ONE) : (o & 2 ? C_FAILMID : C_ONE), k);
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("two encoders in alternation, word %d", (int) i); });
    /* failing capacity at every byte, then success */
    K.add("failure-points", 400, [](Ctx &c, uint64_t i) {
        for (int pro = 0; pro < 2; pro++)
            for (int before = 0; before < 3; before++)
            {
                Enc e(lib(), 256, 64, RFX_FORMAT_YUV, pro ? RFX_FLAGS_PRO1 : 0);
                Seqr q;
                for (int k = 0; k < before; k++) op_call(c, e, q, 0, k);
                for (int t = 0; t < 2; t++)
                {
                    Args a = flat_args(e.format, 2);
                    a.cap = (int) i;
                    Res r = e.call(a);
                    c.evals++;
                    if (r.ret >= 0)
                    {
                        ref::Msg m;
                        std::string s = parse_msg(e, r, m);
                        if (s.empty()) s = q.ok(m, false);
                        c.req(s);
                    }
                }
                for (int k = 0; k < 2; k++) op_call(c, e, q, 0, k);
            }
        c.traces++;
    }, [](uint64_t i) { return case_name("capacity %d, then ample space", (int) i); });
    /* long sessions */
    K.add("long", 8, [th](Ctx &c, uint64_t i) {
        bool pro = i & 1;
        Enc e(lib(), 256, 64, RFX_FORMAT_YUV, pro ? RFX_FLAGS_PRO1 : i / 2);
        Seqr q;
        int n = th ? 400000 : 140000;
        /* the kinds of call are mixed differently in each session */
        int period = (int) i / 2 * 37 + 11;
        for (int k = 0; k < n; k++)
        {
            int op = 0;
            if (i >= 2 && k % period == period - 1) op = pro ? (int[]){P_FAIL0, P_PART, P_TWO, P_FAILMID}[(k / period) % 4] : (int[]){C_NONE, C_PARTIAL, C_FAILMID, C_ALPHA, C_FAIL0, C_THREE}[(k / period) % 6];
            else if (!pro && k % 8) op = C_NONE;
            op_call(c, e, q, op, k);
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("long %s session, mix %d", i & 1 ? "progressive" : "classic", (int) i / 2); });
    K.fams.back().case_limit = 400;
    /* key frames after every session length */
    K.add("key-after", th ? 1200 : 300, [](Ctx &c, uint64_t i) {
        Enc e(lib(), 256, 64, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
        Seqr q;
        for (int r = 0; r < 3; r++)
        {
            for (int k = 0; k < (int) i; k++) op_call(c, e, q, P_ONE, k);
            op_call(c, e, q, r == 1 ? P_KEYPART : P_KEY, (int) i);
        }
        op_call(c, e, q, P_ONE, 0);
        c.traces++;
    }, [](uint64_t i) { return case_name("key request after %d frames, three times", (int) i); });
    /* very long sessions: every message compared with the second one, but for its frame number */
    K.add("very-long", 2, [th](Ctx &c, uint64_t v) {
        Enc e(lib(), 256, 64, RFX_FORMAT_YUV, v ? RFX_FLAGS_PRO1 : 0);
        Seqr q;
        Args a = flat_args(e.format, (int) v);
        std::vector<uint8_t> tmpl;
        size_t off = 0;
        for (int k = 0; k < 3; k++)
        {
            Res r = e.call(a);
            ref::Msg m;
            std::string s = parse_msg(e, r, m);
            if (s.empty()) s = q.ok(m, false);
            c.req(s);
            if (k == 2)
                while (off < r.out.size() && r.out.size() == tmpl.size() && r.out[off] == tmpl[off]) off++;
            tmpl = r.out;
        }
        if (off + 4 > tmpl.size()) c.fail("messages 1 and 2 do not differ in a frame number only");
        static uint8_t out[65536];
        int nt = (int) v;
        uint32_t n = v ? (th ? 1u << 22 : (1u << 20) + 100) : th ? 1u << 29 : (1u << 25) + 1000;
        for (uint32_t k = 3; k < n; k++)
        {
            int bytes = sizeof out;
            int ret = lib().encode_ex(e.h, (char *) out, &bytes, (const char *) a.buf, a.w, a.h, a.stride, a.rects.data(), (int) a.rects.size(), a.tiles.data(), nt, nullptr, 0, 0);
            for (int b = 0; b < 4; b++) tmpl[off + b] = (uint8_t) (k >> (8 * b));
            if (ret != nt || bytes != (int) tmpl.size() || memcmp(out, tmpl.data(), bytes)) c.fail("call %u: returned %d, %d bytes: not the previous message with frame number %u", k, ret, bytes, k);
        }
        c.evals += n;
        c.transitions += n;
        c.traces++;
        c.outcome(n);
    }, [](uint64_t v) { return case_name("very long %s session", v ? "progressive" : "classic"); });
    K.fams.back().case_limit = 800;
}

CHECK_DEF(C18)
{
    bool th = !K.quick();
    K.rule = "Creation arguments and entry points are enumerated; messages are parsed, the payload is decoded with the announced coder, and outputs are compared byte for byte between entry points and between creation flags that are not about coding. Distinct: different messages or creation results.";
    K.assumptions.push_back("progressive mode is explored with its documented YUV input");
    static int lim;
    lim = th ? 1000000 : 70000;
    K.add("formats", 2 * (lim / 500) + 64, [](Ctx &c, uint64_t i) {
        Lib &L = lib();
        std::vector<int> fs;
        uint64_t blocks = 2 * (lim / 500);
        if (i < blocks) for (int k = 0; k < 500; k++) fs.push_back(-lim + (int) i * 500 + k);
        else
        {
            unsigned b = 1u << ((i - blocks) % 32);
            for (int k = -2; k < 8; k++) { fs.push_back((int) (b + k)); fs.push_back((int) (0u - b + k)); fs.push_back((int) (b * 3 + k)); }
        }
        for (int f : fs)
            for (int fl = 0; fl < 2; fl++)
            {
                int flags = fl ? (f & 0xff) & ~RFX_FLAGS_PRO1 : 0;
                void *mark = (void *) 0x1234, *h = mark;
                int ok = f >= 0 && f <= 4;
                int r = L.create_ex(64, 64, f, flags, &h);
                if (ok != (r == 0)) c.fail("create_ex with format %d flags %d returned %d", f, flags, r);
                if (!ok && h != mark && h != nullptr) c.fail("create_ex with format %d produced a handle", f);
                if (ok) { if (!h || h == mark) c.fail("create_ex with format %d gave no handle", f); if (L.destroy(h) != 0) c.fail("destroy failed"); }
                h = L.create(64, 64, f, flags);
                if (ok != (h != nullptr)) c.fail("create with format %d flags %d returned %s", f, flags, h ? "a handle" : "null");
                if (h) L.destroy(h);
                c.evals += 2;
                c.outcome(r * 16 + (ok ? f : 9));
            }
    }, [](uint64_t i) { return case_name("formats block %d", (int) i); });
    K.add("null-destroy", 1, [](Ctx &c, uint64_t) {
        for (int k = 0; k < 100; k++) lib().destroy(nullptr);
        Enc e(lib(), 64, 64, RFX_FORMAT_YUV, 0);
        Args a = flat_args(RFX_FORMAT_YUV, 1);
        must(c, put(c, e, a), 1, "call");
        lib().destroy(nullptr);
        must(c, put(c, e, a), 1, "call");
    }, [](uint64_t) { return std::string("destroy a null handle"); });
    /* every combination of the low creation flags, every other single bit and pair: announced coder = payload coder, no other effect */
    K.add("creation-flags", 1024ull + 23 * 23, [](Ctx &c, uint64_t i) {
        int flags;
        if (i < 1024) flags = (int) i;
        else { int k = (int) i - 1024; flags = (int) ((1u << (9 + k % 23)) | (1u << (9 + k / 23)) | (unsigned) (k & 1)); }
        bool pro = flags & RFX_FLAGS_PRO1;
        for (int f = 0; f < 5; f++)
        {
            if (pro && f != RFX_FORMAT_YUV) continue;
            Cfg g = {f, flags & 1, 0, 2, pro};
            for (int al = 0; al < (pro ? 1 : 2); al++)
            {
                g.alpha = al;
                Scene sc(g, 3, 1, 2, 2, 20, 33);
                Enc base(lib(), 300, 200, f, flags & (RFX_FLAGS_RLGR1 | RFX_FLAGS_PRO1));
                /* the processor may offer nothing, SSE2 only, or everything */
                force_cpu(lib(), (int) (i / 2 + f + al) % 4 - 1);
                Enc e(lib(), 300, 200, f, flags);
                force_cpu(lib(), -1);
                if (!base.h || !e.h) c.fail("creation with flags 0x%x failed", flags);
                for (int n = 0; n < 2; n++)
                {
                    Args a = sc.args();
                    Res x = base.call(a), y = e.call(a);
                    if (x.ret != 3 || y.ret != 3) c.fail("flags 0x%x: calls returned %d and %d", flags, x.ret, y.ret);
                    std::string s = diff_bytes(x.out, y.out);
                    if (!s.empty()) c.fail("flags 0x%x change the output: %s", flags, s.c_str());
                    ref::Msg m;
                    s = parse_msg(e, y, m);
                    if (!s.empty()) c.fail("flags 0x%x: %s", flags, s.c_str());
                    if (!pro)
                    {
                        int et = (m.ts_props >> 10) & 15, hdr = (m.ctx_props >> 9) & 15;
                        if (et != ((flags & 1) ? 1 : 4)) c.fail("flags 0x%x: tile set announces entropy coder %d", flags, et);
                        if (m.has_header && hdr != et) c.fail("flags 0x%x: header announces entropy coder %d, tile set %d", flags, hdr, et);
                        s = check_payload(e, a, y, m);
                        if (!s.empty()) c.fail("flags 0x%x: payload is not coded as announced: %s", flags, s.c_str());
                    }
                    c.evals++;
                    c.outcome(ref::hash_bytes(y.out.data(), y.out.size()));
                }
            }
        }
    }, [](uint64_t i) { return case_name("creation flags %s %d", i < 1024 ? "value" : "high bit pair", (int) i); });
    /* the announced coder over CPU feature sets */
    K.add("announced-coder", 61 * NPIC, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pic = d.next(NPIC);
        const Cfg &g = all_cfgs()[d.i];
        if (g.pro) return;
        force_cpu(lib(), g.acc);
        Scene sc(g, 2, 6 + pic, 2, 1);
        Enc e(lib(), 300, 200, g.fmt, g.create_flags());
        Args a = sc.args();
        for (int f = 0; f < 2; f++)
        {
            Res r = e.call(a);
            ref::Msg m;
            if (r.ret != 2) c.fail("call returned %d", r.ret);
            c.req(parse_msg(e, r, m));
            int et = (m.ts_props >> 10) & 15;
            if (et != (g.rl ? 1 : 4) || (m.has_header && ((m.ctx_props >> 9) & 15) != et)) c.fail("announced entropy coder %d", et);
            c.req(check_payload(e, a, r, m));
            c.evals++;
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }
    }, [](uint64_t i) { Dim d(i); int p = d.next(NPIC); return case_name("picture %d, %s", p, all_cfgs()[d.i].name().c_str()); });
    /* entry points: every split of a history between encode and encode_ex, create and create_ex */
    K.add("entry-points", 6 * 64 * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int mode = d.next(6), mask = d.next(64), cr = d.i;
        bool pro = mode == 5;
        int f = pro ? RFX_FORMAT_YUV : mode;
        int flags = pro ? RFX_FLAGS_PRO1 : mask & 1;
        Enc e1(lib(), 300, 200, f, flags), e2(lib(), 300, 200, f, flags);
        if (cr) { lib().destroy(e2.h); e2.h = lib().create(300, 200, f, flags); }
        if (!e1.h || !e2.h) c.fail("creation failed");
        for (int k = 0; k < 6; k++)
        {
            Cfg g = {f, 0, 0, 2, pro};
            Scene sc(g, 1 + k % 3, 1 + k % 2, k % 3, k % 3, 5 + k, 64 - k);
            Args a = sc.args();
            if (k == 3) a.cap = 25500;
            if (k == 4) a.cap = 60;
            a.flags = 0;
            Res x = e1.call(a), y = e2.call(a, -1, (mask >> k) & 1);
            if (x.ret != y.ret || (x.ret >= 0 && x.out != y.out)) c.fail("call %d: the entry points differ (%d and %d, %s)", k, x.ret, y.ret, diff_bytes(x.out, y.out).c_str());
            c.evals++;
            c.outcome(ref::hash_bytes(x.out.data(), x.out.size()));
        }
    }, [](uint64_t i) { Dim d(i); int m = d.next(6), k = d.next(64); return case_name("format/mode %d, plain-call mask %d, %s", m, k, d.i ? "create" : "create_ex"); });
    /* entry points and creation for every capacity in a range */
    K.add("entry-capacities", 6 * 100, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int mode = d.next(6), blk = d.i;
        bool pro = mode == 5;
        int f = pro ? RFX_FORMAT_YUV : mode;
        Cfg g = {f, 0, 0, 2, pro};
        Scene sc(g, 2, 4, 2, 1);
        for (int k = 0; k < 10; k++)
        {
            Enc e1(lib(), 300, 200, f, pro ? RFX_FLAGS_PRO1 : 0), e2(lib(), 300, 200, f, pro ? RFX_FLAGS_PRO1 : 0);
            Args a = sc.args();
            for (int t = 0; t < 2; t++)
            {
                a.cap = t ? 400000 : blk * 10 + k + (blk >= 50 && !pro ? 24500 : 0);
                Res x = e1.call(a), y = e2.call(a, -1, true);
                if (x.ret != y.ret || (x.ret >= 0 && x.out != y.out)) c.fail("capacity %d: the entry points differ (%d and %d)", a.cap, x.ret, y.ret);
                c.evals++;
                c.outcome(((uint64_t) x.ret << 32) + x.out.size());
            }
        }
    }, [](uint64_t i) { Dim d(i); int m = d.next(6); return case_name("format/mode %d, capacity block %d", m, (int) d.i); });
    /* encode flags: only the alpha bit means something in classic mode, only the key bit in progressive mode */
    K.add("encode-flags", 6ull * (32 + 32 * 31 / 2 + 2), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int mode = d.next(6), k = d.i;
        bool pro = mode == 5;
        int f = pro ? RFX_FORMAT_YUV : mode;
        unsigned fl = 0;
        if (k < 32) fl = 1u << k;
        else if (k < 32 + 496) { int a = 0, b = k - 32; while (b >= 31 - a) { b -= 31 - a; a++; } fl = 1u << a | 1u << (a + 1 + b); }
        else fl = k == 528 ? ~0u : ~1u;
        unsigned mean = fl & (pro ? RFX_FLAGS_PRO_KEY : RFX_FLAGS_ALPHAV1);
        Cfg g = {f, 0, 1, 2, pro};
        Enc e1(lib(), 300, 200, f, pro ? RFX_FLAGS_PRO1 : k & 1), e2(lib(), 300, 200, f, pro ? RFX_FLAGS_PRO1 : k & 1);
        for (int s = 0; s < 4; s++)
        {
            Scene sc(g, 2, s == 2 ? 4 : 1, 2, 1, 30, 40);
            Args a = sc.args(), b = a;
            a.flags = s == 0 || s == 2 ? 0 : (int) fl;
            b.flags = s == 0 || s == 2 ? 0 : (int) mean;
            Res x = e1.call(a), y = e2.call(b);
            if (x.ret != 2 || y.ret != 2) c.fail("call %d with flags 0x%x and 0x%x returned %d and %d", s, a.flags, b.flags, x.ret, y.ret);
            std::string t = diff_bytes(x.out, y.out);
            if (!t.empty()) c.fail("call %d: flags 0x%x give another message than 0x%x: %s", s, a.flags, b.flags, t.c_str());
            c.evals++;
            c.outcome(ref::hash_bytes(x.out.data(), x.out.size()));
        }
    }, [](uint64_t i) { return case_name("encode flags case %d, format/mode %d", (int) (i / 6), (int) (i % 6)); });
    /* both entry points over argument shapes: tables, regions, tiles, sizes */
    K.add("entry-arguments", 6ull * (256 + 300 + 60), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int mode = d.next(6), k = d.i;
        bool pro = mode == 5;
        int f = pro ? RFX_FORMAT_YUV : mode, nq = 1, nr = 1, nt = 2;
        if (k < 256) nq = k; else if (k < 556) nr = k - 256; else nt = k - 556 + 1;
        Cfg g = {f, 0, 0, 2, pro};
        Scene sc(g, nt, 4, nq, nr, 1 + k % 64, 1 + (k * 3) % 64);
        int flags = pro ? RFX_FLAGS_PRO1 : k & 1;
        Enc e1(lib(), 300, 200, f, flags), e2(lib(), 300, 200, f, flags);
        Args a = sc.args();
        a.flags = 0;
        for (int s = 0; s < 2; s++)
        {
            Res x = e1.call(a), y = e2.call(a, -1, true);
            if (x.ret != y.ret || (x.ret >= 0 && x.out != y.out)) c.fail("call %d: the entry points differ (%d and %d, %s)", s, x.ret, y.ret, diff_bytes(x.out, y.out).c_str());
            c.evals++;
            c.outcome(ref::hash_bytes(x.out.data(), x.out.size()));
        }
    }, [](uint64_t i) { return case_name("format/mode %d, argument shape %d", (int) (i % 6), (int) (i / 6)); });
}
