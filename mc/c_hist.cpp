/* C09 (progressive histories), C10 (failed calls leave no trace) */
#include "hist.h"
#include "scene.h"

namespace {

struct OnAlloc
{
    Lib &L;
    OnAlloc(Lib &l) : L(l) { AllocCtl::install(l); AllocCtl::reset(); }
    ~OnAlloc() { AllocCtl::uninstall(L); }
};

void run_word(Ctx &c, const std::vector<int> &w)
{
    OnAlloc al(lib());
    Hist h;
    if (!h.e.h) c.fail("creation failed");
    c.state(h.state());
    for (size_t i = 0; i < w.size(); i++)
    {
        std::string s = h.do_op(hist_ops()[w[i]]);
        c.transitions++;
        c.evals++;
        if (!s.empty()) c.fail("after operation %d: %s", (int) i + 1, s.c_str());
        c.state(h.state());
        if (h.last.ret >= 0) for (auto &t : h.msg.tiles) c.outcome(tile_hash(h.last, t));
    }
    c.traces++;
}
std::vector<int> word_of(uint64_t i, int nops, int len, const int *ops = nullptr)
{
    std::vector<int> w(len);
    for (int k = 0; k < len; k++) { w[k] = ops ? ops[i % nops] : (int) (i % nops); i /= nops; }
    return w;
}
uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e--) r *= b; return r; }

} /* namespace */

/* capacities next to the end of a component of the message that the call would give with ample space */
struct Edge { std::vector<Op> pre; Op f; int cap; };
static const uint64_t N_EDGE = 16ull * 2 * 12 * 18;
static bool edge_case(Ctx &c, uint64_t i, Edge &g)
{
    static const int P[16][2] = {{0, 1}, {3, 4}, {5, 2}, {2, 5}, {3, 12}, {6, 7}, {0, 8}, {9, 3}, {10, 3}, {11, 12}, {17, 18}, {20, 19}, {21, 3}, {25, 22}, {4, 4}, {2, 2}};
    Dim d(i);
    int set = d.next(16), later = d.next(2), edge = d.next(12), delta = d.i - 3;
    Op first;
    int q = set % 3 == 1;
    first.tiles = {{0, 1, P[set][0], q}, {1, 1, P[(set + 5) % 16][0], 1}, {2, 1, P[(set + 9) % 16][0], 0}};
    g.f.tiles = {{0, 1, P[set][1], q}, {1, 1, P[(set + 5) % 16][1], 1}, {2, 1, P[(set + 9) % 16][1], 0}};
    if (later) g.pre = {first};
    Hist h;
    for (auto &o : g.pre) c.req(h.do_op(o));
    c.req(h.do_op(g.f));
    if (h.last.ret != 3) return c.fail("three tiles with ample space give %d", h.last.ret), false;
    const ref::Tile &t = h.msg.tiles[edge / 4];
    g.cap = (edge % 4 == 0 ? t.poff[0] : t.poff[edge % 4 - 1] + t.plen[edge % 4 - 1]) + delta;
    g.f.fault = CAP;
    g.f.arg = g.cap;
    c.transitions += 1 + later;
    return true;
}
static std::string edge_name(uint64_t i)
{
    return case_name("contents %d, %s, tile %d, %d bytes after %s %d", (int) (i % 16), i / 16 & 1 ? "update" : "first call", (int) (i / 32 % 12) / 4, (int) (i / 384) - 3, i / 32 % 4 ? "the end of component" : "the start of payload", (int) (i / 32 % 4));
}

CHECK_DEF(C09)
{
    bool th = !K.quick();
    K.rule = "Every word of operations up to the stated depth runs on a fresh real encoder; after each operation two client models that applied all returned messages must hold, for every delivered position, exactly the prescribed coefficients of the last delivered content. A model state is the pair of client contents; a trace is one complete word run against the implementation. Distinct: tile bytes differ from all others (hash).";
    K.assumptions.push_back("quantisation values are in the protocol's range 6..15; pictures come from the listed alphabet");
    int n = (int) hist_ops().size();
    auto words = [&K](const char *name, int nops, int len, const int *ops) {
        K.add(name, ipow(nops, len), [nops, len, ops](Ctx &c, uint64_t i) { run_word(c, word_of(i, nops, len, ops)); },
              [nops, len, ops](uint64_t i) { return word_name(word_of(i, nops, len, ops)); });
    };
    words("words-all-ops-3", n, 3, nullptr);
    words("words-core-5", 8, 5, nullptr);
    if (th) { words("words-all-ops-4", n, 4, nullptr); words("words-core-6", 8, 6, nullptr); }
    else
    {
        static const int SEL[10] = {0, 1, 3, 4, 5, 8, 9, 11, 12, 10};
        words("words-selected-4", 10, 4, SEL);
    }
    /* every grid position: full, difference, and neighbours (also transposed and mirrored ones) */
    K.add("positions", 4096, [](Ctx &c, uint64_t i) {
        int x = i % 64, y = (int) i / 64;
        Hist h;
        int nb[5][2] = {{(x + 1) & 63, y}, {x, (y + 1) & 63}, {y, x}, {63 - x, y}, {(x + 63) & 63, (y + 63) & 63}};
        std::vector<Op> ops(7);
        ops[0].tiles = {{x, y, 0, 0}};
        ops[1].tiles = {{nb[0][0], nb[0][1], 3, 0}, {nb[1][0], nb[1][1], 2, 0}};
        ops[2].tiles = {{x, y, 1, 0}};
        ops[3].tiles = {{nb[2][0], nb[2][1], 5, 0}, {nb[3][0], nb[3][1], 8, 0}, {nb[4][0], nb[4][1], 2, 1}};
        ops[4].tiles = {{x, y, 0, 1}, {nb[0][0], nb[0][1], 4, 0}};
        ops[5].tiles = {{x, y, 0, 0}};
        ops[5].key = i & 1;
        ops[6].tiles = {{x, y, 1, 0}, {nb[1][0], nb[1][1], 8, 0}};
        for (auto &o : ops)
        {
            /* two tiles at one position in a call share the frame content; drop duplicates */
            for (size_t a = 0; a < o.tiles.size(); a++)
                for (size_t b = a + 1; b < o.tiles.size();)
                    if (o.tiles[a].x == o.tiles[b].x && o.tiles[a].y == o.tiles[b].y) o.tiles.erase(o.tiles.begin() + b); else b++;
            std::string s = h.do_op(o);
            if (h.last.ret != (int) o.tiles.size()) c.fail("call returned %d of %d", h.last.ret, (int) o.tiles.size());
            c.req(s);
            c.transitions++;
            c.evals++;
            c.state(h.state());
        }
        c.traces++;
        c.outcome(ref::hash_bytes(h.last.out.data(), h.last.out.size()));
    }, [](uint64_t i) { return case_name("history around grid position (%d,%d)", (int) (i % 64), (int) i / 64); });
    /* the whole grid in use at once */
    K.add("full-grid", 2, [](Ctx &c, uint64_t i) {
        Hist h;
        for (int f = 0; f < 3; f++)
            for (int b = 0; b < 64; b++)
            {
                Op o;
                for (int k = 0; k < 64; k++) o.tiles.push_back({i ? b : k, i ? k : b, f == 0 ? (k * 3 + b) % 9 : f == 1 ? (k * 3 + b + (k & 1)) % 9 : (k + b) % 9, f == 2 ? (k & 1) : 0});
                if (b < 63)
                {
                    /* cheap path: apply without comparing the whole grid every time */
                    Args a = op_args(o);
                    a.cap = 8 * 1024 * 1024;
                    h.last = h.e.call(a);
                    if (h.last.ret != 64) c.fail("call returned %d of 64", h.last.ret);
                    ref::Msg m;
                    c.req(parse_msg(h.e, h.last, m));
                    c.req(h.keep.apply(h.last.out, m));
                    c.req(h.drop.apply(h.last.out, m));
                    for (int k = 0; k < 64; k++)
                    {
                        const rfx_tile &t = a.tiles[k];
                        auto w = std::make_shared<Hist::Want>();
                        int qi[3] = {t.quant_y, t.quant_cb, t.quant_cr};
                        for (int j = 0; j < 3; j++) w->c[j] = model_coefs(a.buf + (size_t) (t.y << 8) * 64 + ((size_t) t.x << 8) + 4096 * j, a.quants + 5 * qi[j]);
                        w->id = t.x * 7 + t.y + f;
                        h.want[(t.x / 64) * 65536 + t.y / 64] = w;
                        h.want_drop[(t.x / 64) * 65536 + t.y / 64] = w;
                    }
                }
                else
                {
                    Args a = op_args(o);
                    a.cap = 8 * 1024 * 1024;
                    c.req(h.do_call(a));
                }
                c.transitions++;
                c.evals += 64;
            }
        c.traces++;
        c.outcome(h.state());
    }, [](uint64_t i) { return case_name("all 4096 positions filled and updated twice, %s order", i ? "column" : "row"); });
    K.fams.back().case_limit = 120;
    /* picture words at one position: every transition between contents, also across quantisation sets */
    /* one call with a tile for every position and more: two frames, each list longer than the grid */
    K.add("long-lists", 2, [](Ctx &c, uint64_t i) {
        LongList A(RFX_FORMAT_YUV, 4500, false, (unsigned) i + 3, 64), B(RFX_FORMAT_YUV, 4200, false, (unsigned) i + 8, 64);
        Hist h;
        c.req(h.do_call(A.a));
        c.transitions++;
        c.req(h.do_call(B.a));
        c.transitions++;
        c.evals += 8700;
        c.traces++;
        c.outcome(h.state());
    }, [](uint64_t i) { return case_name("two frames of 4500 and 4200 tiles in one call each, content %d", (int) i); });
    K.fams.back().case_limit = 120;
    K.add("picture-words", ipow(14, 3), [](Ctx &c, uint64_t i) {
        Dim d(i);
        Hist h;
        std::vector<int> w = {d.next(14), d.next(14), d.next(14)};
        w.push_back(w[0]);
        w.push_back(w[0]);
        for (size_t k = 0; k < w.size(); k++)
        {
            Op o;
            o.tiles = {{5, 9, w[k] < 10 ? w[k] : 16 + w[k], (int) (i / 5 + k) % 7 == 3 ? 1 : 0}};
            c.req(h.do_op(o));
            c.transitions++;
            c.evals++;
            c.state(h.state());
            if (h.last.ret != 1) c.fail("call returned %d", h.last.ret);
            c.outcome(tile_hash(h.last, h.msg.tiles[0]));
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("pictures %d,%d,%d,... at one position", (int) (i % 14), (int) (i / 14 % 14), (int) (i / 196)); });
    /* changes of quantisation between updates */
    K.add("quant-pairs", 100 * 6, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int v1 = d.next(10) + 6, v2 = d.next(10) + 6, pic = d.i;
        Hist h;
        static const int P[6] = {0, 3, 5, 6, 2, 9};
        uint8_t q[10];
        qset(q, v1); qset(q + 5, v2);
        for (int s = 0; s < 7; s++)
        {
            if (s == 5) { qset(q, v2); qset(q + 5, v1); } /* other tables in the same memory */
            Op o;
            o.tiles = {{2, 2, s == 3 ? 1 : P[pic], 0}};
            Args a = op_args(o);
            a.quants = q; a.nquants = 2;
            int b = s & 1;
            a.tiles[0].quant_y = b; a.tiles[0].quant_cb = s == 2 ? 1 : b; a.tiles[0].quant_cr = b ^ (s == 4);
            c.req(h.do_call(a));
            c.transitions++;
            c.evals++;
            c.state(h.state());
            if (h.last.ret != 1) c.fail("call returned %d", h.last.ret);
            c.outcome(tile_hash(h.last, h.msg.tiles[0]));
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("quantisation %d and %d in turn, picture %d", (int) (i % 10) + 6, (int) (i / 10 % 10) + 6, (int) (i / 100)); });
    /* every capacity for three tiles, first and later in the history; the rest is sent afterwards */
    K.add("capacities", th ? 2ull * 26000 : 2ull * 2600, [th](Ctx &c, uint64_t i) {
        int later = i & 1, cap = (int) (i / 2) * (th ? 1 : 10) + (th ? 0 : (int) (i / 2) % 10);
        Hist h;
        Op o0, o1, o2;
        o0.tiles = {{0, 1, 0, 0}, {1, 1, 3, 1}, {2, 1, 5, 0}};
        o1.tiles = {{0, 1, 1, 0}, {1, 1, 4, 1}, {2, 1, 0, 0}};
        o2.tiles = {{2, 1, 8, 0}, {1, 1, 4, 0}, {0, 1, 0, 0}};
        if (later) { c.req(h.do_op(o0)); c.transitions++; }
        Op &lim = later ? o1 : o0;
        Op l = lim;
        l.fault = CAP;
        l.arg = cap;
        c.req(h.do_op(l));
        c.transitions++;
        c.state(h.state());
        int done = h.last.ret > 0 ? h.last.ret : 0;
        Op rest = lim;
        rest.tiles.erase(rest.tiles.begin(), rest.tiles.begin() + done);
        if (!rest.tiles.empty()) { c.req(h.do_op(rest)); c.transitions++; }
        c.state(h.state());
        c.req(h.do_op(o2));
        c.transitions++;
        c.evals++;
        c.traces++;
        c.outcome(ref::hash_bytes(h.last.out.data(), h.last.out.size()) + done * 17 + later);
    }, [th](uint64_t i) { return case_name("three tiles in %d bytes, %s", (int) (i / 2) * (th ? 1 : 10) + (th ? 0 : (int) (i / 2) % 10), i & 1 ? "as an update" : "as the first call"); });
    /* many tiles per call, n-th allocation fails */
    K.add("allocation-failures", 12 * 3, [](Ctx &c, uint64_t i) {
        OnAlloc al(lib());
        int k = i % 12 + 1, pre = i / 12;
        Hist h;
        Op big, more;
        for (int t = 0; t < 12; t++) big.tiles.push_back({t * 5, 63 - t * 3, t % 9, t & 1});
        for (int t = 0; t < 12; t++) more.tiles.push_back({t * 5, 63 - t * 3, (t + 1) % 9, 0});
        if (pre) { Op p; for (int t = 0; t < pre; t++) p.tiles.push_back(big.tiles[t * 4]); c.req(h.do_op(p)); }
        big.fault = OOM;
        big.arg = k;
        c.req(h.do_op(big));
        big.fault = NONE;
        c.req(h.do_op(more));
        c.req(h.do_op(big));
        c.transitions += 3;
        c.evals += 3;
        c.traces++;
        c.state(h.state() + i);
        c.outcome(ref::hash_bytes(h.last.out.data(), h.last.out.size()) + i);
    }, [](uint64_t i) { return case_name("allocation %d of a 12-tile call fails, %d positions known before", (int) (i % 12) + 1, (int) (i / 12)); });
    /* failing tile at each list position */
    K.add("bad-tile", 12 * 5 * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(12), kind = d.next(5), pre = d.i;
        Hist h;
        Op big, fix;
        for (int t = 0; t < 12; t++) big.tiles.push_back({t * 5, t, t % 9, 0});
        fix = big;
        for (auto &t : fix.tiles) t.pic = (t.pic + 1) % 9;
        if (pre) c.req(h.do_op(fix));
        Args a = op_args(big);
        int *f[5] = {&a.tiles[k].quant_y, &a.tiles[k].quant_cb, &a.tiles[k].quant_cr, &a.tiles[k].x, &a.tiles[k].y};
        *f[kind] = kind < 3 ? 4 : 4096;
        c.req(h.do_call(a));
        c.req(h.do_op(fix));
        c.req(h.do_op(big));
        c.req(h.do_op(fix));
        c.transitions += 4;
        c.evals += 4;
        c.traces++;
        c.state(h.state());
        c.outcome(i);
    }, [](uint64_t i) { Dim d(i); int k = d.next(12), kind = d.next(5); return case_name("tile %d of 12 invalid (kind %d), %s", k, kind, d.i ? "after an update" : "first call"); });
    /* long deterministic histories */
    K.add("long", th ? 64 : 24, [](Ctx &c, uint64_t i) {
        OnAlloc al(lib());
        Hist h;
        Rng r(i * 77 + 5);
        for (int s = 0; s < 400; s++)
        {
            Op o;
            int nt = 1 + r.next() % 3;
            for (int t = 0; t < nt; t++)
            {
                TileOp x = {(int) (r.next() % 3) * 31, (int) (r.next() % 2) * 40, (int) (r.next() % 10), (int) (r.next() % 8) == 0 ? 1 : 0};
                bool dup = false;
                for (auto &y : o.tiles) dup |= y.x == x.x && y.y == x.y;
                if (!dup) o.tiles.push_back(x);
            }
            int f = r.next() % 24;
            if (f == 0) o.key = 1;
            else if (f < 4) { o.fault = CAP; o.arg = r.next() % 12000; }
            else if (f == 4) { o.fault = BADQ; o.arg = r.next() % 100; }
            else if (f == 5) { o.fault = BADX; o.arg = r.next() % 4; }
            else if (f == 6) { o.fault = OOM; o.arg = 1; }
            std::string e = h.do_op(o);
            if (!e.empty()) c.fail("step %d: %s", s, e.c_str());
            c.transitions++;
            c.evals++;
            c.state(h.state());
        }
        c.traces++;
        c.outcome(ref::hash_bytes(h.last.out.data(), h.last.out.size()) + i);
    }, [](uint64_t i) { return case_name("deterministic history %d of 400 operations", (int) i); });
    /* long tables: each component takes its set from anywhere in the table */
    K.add("quant-index", 255ull * 3, [](Ctx &c, uint64_t i) {
        int idx = i % 255, k = (int) (i / 255), nq = idx < 40 ? 40 : 255;
        std::vector<uint8_t> q(5 * nq);
        for (int j = 0; j < nq; j++) qnth(&q[5 * j], j * 3 + 1);
        Hist h;
        for (int s = 0; s < 4; s++)
        {
            Op o;
            o.tiles = {{3, 1, (int[]){5, 3, 4, 5}[s], 0}};
            Args a = op_args(o);
            a.quants = q.data(); a.nquants = nq;
            int qi[3] = {(idx * 7 + 1) % nq, (idx * 5 + 2) % nq, (idx * 3) % nq};
            qi[(k + (s == 3)) % 3] = s == 1 ? nq - 1 - idx : idx;
            a.tiles[0].quant_y = qi[0]; a.tiles[0].quant_cb = qi[1]; a.tiles[0].quant_cr = qi[2];
            c.req(h.do_call(a));
            if (h.last.ret != 1) c.fail("call returned %d", h.last.ret);
            c.transitions++;
            c.evals++;
            c.state(h.state());
            c.outcome(tile_hash(h.last, h.msg.tiles[0]));
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("set %d of a long table for component %d", (int) (i % 255), (int) (i / 255)); });
    /* one pixel of one component changed in place, at every position */
    K.add("single-pixel", 4096ull * 3, [](Ctx &c, uint64_t i) {
        int pos = i % 4096, k = (int) (i / 4096);
        Hist h;
        static std::vector<uint8_t> px(16384);
        for (int j = 0; j < 3; j++) { if ((pos + k) & 1) Frame64::plane(0, j, &px[j * 4096]); else Frame64::plane(2, j, &px[j * 4096]); }
        Args a = yuv_args(px.data(), hist_quants(), 4);
        for (int s = 0; s < 3; s++)
        {
            if (s) px[k * 4096 + pos] ^= s == 1 ? 0x80 : 0x0c;
            c.req(h.do_call(a));
            if (h.last.ret != 1) c.fail("call returned %d", h.last.ret);
            c.transitions++;
            c.evals++;
            c.state(h.state());
            c.outcome(tile_hash(h.last, h.msg.tiles[0]));
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("pixel %d of component %d changed twice", (int) (i % 4096), (int) (i / 4096)); });
    /* capacities at the exact ends of tiles and components */
    K.add("exact-capacities", N_EDGE, [](Ctx &c, uint64_t i) {
        Edge g;
        if (!edge_case(c, i, g)) return;
        Hist h;
        for (auto &o : g.pre) c.req(h.do_op(o));
        c.req(h.do_op(g.f));
        int done = h.last.ret > 0 ? h.last.ret : 0;
        Op rest = g.f, back;
        rest.fault = NONE;
        rest.tiles.erase(rest.tiles.begin(), rest.tiles.begin() + done);
        if (!rest.tiles.empty()) c.req(h.do_op(rest));
        back.tiles = {{2, 1, 8, 0}, {1, 1, 4, 0}, {0, 1, 0, 0}};
        c.req(h.do_op(back));
        c.transitions += 3;
        c.evals++;
        c.traces++;
        c.state(h.state());
        c.outcome(ref::hash_bytes(h.last.out.data(), h.last.out.size()) + done);
    }, edge_name);
    /* the largest change of each coefficient, at the finest table */
    K.add("extremal-changes", 4096ull * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int k = d.next(4096), how = d.i;
        static uint8_t q[5];
        qset(q, 6);
        Hist h;
        for (int s = 0; s < 4; s++)
        {
            Op o;
            o.tiles = {{3, 3, 2, 0}};
            Args a = op_args(o);
            uint8_t *t = frame64().tile(3, 3);
            frame64().forget(3, 3);
            for (int p = 0; p < 3; p++)
            {
                bool up = ((s + p) & 1) ^ how;
                if (s == 3) memset(t + 4096 * p, 128, 4096);
                else pic_extremal(signs_pro(), (k + 7 * p) & 4095, up, t + 4096 * p);
            }
            a.quants = q;
            a.nquants = 1;
            c.req(h.do_call(a));
            c.transitions++;
            c.evals++;
            if (h.last.ret != 1) c.fail("call returned %d", h.last.ret);
            c.outcome(tile_hash(h.last, h.msg.tiles[0]));
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("largest changes of coefficient %d, phase %d", (int) (i % 4096), (int) (i / 4096)); });
    /* all pairs of pictures at several tables */
    K.add("picture-pairs", (uint64_t) NPIC * NPIC * 4, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int p0 = d.next(NPIC), p1 = d.next(NPIC), qv = d.i;
        static const int QV[4] = {6, 7, 9, 12};
        uint8_t q[5];
        qset(q, QV[qv]);
        Hist h;
        for (int s = 0; s < 4; s++)
        {
            Op o;
            o.tiles = {{63, 0, 16 + (s & 1 ? p1 : p0), 0}};
            Args a = op_args(o);
            a.quants = q;
            a.nquants = 1;
            c.req(h.do_call(a));
            c.transitions++;
            c.evals++;
            if (h.last.ret != 1) c.fail("call returned %d", h.last.ret);
            c.outcome(tile_hash(h.last, h.msg.tiles[0]));
        }
        c.traces++;
    }, [](uint64_t i) { return case_name("pictures %d and %d in turn, table class %d", (int) (i % NPIC), (int) (i / NPIC % NPIC), (int) (i / NPIC / NPIC)); });
}

/* ------------------------------------------------------------------------ C10 */
namespace {

/* twin comparison: a gets the failing call, b does not; the following calls must agree byte for byte */
void same_res(Ctx &c, const Res &a, const Res &b, const char *what, int k)
{
    if (a.ret != b.ret) c.fail("%s, call %d: returns %d, without the failed call %d", what, k, a.ret, b.ret);
    if (a.ret < 0) return;
    std::string s = diff_bytes(a.out, b.out);
    if (!s.empty()) c.fail("%s, call %d: message differs from the one without the failed call: %s", what, k, s.c_str());
}

/* classic scenes for prefix and suffix calls */
Args classic_call(const Cfg &cfg, int n, std::vector<std::unique_ptr<Scene>> &keep)
{
    static const int N[4] = {2, 1, 0, 3}, C[4] = {1, 5, 0, 4}, Q[4] = {2, 1, 1, 0}, R[4] = {1, 0, 3, 2};
    Cfg g = cfg;
    if (n & 1) g.alpha = 0;
    keep.emplace_back(new Scene(g, N[n & 3], C[n & 3], Q[n & 3], R[n & 3], 40, 50, 0));
    Args a = keep.back()->args();
    if (!Q[n & 3]) for (auto &t : a.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
    return a;
}

/* progressive: suffix of three calls, plain */
const std::vector<Op> &suffix_ops()
{
    static std::vector<Op> v;
    if (v.empty())
    {
        Op a, b, d;
        a.tiles = {{0, 0, 1, 0}, {1, 0, 2, 0}};
        b.tiles = {{1, 0, 0, 1}, {63, 63, 0, 0}, {0, 0, 3, 0}};
        d.tiles = {{0, 0, 0, 0}, {2, 5, 5, 0}};
        v = {a, b, d};
    }
    return v;
}
/* run prefix; apply the faulty op to a (and not b); suffix on both */
void twin(Ctx &c, const std::vector<Op> &prefix, const std::vector<Op> &faults)
{
    Lib &L = lib();
    OnAlloc al(L);
    auto mk = [&]() { return std::unique_ptr<Enc>(new Enc(L, 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1)); };
    auto a = mk(), b = mk(), k = mk();
    int n = 0;
    for (auto &o : prefix)
    {
        Args x = op_args(o);
        Res ra = a->call(x), rb = b->call(x), rk = k->call(x);
        same_res(c, ra, rb, "prefix", n);
        n++;
    }
    bool key = false;
    int failed = 0;
    for (auto &f : faults)
    {
        Args x = op_args(f);
        if (f.fault == OOM) { AllocCtl::count = 0; AllocCtl::fail_at[0] = f.arg; }
        Res r = a->call(x);
        AllocCtl::fail_at[0] = 0;
        if (r.ret >= 0)
        {
            /* it did not fail: give it to the twins as well (only meaningful without allocation failure) */
            if (f.fault == OOM) { c.aux++; return; }
            if (f.fault == BADQ || f.fault == BADX || f.fault == BADY || f.fault == BADVAL || f.fault == EMPTY) c.fail("a call with an invalid tile list returns %d", r.ret);
            Res rb = b->call(x);
            k->call(x);
            if (!key) same_res(c, r, rb, "non-failing call", 0);
            else return;
            continue;
        }
        failed++;
        if (f.key) key = true;
    }
    if (!failed) return;
    bool alive_b = true, alive_k = key; /* which twin the encoder may still equal */
    std::string why;
    for (size_t s = 0; s < suffix_ops().size(); s++)
    {
        Args x = op_args(suffix_ops()[s]);
        Res ra = a->call(x), rb = b->call(x);
        Args y = x;
        if (s == 0) y.flags |= RFX_FLAGS_PRO_KEY;
        Res rk = k->call(y);
        auto eq = [](const Res &p, const Res &q) { return p.ret == q.ret && (p.ret < 0 || p.out == q.out); };
        if (alive_b && !eq(ra, rb)) { alive_b = false; why = ref::fmt("call %d after the failed one returns %d (%d bytes); without the failed call %d (%d bytes)%s", (int) s + 1, ra.ret, (int) ra.out.size(), rb.ret, (int) rb.out.size(), ra.ret == rb.ret && ra.ret >= 0 ? (": " + diff_bytes(ra.out, rb.out)).c_str() : ""); }
        if (alive_k && !eq(ra, rk)) { alive_k = false; why += "; nor does it equal a key frame"; }
        if (!alive_b && !alive_k) c.fail("%s", why.c_str());
        c.outcome(ref::hash_bytes(ra.out.data(), ra.out.size()));
        c.evals++;
    }
}
std::vector<Op> pre_ops(int n)
{
    const auto &H = hist_ops();
    switch (n)
    {
        case 0: return {};
        case 1: return {H[0]};
        case 2: return {H[2], H[1]};
        case 3: return {H[8]};
        case 4: return {H[0], H[1], H[10], H[3]};
        default: return {H[4], H[6]};
    }
}

} /* namespace */

CHECK_DEF(C10)
{
    bool th = !K.quick();
    K.rule = "Every case makes a call fail at an enumerated point (every too-small capacity, an invalid tile at each list position, each allocation, repeated and combined failures) after an enumerated prefix of calls, and compares every byte of the following calls with a twin encoder that never saw the failing call (for failed key-frame requests: or with a twin whose next call is a key frame). Distinct: following message bytes differ from all others (hash).";
    /* classic: every capacity below what an empty message needs */
    K.add("classic-capacity", 61ull * 4 * 260, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(61), pre = d.next(4), cap = d.i;
        const Cfg &cfg = all_cfgs()[cf];
        if (cfg.pro) return;
        force_cpu(lib(), cfg.acc);
        Enc a(lib(), 192, 64, cfg.fmt, cfg.create_flags()), b(lib(), 192, 64, cfg.fmt, cfg.create_flags());
        force_cpu(lib(), -1);
        std::vector<std::unique_ptr<Scene>> keep;
        for (int k = 0; k < pre; k++)
        {
            Args x = classic_call(cfg, k, keep);
            Res ra = a.call(x), rb = b.call(x);
            same_res(c, ra, rb, "prefix", k);
        }
        Args f = classic_call(cfg, cap + pre, keep);
        f.cap = cap;
        Res r = a.call(f);
        if (r.ret >= 0) return;
        for (int k = 0; k < 3; k++)
        {
            Args x = classic_call(cfg, k + pre + 1, keep);
            Res ra = a.call(x), rb = b.call(x);
            if (rb.ret < 0) c.fail("reference call failed");
            same_res(c, ra, rb, ref::fmt("after a call with capacity %d failed", cap).c_str(), k + 1);
            c.evals++;
            c.outcome(ref::hash_bytes(ra.out.data(), ra.out.size()));
        }
    }, [](uint64_t i) { Dim d(i); int cf = d.next(61), pre = d.next(4); return case_name("%s, %d calls, then one with %d bytes", all_cfgs()[cf].name().c_str(), pre, (int) d.i); });
    /* many regions / quantisation sets: the space runs out in every block */
    K.add("classic-large-headers", 4ull * 1400, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int kind = d.next(4), cap = d.i;
        Cfg cfg{kind == 3 ? 4 : kind, kind & 1, kind == 2, 2, 0};
        Enc a(lib(), 192, 64, cfg.fmt, cfg.create_flags()), b(lib(), 192, 64, cfg.fmt, cfg.create_flags());
        Scene s0(cfg, 1, 1, 1, 1), s1(cfg, 2, 1, kind < 2 ? 30 : 200, kind < 2 ? 120 : 3), s2(cfg, 2, 5, 3, 2);
        Args x0 = s0.args(), x1 = s1.args(), x2 = s2.args();
        if (kind & 1) { same_res(c, a.call(x0), b.call(x0), "prefix", 0); }
        x1.cap = cap;
        Res r = a.call(x1);
        if (r.ret >= 0) return;
        for (int k = 0; k < 2; k++)
        {
            Res ra = a.call(k ? x0 : x2), rb = b.call(k ? x0 : x2);
            same_res(c, ra, rb, "after the failed call", k + 1);
            c.evals++;
            c.outcome(ref::hash_bytes(ra.out.data(), ra.out.size()));
        }
    }, [](uint64_t i) { return case_name("large region/quantisation lists, kind %d, capacity %d", (int) (i % 4), (int) (i / 4)); });
    /* several failures in a row, at every pair of blocks */
    K.add("classic-repeated", 20ull * 30 * 30, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(20), c1 = d.next(30) * 5, c2 = d.next(30) * 5 + 2;
        Cfg cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0};
        Enc a(lib(), 192, 64, cfg.fmt, cfg.create_flags()), b(lib(), 192, 64, cfg.fmt, cfg.create_flags());
        std::vector<std::unique_ptr<Scene>> keep;
        int n = 0;
        for (int cap : {c1, c2, c1})
        {
            Args f = classic_call(cfg, n, keep);
            f.cap = cap;
            Res r = a.call(f);
            if (r.ret >= 0) return;
            n++;
        }
        for (int k = 0; k < 2; k++)
        {
            Args x = classic_call(cfg, k, keep);
            Res ra = a.call(x), rb = b.call(x);
            same_res(c, ra, rb, "after three failed calls", k + 1);
            /* and once more between successes */
            Args f = classic_call(cfg, k + 1, keep);
            f.cap = c2;
            Res r = a.call(f);
            if (r.ret >= 0) return;
            c.evals++;
            c.outcome(ref::hash_bytes(ra.out.data(), ra.out.size()));
        }
        Args x = classic_call(cfg, 3, keep);
        same_res(c, a.call(x), b.call(x), "after failures between successes", 3);
    }, [](uint64_t i) { return case_name("configuration %d, failures at %d and %d bytes", (int) (i % 20), (int) (i / 20 % 30) * 5, (int) (i / 600) * 5 + 2); });
    /* progressive: every capacity at which the call fails */
    K.add("pro-capacity", 6ull * 2 * (th ? 9000 : 1500), [th](Ctx &c, uint64_t i) {
        Dim d(i);
        int pre = d.next(6), key = d.next(2), cap = d.i;
        if (!th && cap > 300) cap = 300 + (cap - 300) * 7;
        Op f;
        f.tiles = {{0, 0, cap & 1 ? 3 : 5, 0}, {2, 5, 2, 0}, {1, 0, 1, 0}};
        f.key = key;
        f.fault = CAP;
        f.arg = cap;
        twin(c, pre_ops(pre), {f});
    }, [](uint64_t i) { return case_name("progressive, prefix %d%s, capacity case %d", (int) (i % 6), (i / 6) & 1 ? ", key frame" : "", (int) (i / 12)); });
    /* invalid tile at each position of the list */
    K.add("pro-bad-tile", 6ull * 2 * 8 * 8 * 5, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pre = d.next(6), key = d.next(2), len = d.next(8) + 1, pos = d.next(8), kind = d.next(5);
        if (pos >= len) return;
        static const TileOp T[8] = {{0, 0, 3, 0}, {1, 0, 3, 0}, {63, 63, 2, 0}, {2, 5, 0, 1}, {7, 7, 1, 0}, {0, 1, 4, 0}, {5, 0, 2, 0}, {9, 60, 5, 0}};
        Op f;
        for (int t = 0; t < len; t++) f.tiles.push_back(T[(t + pre) % 8]);
        f.key = key;
        f.fault = kind < 3 ? BADQ : kind == 3 ? BADX : BADY;
        f.arg = kind < 3 ? -1 : pos;
        if (kind < 3)
        {
            /* arg encodes tile, component and index: tile = arg % len */
            int a = pos + (pre & 1 ? 64 * 17 : 0);
            while (a % len != pos || a / 16 % 3 != kind) a++;
            f.arg = a;
        }
        twin(c, pre_ops(pre), {f});
    }, [](uint64_t i) { Dim d(i); int pre = d.next(6), key = d.next(2), len = d.next(8) + 1, pos = d.next(8); return case_name("progressive, prefix %d%s, tile %d of %d invalid (kind %d)", pre, key ? ", key frame" : "", pos, len, (int) d.i); });
    /* values outside what is valid, on both sides, in every field of every tile */
    K.add("pro-bad-value", 3ull * 2 * 3 * 5 * NBAD, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pre = d.next(3), key = d.next(2), rest = d.i;
        Op f;
        f.tiles = {{0, 0, 3, 0}, {2, 5, 0, 1}, {63, 63, 2, 0}};
        f.key = key;
        f.fault = BADVAL;
        f.arg = rest;
        twin(c, pre_ops(pre * 2), {f});
    }, [](uint64_t i) { Dim d(i); int pre = d.next(3), key = d.next(2), r = d.i; return case_name("progressive, prefix %d%s, tile %d field %d has value %d", pre, key ? ", key frame" : "", r / NBAD / 5, r / NBAD % 5, bad_value(r / NBAD % 5, r % NBAD)); });
    /* classic: a quantisation index without a table, at each list position; too many tables, regions */
    K.add("classic-bad-index", 20ull * 3 * 3 * NBAD * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int cf = d.next(20), tile = d.next(3), field = d.next(3), which = d.next(NBAD), pre = d.i;
        Cfg cfg{cf % 5, cf / 5 % 2, cf / 10, 2, 0};
        Enc a(lib(), 192, 64, cfg.fmt, cfg.create_flags()), b(lib(), 192, 64, cfg.fmt, cfg.create_flags());
        std::vector<std::unique_ptr<Scene>> keep;
        if (pre) { Args x = classic_call(cfg, 0, keep); same_res(c, a.call(x), b.call(x), "prefix", 0); }
        Scene s(cfg, 3, 1, which & 1 ? 4 : 0, 1);
        s.quants.resize(s.quants.size() + 5 * 70000, 0x66); /* what an unchecked index may reach; tables are those declared */
        Args f = s.args();
        if (which & 1) f.nquants = 4;
        rfx_tile &t = f.tiles[tile];
        (field == 0 ? t.quant_y : field == 1 ? t.quant_cb : t.quant_cr) = which == 13 ? 70000 : bad_value(0, which) < -50 ? -1 : bad_value(0, which);
        Res r = a.call(f);
        if (r.ret >= 0) c.fail("a call naming a table that is not there returns %d", r.ret);
        for (int k = 0; k < 3; k++)
        {
            Args x = classic_call(cfg, k + pre, keep);
            Res ra = a.call(x), rb = b.call(x);
            if (rb.ret < 0) c.fail("reference call failed");
            same_res(c, ra, rb, "after a call with a bad index failed", k + 1);
            c.evals++;
            c.outcome(ref::hash_bytes(ra.out.data(), ra.out.size()));
        }
    }, [](uint64_t i) { Dim d(i); int cf = d.next(20), tile = d.next(3), field = d.next(3); return case_name("configuration %d, tile %d, component %d, bad index %d", cf, tile, field, (int) (d.i % NBAD)); });
    /* allocation failures */
    K.add("pro-allocation", 6ull * 2 * 6, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pre = d.next(6), key = d.next(2), k = d.i + 1;
        for (int v = 0; v < 3; v++)
        {
            Op f;
            if (v == 0) f.tiles = {{40, 40, 3, 0}};
            if (v == 1) f.tiles = {{41, 40, 3, 0}, {0, 0, 2, 0}, {42, 40, 1, 0}};
            if (v == 2) f.tiles = {{0, 0, 2, 0}, {41, 40, 3, 0}};
            f.key = key;
            f.fault = OOM;
            f.arg = k;
            twin(c, pre_ops(pre), {f});
        }
    }, [](uint64_t i) { return case_name("progressive, prefix %d, allocation failure %d", (int) (i % 6), (int) (i / 12) + 1); });
    /* pairs of failing operations of all kinds, at each prefix, also around non-failing partial ones */
    K.add("pro-fault-pairs", 6ull * 12 * 12, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int pre = d.next(6), f1 = d.next(12), f2 = d.i;
        auto mk = [](int f) {
            Op o;
            o.tiles = {{0, 0, 3, 0}, {1, 0, 2, 0}};
            switch (f)
            {
                case 0: o.fault = CAP; o.arg = 0; break;
                case 1: o.fault = CAP; o.arg = 11; break;
                case 2: o.fault = CAP; o.arg = 25; break;
                case 3: o.fault = CAP; o.arg = 60; break;
                case 4: o.fault = CAP; o.arg = 120; break;
                case 5: o.fault = BADQ; o.arg = 1; break;
                case 6: o.fault = BADX; o.arg = 1; break;
                case 7: o.fault = EMPTY; break;
                case 8: o.key = 1; o.fault = CAP; o.arg = 30; break;
                case 9: o.key = 1; o.fault = BADQ; o.arg = 1; break;
                case 10: o.key = 1; o.fault = EMPTY; break;
                case 11: o.fault = CAP; o.arg = 6000; break;
            }
            return o;
        };
        twin(c, pre_ops(pre), {mk(f1), mk(f2)});
    }, [](uint64_t i) { return case_name("progressive, prefix %d, failures %d and %d", (int) (i % 6), (int) (i / 6 % 12), (int) (i / 72)); });
    /* failing calls after words of successful ones */
    {
        static const int SUC[9] = {0, 1, 2, 3, 4, 6, 8, 10, 11};
        int len = th ? 4 : 3;
        K.add("pro-words", ipow(9, len) * 5, [len](Ctx &c, uint64_t i) {
            Dim d(i);
            int f = d.next(5);
            std::vector<Op> pre;
            for (int k = 0; k < len; k++) pre.push_back(hist_ops()[SUC[d.next(9)]]);
            Op o;
            o.tiles = {{1, 0, 0, 0}, {0, 0, 5, 0}, {20, 20, 2, 0}};
            if (f == 0) { o.fault = CAP; o.arg = 45; }
            if (f == 1) { o.fault = BADQ; o.arg = 2; }
            if (f == 2) { o.fault = BADY; o.arg = 1; }
            if (f == 3) { o.fault = CAP; o.arg = 200; o.key = 1; }
            if (f == 4) { o.fault = CAP; o.arg = 75; }
            twin(c, pre, {o});
        }, [len](uint64_t i) {
            Dim d(i);
            int f = d.next(5);
            std::vector<int> w;
            for (int k = 0; k < len; k++) w.push_back(SUC[d.next(9)]);
            return word_name(w) + case_name("; then failure kind %d", f);
        });
    }
    /* the space runs out in every part of a tile that is coded as a difference to what the peer holds */
    {
        static const int PP[7][2] = {{0, 1}, {3, 4}, {3, 9}, {3, 10}, {3, 11}, {3, 12}, {2, 2}};
        K.add("pro-difference", 7ull * 3 * (th ? 9000 : 1100), [th](Ctx &c, uint64_t i) {
            Dim d(i);
            int p = d.next(7), company = d.next(3), cap = d.i;
            if (!th && cap > 400) cap = 400 + (cap - 400) * 11;
            Op pre, f;
            pre.tiles = {{0, 0, PP[p][0], 0}, {1, 0, PP[p][0], 0}};
            f.tiles = {{0, 0, PP[p][1], 0}};
            if (company == 1) f.tiles.push_back({1, 0, PP[p][1], 0});
            if (company == 2) { pre.tiles[0].pic = 2; f.tiles[0].x = 1; }
            f.fault = CAP;
            f.arg = cap;
            twin(c, {pre}, {f});
        }, [](uint64_t i) { return case_name("progressive, difference %d, company %d, capacity case %d", (int) (i % 7), (int) (i / 7 % 3), (int) (i / 21)); });
    }
    K.add("pro-exact", N_EDGE, [](Ctx &c, uint64_t i) {
        Edge g;
        if (!edge_case(c, i, g)) return;
        twin(c, g.pre, {g.f});
    }, edge_name);
}
