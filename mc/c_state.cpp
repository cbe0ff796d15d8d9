/* C12 (output depends on history and arguments only), C15 (memory) */
#include "hist.h"
#include "scene.h"
#include <alloca.h>

namespace {

struct OnAlloc
{
    Lib &L;
    OnAlloc(Lib &l) : L(l) { AllocCtl::install(l); AllocCtl::reset(); }
    ~OnAlloc() { AllocCtl::uninstall(L); }
};

/* the alphabet of calls used by the determinism families; progressive ones use the history frame */
enum { NCALL = 10 };
struct Call
{
    std::unique_ptr<Scene> sc;
    Args a;
};
/* classic call n of a configuration; tiles 1..3, alpha, partial sizes, quantisation, capacity vary */
const Call &classic(const Cfg &cfg, int n)
{
    static std::map<std::pair<std::string, int>, Call> cache;
    auto key = std::make_pair(cfg.name(), n);
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    static const int N[NCALL] = {2, 1, 0, 3, 1, 2, 1, 3, 1, 2}, C[NCALL] = {1, 5, 0, 4, 2, 3, 0, 2, 102, 1}, Q[NCALL] = {2, 1, 1, 0, 1, 5, 3, 1, 1, 2};
    static const int LX[NCALL] = {40, 64, 64, 64, 1, 17, 63, 64, 64, 64}, LY[NCALL] = {50, 64, 64, 3, 64, 64, 1, 64, 64, 64};
    Cfg g = cfg;
    if (n & 1) g.alpha = 0;
    Call &c = cache[key];
    c.sc.reset(new Scene(g, N[n], C[n], Q[n], n % 4, LX[n], LY[n], n % 3));
    c.a = c.sc->args();
    if (!Q[n]) for (auto &t : c.a.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
    if (n == 7) c.a.cap = 60000; /* delivers some of the tiles */
    if (n == 9) c.a.tiles[1] = c.a.tiles[0];
    return c;
}
Res do_call(Enc &e, const Cfg &cfg, int n, int prefill = -1)
{
    if (cfg.pro)
    {
        const Op &o = hist_ops()[n % 9 == 5 ? 11 : n % 9];
        Args a = op_args(o);
        return e.call(a, prefill);
    }
    return e.call(classic(cfg, n).a, prefill);
}
Enc *make(const Cfg &cfg)
{
    force_cpu(lib(), cfg.acc);
    Enc *e = new Enc(lib(), 192, 64, cfg.fmt, cfg.create_flags());
    force_cpu(lib(), -1);
    return e;
}
void expect_same(Ctx &c, const Res &got, const Res &want, const char *what, int k)
{
    if (got.ret != want.ret) c.fail("%s: call %d returns %d instead of %d", what, k, got.ret, want.ret);
    if (got.ret < 0) return;
    std::string s = diff_bytes(got.out, want.out);
    if (!s.empty()) c.fail("%s: call %d: %s", what, k, s.c_str());
}
/* a history's messages on a fresh encoder, undisturbed */
std::vector<Res> alone(const Cfg &cfg, const std::vector<int> &w)
{
    std::unique_ptr<Enc> e(make(cfg));
    std::vector<Res> r;
    for (int n : w) r.push_back(do_call(*e, cfg, n));
    return r;
}
/* leave a pattern on the stack below the caller */
__attribute__((noinline)) void dirty_stack(int v)
{
    volatile char *p = (volatile char *) alloca(200000);
    for (int i = 0; i < 200000; i++) p[i] = (char) (v < 256 ? v : i * 7 + v);
}
/* what C12 calls the tile data of a message: bytes of each tile */
std::vector<uint64_t> tiles_of(Ctx &c, Enc &e, const Res &r)
{
    ref::Msg m;
    std::vector<uint64_t> v;
    if (r.ret < 0) { v.push_back(~0ull); return v; }
    c.req(parse_msg(e, r, m));
    for (auto &t : m.tiles) v.push_back(tile_hash(r, t));
    return v;
}
const int W4[4] = {0, 3, 7, 5};

} /* namespace */

CHECK_DEF(C12)
{
    bool th = !K.quick();
    K.rule = "Every case runs a history of calls on the real encoder under an enumerated disturbance (output buffer contents, heap contents and placement, stack contents, buffer alignment, other encoders' calls in every interleaving, earlier calls, tile order and company) and compares every message byte with the undisturbed run. A model state is the (history position, disturbance) pair; traces are complete disturbed runs. Distinct: message bytes differ from all others (hash).";
    K.assumptions.push_back("classic messages of later calls may differ from those of a fresh encoder only in stream header and frame number");
    int NC = (int) all_cfgs().size();
    auto hist4 = [](const Cfg &cfg) { (void) cfg; return std::vector<int>(W4, W4 + 4); };
    static std::map<int, std::vector<Res>> base;
    auto want = [hist4](int cf) -> const std::vector<Res> & {
        auto it = base.find(cf);
        if (it == base.end()) it = base.emplace(cf, alone(all_cfgs()[cf], hist4(all_cfgs()[cf]))).first;
        return it->second;
    };
    auto compare = [hist4, want](Ctx &c, int cf, Enc &e, int prefill, const char *what) {
        const Cfg &cfg = all_cfgs()[cf];
        std::vector<int> w = hist4(cfg);
        const std::vector<Res> &x = want(cf);
        for (size_t k = 0; k < w.size(); k++)
        {
            Res r = do_call(e, cfg, w[k], prefill);
            expect_same(c, r, x[k], what, (int) k);
            c.evals++;
            c.transitions++;
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
            c.state(cf * 10 + k);
        }
        c.traces++;
    };
    K.add("output-contents", 61ull * 256, [compare, want](Ctx &c, uint64_t i) {
        int cf = i % 61, v = (int) (i / 61);
        want(cf);
        std::unique_ptr<Enc> e(make(all_cfgs()[cf]));
        compare(c, cf, *e, v, "output buffer filled beforehand");
    }, [](uint64_t i) { return case_name("%s, output buffer filled with %d", all_cfgs()[i % 61].name().c_str(), (int) (i / 61)); });
    K.add("heap-contents", 61ull * 256, [compare, want](Ctx &c, uint64_t i) {
        int cf = i % 61, v = (int) (i / 61);
        want(cf);
        OnAlloc al(lib());
        AllocCtl::junk = v;
        AllocCtl::shift = v % 5;
        {
            std::unique_ptr<Enc> e(make(all_cfgs()[cf]));
            compare(c, cf, *e, -1, "heap filled beforehand");
        }
        AllocCtl::junk = -1;
        AllocCtl::shift = 0;
    }, [](uint64_t i) { return case_name("%s, heap filled with %d, blocks shifted by %d", all_cfgs()[i % 61].name().c_str(), (int) (i / 61), (int) (i / 61) % 5 * 16); });
    K.add("stack-contents", 61ull * 32, [hist4, want](Ctx &c, uint64_t i) {
        int cf = i % 61, v = (int) (i / 61);
        const Cfg &cfg = all_cfgs()[cf];
        const std::vector<Res> &x = want(cf);
        dirty_stack(v * 37);
        std::unique_ptr<Enc> e(make(cfg));
        std::vector<int> w = hist4(cfg);
        for (size_t k = 0; k < w.size(); k++)
        {
            dirty_stack(v < 16 ? v * 17 : 256 + v);
            Res r = do_call(*e, cfg, w[k]);
            expect_same(c, r, x[k], "stack filled beforehand", (int) k);
            c.evals++;
            c.transitions++;
        }
        c.traces++;
        c.outcome(i);
    }, [](uint64_t i) { return case_name("%s, stack pattern %d", all_cfgs()[i % 61].name().c_str(), (int) (i / 61)); });
    /* placement: output and pixel buffers at every offset within 64 bytes; capacity unchanged */
    K.add("placement", 61ull * 64, [want](Ctx &c, uint64_t i) {
        int cf = i % 61, off = (int) (i / 61);
        const Cfg &cfg = all_cfgs()[cf];
        std::unique_ptr<Enc> e(make(cfg));
        const std::vector<Res> &x = want(cf);
        static std::vector<uint8_t> out(4 * 1024 * 1024 + 256), pix(400000);
        uint8_t *o = (uint8_t *) (((uintptr_t) out.data() + 63) & ~63ull) + off, *p = (uint8_t *) (((uintptr_t) pix.data() + 63) & ~63ull) + (off * 5) % 64;
        for (int k = 0; k < 4; k++)
        {
            Args a;
            if (cfg.pro) a = op_args(hist_ops()[W4[k] % 9 == 5 ? 11 : W4[k] % 9]);
            else
            {
                const Call &cl = classic(cfg, W4[k]);
                a = cl.a;
                memcpy(p, cl.sc->pix.data(), cl.sc->pix.size());
                a.buf = p;
            }
            int bytes = a.cap;
            Res r;
            r.ret = lib().encode_ex(e->h, (char *) o, &bytes, (const char *) a.buf, a.w, a.h, a.stride, a.rects.data(), (int) a.rects.size(), a.tiles.data(), (int) a.tiles.size(), (const char *) a.quants, a.nquants, a.flags);
            if (r.ret >= 0) r.out.assign(o, o + bytes);
            expect_same(c, r, x[k], "buffers moved", k);
            c.evals++;
            c.transitions++;
        }
        c.traces++;
        c.outcome(i);
    }, [](uint64_t i) { return case_name("%s, output at offset %d", all_cfgs()[i % 61].name().c_str(), (int) (i / 61)); });
    /* spare capacity does not change what fits anyway */
    K.add("spare-capacity", 61ull * 40, [](Ctx &c, uint64_t i) {
        int cf = i % 61, k = (int) (i / 61);
        const Cfg &cfg = all_cfgs()[cf];
        std::unique_ptr<Enc> e(make(cfg)), f(make(cfg));
        Args a = cfg.pro ? op_args(hist_ops()[2]) : classic(cfg, 0).a;
        a.cap = 200000 + k * 7919;
        Res r = e->call(a), s;
        a.cap = 4 * 1024 * 1024;
        s = f->call(a);
        expect_same(c, r, s, "other spare capacity", 0);
        c.evals++;
        c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
    }, [](uint64_t i) { return case_name("%s, capacity %d", all_cfgs()[i % 61].name().c_str(), 200000 + (int) (i / 61) * 7919); });
    /* classic: a call's tiles are the same after any one or two earlier calls as on a fresh encoder */
    {
        static const int CF[8] = {2, 3, 8, 17, 29, 40, 53, 59};
        int nc = th ? 60 : 8;
        K.add("earlier-calls", (uint64_t) nc * NCALL * NCALL * NCALL, [th](Ctx &c, uint64_t i) {
            Dim d(i);
            int a = d.next(NCALL), b = d.next(NCALL), n = d.next(NCALL), cf = th ? (int) d.i : CF[d.i];
            const Cfg &cfg = all_cfgs()[cf];
            if (cfg.pro) return;
            static std::map<std::pair<int, int>, std::vector<uint64_t>> fresh;
            auto key = std::make_pair(cf, n);
            /* capacity-limited call: the header of a first message uses some of the space, so compare the common prefix */
            if (!fresh.count(key))
            {
                std::unique_ptr<Enc> f(make(cfg));
                Res r = do_call(*f, cfg, n);
                fresh[key] = tiles_of(c, *f, r);
            }
            std::unique_ptr<Enc> e(make(cfg));
            do_call(*e, cfg, a);
            do_call(*e, cfg, b);
            Res r = do_call(*e, cfg, n);
            std::vector<uint64_t> t = tiles_of(c, *e, r), &w = fresh[key];
            size_t m = n == 7 ? std::min(t.size(), w.size()) : std::max(t.size(), w.size());
            for (size_t k = 0; k < m; k++)
                if (k >= t.size() || k >= w.size() || t[k] != w[k]) c.fail("tile %d differs from the one a fresh encoder produces", (int) k);
            c.evals++;
            c.transitions += 3;
            c.traces++;
            c.state(i);
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }, [th](uint64_t i) { Dim d(i); int a = d.next(NCALL), b = d.next(NCALL), n = d.next(NCALL); return case_name("%s: call %d after calls %d and %d", all_cfgs()[th ? d.i : CF[d.i]].name().c_str(), n, a, b); });
    }
    /* the caller's memory is used again with other contents: same messages as from memory of its own for each call */
    K.add("reused-memory", 61ull * NCALL * 48, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int mut = d.next(48), n = d.next(NCALL);
        const Cfg &cfg = all_cfgs()[d.i];
        const Call &base = classic(cfg, n);
        std::vector<uint8_t> pix[3], q[3];
        Args a[3];
        for (int k = 0; k < 3; k++)
        {
            pix[k] = base.sc->pix;
            q[k] = base.sc->quants;
            a[k] = base.a;
        }
        /* the second call differs in one respect */
        Args &b = a[1];
        if (mut < 16) { if (mut >= (int) q[1].size()) return; uint8_t &v = q[1][mut]; v = (uint8_t) (v % 16 == 15 ? v - 9 : v + 1); }
        else if (mut < 22) { if (b.tiles.empty()) return; rfx_tile &t = b.tiles[mut % 2 ? b.tiles.size() - 1 : 0]; int m = b.nquants > 0 ? b.nquants : 1; int &v = mut < 18 ? t.quant_y : mut < 20 ? t.quant_cb : t.quant_cr; if (m == 1) return; v = (v + 1) % m; }
        else if (mut < 26) { if (b.tiles.empty() || cfg.fmt == RFX_FORMAT_YUV) return; rfx_tile &t = b.tiles[mut % 2 ? b.tiles.size() - 1 : 0]; int &v = mut < 24 ? t.cx : t.cy; if (v < 2) return; v--; }
        else if (mut < 30) { if (b.rects.empty()) return; rfx_rect &t = b.rects[0]; int &v = mut == 26 ? t.x : mut == 27 ? t.y : mut == 28 ? t.cx : t.cy; v++; }
        else if (mut == 30) { if (b.tiles.size() < 2) return; std::swap(b.tiles[0], b.tiles[1]); }
        else if (mut == 31) { if (b.tiles.empty()) return; b.tiles.pop_back(); }
        else { if (pix[1].empty()) return; size_t at = pix[1].size() * (mut - 32) / 16; if (mut == 47) at = pix[1].size() - 1; for (size_t k = at; k < pix[1].size() && k < at + 600; k++) pix[1][k] += 61; }
        for (int k = 0; k < 3; k++)
        {
            a[k].buf = pix[k].data();
            if (a[k].quants) a[k].quants = q[k].data();
        }
        std::unique_ptr<Enc> e(make(cfg)), f(make(cfg));
        std::vector<uint8_t> mp = pix[0], mq = q[0];
        Args live = a[0];
        for (int k = 0; k < 3; k++)
        {
            if (!mp.empty()) memcpy(mp.data(), pix[k].data(), mp.size());
            if (!mq.empty()) memcpy(mq.data(), q[k].data(), mq.size());
            live.tiles.assign(a[k].tiles.begin(), a[k].tiles.end());
            live.rects.assign(a[k].rects.begin(), a[k].rects.end());
            live.buf = mp.data();
            if (live.quants) live.quants = mq.data();
            Res r = e->call(live), w = f->call(a[k]);
            expect_same(c, r, w, "arguments in memory used before", k);
            c.evals++;
            c.transitions += 2;
            c.outcome(ref::hash_bytes(r.out.data(), r.out.size()));
        }
        c.state(i);
        c.traces++;
    }, [](uint64_t i) { Dim d(i); int mut = d.next(48), n = d.next(NCALL); return case_name("%s: call %d, change %d in place", all_cfgs()[d.i].name().c_str(), n, mut); });
    /* tile company and order: every tile of a list equals the tile sent alone */
    K.add("company", 60ull * 85, [](Ctx &c, uint64_t i) {
        int cf = i % 60, w = (int) (i / 60);
        const Cfg &cfg = all_cfgs()[cf];
        static std::map<int, std::pair<std::unique_ptr<Scene>, std::vector<uint64_t>>> mem;
        auto &M = mem[cf];
        if (!M.first)
        {
            M.first.reset(new Scene(cfg, 4, 1, 3, 1, 45, 64, 0));
            for (int t = 0; t < 4; t++)
            {
                std::unique_ptr<Enc> e(make(cfg));
                Args a = M.first->args();
                rfx_tile x = a.tiles[t];
                a.tiles.assign(1, x);
                M.second.push_back(tiles_of(c, *e, e->call(a)).at(0));
            }
        }
        int len = 1, b = 4;
        while (len < 4 && w >= b) { w -= b; b *= 4; len++; }
        Args a = M.first->args();
        std::vector<rfx_tile> all = a.tiles;
        a.tiles.clear();
        std::vector<int> ids;
        for (int k = 0; k < (len > 3 ? 4 : len); k++, w /= 4) { ids.push_back(len > 3 ? k ^ 3 : w & 3); a.tiles.push_back(all[ids.back()]); }
        std::unique_ptr<Enc> e(make(cfg));
        for (int rep = 0; rep < 2; rep++)
        {
            std::vector<uint64_t> t = tiles_of(c, *e, e->call(a));
            if (t.size() != ids.size()) c.fail("%d tiles", (int) t.size());
            for (size_t k = 0; k < t.size(); k++)
                if (t[k] != M.second[ids[k]]) c.fail("tile %d (source %d) differs from the same tile sent alone", (int) k, ids[k]);
            c.evals++;
        }
        c.outcome(i);
    }, [](uint64_t i) { return case_name("%s, tile word %d", all_cfgs()[i % 60].name().c_str(), (int) (i / 60)); });
    /* progressive: two encoders with the same history agree, and unrelated tiles of the call do not matter for a first tile */
    K.add("pro-twins", 9 * 9 * 9 * 9, [](Ctx &c, uint64_t i) {
        Dim d(i);
        const Cfg &cfg = all_cfgs()[60];
        OnAlloc al(lib());
        {
            auto env = [](int twin) { AllocCtl::junk = twin ? 0xc3 : 0x11; AllocCtl::shift = twin ? 3 : 0; };
            std::unique_ptr<Enc> a, b;
            env(0);
            a.reset(make(cfg));
            env(1);
            b.reset(make(cfg));
            for (int k = 0; k < 4; k++)
            {
                int n = d.next(9);
                env(0);
                Res ra = do_call(*a, cfg, n, 0);
                env(1);
                Res rb = do_call(*b, cfg, n, 0xff);
                expect_same(c, rb, ra, "twin encoder", k);
                c.evals++;
                c.transitions++;
                c.outcome(ref::hash_bytes(ra.out.data(), ra.out.size()));
            }
        }
        AllocCtl::junk = -1;
        AllocCtl::shift = 0;
        c.traces++;
        c.state(i);
    }, [](uint64_t i) { return case_name("progressive history %d on twin encoders", (int) i); });
    /* interleavings of two (and three) encoders' calls, creation and destruction included */
    {
        static std::vector<std::vector<int>> I2;
        if (I2.empty())
            for (int m = 0; m < 1024; m++)
                if (__builtin_popcount(m) == 5)
                {
                    std::vector<int> v;
                    for (int k = 0; k < 10; k++) v.push_back(m >> k & 1);
                    I2.push_back(v);
                }
        static const int CF[9] = {60, 0, 5, 14, 23, 31, 42, 50, 57};
        uint64_t pairs = th ? 81 : 81;
        K.add("interleavings", pairs * I2.size(), [](Ctx &c, uint64_t i) {
            int p = (int) (i / I2.size());
            const std::vector<int> &v = I2[i % I2.size()];
            int cf[2] = {CF[p % 9], CF[p / 9]};
            static const int W[2][3] = {{0, 3, 4}, {5, 1, 8}};
            static std::map<int, std::vector<Res>> memo;
            const std::vector<Res> *x[2];
            for (int k = 0; k < 2; k++)
            {
                int key = cf[k] * 2 + k;
                if (!memo.count(key)) memo[key] = alone(all_cfgs()[cf[k]], std::vector<int>(W[k], W[k] + 3));
            }
            for (int k = 0; k < 2; k++) x[k] = &memo[cf[k] * 2 + k];
            std::unique_ptr<Enc> e[2];
            int pos[2] = {0, 0};
            for (int s : v)
            {
                const Cfg &cfg = all_cfgs()[cf[s]];
                if (pos[s] == 0) e[s].reset(make(cfg));
                else if (pos[s] == 4) e[s].reset();
                else
                {
                    Res r = do_call(*e[s], cfg, W[s][pos[s] - 1]);
                    expect_same(c, r, (*x[s])[pos[s] - 1], s ? "second encoder" : "first encoder", pos[s] - 1);
                    c.evals++;
                }
                pos[s]++;
                c.transitions++;
                c.state(((uint64_t) p * 10 + pos[0]) * 10 + pos[1]);
            }
            c.traces++;
            c.outcome(i);
        }, [](uint64_t i) {
            std::string s;
            for (int k : I2[i % I2.size()]) s += k ? 'b' : 'a';
            int p = (int) (i / I2.size());
            return case_name("encoders %s / %s interleaved %s", all_cfgs()[CF[p % 9]].name().c_str(), all_cfgs()[CF[p / 9]].name().c_str(), s.c_str());
        });
    }
    /* all configurations pairwise: calls of one never change the other's next message */
    K.add("neighbours", (uint64_t) NC * NC, [want](Ctx &c, uint64_t i) {
        int a = i % 61, b = (int) (i / 61);
        const std::vector<Res> &x = want(a);
        std::unique_ptr<Enc> e(make(all_cfgs()[a]));
        for (int k = 0; k < 4; k++)
        {
            std::unique_ptr<Enc> f(make(all_cfgs()[b]));
            do_call(*f, all_cfgs()[b], (k * 3 + 1) % 8);
            Res r = do_call(*e, all_cfgs()[a], W4[k]);
            expect_same(c, r, x[k], "another encoder in use", k);
            do_call(*f, all_cfgs()[b], (k * 5 + 2) % 8);
            c.evals++;
            c.transitions += 3;
        }
        c.traces++;
        c.outcome(i);
    }, [](uint64_t i) { return case_name("%s beside %s", all_cfgs()[i % 61].name().c_str(), all_cfgs()[i / 61].name().c_str()); });
    /* many encoders alive at once; long sessions repeated */
    K.add("crowd", 12, [](Ctx &c, uint64_t i) {
        std::vector<std::unique_ptr<Enc>> es;
        for (int k = 0; k < 61; k++) es.emplace_back(make(all_cfgs()[k]));
        std::vector<int> w = {0, 3, 1, 4, 2, 5, 7, 6};
        for (size_t s = 0; s < w.size(); s++)
            for (int k = 0; k < 61; k++)
            {
                int cf = (k * 7 + (int) i * 5) % 61;
                Res r = do_call(*es[cf], all_cfgs()[cf], w[s]);
                static std::map<std::pair<int, int>, Res> memo;
                auto key = std::make_pair(cf, (int) s);
                if (!memo.count(key))
                {
                    std::vector<Res> x = alone(all_cfgs()[cf], w);
                    for (size_t q = 0; q < w.size(); q++) memo[std::make_pair(cf, (int) q)] = x[q];
                }
                expect_same(c, r, memo[key], "61 encoders alive", (int) s);
                c.evals++;
                c.transitions++;
            }
        c.traces++;
        c.outcome(i);
    }, [](uint64_t i) { return case_name("61 encoders in round robin, order %d", (int) i); });
    /* long classic sessions: the same call repeated stays the same apart from the frame number */
    K.add("repetition", 61, [](Ctx &c, uint64_t i) {
        const Cfg &cfg = all_cfgs()[i];
        std::unique_ptr<Enc> e(make(cfg)), f(make(cfg));
        std::vector<uint64_t> first;
        for (int k = 0; k < (cfg.pro ? 700 : 700); k++)
        {
            Res r = do_call(*e, cfg, cfg.pro ? k % 4 : 1);
            if (cfg.pro) { expect_same(c, do_call(*f, cfg, k % 4, 0xee), r, "twin encoder", k); }
            else
            {
                std::vector<uint64_t> t = tiles_of(c, *e, r);
                if (k == 0) first = t;
                else if (t != first) c.fail("call %d: tiles differ from those of the first call", k);
            }
            c.evals++;
            c.transitions++;
        }
        c.traces++;
        c.outcome(i);
    }, [](uint64_t i) { return case_name("%s, one call repeated 700 times", all_cfgs()[i].name().c_str()); });
    /* what is left of one tile never reaches the next: every pair of contents and sizes, in one call and in two on the same buffer */
    K.add("tile-pairs", 56ull * 56 * 20 * (th ? 3 : 1), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int A = d.next(56), B = d.next(56), f = d.next(20), acc = (A + B + f + (int) d.i) % 3;
        Cfg cfg{f % 5, f / 5 % 2, f / 10, acc, 0};
        if (cfg.fmt == RFX_FORMAT_YUV && (A >= 8 || B >= 8)) return; /* sizes do not matter there */
        static const int S[7][2] = {{64, 64}, {1, 1}, {63, 64}, {64, 63}, {40, 20}, {64, 1}, {1, 64}};
        static uint8_t two[2 * 16384], one[16384];
        static std::map<int, uint64_t> fresh;
        int n = bpp(cfg.fmt);
        auto fill = [&](int what, uint8_t *p, int stride) {
            for (int k = 0; k < 4; k++)
            {
                uint8_t t[4096];
                switch (what & 7)
                {
                    case 0: memset(t, 0, 4096); break;
                    case 1: memset(t, 255, 4096); break;
                    case 2: memset(t, k == 3 ? 0 : 90 + k * 20, 4096); break;
                    case 3: memset(t, k == 3 ? 255 : 30 + k * 60, 4096); break;
                    case 4: for (int j = 0; j < 4096; j++) t[j] = (j & 63) * 3 + (j >> 6) * 2 + k * 20; break;
                    case 5: fill_noise(t, 4096, 5 + k); break;
                    case 6: fill_noise(t, 4096, 15 + k); if (k == 3) memset(t, 0, 4096); break;
                    default: fill_noise(t, 4096, 25 + k); memset(t + 4032, 0, 64); for (int j = 63; j < 4096; j += 64) t[j] = 0; break;
                }
                if (cfg.fmt == RFX_FORMAT_YUV) memcpy(p + 4096 * k, t, 4096);
                else if (k < n) for (int j = 0; j < 4096; j++) p[(j >> 6) * stride + (j & 63) * n + k] = t[j];
            }
        };
        auto args = [&](const uint8_t *p, int w) {
            Args a;
            a.buf = p; a.w = w; a.h = 64; a.stride = w * n;
            a.rects.push_back(mk_rect(0, 0, w, 64));
            a.flags = cfg.alpha ? RFX_FLAGS_ALPHAV1 : 0;
            return a;
        };
        int key = (B * 20 + f) * 3 + acc;
        Args b1 = args(one, 64);
        b1.tiles.push_back(mk_tile(0, 0, S[B / 8][0], S[B / 8][1]));
        fill(B, one, 64 * n);
        auto payload = [&](Enc &e, const Res &r, size_t k) {
            ref::Msg m;
            c.req(parse_msg(e, r, m));
            if (m.tiles.size() <= k) c.fail("%d tiles", (int) m.tiles.size());
            uint64_t h = 3;
            for (int q = 0; q < (m.alpha ? 4 : 3); q++) h = ref::hash_bytes(&r.out[m.tiles[k].poff[q]], m.tiles[k].plen[q], h * 31 + m.tiles[k].plen[q]);
            return h;
        };
        if (!fresh.count(key)) { std::unique_ptr<Enc> e(make(cfg)); fresh[key] = payload(*e, e->call(b1), 0); }
        /* one call */
        fill(A, two, 128 * n);
        fill(B, two + (cfg.fmt == RFX_FORMAT_YUV ? 16384 : 64 * n), 128 * n);
        Args b2 = args(two, 128);
        b2.tiles.push_back(mk_tile(0, 0, S[A / 8][0], S[A / 8][1]));
        b2.tiles.push_back(mk_tile(64, 0, S[B / 8][0], S[B / 8][1]));
        std::unique_ptr<Enc> e(make(cfg)), g(make(cfg));
        if (payload(*e, e->call(b2), 1) != fresh[key]) c.fail("the second tile depends on the first");
        /* two calls, same buffer */
        fill(A, one, 64 * n);
        Args a1 = b1;
        a1.tiles[0] = mk_tile(0, 0, S[A / 8][0], S[A / 8][1]);
        g->call(a1);
        fill(B, one, 64 * n);
        if (payload(*g, g->call(b1), 0) != fresh[key]) c.fail("the tile depends on the previous call");
        c.evals += 2;
        c.transitions += 3;
        c.traces += 2;
        c.state(i);
        c.outcome(fresh[key]);
    }, [](uint64_t i) { Dim d(i); int A = d.next(56), B = d.next(56), f = d.next(20); return case_name("tile of content %d size %d, then content %d size %d, format %d rlgr%d%s", A & 7, A / 8, B & 7, B / 8, f % 5, f / 5 % 2 ? 1 : 3, f / 10 ? " alpha" : ""); });
    /* one value changed in place between calls, at every position */
    K.add("changed-pixel", 20ull * 4096 * (th ? 3 : 1), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int f = d.next(20), pos = d.next(4096), acc = (pos + f + (int) d.i) % 3;
        Cfg cfg{f % 5, f / 5 % 2, f / 10, acc, 0};
        int n = bpp(cfg.fmt), comp = (pos + pos / 64) % (n == 4 ? 4 : 3);
        static uint8_t px[16384];
        for (int j = 0; j < 16384; j++) px[j] = pos & 1 ? 70 : (uint8_t) (j * 13 + j / 257);
        Args a;
        a.buf = px; a.stride = 64 * n;
        a.rects.push_back(mk_rect(0, 0, 64, 64));
        a.tiles.push_back(mk_tile(0, 0));
        a.flags = cfg.alpha ? RFX_FLAGS_ALPHAV1 : 0;
        std::unique_ptr<Enc> e(make(cfg)), g(make(cfg));
        e->call(a);
        px[cfg.fmt == RFX_FORMAT_YUV ? comp * 4096 + pos : pos * n + comp] ^= 0x90;
        std::vector<uint64_t> x = tiles_of(c, *e, e->call(a)), y = tiles_of(c, *g, g->call(a));
        if (x != y) c.fail("the tile differs from the one a fresh encoder produces");
        c.evals++;
        c.transitions += 2;
        c.traces++;
        c.state(i);
        c.outcome(x[0]);
    }, [](uint64_t i) { Dim d(i); int f = d.next(20); return case_name("pixel %d changed in place, format %d rlgr%d%s", d.next(4096), f % 5, f / 5 % 2 ? 1 : 3, f / 10 ? " alpha" : ""); });
}

/* ------------------------------------------------------------------------ C15 */
namespace {

/* run a script: create, ops, destroy, with up to two failing allocations; everything must be released exactly once */
struct Script
{
    Cfg cfg;
    std::vector<int> ops;
};
long run_script(Ctx &c, const Script &S, long f1, long f2)
{
    Lib &L = lib(c.in_asan ? "asan" : "accel");
    OnAlloc al(L);
    AllocCtl::fail_at[0] = f1;
    AllocCtl::fail_at[1] = f2;
    long total;
    {
        void *h = (void *) 0x1;
        force_cpu(L, S.cfg.acc);
        h = nullptr;
        long before = AllocCtl::failed;
        int rc = L.create_ex(192, 64, S.cfg.fmt, S.cfg.create_flags(), &h);
        force_cpu(L, -1);
        if (AllocCtl::failed > before)
        {
            if (rc == 0 || h) c.fail("an allocation failed but creation reports success");
            if (AllocCtl::live_blocks) c.fail("failed creation leaves %ld blocks allocated", AllocCtl::live_blocks);
            if (AllocCtl::bad_free) c.fail("failed creation released something it did not own");
        }
        else if (rc || !h) c.fail("creation failed without an allocation failure");
        if (h && !rc)
        {
            Hist *H = nullptr;
            std::unique_ptr<Hist> hp;
            if (S.cfg.pro)
            {
                /* hand the handle to a history model */
                hp.reset(new Hist(L));
                if (hp->e.h)
                {
                    L.destroy(h);
                    h = nullptr;
                    H = hp.get();
                }
            }
            for (int n : S.ops)
            {
                long b = AllocCtl::failed;
                if (S.cfg.pro)
                {
                    if (!H) break;
                    Args a = op_args(hist_ops()[n]);
                    std::string s = H->do_call(a);
                    if (!s.empty()) c.fail("after an allocation failure: %s", s.c_str());
                    if (AllocCtl::failed > b && H->last.ret >= (int) a.tiles.size()) c.fail("an allocation failed but the call reports %d of %d tiles", H->last.ret, (int) a.tiles.size());
                }
                else
                {
                    const Call &cl = classic(S.cfg, n);
                    Args a = cl.a;
                    uint8_t *o = out_guard().at_end(a.cap);
                    int bytes = a.cap;
                    int r = L.encode_ex(h, (char *) o, &bytes, (const char *) a.buf, a.w, a.h, a.stride, a.rects.data(), (int) a.rects.size(), a.tiles.data(), (int) a.tiles.size(), (const char *) a.quants, a.nquants, a.flags);
                    if (AllocCtl::failed > b)
                    {
                        if (r >= (int) a.tiles.size() && r > 0) c.fail("an allocation failed but the call reports all tiles");
                    }
                    else if (r < 0) c.fail("call failed (%d) without an allocation failure", r);
                    if (r >= 0)
                    {
                        ref::Msg m;
                        ref::Bytes v(o, o + bytes);
                        std::string s = ref::parse_classic(v, m);
                        if (!s.empty()) c.fail("message not well-formed: %s", s.c_str());
                    }
                }
                c.evals++;
            }
            hp.reset();
            if (h) L.destroy(h);
        }
        total = AllocCtl::count;
    }
    if (AllocCtl::bad_free) c.fail("%ld releases of memory that was not allocated (or already released)", AllocCtl::bad_free);
    if (AllocCtl::live_blocks) c.fail("%ld blocks (%ld bytes) are still allocated after the encoder was destroyed", AllocCtl::live_blocks, AllocCtl::live_bytes);
    c.outcome((uint64_t) total * 1000003 + f1 * 1009 + f2 + S.ops.size() * 77777);
    return total;
}

} /* namespace */

CHECK_DEF(C15)
{
    bool th = !K.quick();
    K.rule = "Every case runs creation, a word of calls and destruction on the real library with a counting allocator in which none, one or two enumerated allocations fail; afterwards every block must have been released exactly once, failures must have been reported, and progressive clients must still agree with the encoder. The sanitised families repeat this with a build that traps invalid accesses. Distinct: (allocation count, failing ordinals, length) differs.";
    K.assumptions.push_back("the library obtains memory only from the malloc family");
    int n = (int) hist_ops().size();
    int nc = 61;
    /* words without failures, then each allocation failing, then each pair */
    auto all_faults = [](Ctx &c, const Script &S, bool pairs) {
        long total = run_script(c, S, 0, 0);
        for (long a = 1; a <= total; a++)
        {
            run_script(c, S, a, 0);
            if (pairs) for (long b = a + 1; b <= total; b++) run_script(c, S, a, b);
        }
    };
    K.add("creation", 61ull * 8, [](Ctx &c, uint64_t i) {
        Script S{all_cfgs()[i % 61], {}};
        run_script(c, S, (long) (i / 61), 0);
    }, [](uint64_t i) { return case_name("%s: create and destroy, allocation %d fails", all_cfgs()[i % 61].name().c_str(), (int) (i / 61)); });
    K.add("formats", 2 * 40000 / 50 + 31 * 2, [](Ctx &c, uint64_t i) {
        Lib &L = lib();
        OnAlloc al(L);
        std::vector<int> fs;
        if (i < 1600) for (int k = 0; k < 50; k++) fs.push_back(-40000 + (int) i * 50 + k);
        else { int b = (int) (i - 1600) % 31; for (int k = -3; k < 4; k++) fs.push_back((i - 1600) / 31 ? -(1 << b) + k : (1 << b) - (k + 3)); }
        for (int f : fs)
            for (int old = 0; old < 2; old++)
            {
                AllocCtl::reset();
                void *h = nullptr;
                if (old) h = L.create(64, 64, f, f & 0x59); else if (L.create_ex(64, 64, f, f & 0x59, &h)) h = nullptr;
                if (h) L.destroy(h);
                if (AllocCtl::live_blocks || AllocCtl::bad_free) c.fail("format %d: %ld blocks left, %ld bad releases", f, AllocCtl::live_blocks, AllocCtl::bad_free);
                c.evals++;
                c.outcome((h != nullptr) * 2 + old);
            }
    }, [](uint64_t i) { return case_name("formats block %d", (int) i); });
    K.add("creation-invalid", 4096, [](Ctx &c, uint64_t i) {
        Lib &L = lib();
        OnAlloc al(L);
        int fmt = (int) (i % 16) - 3, flags = (int) (i / 16);
        for (long f = 0; f < 3; f++)
        {
            AllocCtl::reset();
            AllocCtl::fail_at[0] = f;
            void *h = nullptr;
            int rc = L.create_ex(100, 100, fmt, flags, &h);
            bool valid = fmt >= 0 && fmt <= 4;
            if (rc != 0)
            {
                if (h) c.fail("failed creation returned a handle");
                if (AllocCtl::live_blocks || AllocCtl::bad_free) c.fail("failed creation (format %d, flags %d): %ld blocks left, %ld bad releases", fmt, flags, AllocCtl::live_blocks, AllocCtl::bad_free);
                if (valid && !AllocCtl::failed) c.fail("creation failed (%d) for format %d flags %d", rc, fmt, flags);
            }
            else
            {
                L.destroy(h);
                if (AllocCtl::live_blocks || AllocCtl::bad_free) c.fail("format %d, flags %d: %ld blocks left, %ld bad releases", fmt, flags, AllocCtl::live_blocks, AllocCtl::bad_free);
            }
            /* the older entry point */
            AllocCtl::reset();
            AllocCtl::fail_at[0] = f;
            h = L.create(100, 100, fmt, flags);
            if (h) L.destroy(h);
            if (AllocCtl::live_blocks || AllocCtl::bad_free) c.fail("create: format %d, flags %d: %ld blocks left, %ld bad releases", fmt, flags, AllocCtl::live_blocks, AllocCtl::bad_free);
            c.evals += 2;
        }
        c.outcome(i);
    }, [](uint64_t i) { return case_name("format %d, flags %d", (int) (i % 16) - 3, (int) (i / 16)); });
    K.add("classic-words", (uint64_t) nc * NCALL * NCALL, [all_faults](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(NCALL), b = d.next(NCALL);
        const Cfg &cfg = all_cfgs()[d.i];
        if (cfg.pro) return;
        all_faults(c, Script{cfg, {a, b, a}}, true);
    }, [](uint64_t i) { return case_name("%s: calls %d,%d,%d with every failing allocation", all_cfgs()[i / 100].name().c_str(), (int) (i % 10), (int) (i / 10 % 10), (int) (i % 10)); });
    {
        int len = 3;
        uint64_t m = 1;
        for (int k = 0; k < len; k++) m *= n;
        K.add("progressive-words", m, [n, len, all_faults](Ctx &c, uint64_t i) {
            Script S{all_cfgs()[60], {}};
            for (int k = 0; k < len; k++, i /= n) S.ops.push_back(i % n);
            all_faults(c, S, true);
        }, [n, len](uint64_t i) { std::vector<int> w; for (int k = 0; k < len; k++, i /= n) w.push_back(i % n); return word_name(w) + " with every failing allocation"; });
        if (th)
            K.add("progressive-words-4", m * n, [n, all_faults](Ctx &c, uint64_t i) {
                Script S{all_cfgs()[60], {}};
                for (int k = 0; k < 4; k++, i /= n) S.ops.push_back(i % n);
                all_faults(c, S, false);
            }, [n](uint64_t i) { std::vector<int> w; for (int k = 0; k < 4; k++, i /= n) w.push_back(i % n); return word_name(w); });
    }
    /* every grid position is released, alone and all together */
    K.add("positions", 4096 * 2 + 3, [](Ctx &c, uint64_t i) {
        Lib &L = lib();
        int v = i < 8192 ? (int) (i & 1) : 0;
        i = i < 8192 ? i / 2 : i - 4096;
        OnAlloc al(L);
        {
            Enc e(L, 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
            Op o;
            if (i < 4096)
            {
                o.tiles = {{(int) (i % 64), (int) (i / 64), 2, 0}};
                Res r = e.call(op_args(o));
                if (r.ret != 1) c.fail("call returned %d", r.ret);
                long live = AllocCtl::live_blocks;
                for (int k = 0; k < (v ? 2 : 0); k++)
                {
                    o.key = 1;
                    r = e.call(op_args(o));
                    if (r.ret != 1) c.fail("key frame returned %d", r.ret);
                    if (AllocCtl::live_blocks > live) c.fail("a key frame leaves %ld blocks, %ld before", AllocCtl::live_blocks, live);
                }
            }
            else
                for (int y = 0; y < 64; y++)
                {
                    o.tiles.clear();
                    for (int x = 0; x < 64; x++) o.tiles.push_back({i & 1 ? x : y, i & 1 ? y : x, 2, 0});
                    Args a = op_args(o);
                    if (i == 4098 && y == 40) a.flags |= RFX_FLAGS_PRO_KEY;
                    Res r = e.call(a);
                    if (r.ret != 64) c.fail("call returned %d", r.ret);
                }
        }
        if (AllocCtl::live_blocks || AllocCtl::bad_free) c.fail("%ld blocks left, %ld bad releases", AllocCtl::live_blocks, AllocCtl::bad_free);
        c.evals++;
        c.outcome(i);
    }, [](uint64_t i) { return case_name("tile history case %d", (int) i); });
    /* a call at every capacity (failing, partial, complete), on a fresh encoder, after other calls, twice, before a key frame; every failing allocation on top */
    K.add("progressive-capacities", 6ull * (th ? 6000 : 1500), [](Ctx &c, uint64_t i) {
        Dim d(i);
        int kind = d.next(6), cap = d.i;
        Lib &L = lib();
        for (long f = 0; f < 5; f++)
        {
            OnAlloc al(L);
            AllocCtl::fail_at[0] = f ? f + 1 : 0;
            {
                Enc e(L, 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1);
                Op o, p;
                o.tiles = {{0, 0, 3, 0}, {1, 0, 5, 1}, {5, 63, 2, 0}};
                p.tiles = {{1, 0, 0, 1}, {7, 7, 2, 1}};
                o.fault = CAP;
                o.arg = cap;
                if (kind == 2 || kind == 3) e.call(op_args(p));
                if (kind == 3 || kind == 5) o.key = 1;
                e.call(op_args(o));
                if (kind == 1) e.call(op_args(o));
                if (kind == 4) { p.key = 1; e.call(op_args(p)); }
                c.evals++;
            }
            if (AllocCtl::live_blocks || AllocCtl::bad_free) c.fail("capacity %d, failing allocation %ld: %ld blocks left after destruction, %ld bad releases", cap, f, AllocCtl::live_blocks, AllocCtl::bad_free);
            c.outcome((uint64_t) AllocCtl::count * 6 + kind);
            if (AllocCtl::failed == 0 && f) break;
        }
    }, [](uint64_t i) { return case_name("progressive history kind %d with a call of capacity %d", (int) (i % 6), (int) (i / 6)); });
    K.add("classic-capacities", 60ull * (th ? 4000 : 500), [th](Ctx &c, uint64_t i) {
        const Cfg &cfg = all_cfgs()[i % 60];
        int cap = (int) (i / 60) * (th ? 25 : 1);
        Lib &L = lib();
        OnAlloc al(L);
        {
            std::unique_ptr<Enc> e(make(cfg));
            Args a = classic(cfg, 1).a;
            a.cap = cap;
            e->call(a);
            a.cap = cap + 13;
            e->call(a);
            c.evals += 2;
        }
        if (AllocCtl::live_blocks || AllocCtl::bad_free) c.fail("capacity %d: %ld blocks left after destruction, %ld bad releases", cap, AllocCtl::live_blocks, AllocCtl::bad_free);
        c.outcome(i);
    }, [th](uint64_t i) { return case_name("%s: calls of capacity %d", all_cfgs()[i % 60].name().c_str(), (int) (i / 60) * (th ? 25 : 1)); });
    K.add("sessions", 61, [](Ctx &c, uint64_t i) {
        Script S{all_cfgs()[i], {}};
        for (int k = 0; k < 120; k++) S.ops.push_back(S.cfg.pro ? (k * 7) % 16 : (k * 7) % NCALL);
        run_script(c, S, 0, 0);
    }, [](uint64_t i) { return case_name("%s: 120 calls", all_cfgs()[i].name().c_str()); });
    /* sanitised */
    K.add("asan-classic", 61ull * NCALL, [all_faults](Ctx &c, uint64_t i) {
        const Cfg &cfg = all_cfgs()[i / NCALL];
        if (cfg.pro) return;
        all_faults(c, Script{cfg, {(int) (i % NCALL), 0}}, false);
    }, [](uint64_t i) { return case_name("%s: call %d, sanitised", all_cfgs()[i / NCALL].name().c_str(), (int) (i % NCALL)); });
    K.fams.back().asan = true;
    K.add("asan-progressive", 16ull * 16 * 2, [all_faults](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(16), b = d.next(16);
        all_faults(c, Script{all_cfgs()[60], {a, b, d.i ? 6 : 2}}, false);
    }, [](uint64_t i) { return case_name("progressive words of three, sanitised, case %d", (int) i); });
    K.fams.back().asan = true;
}
