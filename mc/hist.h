/* Progressive encoder histories: operations, client models, expected contents. */
#pragma once
#include "pics.h"
#include <sys/mman.h>
#include <unordered_map>

/* the prescribed coefficients of a plane, cached */
inline const ref::Coefs &model_coefs(const uint8_t *plane, const uint8_t *q)
{
    static std::unordered_map<uint64_t, std::shared_ptr<ref::Coefs>> cache;
    uint64_t h = ref::hash_bytes(plane, 4096, ref::hash_bytes(q, 5));
    auto it = cache.find(h);
    if (it == cache.end())
    {
        if (cache.size() > 3000) cache.clear();
        std::shared_ptr<ref::Coefs> p(new ref::Coefs);
        ref::fwd_pro(plane, q, *p);
        it = cache.emplace(h, p).first;
    }
    return *it->second;
}

/* a 64x64-tile YUV frame, sparse */
struct Frame64
{
    uint8_t *p;
    Frame64()
    {
        p = (uint8_t *) mmap(0, 4096ull * 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) throw std::runtime_error("mmap");
    }
    void forget(int x, int y) { tag[y * 64 + x] = 0; }
    uint8_t *tile(int x, int y) { return p + ((size_t) y * 64 + x) * 16384; }
    void put(int x, int y, int pic)
    {
        /* only rewritten when the content changes */
        uint16_t &t = tag[y * 64 + x];
        if (t == pic + 1) return;
        t = pic + 1;
        for (int k = 0; k < 3; k++) plane(pic, k, tile(x, y) + k * 4096);
    }
    /* history pictures: 0 weak texture, 1 weak texture with one pixel changed, 2 flat, 3 noise, 4 noise with a changed row, 5 gradient,
       6 extreme, 7 its negative, 8 colour planes of 0 permuted, 9 noise with one component changed, 10 and 11 likewise, 12 noise with scattered changes; >= 16: the shared alphabet */
    static void plane(int pic, int k, uint8_t *d)
    {
        switch (pic)
        {
            case 0: pic_alpha(19, d); if (k) for (int i = 0; i < 4096; i++) d[i] += k; break;
            case 1: pic_alpha(19, d); if (k) for (int i = 0; i < 4096; i++) d[i] += k; d[700 + k * 900] ^= 0x60; break;
            case 2: memset(d, 60 + k * 40, 4096); break;
            case 3: fill_noise(d, 4096, 50 + k); break;
            case 4: fill_noise(d, 4096, 50 + k); memset(d + 1280, 99, 128); break;
            case 5: for (int i = 0; i < 4096; i++) d[i] = (i & 63) * (k + 1) + (i >> 6) * 2; break;
            case 6: for (int i = 0; i < 4096; i++) d[i] = ((i >> 6) ^ i) & 1 ? 255 : 0; break;
            case 7: for (int i = 0; i < 4096; i++) d[i] = ((i >> 6) ^ i) & 1 ? 0 : 255; break;
            case 8: pic_alpha(19, d); for (int i = 0; i < 4096; i++) d[i] += (k + 1) % 3; break;
            case 9: fill_noise(d, 4096, 50 + k); if (k == 1) pic_alpha(4, d); break;
            case 10: fill_noise(d, 4096, 50 + k); if (k == 2) fill_noise(d, 4096, 90); break;
            case 11: fill_noise(d, 4096, 50 + k); if (k == 0) fill_noise(d, 4096, 91); break;
            case 12: fill_noise(d, 4096, 50 + k); for (int i = 0; i < 4096; i += 97 - k * 8) d[i] ^= 0x70; break;
            default: pic_alpha(pic - 16 + k * 5, d);
        }
    }
private:
    uint16_t tag[4096] = {};
};
inline Frame64 &frame64() { static Frame64 f; return f; }

struct TileOp { int x, y, pic, q; };
enum Fault { NONE, CAP, BADQ, BADX, BADY, OOM, EMPTY, BADVAL };
/* BADVAL: arg = (tile * 5 + field) * NBAD + which; fields quant_y, quant_cb, quant_cr, x, y */
enum { NBAD = 14 };
inline int bad_value(int field, int which)
{
    static const int Q[NBAD] = {-1, -2, -51, -100, -255, -256, -65536, -0x7fffffff - 1, 4, 5, 255, 256, 65536, 0x7fffffff};
    static const int P[NBAD] = {-1, -63, -64, -65, -128, -4096, -65536, -0x7fffffff - 1, 4096, 4159, 8192, 65536, 1 << 22, 0x7fffffff};
    return (field < 3 ? Q : P)[which];
}
struct Op
{
    const char *name;
    std::vector<TileOp> tiles;
    int key = 0;
    int fault = NONE;
    int arg = 0; /* CAP: capacity; BADQ/BADX/BADY: tile index; OOM: ordinal */
};
/* four quantisation sets in every call */
inline const uint8_t *hist_quants()
{
    static uint8_t q[20];
    if (!q[0]) { qset(q, 6); qset(q + 5, 9); qnth(q + 10, 5); qset(q + 15, 15); }
    return q;
}
inline Args op_args(const Op &o)
{
    Args a;
    Frame64 &F = frame64();
    a.buf = F.p;
    a.w = a.h = 4096;
    a.stride = 64 * 256;
    a.rects.push_back(mk_rect(0, 0, 4096, 4096));
    a.quants = hist_quants();
    a.nquants = 4;
    for (auto &t : o.tiles)
    {
        F.put(t.x, t.y, t.pic);
        a.tiles.push_back(mk_tile(t.x * 64, t.y * 64, 64, 64, t.q, t.q == 2 ? 1 : t.q, t.q));
    }
    if (o.key) a.flags |= RFX_FLAGS_PRO_KEY;
    if (o.fault == CAP) a.cap = o.arg;
    if (o.fault == EMPTY) a.tiles.clear();
    if (o.fault == BADQ && !a.tiles.empty())
    {
        rfx_tile &t = a.tiles[o.arg % a.tiles.size()];
        int k = o.arg / 16 % 3;
        (k == 0 ? t.quant_y : k == 1 ? t.quant_cb : t.quant_cr) = 4 + o.arg / 64;
    }
    if (o.fault == BADVAL && !a.tiles.empty())
    {
        int f = o.arg / NBAD % 5, v = bad_value(f, o.arg % NBAD);
        rfx_tile &t = a.tiles[o.arg / NBAD / 5 % a.tiles.size()];
        (f == 0 ? t.quant_y : f == 1 ? t.quant_cb : f == 2 ? t.quant_cr : f == 3 ? t.x : t.y) = v;
    }
    if (o.fault == BADX && !a.tiles.empty()) a.tiles[o.arg % a.tiles.size()].x = 4096;
    if (o.fault == BADY && !a.tiles.empty()) a.tiles[o.arg % a.tiles.size()].y = 4096;
    return a;
}

/* A progressive encoder with two clients: one keeps its tiles when the stream restarts, one drops them.
 * Both must hold the prescribed coefficients of what was last delivered for each position. */
struct Hist
{
    Enc e;
    ref::Client keep, drop;
    struct Want { const uint8_t *q[3]; std::array<ref::Coefs, 3> c; uint64_t id; };
    std::map<int, std::shared_ptr<Want>> want, want_drop;
    Res last;
    ref::Msg msg;
    int calls = 0;
    Hist(Lib &L = lib()) : e(L, 4096, 4096, RFX_FORMAT_YUV, RFX_FLAGS_PRO1) {}

    std::string do_op(const Op &o)
    {
        Args a = op_args(o);
        if (o.fault == OOM)
        {
            AllocCtl::count = 0;
            AllocCtl::fail_at[0] = o.arg;
        }
        std::string s = do_call(a);
        AllocCtl::fail_at[0] = 0;
        return s;
    }
    std::string do_call(const Args &a)
    {
        calls++;
        last = e.call(a);
        if (last.ret < 0) return "";
        msg = ref::Msg();
        std::string s = parse_msg(e, last, msg);
        if (!s.empty()) return s;
        if ((int) msg.tiles.size() != last.ret || last.ret > (int) a.tiles.size())
            return ref::fmt("returned %d, message holds %d tiles, %d were given", last.ret, (int) msg.tiles.size(), (int) a.tiles.size());
        if (msg.has_header) { drop.cells.clear(); want_drop.clear(); }
        s = keep.apply(last.out, msg);
        if (s.empty()) s = drop.apply(last.out, msg);
        if (!s.empty()) return s;
        for (int i = 0; i < last.ret; i++)
        {
            const rfx_tile &t = a.tiles[i];
            if (msg.tiles[i].x != t.x / 64 || msg.tiles[i].y != t.y / 64)
                return ref::fmt("tile %d of the message is for (%d,%d), the caller's was (%d,%d)", i, msg.tiles[i].x, msg.tiles[i].y, t.x / 64, t.y / 64);
            const uint8_t *src = a.buf + (size_t) (t.y << 8) * (a.stride >> 8) + ((size_t) t.x << 8);
            std::shared_ptr<Want> w(new Want);
            int qi[3] = {t.quant_y, t.quant_cb, t.quant_cr};
            w->id = 7;
            for (int k = 0; k < 3; k++)
            {
                w->c[k] = model_coefs(src + 4096 * k, (a.quants ? a.quants : ref::DEFQ) + 5 * qi[k]);
                w->id = ref::hash_bytes(w->c[k].data(), sizeof(int) * 4096, w->id);
            }
            int key = (t.x / 64) * 65536 + t.y / 64;
            want[key] = w;
            want_drop[key] = w;
        }
        s = check(keep, want, "a client");
        if (s.empty()) s = check(drop, want_drop, "a client that starts afresh at each stream header");
        return s;
    }
    static std::string check(const ref::Client &cl, const std::map<int, std::shared_ptr<Want>> &w, const char *who)
    {
        if (cl.cells.size() != w.size()) return ref::fmt("%s holds %d tiles, %d were delivered", who, (int) cl.cells.size(), (int) w.size());
        for (auto &p : w)
        {
            auto it = cl.cells.find(p.first);
            if (it == cl.cells.end()) return ref::fmt("%s lacks tile (%d,%d)", who, p.first >> 16, p.first & 0xffff);
            for (int k = 0; k < 3; k++)
                if (memcmp((*it->second)[k].data(), p.second->c[k].data(), sizeof(int) * 4096))
                {
                    int j = 0;
                    while ((*it->second)[k][j] == p.second->c[k][j]) j++;
                    return ref::fmt("%s holds %d as coefficient %d of component %d of tile (%d,%d), the encoded content has %d", who, (*it->second)[k][j], j, k, p.first >> 16, p.first & 0xffff, p.second->c[k][j]);
                }
        }
        return "";
    }
    uint64_t state() const
    {
        uint64_t h = want_drop.size() * 31 + 5;
        for (auto &p : want_drop) h = (h ^ (p.first * 0x9E3779B97F4A7C15ULL)) * 1099511628211ULL ^ p.second->id;
        for (auto &p : want) h = (h ^ (p.first * 0x9E3779B97F4A7C15ULL)) * 1099511628211ULL + p.second->id;
        return h;
    }
};

/* operations over three positions */
inline const std::vector<Op> &hist_ops()
{
    static std::vector<Op> v;
    if (v.empty())
    {
        auto add = [](const char *n, std::vector<TileOp> t, int key = 0, int fault = NONE, int arg = 0) { Op o; o.name = n; o.tiles = t; o.key = key; o.fault = fault; o.arg = arg; v.push_back(o); };
        /* 0..7: the core */
        add("A:weak", {{0, 0, 0, 0}});
        add("A:weak'", {{0, 0, 1, 0}});
        add("A:weak'-q9,B:noise", {{0, 0, 1, 1}, {1, 0, 3, 0}});
        add("B:weak,A:flat", {{1, 0, 1, 0}, {0, 0, 2, 0}});
        add("A:weak,B:noise' in 9000 bytes", {{0, 0, 0, 0}, {1, 0, 4, 0}}, 0, CAP, 9000);
        add("A:noise,B:weak then bad index", {{0, 0, 3, 0}, {1, 0, 0, 0}, {2, 5, 2, 0}}, 0, BADQ, 2);
        add("key A:weak'", {{0, 0, 1, 0}}, 1);
        add("A:flat in 40 bytes", {{0, 0, 2, 0}}, 0, CAP, 40);
        /* 8..: further */
        add("key B:noise,A:weak", {{1, 0, 3, 0}, {0, 0, 0, 0}}, 1);
        add("key A:noise in 60 bytes", {{0, 0, 3, 0}}, 1, CAP, 60);
        add("C:weak", {{63, 63, 0, 0}});
        add("A:weak,A again", {{0, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 0, 0}});
        add("C:weak',B:flat, first allocation fails", {{63, 63, 1, 0}, {1, 0, 2, 0}}, 0, OOM, 1);
        add("B:noise,bad column", {{1, 0, 3, 0}, {0, 0, 2, 0}}, 0, BADX, 1);
        add("no tiles", {}, 0, EMPTY);
        add("A:noise-mixed sets", {{0, 0, 3, 2}});
    }
    return v;
}
inline std::string word_name(const std::vector<int> &w)
{
    std::string s;
    for (int o : w) s += (s.empty() ? "" : "; ") + std::string(hist_ops()[o].name);
    return s;
}
