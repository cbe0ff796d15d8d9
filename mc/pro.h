/* A progressive encoder paired with the client model. */
#pragma once
#include "pics.h"

/* progressive: a full tile, then optionally a second picture on top of it */
inline std::string pro_expect(const ref::Client &cl, const Args &a, const rfx_tile &t, const uint8_t *q)
{
    static thread_local Planes P;
    static thread_local ref::Coefs want;
    Args b = a;
    b.flags = 0;
    expected_planes(RFX_FORMAT_YUV, b, t, P);
    auto it = cl.cells.find((t.x / 64) * 65536 + t.y / 64);
    if (it == cl.cells.end()) return "tile missing";
    int qi[3] = {t.quant_y, t.quant_cb, t.quant_cr};
    for (int k = 0; k < 3; k++)
    {
        ref::fwd_pro(P.p[k], q + 5 * qi[k], want);
        const ref::Coefs &got = (*it->second)[k];
        if (memcmp(got.data(), want.data(), sizeof(int) * 4096))
        {
            int j = 0;
            while (got[j] == want[j]) j++;
            return ref::fmt("tile (%d,%d) component %d: coefficient %d is %d, should be %d", t.x / 64, t.y / 64, k, j, got[j], want[j]);
        }
    }
    return "";
}
struct ProEnc
{
    Enc e;
    ref::Client cl;
    ProEnc() : e(lib(), 64, 64, RFX_FORMAT_YUV, RFX_FLAGS_PRO1) {}
    /* returns the difference flag of the last tile */
    int put(Ctx &c, const YuvTile &t, const uint8_t *q, int nq, const int *qi = nullptr)
    {
        Args a = yuv_args(t.p[0], q, nq);
        if (qi) { a.tiles[0].quant_y = qi[0]; a.tiles[0].quant_cb = qi[1]; a.tiles[0].quant_cr = qi[2]; }
        return put(c, a);
    }
    int put(Ctx &c, const Args &a)
    {
        if (!e.h) c.fail("creation failed");
        Res r = e.call(a);
        if (r.ret != (int) a.tiles.size()) c.fail("call returned %d instead of %d tiles", r.ret, (int) a.tiles.size());
        ref::Msg m;
        c.req(parse_msg(e, r, m));
        if (m.tiles.size() != a.tiles.size()) c.fail("%d tiles in the message", (int) m.tiles.size());
        c.req(cl.apply(r.out, m));
        for (size_t i = 0; i < a.tiles.size(); i++)
        {
            bool later = false;
            for (size_t j = i + 1; j < a.tiles.size(); j++) later |= a.tiles[j].x == a.tiles[i].x && a.tiles[j].y == a.tiles[i].y;
            if (!later) c.req(pro_expect(cl, a, a.tiles[i], a.quants ? a.quants : ref::DEFQ));
        }
        c.evals++;
        const ref::Tile &t = m.tiles.back();
        c.outcome(ref::hash_bytes(r.out.data() + t.poff[0], t.plen[0] + t.plen[1] + t.plen[2]) + t.flags);
        return t.flags;
    }
};

