/* C03: entropy coding is lossless */
#include <unistd.h>
#include "pics.h"
#include <queue>
#include <algorithm>

namespace {

typedef std::array<int16_t, 4096> Seq;
struct Obs { Ctx *c; int variant; };
void observe(void *p, int kp, int krp, int phase, int left)
{
    Obs *o = (Obs *) p;
    o->c->transitions++;
    o->c->state(((uint64_t) o->variant << 40) | (kp << 20) | (krp << 8) | (phase << 1) | (left == 1));
}

/* run one coder: which 0 rlgr1, 1 rlgr3, 2 diff_rlgr1, 3 diff_rlgr3 */
int run_coder(int which, const Seq &s, int diff, uint8_t *out, int cap, Seq *after = nullptr)
{
    Lib &L = lib();
    static thread_local Guard g(8192), g2(8192);
    int16_t *d = (int16_t *) (which & 1 ? g.at_end(8192) : g2.at_end(8192));
    memcpy(d, s.data(), 8192);
    int n;
    switch (which)
    {
        case 0: n = L.in.rfxencode_rlgr1(d, out, cap); break;
        case 1: n = L.in.rfxencode_rlgr3(d, out, cap); break;
        case 2: n = L.in.rfxencode_diff_rlgr1(d, out, cap, diff); break;
        default: n = L.in.rfxencode_diff_rlgr3(d, out, cap, diff); break;
    }
    if (after) memcpy(after->data(), d, 8192);
    return n;
}
const char *NAME[4] = {"rlgr1", "rlgr3", "diff_rlgr1", "diff_rlgr3"};

void check_decode(Ctx &c, int which, const Seq &s, int diff, const uint8_t *o, int n)
{
    static thread_local ref::Coefs dec;
    if (n <= 0 || n > 65536) c.fail("%s returned %d bytes", NAME[which], n);
    Obs ob = {&c, which & 1 ? 3 : 1};
    std::string e = ref::rlgr_decode(which & 1 ? 3 : 1, o, n, dec.data(), 4096, observe, &ob);
    if (!e.empty()) c.fail("%s: %s", NAME[which], e.c_str());
    if (which >= 2 && diff > 1) ref::undpcm(dec.data() + 4096 - diff, diff);
    for (int i = 0; i < 4096; i++)
        if ((int16_t) dec[i] != s[i]) c.fail("%s (diff %d): coefficient %d decodes to %d, was %d", NAME[which], diff, i, dec[i], s[i]);
    c.evals++;
    c.traces++;
}

/* all four coders on one sequence; full = also the differential variants with a delta coded tail */
void code(Ctx &c, const Seq &s, int diff = 0)
{
    uint8_t *o = out_guard().base();
    static thread_local uint8_t keep[65536];
    for (int v = 0; v < 2; v++)
    {
        int n = run_coder(v, s, 0, o, 65536);
        check_decode(c, v, s, 0, o, n);
        memcpy(keep, o, n);
        c.outcome(ref::hash_bytes(o, n) + v);
        int m = run_coder(v + 2, s, diff, o, 65536);
        if (diff > 1)
        {
            check_decode(c, v + 2, s, diff, o, m);
            /* the plain coder on the delta coded sequence gives the same bytes */
            Seq t = s;
            for (int i = 4095; i > 4096 - diff; i--) t[i] = (int16_t) (s[i] - s[i - 1]);
            n = run_coder(v, t, 0, keep, 65536);
        }
        if (n != m || memcmp(keep, o, n))
        {
            int i = 0;
            while (i < n && i < m && keep[i] == o[i]) i++;
            c.fail("%s and %s (diff %d) differ: %d and %d bytes, first difference at %d", NAME[v], NAME[v + 2], diff, n, m, i);
        }
        c.evals++;
    }
}

/* ------------------------------------------------ abstract machine of the coder */
struct St { int kp, krp, ph; };
int id_of(const St &s) { return (s.kp * 81 + s.krp) * 8 + s.ph; }
int grbits(int v, int &krp)
{
    int kr = krp >> 3, vk = v >> kr;
    int n = vk + 1 + kr;
    if (vk == 0) ref::bump(krp, -2);
    else if (vk > 1) ref::bump(krp, vk);
    return n;
}
int zz(int v) { return v < 0 ? -2 * v - 1 : 2 * v; }
struct Sym { int run; int a, b; }; /* run mode: run zeros then a; GR mode: a (and b for RLGR3) */
/* returns number of coefficients consumed */
int step(int variant, St &s, const Sym &y)
{
    int k = s.kp >> 3, bits, used;
    if (k)
    {
        int r = y.run;
        bits = 0;
        while (r >= (1 << k))
        {
            bits++;
            r -= 1 << k;
            k = ref::bump(s.kp, 4);
        }
        bits += 1 + k + 1;
        bits += grbits(abs(y.a) - 1, s.krp);
        ref::bump(s.kp, -6);
        used = y.run + 1;
    }
    else if (variant == 1)
    {
        bits = grbits(zz(y.a), s.krp);
        ref::bump(s.kp, y.a ? -3 : 3);
        used = 1;
    }
    else
    {
        int m1 = zz(y.a), m2 = zz(y.b), m = m1 + m2;
        bits = grbits(m, s.krp);
        while (m) { bits++; m >>= 1; }
        if (m1 && m2) ref::bump(s.kp, -6);
        else if (!m1 && !m2) ref::bump(s.kp, 6);
        used = 2;
    }
    s.ph = (s.ph + bits) & 7;
    return used;
}
/* the symbols explored in a state */
void symbols(int variant, const St &s, bool big, std::vector<Sym> &out)
{
    out.clear();
    int k = s.kp >> 3;
    if (k)
    {
        static const int V[] = {1, -1, 2, -2, 5, -37, 3, 130};
        int r[8] = {0, (1 << k) - 1, 1 << k, 1, (1 << k) + 1, 2 << k, 3 << k, 2};
        int nr = big ? (k <= 4 ? 8 : 5) : (k <= 3 ? 3 : 1), nv = big ? 8 : 4;
        for (int i = 0; i < nr; i++)
            for (int j = 0; j < nv; j++)
                if (i == 0 || (j ^ i) < 4) out.push_back({r[i], V[j], 0});
    }
    else if (variant == 1)
    {
        static const int V[] = {0, 1, -1, 2, -3, 17, -100, 4, 333};
        for (int j = 0; j < (big ? 9 : 5); j++) out.push_back({0, V[j], 0});
    }
    else
    {
        static const int V[] = {0, 1, -1, 3, -2, 40};
        int n = big ? 6 : 4;
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) out.push_back({0, V[i], V[j]});
    }
}
/* greedy transition tour: sequences of 4096 coefficients that together take every
 * (state, symbol) transition of states with kp <= lim */
void make_tour(int variant, bool big, int lim, std::vector<Seq> &out, uint64_t &nstates, uint64_t &ntrans)
{
    const int N = 81 * 81 * 8;
    struct Edge { Sym y; int to; int used; bool done; };
    std::vector<std::vector<Edge>> g(N);
    std::vector<std::vector<int>> rev(N);
    std::vector<char> known(N, 0);
    std::vector<int> left(N, 0), order;
    std::vector<Sym> sy;
    St s0 = {8, 8, 0};
    const int start = id_of(s0);
    known[start] = 1;
    order.push_back(start);
    ntrans = 0;
    for (size_t h = 0; h < order.size(); h++)
    {
        int i = order[h];
        St s = {i / 8 / 81, i / 8 % 81, i & 7};
        symbols(variant, s, big, sy);
        for (auto &y : sy)
        {
            St t = s;
            int used = step(variant, t, y), j = id_of(t);
            bool in = t.kp <= lim;
            g[i].push_back({y, in ? j : -1, used, false});
            if (in) rev[j].push_back(i);
            if (in && !known[j]) { known[j] = 1; order.push_back(j); }
        }
        left[i] = (int) g[i].size();
        ntrans += g[i].size();
    }
    nstates = order.size();
    uint64_t remain = ntrans;
    std::vector<int> dist(N), cur(N, 0);
    const int FAR = 1 << 29;
    int since = 1 << 30;
    while (remain)
    {
        if (since > (int) out.size() / 50)
        {
            /* distance to the nearest state with uncovered transitions */
            std::fill(dist.begin(), dist.end(), FAR);
            std::vector<int> q;
            for (int i : order) if (left[i]) { dist[i] = 0; q.push_back(i); }
            for (size_t h = 0; h < q.size(); h++)
                for (int u : rev[q[h]])
                    if (dist[u] == FAR) { dist[u] = dist[q[h]] + 1; q.push_back(u); }
            since = 0;
        }
        since++;
        Seq w;
        w.fill(0);
        int n = 0, i = start;
        uint64_t before = remain;
        while (i >= 0)
        {
            Edge *e = nullptr;
            if (left[i])
            {
                while (g[i][cur[i]].done) cur[i]++;
                /* prefer an uncovered transition that stays inside */
                e = &g[i][cur[i]];
                if (e->to < 0)
                    for (size_t j = cur[i]; j < g[i].size(); j++)
                        if (!g[i][j].done && g[i][j].to >= 0) { e = &g[i][j]; break; }
            }
            else
            {
                if (dist[i] == 0)
                {
                    /* emptied since the distances were computed: repair locally */
                    int d = FAR;
                    for (auto &x : g[i]) if (x.to >= 0 && dist[x.to] < d) d = dist[x.to];
                    dist[i] = d + 1;
                }
                for (auto &x : g[i])
                    if (x.to >= 0 && dist[x.to] < dist[i] && (!e || dist[x.to] < dist[e->to])) e = &x;
                if (!e)
                {
                    int d = FAR;
                    for (auto &x : g[i]) if (x.to >= 0 && dist[x.to] < d) { d = dist[x.to]; e = &x; }
                    if (!e || d >= FAR) break;
                    dist[i] = d + 1;
                }
            }
            if (n + e->used > 4095) break;
            if (!e->done) { e->done = true; left[i]--; remain--; }
            if (i / 8 / 81 >> 3) { n += e->y.run; w[n++] = e->y.a; }
            else { w[n++] = e->y.a; if (variant == 3) w[n++] = e->y.b; }
            i = e->to;
        }
        if (before == remain)
        {
            if (since == 1) break; /* even fresh distances lead nowhere within 4096 coefficients */
            since = 1 << 30;
            continue;
        }
        out.push_back(w);
    }
    ntrans -= remain;
}

/* sequences that code every magnitude in every state of the GR parameter, at every bit phase:
 * steer to the parameter, code the value, steer back, and so on */
struct Steer
{
    int variant;
    std::vector<Sym> prefix[8]; /* from the start state back to its parameters, adding 0..7 bits */
    std::vector<uint8_t> dist;  /* target krp and mode, state */
    static const int LIM = 40;
    static uint8_t &at(std::vector<uint8_t> &d, int mode, int t, int kp, int krp) { return d[((mode * 81 + t) * (LIM + 1) + kp) * 81 + krp]; }
    Steer(int v) : variant(v), dist(2 * 81 * (LIM + 1) * 81, 255)
    {
        std::vector<Sym> sy;
        struct E { int to; };
        static std::vector<std::vector<int>> rev;
        rev.assign((LIM + 1) * 81, {});
        for (int kp = 0; kp <= LIM; kp++)
            for (int krp = 0; krp <= 80; krp++)
            {
                St s = {kp, krp, 0};
                symbols(variant, s, true, sy);
                for (auto &y : sy)
                {
                    St t = s;
                    step(variant, t, y);
                    if (t.kp <= LIM) rev[t.kp * 81 + t.krp].push_back(kp * 81 + krp);
                }
            }
        for (int mode = 0; mode < 2; mode++)
            for (int t = 0; t <= 80; t++)
            {
                std::vector<int> q;
                for (int kp = 0; kp <= LIM; kp++)
                    if ((kp >= 8) == mode) { at(dist, mode, t, kp, t) = 0; q.push_back(kp * 81 + t); }
                for (size_t h = 0; h < q.size(); h++)
                    for (int u : rev[q[h]])
                    {
                        uint8_t &x = at(dist, mode, t, u / 81, u % 81);
                        if (x == 255) { x = at(dist, mode, t, q[h] / 81, q[h] % 81) + 1; q.push_back(u); }
                    }
            }
        /* prefixes: forward search over parameters and phase */
        std::map<int, std::pair<int, Sym>> par;
        std::vector<int> q;
        int start = id_of({8, 8, 0});
        q.push_back(start);
        par[start] = {-1, {0, 0, 0}};
        for (size_t h = 0; h < q.size(); h++)
        {
            St s = {q[h] / 8 / 81, q[h] / 8 % 81, q[h] & 7};
            symbols(variant, s, true, sy);
            for (auto &y : sy)
            {
                St t = s;
                step(variant, t, y);
                if (t.kp > 20 || par.count(id_of(t))) continue;
                par[id_of(t)] = {q[h], y};
                q.push_back(id_of(t));
            }
        }
        for (int ph = 0; ph < 8; ph++)
        {
            int i = id_of({8, 8, ph});
            if (!par.count(i)) { fprintf(stderr, "no prefix\n"); _exit(3); }
            while (i != start) { prefix[ph].insert(prefix[ph].begin(), par[i].second); i = par[i].first; }
        }
    }
    void emit(Seq &w, int &n, St &s, const Sym &y) const
    {
        if (s.kp >> 3) { n += y.run; w[n++] = y.a; }
        else { w[n++] = y.a; if (variant == 3) w[n++] = y.b; }
        step(variant, s, y);
    }
    /* values from, from + 1, ... (alternating signs) at parameter t; returns how many fitted */
    int fill(Seq &w, int mode, int t, int ph, int shape, int from, int to)
    {
        w.fill(0);
        St s = {8, 8, 0};
        int n = 0, v = from;
        std::vector<Sym> sy;
        for (auto &y : prefix[ph]) emit(w, n, s, y);
        while (v < to)
        {
            while (at(dist, mode, t, s.kp, s.krp))
            {
                symbols(variant, s, true, sy);
                const Sym *b = nullptr;
                int bd = 255, bu = 0;
                for (auto &y : sy)
                {
                    St u = s;
                    int used = step(variant, u, y);
                    if (u.kp > LIM) continue;
                    int d = at(dist, mode, t, u.kp, u.krp);
                    if (d < bd || (d == bd && used < bu)) { b = &y; bd = d; bu = used; }
                }
                if (!b || bd == 255) return v - from;
                if (n + bu > 4090) return v - from;
                emit(w, n, s, *b);
            }
            if (n > 4090) return v - from;
            int x = v & 1 ? -(v >> 1) : v >> 1;
            Sym y = {0, x, 0};
            if (mode == 0 && variant == 3)
            {
                static const int O[6] = {0, 0, 1, -1, 9, -100};
                y.b = O[shape];
                if (shape == 1) { y.a = 0; y.b = x; }
                if (shape & 1 && shape > 1) { y.a = O[shape]; y.b = x; }
            }
            if (mode == 1 && x == 0) { v++; continue; }
            if (mode == 1) y.run = shape == 0 ? 0 : shape == 1 ? 1 : (1 << (s.kp >> 3)) - 1;
            if (n + y.run + 2 > 4095) return v - from;
            emit(w, n, s, y);
            v++;
            if (s.kp > LIM) return v - from;
        }
        return v - from;
    }
};
Steer &steer(int v) { static Steer *s[2]; if (!s[v]) s[v] = new Steer(v ? 3 : 1); return *s[v]; }

/* 0..89: the values 2^j + {-1, 0, 1} and their negatives, within 16 bits */
int around(int i)
{
    int v = (1 << (i / 6)) + i % 3 - 1;
    return i % 6 < 3 ? v : -v;
}
const int ALPH[6] = {0, 1, -1, 2, -3, 40};
/* words of length <= len over ALPH[0..n) : number and n-th */
uint64_t nwords(int n, int len) { uint64_t t = 0, p = 1; for (int i = 1; i <= len; i++) { p *= n; t += p; } return t; }
int word(uint64_t i, int n, int *w)
{
    uint64_t p = n;
    int len = 1;
    while (i >= p) { i -= p; p *= n; len++; }
    for (int k = 0; k < len; k++) { w[k] = ALPH[i % n]; i /= n; }
    return len;
}
std::string wname(uint64_t i, int n)
{
    int w[32], l = word(i, n, w);
    std::string s = "(";
    for (int k = 0; k < l; k++) s += (k ? "," : "") + std::to_string(w[k]);
    return s + ")";
}

} /* namespace */

CHECK_DEF(C03)
{
    bool th = !K.quick();
    K.rule = "Each sequence of 4096 coefficients is coded by the real coders and decoded by an independent RLGR1/RLGR3 decoder; values, exact length and the pairwise byte identity of the coder kinds are checked. The tour families take every transition (state of the adaptive coder kp x krp x bit phase, symbol) of an explicit-state model of the coder; the model's traces are thereby replayed on the implementation. States and transitions reported are the decoder states actually passed by implementation output. Distinct: the coded bytes differ from all others.";
    K.assumptions.push_back("values beyond +-2000 are enumerated alone and in pairs only (the transforms produce at most +-384)");
    K.assumptions.push_back("sequences outside the tour, the word, run, value, position and noise families are not covered");
    static std::vector<Seq> tours[2];
    static uint64_t ts[2], tt[2];
    for (int v = 0; v < 2; v++) { tours[v].clear(); make_tour(v ? 3 : 1, true, th ? 63 : 40, tours[v], ts[v], tt[v]); }
    for (int v = 0; v < 2; v++)
        K.add(case_name("tour-rlgr%d (%llu model states, %llu transitions)", v ? 3 : 1, (unsigned long long) ts[v], (unsigned long long) tt[v]), tours[v].size(), [v](Ctx &c, uint64_t i) {
            code(c, tours[v][i], i % 3 == 0 ? 64 : i % 3 == 1 ? 81 : 0);
        }, [v](uint64_t i) { return case_name("tour sequence %d of %d", (int) i, (int) tours[v].size()); });
    static int maxmag;
    maxmag = th ? 4200 : 1050;
    for (int v = 0; v < 2; v++)
        for (int mode = 0; mode < 2; mode++)
        {
            static int shapes[2][2] = {{1, 3}, {6, 3}};
            K.add(case_name("magnitudes-rlgr%d-%s", v ? 3 : 1, mode ? "run" : "gr"), 81ull * 8 * shapes[v][mode], [v, mode](Ctx &c, uint64_t i) {
                Dim d(i);
                int t = d.next(81), ph = d.next(8), sh = d.i;
                Steer &S = steer(v);
                Seq w;
                if (Steer::at(S.dist, mode, t, 8, 8) == 255) return; /* not a reachable parameter in this mode */
                int top = 2 * (sh < 2 ? maxmag : maxmag * 2 / 5);
                for (int x = 2; x < top;)
                {
                    int n = S.fill(w, mode, t, ph, sh, x, top);
                    if (n <= 0) { fprintf(stderr, "steering failed\n"); _exit(3); }
                    x += n;
                    code(c, w, 0);
                }
            }, [](uint64_t i) { Dim d(i); int t = d.next(81), ph = d.next(8); return case_name("all magnitudes at GR parameter %d, phase shift %d, shape %d", t, ph, (int) d.i); });
            K.fams.back().case_limit = 120;
        }
    /* all zero-run lengths, in several contexts */
    K.add("runs", 4096ull * 12, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int L = d.next(4096), ctx = d.i;
        Seq s;
        s.fill(0);
        int n = 0;
        static const int pre[6][4] = {{0, 0, 0, 0}, {1, 0, 0, 0}, {-3, 2, 0, 0}, {40, -40, 7, 0}, {1, 1, 1, 1}, {-900, 5, 0, 1}};
        for (int k = 0; k < 4 && pre[ctx % 6][k]; k++) s[n++] = pre[ctx % 6][k];
        n += L;
        static const int post[2][4] = {{1, -1, 0, 0}, {-25, 3, 3, -3}};
        for (int k = 0; k < 4 && n < 4096; k++) s[n++] = post[ctx / 6][k];
        code(c, s, ctx & 1 ? 81 : 64);
    }, [](uint64_t i) { Dim d(i); int L = d.next(4096); return case_name("zero run of %d, context %d", L, (int) d.i); });
    /* every parameter level krp x kp by prefix, every bit phase */
    K.add("levels", 90ull * 19 * 8 * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = d.next(90), lv = d.next(19), ph = d.next(8), kind = d.i;
        Seq s;
        s.fill(0);
        int n = 0;
        for (int k = 0; k < ph; k++) s[n++] = k & 1 ? -1 : 1;   /* phase */
        for (int k = 0; k < a; k++) s[n++] = kind ? (k & 1 ? -7 - k : 9 + k) : 2 + (k & 3) * 5; /* raise krp */
        int L = 0, kp = 8;
        for (int k = 0; k < lv; k++) { L += 1 << (kp >> 3); kp += 4; }
        n += L;
        static const int post[8] = {3, 0, 0, 1, -60, 0, -1, 2};
        for (int k = 0; k < 8 && n < 4096; k++) s[n++] = post[k];
        code(c, s, 0);
    }, [](uint64_t i) { Dim d(i); int a = d.next(90), lv = d.next(19), ph = d.next(8); return case_name("%d large values, run level %d, phase %d, kind %d", a, lv, ph, (int) d.i); });
    /* all words at the beginning, and at the end after zeros / after values */
    static int wl;
    wl = th ? 7 : 6;
    K.add("words", nwords(6, wl) * 3, [](Ctx &c, uint64_t i) {
        uint64_t nw = nwords(6, wl);
        int w[32], l = word(i % nw, 6, w), where = (int) (i / nw);
        Seq s;
        s.fill(0);
        if (where == 2) for (int k = 0; k < 4096; k++) s[k] = k & 1 ? 3 : -2;
        for (int k = 0; k < l; k++) s[where == 0 ? k : 4096 - l + k] = w[k];
        code(c, s, 0);
    }, [](uint64_t i) { uint64_t nw = nwords(6, wl); return case_name("word %s %s", wname(i % nw, 6).c_str(), i / nw == 0 ? "at the start" : i / nw == 1 ? "at the end after zeros" : "at the end after values"); });
    /* all periodic sequences, with a word at the end */
    static int pl;
    pl = th ? 6 : 5;
    K.add("periodic", nwords(6, pl) * 2, [](Ctx &c, uint64_t i) {
        uint64_t nw = nwords(6, pl);
        int w[32], l = word(i % nw, 6, w), cut = (int) (i / nw) * 97;
        Seq s;
        for (int k = 0; k < 4096; k++) s[k] = k < cut ? 0 : w[(k - cut) % l];
        code(c, s, i % 2 ? 64 : 81);
    }, [](uint64_t i) { uint64_t nw = nwords(6, pl); return case_name("periodic %s after %d zeros", wname(i % nw, 6).c_str(), (int) (i / nw) * 97); });
    K.add("tails", nwords(6, 2) * nwords(6, 3) * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int w[32], v[32], l = word(d.next(nwords(6, 2)), 6, w), m = word(d.next(nwords(6, 3)), 6, v), off = d.i;
        Seq s;
        for (int k = 0; k < 4096; k++) s[k] = k < off ? 0 : w[(k - off) % l];
        for (int k = 0; k < m; k++) s[4096 - m + k] = v[k];
        code(c, s, 0);
    }, [](uint64_t i) { Dim d(i); uint64_t a = d.next(nwords(6, 2)), b = d.next(nwords(6, 3)); return case_name("pattern %s, shift %d, tail %s", wname(a, 6).c_str(), (int) d.i, wname(b, 6).c_str()); });
    /* all 16-bit values in several places */
    K.add("values", 65536ull * 2, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int v = d.next(65536) - 32768, p = d.i;
        Seq s;
        s.fill(0);
        if (p == 0) { s[0] = v; s[70] = v; }
        else { s[0] = 1; s[1] = 1; s[2] = 1; s[3] = v; s[4] = 1; s[5] = -1; s[4095] = v; }
        code(c, s, 0);
    }, [](uint64_t i) { Dim d(i); int v = d.next(65536) - 32768; return case_name("value %d, set %d", v, (int) d.i); });
    /* all pairs of values around powers of two: sums of RLGR3 pairs, differences of neighbours */
    K.add("value-pairs", 90ull * 90 * 3, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int a = around(d.next(90)), b = around(d.next(90)), p = d.i;
        Seq s;
        s.fill(0);
        int at = p == 0 ? 3 : p == 1 ? 4093 : 1000;
        if (p != 1) s[at - 3] = s[at - 2] = s[at - 1] = 1;
        else for (int k = 4096 - 40; k < 4093; k++) s[k] = k & 1 ? -2 : 1;
        s[at] = a;
        s[at + 1] = b;
        s[at + 2] = p == 2 ? -b : 1;
        code(c, s, abs(a) < 16000 && abs(b) < 16000 ? 4096 : 0);
    }, [](uint64_t i) { Dim d(i); int a = around(d.next(90)), b = around(d.next(90)); return case_name("values %d and %d, place %d", a, b, (int) d.i); });
    /* all values of the usual range in several places */
    K.add("values-small", 4001ull * 8, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int v = d.next(4001) - 2000, p = d.i;
        Seq s;
        s.fill(0);
        switch (p)
        {
            case 0: s[0] = v; break;
            case 1: s[4095] = v; break;
            case 2: s[2000] = v; break;
            case 3: s[0] = 1; s[1] = 1; s[2] = 1; s[3] = v; s[4] = -v; break;
            case 4: for (int k = 0; k < 300; k++) s[k] = k % 3 ? v / 4 : 1; break;
            case 5: s[0] = v; s[1] = 1; s[2] = -1; s[3] = v; s[5] = -v; break;
            case 6: for (int k = 4000; k < 4096; k++) s[k] = v / 8; break;
            default: for (int k = 0; k < 4096; k++) s[k] = (k * 31 + v) % 5 - 2; s[4095] = v; s[4094] = -1; break;
        }
        code(c, s, p == 6 ? 81 : p == 4 ? 64 : 0);
    }, [](uint64_t i) { Dim d(i); int v = d.next(4001) - 2000; return case_name("value %d, place %d", v, (int) d.i); });
    /* every position, alone and in close pairs */
    K.add("positions", 4096ull * 10, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int p = d.next(4096), q = d.i;
        Seq s;
        s.fill(0);
        static const int V[10] = {1, -1, 2, -2, 200, 1, 1, -1, 60, 3};
        s[p] = V[q];
        if (q >= 5 && p + q - 4 < 4096) s[p + q - 4] = q & 1 ? -1 : 2;
        code(c, s, q & 1 ? 64 : 81);
    }, [](uint64_t i) { Dim d(i); int p = d.next(4096); return case_name("single or paired values at %d, kind %d", p, (int) d.i); });
    /* every length of the delta coded tail */
    K.add("diff-length", 4097ull * 3, [](Ctx &c, uint64_t i) {
        Dim d(i);
        int n = d.next(4097), k = d.i;
        Seq s;
        Rng r(n * 3 + k + 1);
        for (int j = 0; j < 4096; j++) s[j] = k == 0 ? (int) (r.next() % 401) - 200 : k == 1 ? (j / 40) % 9 - 4 : (int) (r.next() % 3) - 1;
        code(c, s, n);
    }, [](uint64_t i) { Dim d(i); int n = d.next(4097); return case_name("delta coded tail of %d coefficients, content %d", n, (int) d.i); });
    /* noise of every amplitude and density */
    K.add("noise", th ? 40000 : 6000, [](Ctx &c, uint64_t i) {
        Seq s;
        Rng r(i + 5);
        int amp = 1 + (int) (i * 7 % 700), den = 1 + (int) (i % 40);
        for (int j = 0; j < 4096; j++)
        {
            uint32_t x = r.next();
            int v = (int) (x % (2 * amp + 1)) - amp;
            if (i & 1) v = v * (4096 - j) / 4096;
            s[j] = (x >> 20) % den ? 0 : v;
        }
        code(c, s, i % 3 == 0 ? 64 : i % 3 == 1 ? 81 : 0);
    }, [](uint64_t i) { return case_name("noise %d", (int) i); });
    /* every declared buffer size from the exact length upward gives the same code */
    K.add("exact-space", 400, [](Ctx &c, uint64_t i) {
        Seq s;
        Rng r(i + 5);
        int amp = 1 + (int) (i % 50), den = 1 + (int) (i / 4);
        for (int j = 0; j < 4096; j++) { uint32_t x = r.next(); s[j] = (x >> 20) % den ? 0 : (int) (x % (2 * amp + 1)) - amp; }
        for (int which = 0; which < 4; which++)
        {
            static thread_local uint8_t keep[65536];
            int n = run_coder(which, s, 0, keep, 65536);
            for (int cap = n; cap < n + 9; cap++)
            {
                uint8_t *o = out_guard().at_end(cap);
                int m = run_coder(which, s, 0, o, cap);
                if (m != n || memcmp(o, keep, n)) c.fail("%s: capacity %d for a code of %d bytes gives %d bytes", NAME[which], cap, n, m);
                c.evals++;
            }
            for (int cap = n - 1; which >= 2 && cap >= 0 && cap > n - 6; cap--)
            {
                uint8_t *o = out_guard().at_end(cap);
                int m = run_coder(which, s, 0, o, cap);
                if (m >= 0) c.fail("%s: capacity %d for a code of %d bytes is not refused (%d)", NAME[which], cap, n, m);
                c.evals++;
            }
        }
    }, [](uint64_t i) { return case_name("content %d, capacities around the exact length", (int) i); });
}
