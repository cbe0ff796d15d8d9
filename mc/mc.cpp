#include "mc.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <math.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>

/* ------------------------------------------------------------------- library */
static std::string g_libdir;
static std::map<std::string, Lib> g_libs;

const std::string &lib_dir() { return g_libdir; }
bool have_lib(const char *v) { return access((g_libdir + "/librfx_" + v + ".so").c_str(), R_OK) == 0; }

Lib &lib(const char *v)
{
    auto it = g_libs.find(v);
    if (it != g_libs.end()) return it->second;
    Lib l;
    l.name = v;
    std::string path = g_libdir + "/librfx_" + v + ".so";
    l.dl = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l.dl)
    {
        fprintf(stderr, "cannot load %s: %s\n", path.c_str(), dlerror());
        _exit(3);
    }
#define SYM(field, name) *(void **) &l.field = dlsym(l.dl, name); if (!l.field) { fprintf(stderr, "no symbol %s\n", name); _exit(3); }
    SYM(create, "rfxcodec_encode_create");
    SYM(create_ex, "rfxcodec_encode_create_ex");
    SYM(destroy, "rfxcodec_encode_destroy");
    SYM(encode, "rfxcodec_encode");
    SYM(encode_ex, "rfxcodec_encode_ex");
    SYM(get_internals, "rfxcodec_encode_get_internals");
    SYM(hooks, "mc_hooks");
    memset(&l.in, 0, sizeof l.in);
    l.get_internals(&l.in);
    l.map = nullptr;
    dlinfo(l.dl, RTLD_DI_LINKMAP, &l.map);
    return g_libs[v] = l;
}

void Ctx::fail(const char *f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    throw Fail{b};
}

std::string case_name(const char *f, ...)
{
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

/* -------------------------------------------------------------------- guards */
static const size_t PG = 4096;
Guard::Guard(size_t c)
{
    cap = (c + PG - 1) / PG * PG;
    total = cap + 2 * PG;
    map = (uint8_t *) mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (map == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(3); }
    lo = map + PG;
    mprotect(lo, cap, PROT_READ | PROT_WRITE);
}
Guard::~Guard() { munmap(map, total); }
uint8_t *Guard::at_end(size_t n) { return lo + cap - n; }
uint8_t *Guard::at_end_off(size_t n, size_t slack) { return lo + cap - n - slack; }
uint8_t *Guard::at_start(size_t) { return lo; }
void Guard::readonly(bool ro) { mprotect(lo, cap, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
Guard &out_guard()
{
    static Guard g(8 * 1024 * 1024);
    return g;
}

/* ------------------------------------------------------------------ encoders */
Enc::Enc(Lib &l, int w_, int h_, int f_, int fl_) : L(&l), w(w_), ht(h_), format(f_), flags(fl_)
{
    if (l.create_ex(w, ht, format, flags, &h) != 0) h = nullptr;
}
Enc::~Enc()
{
    if (h) L->destroy(h);
}
Res Enc::call(const Args &a, int prefill, bool plain)
{
    Res r;
    static Guard *huge;
    if (a.cap > 8 * 1024 * 1024 && !huge) huge = new Guard(160 * 1024 * 1024);
    uint8_t *o = (a.cap > 8 * 1024 * 1024 ? *huge : out_guard()).at_end(a.cap);
    if (prefill >= 0) memset(o, prefill, a.cap);
    int bytes = a.cap;
    if (plain)
        r.ret = L->encode(h, (char *) o, &bytes, (const char *) a.buf, a.w, a.h, a.stride, a.rects.data(), (int) a.rects.size(),
                          a.tiles.data(), (int) a.tiles.size(), (const char *) a.quants, a.nquants);
    else
        r.ret = L->encode_ex(h, (char *) o, &bytes, (const char *) a.buf, a.w, a.h, a.stride, a.rects.data(), (int) a.rects.size(),
                             a.tiles.data(), (int) a.tiles.size(), (const char *) a.quants, a.nquants, a.flags);
    r.bytes = bytes;
    if (r.ret >= 0)
    {
        if (bytes < 0 || bytes > a.cap) throw Fail{ref::fmt("call returned %d and %d bytes, capacity %d", r.ret, bytes, a.cap)};
        r.out.assign(o, o + bytes);
    }
    return r;
}
rfx_tile mk_tile(int x, int y, int cx, int cy, int qy, int qcb, int qcr)
{
    rfx_tile t;
    t.x = x; t.y = y; t.cx = cx; t.cy = cy;
    t.quant_y = qy; t.quant_cb = qcb; t.quant_cr = qcr;
    return t;
}
rfx_rect mk_rect(int x, int y, int cx, int cy)
{
    rfx_rect r;
    r.x = x; r.y = y; r.cx = cx; r.cy = cy;
    return r;
}

void expected_planes(int format, const Args &a, const rfx_tile &t, Planes &o)
{
    if (format == RFX_FORMAT_YUV)
    {
        const uint8_t *s = a.buf + (long) (t.y << 8) * (a.stride >> 8) + ((long) t.x << 8);
        for (int k = 0; k < ((a.flags & RFX_FLAGS_ALPHAV1) ? 4 : 3); k++) memcpy(o.p[k], s + 4096 * k, 4096);
        return;
    }
    int n = bpp(format);
    int ri = (format == RFX_FORMAT_BGRA || format == RFX_FORMAT_BGR) ? 2 : 0;
    for (int y = 0; y < 64; y++)
    {
        int sy = y < t.cy ? y : t.cy - 1;
        const uint8_t *row = a.buf + (long) (t.y + sy) * a.stride + (long) t.x * n;
        for (int x = 0; x < 64; x++)
        {
            const uint8_t *s = row + (x < t.cx ? x : t.cx - 1) * n;
            int i = y * 64 + x;
            ref::rgb2yuv(s[ri], s[1], s[2 - ri], &o.p[0][i], &o.p[1][i], &o.p[2][i]);
            o.p[3][i] = n == 4 ? s[3] : 0;
        }
    }
}

std::string parse_msg(const Enc &e, const Res &r, ref::Msg &m)
{
    if (r.ret < 0) return ref::fmt("call failed (%d)", r.ret);
    std::string s = e.pro() ? ref::parse_pro(r.out, m) : ref::parse_classic(r.out, m);
    if (!s.empty()) return "message not well-formed: " + s;
    return "";
}

std::string check_echo(const Enc &e, const Args &a, const Res &r, const ref::Msg &m)
{
    REF_REQ((int) m.tiles.size() == r.ret, "returned %d but the message holds %d tiles", r.ret, (int) m.tiles.size());
    REF_REQ(r.ret <= (int) a.tiles.size(), "returned %d of %d tiles", r.ret, (int) a.tiles.size());
    REF_REQ(m.rects.size() == a.rects.size(), "%d regions in the message, %d given", (int) m.rects.size(), (int) a.rects.size());
    for (size_t i = 0; i < a.rects.size(); i++)
    {
        const rfx_rect &g = a.rects[i];
        const ref::Rect &t = m.rects[i];
        REF_REQ(t.x == (g.x & 0xffff) && t.y == (g.y & 0xffff) && t.cx == (g.cx & 0xffff) && t.cy == (g.cy & 0xffff), "region %d is %d,%d %dx%d, given %d,%d %dx%d", (int) i, t.x, t.y, t.cx, t.cy, g.x, g.y, g.cx, g.cy);
    }
    ref::Bytes q;
    if (a.quants) q.assign(a.quants, a.quants + 5 * a.nquants);
    else q.assign(ref::DEFQ, ref::DEFQ + 5);
    REF_REQ(q == m.quants, "quantisation tables in the message differ from those given (%d bytes, %d given)", (int) m.quants.size(), (int) q.size());
    for (int i = 0; i < r.ret; i++)
    {
        const rfx_tile &g = a.tiles[i];
        const ref::Tile &t = m.tiles[i];
        REF_REQ(t.x == g.x / 64 && t.y == g.y / 64, "tile %d is at %d,%d, given %d,%d", i, t.x, t.y, g.x / 64, g.y / 64);
        REF_REQ(t.qidx[0] == g.quant_y && t.qidx[1] == g.quant_cb && t.qidx[2] == g.quant_cr, "tile %d has quant indices %d,%d,%d, given %d,%d,%d", i, t.qidx[0], t.qidx[1], t.qidx[2], g.quant_y, g.quant_cb, g.quant_cr);
    }
    if (!e.pro())
    {
        REF_REQ(m.alpha == ((a.flags & RFX_FLAGS_ALPHAV1) != 0), "alpha tile set %d, asked %d", m.alpha, a.flags & 1);
        int et = e.variant() == 1 ? 1 : 4;
        REF_REQ(m.ts_props == (1 | 1 << 4 | 1 << 6 | et << 10 | 1 << 14), "tile set properties 0x%04x for RLGR%d", m.ts_props, e.variant());
        if (m.has_header)
        {
            REF_REQ(m.ctx_props == (1 << 3 | 1 << 5 | et << 9 | 1 << 13), "context properties 0x%04x for RLGR%d", m.ctx_props, e.variant());
            REF_REQ(m.chan_w == (e.w & 0xffff) && m.chan_h == (e.ht & 0xffff), "channel %dx%d, screen %dx%d", m.chan_w, m.chan_h, e.w, e.ht);
        }
    }
    return "";
}

std::string check_payload(const Enc &e, const Args &a, const Res &r, const ref::Msg &m, bool alpha_too)
{
    static thread_local Planes P;
    static thread_local ref::Coefs got, want;
    const uint8_t *q = a.quants ? a.quants : ref::DEFQ;
    for (size_t i = 0; i < m.tiles.size(); i++)
    {
        const rfx_tile &g = a.tiles[i];
        const ref::Tile &t = m.tiles[i];
        expected_planes(e.format, a, g, P);
        int qi[3] = {g.quant_y, g.quant_cb, g.quant_cr};
        for (int k = 0; k < 3; k++)
        {
            std::string s = ref::tile_coefs(r.out, t, k, e.variant(), e.pro(), got);
            if (!s.empty()) return ref::fmt("tile %d: %s", (int) i, s.c_str());
            if (e.pro()) ref::fwd_pro(P.p[k], q + 5 * qi[k], want);
            else ref::fwd_classic(P.p[k], q + 5 * qi[k], want);
            if (memcmp(got.data(), want.data(), sizeof(int) * 4096))
            {
                int j = 0;
                while (got[j] == want[j]) j++;
                return ref::fmt("tile %d component %d: coefficient %d is %d, should be %d", (int) i, k, j, got[j], want[j]);
            }
        }
        if (m.alpha && alpha_too)
        {
            uint8_t al[4096];
            std::string s = ref::alpha_decode(r.out.data() + t.poff[3], t.plen[3], al);
            if (!s.empty()) return ref::fmt("tile %d: %s", (int) i, s.c_str());
            if (memcmp(al, P.p[3], 4096))
            {
                int j = 0;
                while (al[j] == P.p[3][j]) j++;
                return ref::fmt("tile %d alpha at (%d,%d) is %d, should be %d", (int) i, j % 64, j / 64, al[j], P.p[3][j]);
            }
        }
    }
    return "";
}

std::string verify_classic(const Enc &e, const Args &a, const Res &r, ref::Msg *out)
{
    ref::Msg m;
    std::string s = parse_msg(e, r, m);
    if (s.empty()) s = check_echo(e, a, r, m);
    if (s.empty()) s = check_payload(e, a, r, m);
    if (out) *out = m;
    return s;
}

std::string diff_bytes(const ref::Bytes &a, const ref::Bytes &b)
{
    if (a == b) return "";
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return ref::fmt("%d and %d bytes, first difference at %d", (int) a.size(), (int) b.size(), (int) i);
}

/* ----------------------------------------------------------------- allocator */
long AllocCtl::live_blocks, AllocCtl::live_bytes, AllocCtl::count, AllocCtl::fail_at[2], AllocCtl::failed, AllocCtl::bad_free;
int AllocCtl::junk = -1, AllocCtl::shift = 0;
struct Blk { void *raw; size_t n; };
static std::map<void *, Blk> &blks() { static std::map<void *, Blk> m; return m; }
static std::set<void *> &dead() { static std::set<void *> m; return m; }
static void *ctl_alloc(size_t align, size_t n, int zero)
{
    AllocCtl::count++;
    if (AllocCtl::count == AllocCtl::fail_at[0] || AllocCtl::count == AllocCtl::fail_at[1])
    {
        AllocCtl::failed++;
        return nullptr;
    }
    if (align < 16) align = 16;
    uint8_t *raw = (uint8_t *) malloc(n + align + 64 + 16 * (size_t) AllocCtl::shift);
    uint8_t *p = (uint8_t *) (((uintptr_t) raw + align - 1) / align * align);
    if (align == 16) p += 16 * AllocCtl::shift;
    if (zero) memset(p, 0, n);
    else if (AllocCtl::junk >= 0) memset(p, AllocCtl::junk, n);
    Blk b = {raw, n};
    blks()[p] = b;
    dead().erase(p);
    AllocCtl::live_blocks++;
    AllocCtl::live_bytes += n;
    return p;
}
static int ctl_release(void *p)
{
    auto it = blks().find(p);
    if (it == blks().end())
    {
        AllocCtl::bad_free++;
        return 1; /* double free or foreign pointer: recorded, not executed */
    }
    AllocCtl::live_blocks--;
    AllocCtl::live_bytes -= it->second.n;
    memset(p, 0xDD, it->second.n);
    free(it->second.raw);
    blks().erase(it);
    return 1;
}
static void *ctl_resize(void *p, size_t n)
{
    if (!p) return ctl_alloc(0, n, 0);
    void *q = ctl_alloc(0, n, 0);
    if (!q) return nullptr;
    auto it = blks().find(p);
    if (it != blks().end()) memcpy(q, p, std::min(n, it->second.n));
    ctl_release(p);
    return q;
}
void AllocCtl::install(Lib &l) { l.hooks->alloc = ctl_alloc; l.hooks->resize = ctl_resize; l.hooks->release = ctl_release; }
void AllocCtl::uninstall(Lib &l) { l.hooks->alloc = nullptr; l.hooks->resize = nullptr; l.hooks->release = nullptr; }
void AllocCtl::reset()
{
    for (auto &b : blks()) free(b.second.raw);
    blks().clear();
    live_blocks = live_bytes = count = failed = bad_free = 0;
    fail_at[0] = fail_at[1] = 0;
    junk = -1;
    shift = 0;
}

void fill_noise(uint8_t *p, size_t n, uint64_t seed)
{
    Rng r(seed + 77);
    for (int i = 0; i < 8; i++) r.next();
    for (size_t i = 0; i < n; i++) p[i] = r.next();
}

/* ------------------------------------------------------------------ explorer */
struct RegEntry { const char *id; CheckFn fn; };
static std::vector<RegEntry> &regs() { static std::vector<RegEntry> v; return v; }
Reg::Reg(const char *id, CheckFn fn) { RegEntry e = {id, fn}; regs().push_back(e); }

struct Slot
{
    volatile uint64_t idx;
    volatile int state; /* 0 idle, 1 running a case, 2 done, 3 failed */
    volatile double since;
    uint64_t evals, transitions, traces, aux;
    int capped;
    char msg[3500];
};
struct Shared
{
    volatile int stop;
    Slot s[64];
};
static Shared *g_sh;
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string g_tmp;
static int g_devnull = -1;

static void quiet_stdout()
{
    if (g_devnull < 0) g_devnull = open("/dev/null", O_WRONLY);
    fflush(stdout);
    dup2(g_devnull, 1);
}

/* run cases of one family in this process: idx = first, first+step, ... <= last */
static void run_cases(Family &f, int w, uint64_t first, uint64_t step, uint64_t last, bool write_sets, int fam_no)
{
    Slot &s = g_sh->s[w];
    Ctx c;
    quiet_stdout();
    for (uint64_t i = first; i < f.n && i <= last; i += step)
    {
        if (g_sh->stop && write_sets) break;
        s.idx = i;
        s.since = now();
        s.state = 1;
        try
        {
            f.run(c, i);
        }
        catch (Fail &e)
        {
            snprintf(s.msg, sizeof s.msg, "%s", e.msg.c_str());
            s.state = 3;
            g_sh->stop = 1;
            break;
        }
        catch (std::exception &e)
        {
            snprintf(s.msg, sizeof s.msg, "output that the parser cannot handle: %s", e.what());
            s.state = 3;
            g_sh->stop = 1;
            break;
        }
    }
    s.evals = c.evals;
    s.transitions = c.transitions;
    s.traces = c.traces;
    s.aux = c.aux;
    s.capped = c.capped;
    if (write_sets)
    {
        FILE *fp = fopen((g_tmp + "/set." + std::to_string(fam_no) + "." + std::to_string(w)).c_str(), "wb");
        if (fp)
        {
            uint64_t k = c.outcomes.size();
            fwrite(&k, 8, 1, fp);
            for (uint64_t h : c.outcomes) fwrite(&h, 8, 1, fp);
            k = c.states.size();
            fwrite(&k, 8, 1, fp);
            for (uint64_t h : c.states) fwrite(&h, 8, 1, fp);
            fclose(fp);
        }
    }
    if (s.state != 3) s.state = 2;
    _exit(0);
}

struct Outcome { bool bad; bool hang; bool internal; uint64_t idx; int worker; std::string msg; };

/* fork one child over the given index range, wait; limit in seconds per case */
static Outcome solo(Family &f, uint64_t first, uint64_t step, uint64_t last, double limit)
{
    Outcome o = {false, false, false, 0, 0, ""};
    memset(&g_sh->s[63], 0, sizeof(Slot));
    g_sh->stop = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) run_cases(f, 63, first, step, last, false, 0);
    Slot &s = g_sh->s[63];
    for (;;)
    {
        int st;
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p)
        {
            o.idx = s.idx;
            if (s.state == 3) { o.bad = true; o.msg = s.msg; }
            else if (WIFSIGNALED(st)) { o.bad = true; o.msg = ref::fmt("crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); if (WTERMSIG(st) == SIGKILL) o.internal = true; }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { o.bad = true; o.msg = "address sanitizer error"; }
            else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { o.bad = true; o.msg = ref::fmt("process exited with %d", WEXITSTATUS(st)); o.internal = WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4; }
            return o;
        }
        if (s.state == 1 && now() - s.since > limit)
        {
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            o.bad = true;
            o.hang = true;
            o.idx = s.idx;
            o.msg = ref::fmt("the call does not return within %g s", limit);
            return o;
        }
        usleep(2000);
    }
}

static std::string js(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) r += ref::fmt("\\u%04x", c);
        else r += c;
    }
    return r + "\"";
}

int main(int argc, char **argv)
{
    std::string id, out, tier = "quick", rfam;
    int W = 8;
    long long ridx = -1, rfirst = -1, rstep = 1;
    bool list = false, asan = false;
    double budget = 1e9;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--tier") tier = argv[++i];
        else if (a == "--libdir") g_libdir = argv[++i];
        else if (a == "--tmp") g_tmp = argv[++i];
        else if (a == "--workers") W = atoi(argv[++i]);
        else if (a == "--family") rfam = argv[++i];
        else if (a == "--idx") ridx = atoll(argv[++i]);
        else if (a == "--first") rfirst = atoll(argv[++i]);
        else if (a == "--step") rstep = atoll(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "--asan") asan = true;
        else if (a == "--budget") budget = atof(argv[++i]);
        else id = a;
    }
    if (W > 60) W = 60;
    g_sh = (Shared *) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Check K;
    K.id = id;
    K.tier = tier == "thorough" ? THOROUGH : QUICK;
    bool found = false;
    for (auto &r : regs())
        if (id == r.id) { r.fn(K); found = true; }
    if (!found) { fprintf(stderr, "no check %s\n", id.c_str()); return 2; }
    std::vector<Family> fams;
    for (auto &f : K.fams) if (f.asan == asan) fams.push_back(f);
    K.fams = fams;
    if (list)
    {
        for (auto &f : K.fams) printf("%-40s %llu\n", f.name.c_str(), (unsigned long long) f.n);
        return 0;
    }
    if (ridx >= 0)
    {
        for (auto &f : K.fams)
        {
            if (f.name != rfam) continue;
            printf("family %s case %lld: %s\n", f.name.c_str(), ridx, f.describe ? f.describe(ridx).c_str() : "");
            fflush(stdout);
            Outcome o = rfirst >= 0 ? solo(f, rfirst, rstep, ridx, 60) : solo(f, ridx, 1, ridx, 60);
            printf("%s%s\n", o.bad ? "FAILS: " : "passes", o.msg.c_str());
            return o.bad ? 1 : 0;
        }
        fprintf(stderr, "no family %s\n", rfam.c_str());
        return 2;
    }
    double t0 = now();
    std::string fj;
    std::unordered_set<uint64_t> outcomes, states;
    uint64_t evals = 0, transitions = 0, traces = 0;
    std::string viol, samples, internal;
    bool capped = K.capped;
    for (size_t fi = 0; fi < K.fams.size() && viol.empty(); fi++)
    {
        Family &f = K.fams[fi];
        if (!rfam.empty() && f.name != rfam) continue;
        if (now() - t0 > budget) { capped = true; break; }
        double ft0 = now();
        memset(g_sh, 0, sizeof *g_sh);
        int n = (uint64_t) W < f.n ? W : (int) f.n;
        std::vector<pid_t> pids(n);
        fflush(stdout);
        for (int w = 0; w < n; w++)
        {
            pid_t p = fork();
            if (p == 0) run_cases(f, w, w, n, f.n, true, (int) fi);
            pids[w] = p;
        }
        std::vector<Outcome> bads;
        int left = n;
        double stop_at = 0;
        while (left > 0)
        {
            bool progress = false;
            for (int w = 0; w < n; w++)
            {
                if (!pids[w]) continue;
                int st;
                Slot &s = g_sh->s[w];
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                Outcome o = {false, false, false, s.idx, w, ""};
                if (r == pids[w])
                {
                    pids[w] = 0;
                    left--;
                    progress = true;
                    if (s.state == 3) { o.bad = true; o.msg = s.msg; }
                    else if (WIFSIGNALED(st))
                    {
                        o.bad = true;
                        o.internal = WTERMSIG(st) == SIGKILL;
                        o.msg = ref::fmt("crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                    }
                    else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) { o.bad = true; o.msg = "address sanitizer error"; }
                    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0)
                    {
                        o.bad = true;
                        o.internal = WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4;
                        o.msg = ref::fmt("process exited with %d", WEXITSTATUS(st));
                    }
                }
                else if (s.state == 1 && now() - s.since > (stop_at ? 3 : f.case_limit) && !(stop_at && now() < stop_at))
                {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    pids[w] = 0;
                    left--;
                    if (!stop_at) { o.bad = true; o.hang = true; }
                }
                if (o.bad)
                {
                    bads.push_back(o);
                    g_sh->stop = 1;
                    if (!stop_at) stop_at = now() + 5;
                }
            }
            if (!progress) usleep(1000);
        }
        uint64_t fe = 0, ft = 0, ftr = 0, fa = 0;
        for (int w = 0; w < n; w++)
        {
            Slot &s = g_sh->s[w];
            fe += s.evals; ft += s.transitions; ftr += s.traces; fa += s.aux;
            if (s.capped) capped = true;
            std::string fn = g_tmp + "/set." + std::to_string(fi) + "." + std::to_string(w);
            FILE *fp = fopen(fn.c_str(), "rb");
            if (fp)
            {
                uint64_t k = 0, h;
                if (fread(&k, 8, 1, fp) == 1) while (k-- && fread(&h, 8, 1, fp) == 1) outcomes.insert(h ^ (0x9E37 * (fi + 1)));
                if (fread(&k, 8, 1, fp) == 1) while (k-- && fread(&h, 8, 1, fp) == 1) states.insert(h);
                fclose(fp);
                unlink(fn.c_str());
            }
        }
        evals += fe; transitions += ft; traces += ftr;
        fj += ref::fmt("%s{\"family\":%s,\"cases\":%llu,\"evaluations\":%llu,\"transitions\":%llu,\"traces\":%llu,\"aux\":%llu,\"seconds\":%.2f}", fj.empty() ? "" : ",", js(f.name).c_str(),
                       (unsigned long long) f.n, (unsigned long long) fe, (unsigned long long) ft, (unsigned long long) ftr, (unsigned long long) fa, now() - ft0);
        if (f.describe && f.n)
        {
            uint64_t pick[2] = {f.n / 3, f.n - 1};
            for (int i = 0; i < (f.n > 1 ? 2 : 1); i++)
                samples += ref::fmt("%s%s", samples.empty() ? "" : ",", js(f.name + " #" + std::to_string(pick[i]) + ": " + f.describe(pick[i])).c_str());
        }
        std::sort(bads.begin(), bads.end(), [](const Outcome &a, const Outcome &b) { return a.idx < b.idx; });
        for (auto &o : bads)
        {
            if (!viol.empty()) break;
            if (o.internal) { internal = f.name + ": " + o.msg; }
            double limit = o.hang ? 60 : f.case_limit * 2;
            std::string how = "standalone";
            Outcome r = solo(f, o.idx, 1, o.idx, limit);
            if (!r.bad)
            {
                how = "prefix";
                r = solo(f, o.worker, n, o.idx, limit);
            }
            if (!r.bad)
            {
                if (o.hang || o.internal) continue; /* slow machine / killed from outside, not a finding */
                how = "not reproduced";
                r = o;
            }
            if (r.internal) { internal = f.name + ": " + r.msg; continue; }
            internal.clear();
            viol = ref::fmt("{\"family\":%s,\"idx\":%llu,\"first\":%d,\"step\":%d,\"replay\":%s,\"message\":%s,\"case\":%s,\"asan\":%s}", js(f.name).c_str(),
                            (unsigned long long) r.idx, how == "prefix" ? o.worker : (int) -1, how == "prefix" ? n : 1, js(how).c_str(), js(r.msg).c_str(),
                            js(f.describe ? f.describe(r.idx) : "").c_str(), asan ? "true" : "false");
        }
    }
    FILE *fp = fopen(out.c_str(), "w");
    if (!fp) { fprintf(stderr, "cannot write %s\n", out.c_str()); return 2; }
    fprintf(fp, "{\"id\":%s,\"families\":[%s],\"evaluations\":%llu,\"transitions\":%llu,\"traces\":%llu,\"distinct\":%llu,\"states\":%llu,\"samples\":[%s],\"rule\":%s,\"assumptions\":[",
            js(id).c_str(), fj.c_str(), (unsigned long long) evals, (unsigned long long) transitions, (unsigned long long) traces,
            (unsigned long long) outcomes.size(), (unsigned long long) states.size(), samples.c_str(), js(K.rule).c_str());
    for (size_t i = 0; i < K.assumptions.size(); i++) fprintf(fp, "%s%s", i ? "," : "", js(K.assumptions[i]).c_str());
    fprintf(fp, "],\"capped\":%s,\"violation\":%s,\"internal\":%s,\"wall_s\":%.2f}\n", capped ? "true" : "false", viol.empty() ? "null" : viol.c_str(), internal.empty() ? "null" : js(internal).c_str(), now() - t0);
    fclose(fp);
    return viol.empty() ? 0 : 1;
}

void force_cpu(Lib &l, int level)
{
    l.hooks->cpuid_force = level >= 0;
    l.hooks->cpuid_ext_cx = 0;
    l.hooks->cpuid_dx = level >= 1 ? 1 << 26 : 0;
    l.hooks->cpuid_cx = level >= 2 ? (1 << 19) | 1 : 0;
}
