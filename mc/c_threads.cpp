/* C13: threads with their own encoders.
 *
 * Real threads run the real library under a scheduler that lets exactly one run
 * at a time.  The library's writable data and the heap blocks it hands out are
 * page-protected, so that every access to memory two threads could share is a
 * fault, and every such access is a scheduling point.  If solo runs write no
 * memory another thread can reach, all interleavings are equivalent to the
 * call-level ones, which are enumerated.  Otherwise the shared pages are
 * trapped on every access and all schedules with one, then two preemptions at
 * those accesses are explored, compared with the solo runs. */
#include "hist.h"
#include "scene.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <set>

namespace {

enum { NT = 3 };
const size_t PG = 4096;
const size_t ARENA = (size_t) 512 << 20;

/* ------------------------------------------------------------ memory control */
struct Range { uint8_t *lo, *hi; };
struct Mem
{
    std::vector<Range> statics;          /* the library's writable pages */
    std::vector<std::vector<uint8_t>> pristine;
    uint8_t *arena[NT];
    size_t used[NT];
    std::vector<size_t> bsize[NT];       /* size by page index */
} M;
__thread int t_self = -1;

struct FindArg { Lib *L; };
int on_phdr(struct dl_phdr_info *i, size_t, void *p)
{
    Lib *L = ((FindArg *) p)->L;
    if (i->dlpi_addr != L->map->l_addr) return 0;
    uintptr_t rlo = 0, rhi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
        {
            rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            rhi = rlo + i->dlpi_phdr[k].p_memsz;
        }
    uintptr_t hk = (uintptr_t) L->hooks;
    for (int k = 0; k < i->dlpi_phnum; k++)
    {
        const ElfW(Phdr) &h = i->dlpi_phdr[k];
        if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
        uintptr_t lo = (i->dlpi_addr + h.p_vaddr) & ~(PG - 1), hi = (i->dlpi_addr + h.p_vaddr + h.p_memsz + PG - 1) & ~(PG - 1);
        for (uintptr_t q = lo; q < hi; q += PG)
        {
            if (q >= (rlo & ~(PG - 1)) && q + PG <= ((rhi + PG - 1) & ~(PG - 1)) && q + PG <= rhi + 64) continue; /* read-only after relocation */
            if (q >= hk && q < hk + sizeof(mc_hooks)) continue;
            M.statics.push_back({(uint8_t *) q, (uint8_t *) q + PG});
        }
    }
    return 1;
}
void mem_init(Lib &L)
{
    static bool done;
    if (done) return;
    done = true;
    FindArg a = {&L};
    dl_iterate_phdr(on_phdr, &a);
    for (auto &r : M.statics) M.pristine.emplace_back(r.lo, r.hi);
    for (int t = 0; t < NT; t++)
    {
        M.arena[t] = (uint8_t *) mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (M.arena[t] == MAP_FAILED) _exit(3);
    }
}
void fresh_block(int t, long page, long n);
void *ar_alloc(size_t, size_t n, int zero)
{
    int t = t_self;
    size_t pages = (n + PG - 1) / PG + (n == 0);
    if (t < 0 || M.used[t] + pages * PG > ARENA) _exit(3);
    uint8_t *p = M.arena[t] + M.used[t];
    M.bsize[t].resize(M.used[t] / PG + pages, 0);
    M.bsize[t][M.used[t] / PG] = n;
    M.used[t] += pages * PG;
    memset(p, zero ? 0 : 0x5a, n);
    fresh_block(t, (p - M.arena[t]) / PG, pages);
    return p;
}
int ar_release(void *) { return 1; } /* never reused: a stale pointer stays attributable */
void *ar_resize(void *p, size_t n)
{
    void *q = ar_alloc(0, n, 0);
    for (int t = 0; t < NT && p; t++)
        if ((uint8_t *) p >= M.arena[t] && (uint8_t *) p < M.arena[t] + ARENA) memcpy(q, p, std::min(n, M.bsize[t][((uint8_t *) p - M.arena[t]) / PG]));
    return q;
}

/* ----------------------------------------------------------------- scheduler */
/* pages are named: statics by (-1, page number), blocks by (owner, page number) */
typedef std::pair<int, long> PageId;
bool page_id(uint8_t *a, PageId &id)
{
    for (size_t k = 0; k < M.statics.size(); k++)
        if (a >= M.statics[k].lo && a < M.statics[k].hi) { id = PageId(-1, (long) k); return true; }
    for (int t = 0; t < NT; t++)
        if (a >= M.arena[t] && a < M.arena[t] + ARENA) { id = PageId(t, (a - M.arena[t]) / PG); return true; }
    return false;
}
uint8_t *page_addr(const PageId &p) { return p.first < 0 ? M.statics[p.second].lo : M.arena[p.first] + p.second * PG; }

struct Step { int kind; const Args *a; };       /* 0 create, 1 encode, 2 destroy */
struct Prog { Cfg cfg; std::vector<Step> steps; };

struct Sched
{
    std::vector<int> order;                     /* call level: thread of each step; empty: run to completion */
    int start = 0;
    long at[NT] = {0, 0, 0};                    /* preempt thread t at its n-th shared access (0 never) */
};
struct Run
{
    const Prog *p[NT];
    int n;
    Sched s;
    bool explore;                               /* trap the pages of `hot` on every access */
    std::set<PageId> hot;                       /* shared pages known so far */
    std::set<PageId> found;                     /* statics written, blocks touched by another thread */
    std::vector<Res> out[NT];
    long acc[NT];                               /* shared accesses of each thread */
    volatile long progress;
    volatile int token, done[NT], free_run;
    size_t opos;
    sem_t sem[NT];
    std::vector<PageId> open;                   /* unlocked for the instruction being stepped */
    std::set<PageId> sync;                      /* pages with locks: not trapped */
} R;
Lib *g_L;
uint8_t *g_out[NT];
struct sigaction old_segv, old_trap;

void lock_page(const PageId &p)
{
    if (R.free_run || R.sync.count(p)) return;
    int prot = PROT_READ | PROT_WRITE;
    if (R.hot.count(p)) prot = PROT_NONE;
    else if (p.first < 0) prot = PROT_READ;
    else if (p.first != R.token) prot = PROT_NONE;
    mprotect(page_addr(p), PG, prot);
}
/* a new block whose pages are known to be shared is trapped from the start */
void fresh_block(int t, long page, long n)
{
    for (long k = page; k < page + n; k++) if (R.hot.count(PageId(t, k))) lock_page(PageId(t, k));
}
/* protections for the thread about to run */
void apply(int token)
{
    R.token = token;
    if (R.free_run) return;
    for (int t = 0; t < NT; t++)
        if (M.used[t]) mprotect(M.arena[t], M.used[t], t == token ? PROT_READ | PROT_WRITE : PROT_NONE);
    for (auto &p : R.hot) if (p.first < 0 || (size_t) p.second * PG < M.used[p.first]) lock_page(p);
    for (auto &p : R.sync) mprotect(page_addr(p), PG, PROT_READ | PROT_WRITE);
}
void unlock_all()
{
    for (auto &r : M.statics) mprotect(r.lo, PG, PROT_READ | PROT_WRITE);
    for (int t = 0; t < NT; t++) if (M.used[t]) mprotect(M.arena[t], M.used[t], PROT_READ | PROT_WRITE);
}
void hand_over(int to)
{
    int me = t_self;
    if (R.free_run || to == me) return;
    R.progress++;
    apply(to);
    sem_post(&R.sem[to]);
    while (sem_wait(&R.sem[me]) && errno == EINTR) {}
}
int other_of(int t)
{
    for (int k = 1; k < R.n; k++)
    {
        int u = (t + k) % R.n;
        if (!R.done[u]) return u;
    }
    return t;
}
bool in_lock_code(void *ip)
{
    Dl_info d;
    if (!dladdr(ip, &d) || !d.dli_sname) return false;
    const char *s = d.dli_sname;
    while (*s == '_') s++;
    return !strncmp(s, "pthread_", 8) || !strncmp(s, "lll_", 4) || !strncmp(s, "sem_", 4) || !strncmp(s, "mtx_", 4) || !strncmp(s, "call_once", 9) || !strncmp(s, "cxa_guard", 9);
}
void on_segv(int sig, siginfo_t *si, void *uc)
{
    ucontext_t *u = (ucontext_t *) uc;
    PageId id;
    if (t_self < 0 || !page_id((uint8_t *) si->si_addr, id))
    {
        sigaction(SIGSEGV, &old_segv, nullptr); /* a genuine crash */
        return;
    }
    if (R.free_run)
    {
        mprotect(page_addr(id), PG, PROT_READ | PROT_WRITE);
        return;
    }
    if (id.first >= 0 && (size_t) id.second * PG >= M.used[id.first])
    {
        sigaction(SIGSEGV, &old_segv, nullptr);
        return;
    }
    if (in_lock_code((void *) u->uc_mcontext.gregs[REG_RIP]))
    {
        R.sync.insert(id);
        mprotect(page_addr(id), PG, PROT_READ | PROT_WRITE);
        return;
    }
    R.found.insert(id);
    R.progress++;
    if (!R.hot.count(id))
    {
        mprotect(page_addr(id), PG, PROT_READ | PROT_WRITE); /* noted; trapped again after the next switch */
        return;
    }
    if (R.open.empty())
    {
        int t = t_self;
        if (++R.acc[t] == R.s.at[t]) hand_over(other_of(t));
        if (R.free_run) { mprotect(page_addr(id), PG, PROT_READ | PROT_WRITE); return; }
    }
    R.open.push_back(id);
    mprotect(page_addr(id), PG, PROT_READ | PROT_WRITE);
    u->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
void on_trap(int, siginfo_t *, void *uc)
{
    ucontext_t *u = (ucontext_t *) uc;
    u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    if (!R.free_run) for (auto &p : R.open) lock_page(p);
    R.open.clear();
}
void *thread_main(void *arg)
{
    int t = (int) (long) arg;
    t_self = t;
    while (sem_wait(&R.sem[t]) && errno == EINTR) {}
    void *h = nullptr;
    const Prog &p = *R.p[t];
    for (size_t k = 0; k < p.steps.size(); k++)
    {
        const Step &s = p.steps[k];
        Res r;
        if (s.kind == 0) r.ret = g_L->create_ex(192, 64, p.cfg.fmt, p.cfg.create_flags(), &h);
        else if (s.kind == 2) r.ret = g_L->destroy(h);
        else
        {
            const Args &a = *s.a;
            int bytes = a.cap;
            r.ret = g_L->encode_ex(h, (char *) g_out[t], &bytes, (const char *) a.buf, a.w, a.h, a.stride, a.rects.data(), (int) a.rects.size(), a.tiles.data(), (int) a.tiles.size(),
                                   (const char *) a.quants, a.nquants, a.flags);
            if (r.ret >= 0 && bytes >= 0 && bytes <= a.cap) r.out.assign(g_out[t], g_out[t] + bytes);
            else r.bytes = r.ret >= 0 ? bytes : 0;
        }
        R.out[t].push_back(r);
        R.progress++;
        if (!R.s.order.empty() && k + 1 < p.steps.size())
        {
            int nx = R.opos < R.s.order.size() ? R.s.order[R.opos++] : t;
            if (nx != t) hand_over(nx);
        }
    }
    R.done[t] = 1;
    int nx = !R.s.order.empty() && R.opos < R.s.order.size() ? R.s.order[R.opos++] : other_of(t);
    if (nx != t && !R.free_run)
    {
        R.progress++;
        apply(nx);
        sem_post(&R.sem[nx]);
    }
    return nullptr;
}
/* run the programs under a schedule from the library's initial state; false: a thread got stuck */
bool execute(Lib &L, int n, const Prog *const *p, const Sched &s, const std::set<PageId> &hot)
{
    mem_init(L);
    g_L = &L;
    static bool init;
    if (!init)
    {
        init = true;
        for (int t = 0; t < NT; t++) g_out[t] = (uint8_t *) malloc(4 * 1024 * 1024 + 64);
    }
    unlock_all();
    for (size_t k = 0; k < M.statics.size(); k++) memcpy(M.statics[k].lo, M.pristine[k].data(), PG);
    R.n = n;
    R.s = s;
    R.hot = hot;
    R.found.clear();
    R.sync.clear();
    R.open.clear();
    R.progress = 0;
    R.free_run = 0;
    R.opos = 1;
    for (int t = 0; t < NT; t++)
    {
        R.p[t] = t < n ? p[t] : nullptr;
        R.out[t].clear();
        R.acc[t] = 0;
        R.done[t] = t >= n;
        M.used[t] = 0;
        M.bsize[t].clear();
        sem_init(&R.sem[t], 0, 0);
    }
    L.hooks->alloc = ar_alloc;
    L.hooks->resize = ar_resize;
    L.hooks->release = ar_release;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigemptyset(&sa.sa_mask);
    sa.sa_sigaction = on_segv;
    sigaction(SIGSEGV, &sa, &old_segv);
    sa.sa_sigaction = on_trap;
    sigaction(SIGTRAP, &sa, &old_trap);
    pthread_t th[NT];
    for (int t = 0; t < n; t++) if (pthread_create(&th[t], nullptr, thread_main, (void *) (long) t)) _exit(3);
    for (auto &r : M.statics) mprotect(r.lo, PG, PROT_READ);
    int first = s.order.empty() ? s.start : s.order[0];
    apply(first);
    sem_post(&R.sem[first]);
    /* a thread waiting for a lock the other one holds: let everything run freely */
    bool stuck = false;
    long last = -1;
    double quiet = 0;
    for (int t = 0; t < n; t++)
    {
        for (;;)
        {
            struct timespec ts;
            clock_gettime(CLOCK_REALTIME, &ts);
            ts.tv_nsec += 250000000;
            if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; }
            if (pthread_timedjoin_np(th[t], nullptr, &ts) == 0) break;
            if (R.progress != last) { last = R.progress; quiet = 0; continue; }
            quiet += 0.25;
            if (quiet >= 3 && !R.free_run)
            {
                R.free_run = 1;
                stuck = true;
                unlock_all();
                for (int u = 0; u < n; u++) sem_post(&R.sem[u]);
            }
        }
    }
    unlock_all();
    sigaction(SIGSEGV, &old_segv, nullptr);
    sigaction(SIGTRAP, &old_trap, nullptr);
    for (int t = 0; t < NT; t++) sem_destroy(&R.sem[t]);
    L.hooks->alloc = nullptr;
    L.hooks->resize = nullptr;
    L.hooks->release = nullptr;
    for (int t = 0; t < NT; t++) if (M.used[t]) madvise(M.arena[t], M.used[t], MADV_DONTNEED);
    return !stuck;
}

/* ------------------------------------------------------------------ programs */
enum { NCFG = 61 };
const Prog &prog(int cf, int side, int calls)
{
    static std::map<std::tuple<int, int, int>, Prog> memo;
    static std::vector<std::unique_ptr<Scene>> scenes;
    static std::vector<std::unique_ptr<Args>> argv;
    auto key = std::make_tuple(cf, side, calls);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    Prog &p = memo[key];
    p.cfg = all_cfgs()[cf];
    p.steps.push_back({0, nullptr});
    for (int k = 0; k < calls; k++)
    {
        Args a;
        if (p.cfg.pro)
        {
            static const int W[3][3] = {{0, 1, 8}, {3, 1, 6}, {4, 5, 2}};
            a = op_args(hist_ops()[W[side][k]]);
        }
        else
        {
            static const int N[3][3] = {{2, 1, 2}, {1, 2, 1}, {1, 1, 2}}, C[3][3] = {{2, 5, 1}, {1, 3, 2}, {5, 2, 0}};
            scenes.emplace_back(new Scene(p.cfg, N[side][k], C[side][k], 1 + (side + k) % 3, k, 64 - 7 * side, 64 - 11 * k, side));
            a = scenes.back()->args();
            if (side < 2 && k == 1) a.nquants = 0, a.quants = nullptr;
            if (side < 2 && k == 1) for (auto &t : a.tiles) t.quant_y = t.quant_cb = t.quant_cr = 0;
        }
        argv.emplace_back(new Args(a));
        p.steps.push_back({1, argv.back().get()});
    }
    p.steps.push_back({2, nullptr});
    return p;
}
/* feature level both threads see; a per-encoder level would itself be a race of the harness */
int level_of(int a, int b) { return std::max(all_cfgs()[a].acc, all_cfgs()[b].acc); }

const std::vector<Res> &solo_run(Lib &L, const Prog &p, int level, std::set<PageId> *found = nullptr)
{
    static std::map<std::pair<const Prog *, int>, std::pair<std::vector<Res>, std::set<PageId>>> memo;
    auto key = std::make_pair(&p, level);
    auto it = memo.find(key);
    if (it == memo.end())
    {
        const Prog *pp[1] = {&p};
        force_cpu(L, level);
        execute(L, 1, pp, Sched(), {});
        force_cpu(L, -1);
        it = memo.emplace(key, std::make_pair(R.out[0], R.found)).first;
    }
    if (found) found->insert(it->second.second.begin(), it->second.second.end());
    return it->second.first;
}
void judge(Ctx &c, int t, const std::vector<Res> &got, const std::vector<Res> &want, const char *how)
{
    for (size_t k = 0; k < want.size(); k++)
    {
        if (k >= got.size()) c.fail("%s: thread %d made %d of %d calls", how, t, (int) got.size(), (int) want.size());
        const Res &g = got[k], &w = want[k];
        if (g.ret != w.ret || g.bytes != w.bytes) c.fail("%s: thread %d: step %d returns %d, alone %d", how, t, (int) k, g.ret, w.ret);
        std::string d = diff_bytes(g.out, w.out);
        if (!d.empty()) c.fail("%s: thread %d: message of step %d is not the one it obtains alone: %s", how, t, (int) k, d.c_str());
    }
}
double mono()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
/* the numbers 1..n in an order that spreads quickly and favours no residue (golden-ratio steps) */
std::vector<long> spread(long n)
{
    std::vector<long> v;
    if (n < 1) return v;
    long step = std::max(1l, (long) (n * 0.6180339887));
    while (std::__gcd(step, n) != 1) step++;
    long r = n / 3;
    for (long k = 0; k < n; k++, r = (r + step) % n) v.push_back(r + 1);
    return v;
}
/* all schedules of two programs up to two preemptions */
void explore_pair(Ctx &c, Lib &L, int a, int b, int calls, double limit)
{
    const Prog *pp[NT] = {&prog(a, 0, calls), &prog(b, 1, calls), nullptr};
    int level = level_of(a, b);
    std::set<PageId> found;
    const std::vector<Res> *want[2] = {&solo_run(L, *pp[0], level, &found), &solo_run(L, *pp[1], level, &found)};
    double t0 = mono();
    /* keep statics only: blocks are numbered by owner, found in the pair runs below */
    std::set<PageId> hot;
    for (auto &f : found) if (f.first < 0) hot.insert(f);
    auto go = [&](const Sched &s) {
        force_cpu(L, level);
        bool ok = execute(L, 2, pp, s, hot);
        force_cpu(L, -1);
        if (!ok) c.aux++;
        c.evals++;
        c.traces++;
        c.transitions += R.progress;
        char how[160];
        snprintf(how, sizeof how, "%s starts%s%s", s.start ? "thread 1" : "thread 0", s.at[s.start] ? ref::fmt(", preempted at its shared access %ld", s.at[s.start]).c_str() : "",
                 s.at[1 - s.start] ? ref::fmt(", the other at its access %ld", s.at[1 - s.start]).c_str() : "");
        for (int t = 0; t < 2; t++) judge(c, t, R.out[t], *want[t], how);
        uint64_t h = 1469598103934665603ull;
        for (int t = 0; t < 2; t++) for (auto &r : R.out[t]) h = (h ^ ref::hash_bytes(r.out.data(), r.out.size())) * 1099511628211ull;
        c.outcome(h);
        c.state(((((uint64_t) a * 64 + b) * 2 + s.start) << 44) ^ ((uint64_t) s.at[0] << 22) ^ s.at[1]);
    };
    /* sequential schedules; blocks reached from the other thread become scheduling points too */
    long N[2] = {0, 0};
    for (int rep = 0; rep < 4; rep++)
    {
        size_t before = hot.size();
        for (int s = 0; s < 2; s++)
        {
            Sched q;
            q.start = s;
            go(q);
            N[s] = R.acc[s];
            for (auto &f : R.found) hot.insert(f);
        }
        if (hot.size() == before) break;
    }
    if (hot.empty()) return; /* nothing mutable is shared: every interleaving is one of the above */
    int over = 0; /* on a slow machine some schedules are explored all the same */
    std::vector<long> ord[2] = {spread(N[0]), spread(N[1])};
    for (size_t k = 0; k < std::max(ord[0].size(), ord[1].size()); k++)
        for (int s = 0; s < 2; s++)
        {
            if (k >= ord[s].size()) continue;
            if (mono() - t0 > limit && ++over > 24) { c.capped = true; return; }
            Sched q;
            q.start = s;
            q.at[s] = ord[s][k];
            go(q);
            for (auto &f : R.found) hot.insert(f);
        }
    for (size_t k = 0; k < std::max(ord[0].size(), ord[1].size()); k++)
        for (size_t m = 0; m < std::max(ord[0].size(), ord[1].size()); m++)
            for (int s = 0; s < 2; s++)
            {
                if (k >= ord[s].size() || m >= ord[1 - s].size()) continue;
                if (mono() - t0 > limit && ++over > 24) { c.capped = true; return; }
                Sched q;
                q.start = s;
                q.at[s] = ord[s][k];
                q.at[1 - s] = ord[1 - s][m];
                go(q);
            }
}
const int PC[9] = {60, 0, 5, 14, 23, 31, 42, 50, 57};

} /* namespace */

CHECK_DEF(C13)
{
    bool th = !K.quick();
    K.rule = "Real threads, one running at a time, each create, use and destroy an encoder of the real library; every access to memory that two threads can reach (the library's writable data, heap blocks of another thread) faults and is a scheduling point. States are positions of a schedule, transitions the scheduling steps executed, traces complete schedules compared byte for byte with each thread's solo run.";
    K.assumptions.push_back("sequentially consistent memory; the C library's own functions are thread safe");
    K.assumptions.push_back("memory the library maps other than by malloc, calloc, realloc, memalign or its data segment is not tracked");
    int np = th ? 61 : 9;
    auto cfg = [th](int k) { return th ? k : PC[k]; };
    K.add("preemptions", (uint64_t) np * np, [np, cfg, th](Ctx &c, uint64_t i) {
        explore_pair(c, lib(), cfg(i % np), cfg((int) (i / np)), 3, th ? 12 : 6);
    }, [np, cfg](uint64_t i) { return case_name("threads %s / %s, schedules with up to two preemptions at shared accesses", all_cfgs()[cfg(i % np)].name().c_str(), all_cfgs()[cfg((int) (i / np))].name().c_str()); });
    K.fams.back().case_limit = 120;
    K.add("preemptions-portable", 9, [](Ctx &c, uint64_t i) {
        static const int A[9] = {60, 0, 30, 57, 12, 60, 48, 6, 36}, B[9] = {60, 0, 39, 48, 3, 57, 60, 9, 33};
        explore_pair(c, lib("nosimd"), A[i], B[i], 3, 5);
    }, [](uint64_t i) { return case_name("portable build, pair %d", (int) i); });
    K.fams.back().case_limit = 120;
    /* compiled without optimisation, every access the source makes to a shared variable is made */
    K.add("preemptions-unoptimised", (uint64_t) np * np, [np, cfg, th](Ctx &c, uint64_t i) {
        explore_pair(c, lib("o0"), cfg(i % np), cfg((int) (i / np)), 3, th ? 12 : 5);
    }, [np, cfg](uint64_t i) { return case_name("unoptimised build, threads %s / %s, schedules with up to two preemptions at shared accesses", all_cfgs()[cfg(i % np)].name().c_str(), all_cfgs()[cfg((int) (i / np))].name().c_str()); });
    K.fams.back().case_limit = 120;
    static std::vector<std::vector<int>> I2, I3;
    if (I2.empty())
    {
        std::vector<int> v = {0, 0, 0, 0, 0, 1, 1, 1, 1, 1};
        do I2.push_back(v); while (std::next_permutation(v.begin(), v.end()));
        v = {0, 0, 0, 1, 1, 1, 2, 2, 2};
        do I3.push_back(v); while (std::next_permutation(v.begin(), v.end()));
    }
    K.add("calls-2-threads", 81ull * I2.size(), [](Ctx &c, uint64_t i) {
        int p = (int) (i / I2.size()), a = PC[p % 9], b = PC[p / 9], level = level_of(a, b);
        Lib &L = lib();
        const Prog *pp[2] = {&prog(a, 0, 3), &prog(b, 1, 3)};
        const std::vector<Res> *want[2] = {&solo_run(L, *pp[0], level), &solo_run(L, *pp[1], level)};
        Sched s;
        s.order = I2[i % I2.size()];
        force_cpu(L, level);
        if (!execute(L, 2, pp, s, {})) c.aux++;
        force_cpu(L, -1);
        for (int t = 0; t < 2; t++) judge(c, t, R.out[t], *want[t], "interleaved calls");
        c.evals++;
        c.traces++;
        c.transitions += 10;
        int x = 0, y = 0;
        for (int t : s.order) { (t ? y : x)++; c.state(((uint64_t) p << 16 | x << 8 | y) + (1ull << 60)); }
        c.outcome(i);
    }, [](uint64_t i) {
        std::string s;
        for (int t : I2[i % I2.size()]) s += '0' + t;
        int p = (int) (i / I2.size());
        return case_name("threads %s / %s, calls in order %s", all_cfgs()[PC[p % 9]].name().c_str(), all_cfgs()[PC[p / 9]].name().c_str(), s.c_str());
    });
    int n3 = th ? 12 : 3;
    K.add("calls-3-threads", n3 * (uint64_t) I3.size(), [](Ctx &c, uint64_t i) {
        int q = (int) (i / I3.size());
        int cf[3] = {PC[(q * 4) % 9], PC[(q * 5 + 3) % 9], PC[(q + 6) % 9]};
        int level = std::max(level_of(cf[0], cf[1]), all_cfgs()[cf[2]].acc);
        Lib &L = lib();
        const Prog *pp[3];
        const std::vector<Res> *want[3];
        for (int t = 0; t < 3; t++) { pp[t] = &prog(cf[t], t, 1); want[t] = &solo_run(L, *pp[t], level); }
        Sched s;
        s.order = I3[i % I3.size()];
        force_cpu(L, level);
        if (!execute(L, 3, pp, s, {})) c.aux++;
        force_cpu(L, -1);
        for (int t = 0; t < 3; t++) judge(c, t, R.out[t], *want[t], "interleaved calls");
        c.evals++;
        c.traces++;
        c.transitions += 9;
        c.outcome(i);
    }, [](uint64_t i) {
        std::string s;
        for (int t : I3[i % I3.size()]) s += '0' + t;
        return case_name("three threads, set %d, calls in order %s", (int) (i / I3.size()), s.c_str());
    });
}
