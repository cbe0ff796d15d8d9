/* Explorer framework: exhaustive enumeration of indexed case spaces against the
 * real library, in forked workers, with replay. */
#pragma once
#include "ref.h"
#include <functional>
#include <unordered_set>
#include <stdexcept>
extern "C" {
#include <rfxcodec_common.h>
#include <rfxcodec_encode.h>
}

struct mc_hooks
{
    void *(*alloc)(size_t align, size_t n, int zero);
    void *(*resize)(void *p, size_t n);
    int (*release)(void *p);
    int cpuid_force;
    int cpuid_cx, cpuid_dx, cpuid_ext_cx;
    char own_page[4096 - 3 * sizeof(void *) - 4 * sizeof(int)];
};

struct Lib
{
    std::string name;
    void *dl;
    void *(*create)(int, int, int, int);
    int (*create_ex)(int, int, int, int, void **);
    int (*destroy)(void *);
    int (*encode)(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int,
                  const struct rfx_tile *, int, const char *, int);
    int (*encode_ex)(void *, char *, int *, const char *, int, int, int, const struct rfx_rect *, int,
                     const struct rfx_tile *, int, const char *, int, int);
    int (*get_internals)(struct rfxcodec_encode_internals *);
    mc_hooks *hooks;
    struct rfxcodec_encode_internals in;
    const struct link_map *map;
};
/* "accel" (production build), "nosimd" (portable build), "asan" (production + address sanitizer) */
Lib &lib(const char *variant = "accel");
bool have_lib(const char *variant);

struct Fail
{
    std::string msg;
};

enum Tier { QUICK, THOROUGH };

struct Ctx
{
    uint64_t evals = 0, transitions = 0, traces = 0, aux = 0;
    std::unordered_set<uint64_t> outcomes, states;
    bool replay = false;
    bool capped = false; /* a bound was cut short: do not claim exhaustiveness */
    bool in_asan = false;
    std::string note;
    void outcome(uint64_t h) { if (outcomes.size() < 3000000) outcomes.insert(h); }
    void state(uint64_t h) { if (states.size() < 3000000) states.insert(h); }
    [[noreturn]] void fail(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void req(const std::string &e) { if (!e.empty()) throw Fail{e}; }
};

struct Family
{
    std::string name;
    uint64_t n;
    std::function<void(Ctx &, uint64_t)> run;
    std::function<std::string(uint64_t)> describe;
    double case_limit = 20; /* seconds before a case is suspected to hang */
    bool asan = false;      /* run under the address-sanitised explorer */
};
struct Check
{
    std::string id;
    Tier tier;
    std::vector<Family> fams;
    std::string rule;     /* how cases are made, what makes them non-trivial */
    std::vector<std::string> assumptions;
    bool capped = false;  /* a cap was hit: do not claim exhaustiveness */
    bool quick() const { return tier == QUICK; }
    void add(const std::string &name, uint64_t n, std::function<void(Ctx &, uint64_t)> run,
             std::function<std::string(uint64_t)> describe = nullptr)
    {
        Family f;
        f.name = name;
        f.n = n;
        f.run = run;
        f.describe = describe;
        fams.push_back(f);
    }
};
typedef void (*CheckFn)(Check &);
struct Reg
{
    Reg(const char *id, CheckFn fn);
};
#define CHECK_DEF(ID) static void build_##ID(Check &); static Reg reg_##ID(#ID, build_##ID); static void build_##ID(Check &K)

/* mixed-radix decoding of a case index */
struct Dim
{
    uint64_t i;
    explicit Dim(uint64_t idx) : i(idx) {}
    int next(uint64_t n) { int r = (int) (i % n); i /= n; return r; }
};

/* ----------------------------------------------------------- guarded memory */
/* A block of exactly n bytes that ends (or starts) at an inaccessible page. */
class Guard
{
public:
    Guard(size_t cap);
    ~Guard();
    uint8_t *at_end(size_t n);      /* overrun faults */
    uint8_t *at_start(size_t n);    /* underrun faults */
    uint8_t *at_end_off(size_t n, size_t slack); /* leaves slack bytes before the guard */
    void readonly(bool ro);
    uint8_t *base() const { return lo; }
    size_t capacity() const { return cap; }
private:
    uint8_t *map, *lo;
    size_t total, cap;
    Guard(const Guard &);
};
Guard &out_guard();   /* 8 MB output area, per process */

/* ------------------------------------------------------------- encoder calls */
struct Args
{
    const uint8_t *buf = nullptr;
    int w = 64, h = 64, stride = 256;
    std::vector<rfx_rect> rects;
    std::vector<rfx_tile> tiles;
    const uint8_t *quants = nullptr;
    int nquants = 0;
    int flags = 0;
    int cap = 4 * 1024 * 1024;
};
struct Res
{
    int ret = 0, bytes = 0;
    ref::Bytes out;
};
struct Enc
{
    Lib *L;
    void *h = nullptr;
    int w, ht, format, flags;
    Enc(Lib &l, int w, int h, int format, int flags);
    ~Enc();
    bool pro() const { return (flags & RFX_FLAGS_PRO1) != 0; }
    int variant() const { return (flags & RFX_FLAGS_RLGR1) ? 1 : 3; }
    Res call(const Args &a, int prefill = -1, bool plain = false);
private:
    Enc(const Enc &);
};
inline int bpp(int format) { return format == RFX_FORMAT_BGR || format == RFX_FORMAT_RGB ? 3 : 4; }
rfx_tile mk_tile(int x, int y, int cx = 64, int cy = 64, int qy = 0, int qcb = 0, int qcr = 0);
rfx_rect mk_rect(int x, int y, int cx, int cy);

/* expected component planes of a tile (Y, Cb, Cr, alpha), from the caller's arguments */
struct Planes { uint8_t p[4][4096]; };
void expected_planes(int format, const Args &a, const rfx_tile &t, Planes &out);

/* message parse + echo of the caller's parameters (C02) */
std::string parse_msg(const Enc &e, const Res &r, ref::Msg &m);
std::string check_echo(const Enc &e, const Args &a, const Res &r, const ref::Msg &m);
/* classic payloads against the forward model */
std::string check_payload(const Enc &e, const Args &a, const Res &r, const ref::Msg &m, bool alpha_too = true);
/* everything for a classic message */
std::string verify_classic(const Enc &e, const Args &a, const Res &r, ref::Msg *out = nullptr);
/* bytes of tile i */
inline uint64_t tile_hash(const Res &r, const ref::Tile &t) { return ref::hash_bytes(r.out.data() + t.off, t.len); }
std::string diff_bytes(const ref::Bytes &a, const ref::Bytes &b);

/* allocation control */
struct AllocCtl
{
    static void install(Lib &l);          /* route the library's allocations here */
    static void uninstall(Lib &l);
    static void reset();
    static long live_blocks, live_bytes, count;
    static long fail_at[2];               /* ordinals (1-based) that fail, 0 = none */
    static long failed;
    static long bad_free;
    static int junk;                      /* byte for uninitialised memory, -1 none */
    static int shift;                     /* extra 16-byte shift of every block */
};

/* picture generators */
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ULL + 0x1234567) {} uint32_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (uint32_t) (s >> 16); } };
void fill_noise(uint8_t *p, size_t n, uint64_t seed);
std::string case_name(const char *f, ...) __attribute__((format(printf, 1, 2)));

/* CPU feature report for encoders created afterwards: 0 none, 1 SSE2, 2 SSE2+SSE4.1, -1 the real CPU */
void force_cpu(Lib &l, int level);
