/* Client side of the 32-bit server (mc/x32/server.c): the i386 build of the library, one process per explorer worker. */
#pragma once
#include "mc.h"
#include "x32/proto.h"
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

const std::string &lib_dir();

class X32
{
public:
    explicit X32(bool pic_) : pic(pic_) {}
    /* false: there is no such build, or it does not run here */
    bool start()
    {
        if (pid > 0 && owner == getpid()) return true;
        std::string exe = lib_dir() + (pic ? "/x32pic" : "/x32");
        if (access(exe.c_str(), X_OK)) return false;
        int a[2], b[2];
        int fd = memfd_create("x32", MFD_CLOEXEC);
        if (fd < 0 || ftruncate(fd, X32_SIZE)) return false;
        mem = (uint8_t *) mmap(nullptr, X32_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (mem == MAP_FAILED || pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) return false;
        pid = fork();
        if (pid < 0) return false;
        if (pid == 0)
        {
            int x = fcntl(a[0], F_DUPFD, 100), y = fcntl(b[1], F_DUPFD, 100), z = fcntl(fd, F_DUPFD, 100);
            dup2(x, 3); dup2(y, 4); dup2(z, 5);
            close(x); close(y); close(z);
            signal(SIGPIPE, SIG_DFL);
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            execl(exe.c_str(), exe.c_str(), (char *) nullptr);
            _exit(126);
        }
        owner = getpid();
        close(a[0]); close(b[1]); close(fd);
        in = b[0]; out = a[1];
        signal(SIGPIPE, SIG_IGN);
        cmd()->op = X32_PING;
        if (!go() || cmd()->ret != 32) { stop(); return false; }
        caps = cmd()->bytes;
        return true;
    }
    void stop()
    {
        if (pid > 0)
        {
            close(in); close(out);
            kill(pid, SIGKILL);
            waitpid(pid, nullptr, 0);
            munmap(mem, X32_SIZE);
        }
        pid = -1;
    }
    x32_cmd *cmd() { return (x32_cmd *) mem; }
    uint8_t *at(int off) { return mem + off; }
    int caps = 0;
    void call(Ctx &c, const char *what)
    {
        if (!go())
        {
            int st = 0;
            waitpid(pid, &st, 0);
            close(in); close(out); munmap(mem, X32_SIZE); pid = -1;
            c.fail("the 32-bit build %s while it ran %s", WIFSIGNALED(st) ? ref::fmt("was killed by signal %d", WTERMSIG(st)).c_str() : ref::fmt("exited with %d", WEXITSTATUS(st)).c_str(), what);
        }
    }
    /* transform of a plane by routine 0 SSE2, 1 SSE4.1, 2 portable; coefficients at X32_COEF */
    const short *transform(Ctx &c, int which, const uint8_t *p, const uint8_t *q, int poff = 0, int qoff = 0)
    {
        memcpy(at(X32_PLANE + poff), p, 4096);
        memcpy(at(X32_QUANTS + qoff), q, 5);
        memset(at(X32_COEF), 0x5a, 8192);
        cmd()->op = X32_TRANSFORM;
        cmd()->arg[0] = which; cmd()->arg[1] = X32_QUANTS + qoff; cmd()->arg[2] = X32_PLANE + poff;
        call(c, "a transform");
        if (cmd()->ret) c.fail("the 32-bit transform returned %d", cmd()->ret);
        return (const short *) at(X32_COEF);
    }
    /* features as in force_features(), -1 the real CPU; returns the handle */
    int create(Ctx &c, int w, int h, int fmt, int flags, int f)
    {
        int *a = cmd()->arg;
        cmd()->op = X32_CREATE;
        a[0] = w; a[1] = h; a[2] = fmt; a[3] = flags; a[4] = f >= 0;
        a[5] = (f & 2 ? 1 : 0) | (f & 4 ? 1 << 19 : 0) | (f & 8 ? 1 << 20 : 0) | (f & 16 ? 1 << 23 : 0);
        a[6] = f & 1 ? 1 << 26 : 0;
        a[7] = (f & 32 ? 1 << 5 : 0) | (f & 64 ? 1 << 6 : 0);
        call(c, "create");
        if (cmd()->ret || cmd()->handle < 0) c.fail("creation in the 32-bit build returned %d", cmd()->ret);
        return cmd()->handle;
    }
    void destroy(Ctx &c, int h)
    {
        cmd()->op = X32_DESTROY;
        cmd()->handle = h;
        call(c, "destroy");
    }
    Res encode(Ctx &c, int h, const Args &g, size_t pixels, int prefill = -1)
    {
        int *a = cmd()->arg;
        if (pixels > (8u << 20) - 64 || g.cap > X32_OUT_SIZE) throw std::runtime_error("x32: too large");
        cmd()->op = X32_ENCODE;
        cmd()->handle = h;
        if (pixels) memcpy(at(X32_PIX), g.buf, pixels);
        memcpy(at(X32_TILES), g.tiles.data(), g.tiles.size() * sizeof(rfx_tile));
        memcpy(at(X32_RECTS), g.rects.data(), g.rects.size() * sizeof(rfx_rect));
        if (g.quants) memcpy(at(X32_QUANTS), g.quants, g.nquants * 5);
        a[0] = g.cap; a[1] = g.w; a[2] = g.h; a[3] = g.stride; a[4] = (int) g.rects.size(); a[5] = (int) g.tiles.size(); a[6] = g.nquants; a[7] = g.flags; a[8] = 0; a[9] = g.quants != nullptr;
        uint8_t *o = at(X32_OUT) + X32_OUT_SIZE - g.cap;
        if (prefill >= 0) memset(o, prefill, g.cap);
        call(c, "encode");
        Res r;
        r.ret = cmd()->ret;
        r.bytes = cmd()->bytes;
        if (r.ret >= 0)
        {
            if (r.bytes < 0 || r.bytes > g.cap) throw Fail{ref::fmt("32-bit build: call returned %d and %d bytes, capacity %d", r.ret, r.bytes, g.cap)};
            r.out.assign(o, o + r.bytes);
        }
        return r;
    }
private:
    bool pic;
    pid_t pid = -1, owner = -1;
    int in = -1, out = -1;
    uint8_t *mem = nullptr;
    bool go()
    {
        char b = 1;
        if (write(out, &b, 1) != 1) return false;
        ssize_t n;
        while ((n = read(in, &b, 1)) < 0 && errno == EINTR) { }
        return n == 1;
    }
};
/* the server of this process */
inline X32 &x32(int pic) { static X32 *s[2]; if (!s[pic]) s[pic] = new X32(pic); return *s[pic]; }
