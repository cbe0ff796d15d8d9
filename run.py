#!/usr/bin/env python3
"""Builds the library from /repo's working tree and the explorer, runs one check.

usage: run.py ID            run the check (tier from VERIF_TIER, default quick)
       run.py --build       build only (setup)
       run.py ID --replay F replay a recorded violation
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
MC = os.path.join(HERE, "mc")
REPLAY = os.path.join(HERE, "replay")
WRAPS = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "memalign", "strdup", "cpuid_amd64"]

LEVELS = {
    "C01": "fault_enumeration", "C02": "exploration", "C03": "model_checking", "C04": "exploration",
    "C05": "exploration", "C06": "exploration", "C07": "exploration", "C08": "exploration",
    "C09": "model_checking", "C10": "fault_enumeration", "C11": "model_checking", "C12": "model_checking",
    "C13": "model_checking", "C14": "fault_enumeration", "C15": "fault_enumeration", "C16": "exploration",
    "C17": "exploration", "C18": "exploration",
}
ASAN_CHECKS = {"C01", "C15"}
X32_CHECKS = {"C04"}
O0_CHECKS = {"C13"}
NPROC = os.cpu_count() or 4


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
        raise SystemExit(2)
    return r.stdout


def sources(sub):
    """C and asm files of a library directory: those its Makefile.am names, else all present."""
    d = os.path.join(REPO, "src", sub)
    present = {os.path.basename(p) for p in glob.glob(d + "/*.c") + glob.glob(d + "/*.asm")}
    named = set()
    try:
        named = set(re.findall(r"[\w./+-]+\.(?:c|asm)\b", open(os.path.join(d, "Makefile.am")).read()))
    except OSError:
        pass
    use = (named & present) or present
    use.discard("common.asm")
    return [os.path.join(d, f) for f in sorted(use)]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def repo_files():
    out = []
    for root in ("src", "include"):
        for dp, dn, fn in os.walk(os.path.join(REPO, root)):
            out += [os.path.join(dp, f) for f in fn if f.endswith((".c", ".h", ".asm", ".am"))]
    return out


VARIANTS = {
    "accel": dict(cc="gcc", cflags=["-O2", "-g"], simd=True),
    "nosimd": dict(cc="gcc", cflags=["-O2", "-g"], simd=False),
    "o0": dict(cc="gcc", cflags=["-O0", "-g"], simd=True),
    "asan": dict(cc="gcc", cflags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], simd=True),
}


def build_lib(variant, outdir, pool):
    v = VARIANTS[variant]
    od = os.path.join(outdir, "obj_" + variant)
    os.makedirs(od, exist_ok=True)
    srcs = [s for s in sources(".") if s.endswith(".c")]
    defs = []
    if v["simd"]:
        srcs += sources("amd64")
        defs = ["-DSIMD_USE_ACCEL=1", "-DRFX_USE_ACCEL_AMD64=1"]
    srcs.append(os.path.join(MC, "shim.c"))
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(od, os.path.basename(s) + ".o")
        objs.append(o)
        if s.endswith(".asm"):
            cmd = ["nasm", "-f", "elf64", "-DELF", "-DPIC", "-DASM_ARCH_AMD64", "-I" + REPO + "/src/", "-I" + os.path.dirname(s) + "/", s, "-o", o]
        else:
            cf_ = v["cflags"] if not s.endswith("shim.c") else ["-O2"]
            cmd = [v["cc"], "-fPIC", "-w"] + cf_ + defs + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-c", s, "-o", o]
        jobs.append(pool.submit(sh, cmd))
    return jobs, objs


def link_lib(variant, outdir, objs):
    v = VARIANTS[variant]
    so = os.path.join(outdir, "librfx_%s.so" % variant)
    sh([v["cc"], "-shared", "-o", so] + (["-fsanitize=address"] if variant == "asan" else []) +
       ["-Wl,-z,now", "-Wl,-z,relro", "-Wl,-z,noexecstack", "-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + w for w in WRAPS] + objs + ["-lm"])


def build_generic(outdir, pool):
    """The sources' fallbacks for unknown architectures and compilers, compiled here.  Optional like build_x32."""
    od = os.path.join(outdir, "obj_generic")
    os.makedirs(od, exist_ok=True)

    def run(cmd):
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    jobs, objs = [], []
    for s in [s for s in sources(".") if s.endswith(".c")] + [os.path.join(MC, "shim.c")]:
        o = os.path.join(od, os.path.basename(s) + ".o")
        objs.append(o)
        inc = [] if s.endswith("shim.c") else ["-include", os.path.join(MC, "generic", "generic.h")]
        jobs.append(pool.submit(run, ["gcc", "-O2", "-g", "-w", "-fPIC"] + inc + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-c", s, "-o", o]))
    so = os.path.join(outdir, "librfx_generic.so")
    if all([j.result() for j in jobs]):
        if not run(["gcc", "-shared", "-o", so, "-Wl,-z,now", "-Wl,-z,defs", "-Wl,-Bsymbolic"] + ["-Wl,--wrap=" + w for w in WRAPS] + objs + ["-lm"]) and os.path.exists(so):
            os.unlink(so)
    open(os.path.join(outdir, "generic.ok"), "w").close()


X32_INC = os.path.join(MC, "x32")


def build_x32(outdir, pool):
    """The i386 build inside a freestanding server process (there is no 32-bit C library here).  Optional: where it
    cannot be built or run, C04 says so and leaves its 32-bit families out."""
    od = os.path.join(outdir, "obj_x32")
    os.makedirs(od, exist_ok=True)
    base = ["gcc", "-m32", "-O2", "-g", "-w", "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-U_FORTIFY_SOURCE", "-fno-tree-loop-distribute-patterns",
            "-DSIMD_USE_ACCEL=1", "-DRFX_USE_ACCEL_X86=1", "-I" + X32_INC + "/inc", "-idirafter", "/usr/include/x86_64-linux-gnu",
            "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + X32_INC]

    def run(cmd):
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    jobs, cobjs, aobjs = [], [], {"": [], "pic": []}
    for s in [s for s in sources(".") if s.endswith(".c")] + sources("x86") + [os.path.join(X32_INC, "server.c")]:
        o = os.path.join(od, os.path.basename(s))
        if s.endswith(".asm"):
            for k in aobjs:
                aobjs[k].append(o + k + ".o")
                jobs.append(pool.submit(run, ["nasm", "-f", "elf32", "-DELF", "-DASM_ARCH_I386", "-I" + REPO + "/src/", "-I" + os.path.dirname(s) + "/", s, "-o", o + k + ".o"] + (["-DPIC"] if k else [])))
        else:
            cobjs.append(o + ".o")
            jobs.append(pool.submit(run, base + ["-c", s, "-o", o + ".o"]))
    if all([j.result() for j in jobs]):
        for k in aobjs:
            exe = os.path.join(outdir, "x32" + k)
            if not run(["gcc", "-m32", "-nostdlib", "-static", "-no-pie", "-Wl,--build-id=none", "-Wl,-z,noexecstack", "-Wl,--wrap=cpuid_x86", "-o", exe] + cobjs + aobjs[k]) and os.path.exists(exe):
                os.unlink(exe)
    open(os.path.join(outdir, "x32.ok"), "w").close()


def build_mc(asan, pool):
    """The explorer does not depend on the library's sources apart from the public headers."""
    srcs = sorted(glob.glob(MC + "/*.cpp"))
    hdrs = glob.glob(MC + "/*.h") + glob.glob(MC + "/x32/*.h") + glob.glob(REPO + "/include/*.h")
    flags = ["-std=c++17", "-O2", "-g1", "-w", "-I" + REPO + "/include"]
    if asan:
        flags += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    od = os.path.join(BUILD, "mc_asan" if asan else "mc_plain")
    os.makedirs(od, exist_ok=True)
    jobs, objs, dirty = [], [], False
    for s in srcs:
        key = tree_hash([s] + hdrs)
        o = os.path.join(od, os.path.basename(s) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            dirty = True
            for old in glob.glob(os.path.join(od, os.path.basename(s) + ".*.o")):
                os.unlink(old)
            def comp(s=s, o=o):
                sh(["g++"] + flags + ["-c", s, "-o", o + ".tmp"])
                os.rename(o + ".tmp", o)
            jobs.append(pool.submit(comp))
    return od, jobs, objs, dirty


def link_mc(od, objs, dirty, asan):
    exe = os.path.join(od, "mc")
    if dirty or not os.path.exists(exe):
        sh(["g++", "-o", exe] + (["-fsanitize=address"] if asan else []) + objs + ["-ldl", "-lpthread"])
    return exe


def build(need_asan, need_x32, need_o0):
    os.makedirs(BUILD, exist_ok=True)
    for d in (REPO + "/src", REPO + "/include"):
        if not os.path.isdir(d):
            sys.stderr.write("no %s\n" % d)
            raise SystemExit(2)
    key = tree_hash(repo_files() + [os.path.join(MC, "shim.c"), os.path.join(X32_INC, "server.c"), os.path.join(X32_INC, "proto.h"), os.path.join(MC, "generic", "generic.h"), os.path.abspath(__file__)])
    outdir = os.path.join(BUILD, "lib_" + key)
    exes = {}
    with cf.ThreadPoolExecutor(NPROC) as pool:
        vs = ["accel", "nosimd"] + (["asan"] if need_asan else []) + (["o0"] if need_o0 else [])
        todo = [v for v in vs if not os.path.exists(os.path.join(outdir, v + ".ok"))]
        for old in glob.glob(BUILD + "/lib_*"):
            if old != outdir:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(outdir, exist_ok=True)
        lj = [(v,) + build_lib(v, outdir, pool) for v in todo]
        mj = [(a,) + build_mc(a, pool) for a in ([False, True] if need_asan else [False])]
        for v, jobs, objs in lj:
            for j in jobs:
                j.result()
            link_lib(v, outdir, objs)
            open(os.path.join(outdir, v + ".ok"), "w").close()
        if need_x32 and not os.path.exists(os.path.join(outdir, "x32.ok")):
            build_x32(outdir, pool)
            build_generic(outdir, pool)
        for a, od, jobs, objs, dirty in mj:
            for j in jobs:
                j.result()
            exes[a] = link_mc(od, objs, dirty, a)
    return outdir, exes


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    try:
        return [f for f in json.load(open(path))["findings"] if f["property"] == pid and f.get("status") == "known"]
    except (OSError, KeyError):
        return []


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build":
        build(True, True, True)
        print("built")
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    need_asan = pid in ASAN_CHECKS
    outdir, exes = build(need_asan, pid in X32_CHECKS, pid in O0_CHECKS)
    tmp = tempfile.mkdtemp(prefix="mc_", dir=BUILD)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=1:detect_odr_violation=0"
    env["VERIF_SEED"] = str(seed)
    try:
        if "--replay" in args:
            rp = json.load(open(args[args.index("--replay") + 1]))
            exe = exes[bool(rp.get("asan"))]
            cmd = [exe, pid, "--tier", rp["tier"], "--libdir", outdir, "--tmp", tmp, "--family", rp["family"], "--idx", str(rp["idx"])]
            if rp.get("asan"):
                cmd.append("--asan")
            if rp["first"] >= 0:
                cmd += ["--first", str(rp["first"]), "--step", str(rp["step"])]
            return subprocess.call(cmd, env=env)
        results = []
        for a in ([False, True] if need_asan else [False]):
            rj = os.path.join(tmp, "result.json")
            if os.path.exists(rj):
                os.unlink(rj)
            cmd = [exes[a], pid, "--tier", tier, "--libdir", outdir, "--tmp", tmp, "--out", rj, "--workers", str(NPROC)]
            if a:
                cmd.append("--asan")
            for extra in ("--family", "--budget"):
                if extra in args:
                    cmd += [extra, args[args.index(extra) + 1]]
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if not os.path.exists(rj):
                sys.stderr.write(p.stderr.decode(errors="replace")[-4000:])
                sys.stderr.write("explorer produced no result (exit %d)\n" % p.returncode)
                return 2
            r = json.load(open(rj))
            err = p.stderr.decode(errors="replace")
            r["stderr"] = err[-3000:]
            if os.environ.get("MC_DEBUG"):
                sys.stderr.write(err)
            results.append(r)
            if r["violation"]:
                break
            if r["internal"]:
                sys.stderr.write("explorer error: %s\n%s\n" % (r["internal"], err[-3000:]))
                return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    wall = time.time() - t0
    viol = next((r["violation"] for r in results if r["violation"]), None)
    fams = [f for r in results for f in r["families"]]
    ev = sum(r["evaluations"] for r in results)
    samples = [s for r in results for s in r["samples"]]
    exhaustive = not any(r["capped"] for r in results)
    level = LEVELS[pid]
    cov = {"families": fams, "samples": samples[:40], "rule": results[0]["rule"], "exhaustive": exhaustive,
           "evaluations": ev, "distinct_nontrivial": sum(r["distinct"] for r in results)}
    if level == "model_checking":
        cov["states"] = sum(r["states"] for r in results)
        cov["transitions"] = sum(r["transitions"] for r in results)
        cov["traces_validated_against_impl"] = sum(r["traces"] for r in results)
    evd = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": results[0]["assumptions"], "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        os.makedirs(REPLAY, exist_ok=True)
        viol.update(property=pid, tier=tier, stderr=next(r["stderr"] for r in results if r["violation"]),
                    how="python3 /verif/run.py %s --replay <this file>" % pid)
        path = os.path.join(REPLAY, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump(viol, f, indent=1)
        print("%s: %s\n  case: %s [%s]" % (viol["family"], viol["message"], viol["case"], viol["replay"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s %s: held; %d evaluations, %d distinct, %.1f s" % (pid, tier, ev, cov["distinct_nontrivial"], wall))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BrokenPipeError:
        sys.exit(2)
