"""Builds instrumented variants of /repo's current working tree plus the monitors in /verif/harness.

Objects are cached by the hash of the preprocessed translation unit and the flags, so nothing depends
on timestamps: any change in what the compiler sees is rebuilt, anything else is reused."""
import hashlib, os, subprocess, sys, concurrent.futures as cf, fcntl, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
CXX = "g++-10"
BASE = ["-std=c++14", "-pthread", "-msse4.1", "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS",
        "-DDEBUG_CHECK_CASTS", "-w", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    # release semantics plus checked standard containers
    "opt": ["-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
             "-fno-sanitize=null,alignment,object-size,vptr", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-DNDEBUG", "-fsanitize=thread"],
    # the release flags of the project, unmodified
    "rel": ["-O2", "-DNDEBUG"],
}
LIBS = ["-lz", "-loscpack", "-pthread"]
MAINS = {"Main.cc", "cnf2aig.cc", "FuzzIpasir.cc"}


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src", "candy")):
        for f in sorted(fs):
            if f.endswith((".cc", ".cpp")) and f not in MAINS:
                out.append(os.path.join(d, f))
    return sorted(out)


def _obj(src, flags, variant):
    try:
        return _obj1(src, flags, variant)
    except RuntimeError:
        if not src.startswith(VERIF) or "VF_FALLBACK" not in open(src).read():
            raise
        return _obj1(src, flags + ["-DVF_FALLBACK"], variant)  # without the monitors that look into data structures


def _obj1(src, flags, variant):
    inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]
    cmd = [CXX] + BASE + flags + inc
    pp = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode:
        raise RuntimeError("preprocessing %s failed:\n%s" % (src, pp.stderr.decode(errors="replace")[-4000:]))
    h = hashlib.sha256((" ".join(cmd)).encode() + b"\0" + pp.stdout).hexdigest()[:32]
    d = os.path.join(BUILD, "obj", variant)
    os.makedirs(d, exist_ok=True)
    o = os.path.join(d, os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(o):
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
        os.rename(tmp, o)
    return o


def build(variant, targets):
    """targets: {output name: source of main()}; returns {name: path}. Everything links all library objects."""
    os.makedirs(BUILD, exist_ok=True)
    flags = VARIANTS[variant]
    with open(os.path.join(BUILD, ".lock." + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        libs = lib_sources()
        # the biggest translation unit first
        libs.sort(key=lambda s: (not s.endswith("CandyBuilder.cc"), s))
        order = libs[:1] + list(targets.values()) + libs[1:]
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            objs = dict(zip(order, ex.map(lambda s: _obj(s, flags, variant), order)))
        lib_objs = [objs[s] for s in lib_sources()]
        res = {}
        key = hashlib.sha256()
        for o in lib_objs:
            key.update(o.encode())
        ar = os.path.join(BUILD, "obj", variant, "lib" + key.hexdigest()[:32] + ".a")
        if not os.path.exists(ar):
            subprocess.run(["ar", "rcs", ar + ".tmp"] + lib_objs, check=True)
            os.rename(ar + ".tmp", ar)

        def link(item):
            name, src = item
            h = hashlib.sha256((objs[src] + ar).encode()).hexdigest()[:32]
            exe = os.path.join(BUILD, "bin", variant, name + "." + h)
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                tmp = exe + ".tmp%d" % os.getpid()
                r = subprocess.run([CXX] + BASE + flags + [objs[src]] + (["-Wl,-z,muldefs"] if name in ("drv_branch", "drv_effect") else []) + ["-Wl,--start-group", ar, "-Wl,--end-group"] + LIBS + ["-o", tmp],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    raise RuntimeError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
                os.rename(tmp, exe)
            return name, exe
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            res = dict(ex.map(link, targets.items()))
    return res


if __name__ == "__main__":
    v = sys.argv[1]
    t = {}
    for a in sys.argv[2:]:
        if a in ("candy", "cnf2aig"):
            t[a] = os.path.join(REPO, "src", "candy", "Main.cc" if a == "candy" else "cnf2aig.cc")
        else:
            t[a] = os.path.join(VERIF, "harness", a + ".cc")
    t0 = time.time()
    for k, p in build(v, t).items():
        print(k, p)
    print("%.1fs" % (time.time() - t0), file=sys.stderr)
