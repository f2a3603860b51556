"""Content-addressed instrumented build of the natrium library and of the harnesses.

Every translation unit of /repo/src/library is compiled on its own (clang, sanitizers on) against a
precompiled deal.II header.  An object is reused when flags, source and every header it read under
/repo or /verif are the same up to comments and blank lines, so a changed file rebuilds only what
depends on it, whatever its time stamp.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
LIBSRC = os.path.join(REPO, "src", "library")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
LEFT_OUT = {"natrium/utilities/ContinuousBoundaryGradient.cpp"}

SYSINC = [
    "/usr/lib/x86_64-linux-gnu/openmpi/include", "/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
    "/usr/include/petsc", "/usr/include/trilinos", "/usr/include/hdf5/openmpi", "/usr/include/scotch",
    "/usr/include/suitesparse", "/usr/include/opencascade", "/usr/include/slepc"]
BASE = ["-std=c++17", "-w", "-fPIC", "-gline-tables-only", "-fno-omit-frame-pointer",
        "-D_GLIBCXX_ASSERTIONS", "-DNATRIUM_VERIF"]
VARIANTS = {
    # asserts of the project on; every report is fatal; unset local variables are NaN
    "san": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
            "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    # the same with deal.II's own checks of every call (indices, sizes, states of vectors, meshes and finite elements)
    "debug": ["-O1", "-DDEBUG", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
              "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "plain": ["-O1"],
}
CXX = "/usr/bin/clang++"
LOG = []


def env():
    e = dict(os.environ)
    for k in ("LD_LIBRARY_PATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "CPLUS_INCLUDE_PATH",
              "LIBRARY_PATH", "LD_PRELOAD"):
        e.pop(k, None)
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


class BuildError(Exception):
    pass


_strip_re = re.compile(
    r'R"([^()\\\s]{0,16})\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//(?:\\\n|[^\n])*|/\*.*?\*/',
    re.S)


def _norm(text):
    text = _strip_re.sub(lambda m: " " if m.group(0).startswith("/") else m.group(0), text)
    return "\n".join(l for l in (x.strip() for x in text.split("\n")) if l)


_fh = {}


def filehash(path):
    h = _fh.get(path)
    if h is None:
        try:
            with open(path, encoding="latin-1") as f:
                h = hashlib.sha256(_norm(f.read()).encode("latin-1")).hexdigest()
        except OSError:
            h = "missing"
        _fh[path] = h
    return h


def rel(p):
    p = os.path.realpath(p) if not p.startswith(REPO) else p
    if p.startswith(REPO + "/"):
        return "@repo/" + p[len(REPO) + 1:]
    if p.startswith(VERIF + "/"):
        return "@verif/" + p[len(VERIF) + 1:]
    return p


def absp(p):
    if p.startswith("@repo/"):
        return REPO + p[5:]
    if p.startswith("@verif/"):
        return VERIF + p[6:]
    return p


def _key(flags, src, deps):
    h = hashlib.sha256()
    h.update("\0".join(flags).encode())
    h.update(rel(src).encode())
    for d in deps:
        h.update(d.encode() + b"\0" + filehash(absp(d)).encode())
    return h.hexdigest()[:24]


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw)


def parse_deps(path):
    with open(path) as f:
        t = f.read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    out = []
    for d in t.split():
        d = os.path.abspath(d)
        if d.startswith(REPO + "/") or (d.startswith(VERIF + "/") and not d.startswith(BUILD)):
            out.append(rel(d))
    return sorted(set(out))


def incflags():
    out = ["-I" + LIBSRC, "-I" + os.path.join(VERIF, "harness")]
    for s in SYSINC:
        out += ["-isystem", s]
    return out


def pch(variant):
    d = os.path.join(BUILD, "pch", variant)
    os.makedirs(d, exist_ok=True)
    hdr = os.path.join(VERIF, "compat", "dealii_compat.h")
    flags = BASE + VARIANTS[variant]
    key = _key(flags, hdr, [rel(hdr)])
    out = os.path.join(d, key + ".pch")
    if not os.path.exists(out):
        t = time.time()
        tmp = out + ".tmp%d" % os.getpid()
        r = _run([CXX] + flags + incflags() + ["-x", "c++-header", hdr, "-o", tmp])
        if r.returncode:
            raise BuildError("pch:\n" + r.stdout.decode()[-3000:])
        os.rename(tmp, out)
        LOG.append(("pch", time.time() - t))
    return out


def prelude(src):
    """Library files that rely on the project's unity build get the headers earlier files include."""
    if rel(src).startswith("@repo/"):
        return ["-include", os.path.join(VERIF, "compat", "natrium_preamble.h")]
    return []


def compile_one(variant, src, pchfile):
    flags = BASE + VARIANTS[variant]
    name = re.sub(r"[^A-Za-z0-9]+", "_", rel(src))
    ddir = os.path.join(BUILD, "deps", variant)
    odir = os.path.join(BUILD, "obj", variant)
    os.makedirs(ddir, exist_ok=True)
    os.makedirs(odir, exist_ok=True)
    djson = os.path.join(ddir, name + ".json")
    try:
        depsets = json.load(open(djson))
    except Exception:
        depsets = []
    keyflags = flags + [os.path.basename(pchfile)]
    for ds in depsets:
        o = os.path.join(odir, name + "-" + _key(keyflags, src, ds) + ".o")
        if os.path.exists(o):
            os.utime(o)
            return o, 0.0
    t = time.time()
    dfile = os.path.join(odir, name + ".%d.d" % os.getpid())
    tmp = os.path.join(odir, name + ".%d.o" % os.getpid())
    def cmd(pre):
        return [CXX] + flags + incflags() + ["-include-pch", pchfile] + pre + \
            ["-MD", "-MF", dfile, "-c", src, "-o", tmp]
    # on its own when it can (fewer headers to depend on), else with the unity prelude
    lonely = not (depsets and "@verif/compat/natrium_preamble.h" in depsets[0])
    r = _run(cmd([] if lonely else prelude(src)))
    if r.returncode and lonely and prelude(src):
        r = _run(cmd(prelude(src)))
    if r.returncode:
        raise BuildError("compiling %s:\n%s" % (src, r.stdout.decode(errors="replace")[-3000:]))
    deps = parse_deps(dfile)
    if rel(src) not in deps:
        deps = sorted(deps + [rel(src)])
    os.unlink(dfile)
    o = os.path.join(odir, name + "-" + _key(keyflags, src, deps) + ".o")
    os.rename(tmp, o)
    depsets = [deps] + [d for d in depsets if d != deps]
    with open(djson + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(depsets[:4], f)
    os.rename(f.name, djson)
    # keep only the few newest objects of a source
    olds = sorted((os.path.join(odir, x) for x in os.listdir(odir)
                   if x.startswith(name + "-") and x.endswith(".o")), key=os.path.getmtime)
    for x in olds[:-3]:
        if x != o:
            try:
                os.unlink(x)
            except OSError:
                pass
    dt = time.time() - t
    LOG.append((rel(src), dt))
    return o, dt


SLOW = {"DealIIWrapper.cpp": 39, "CFDSolver.cpp": 36, "KBCStandard.cpp": 17}


def library_sources():
    out = []
    for d, _, fs in os.walk(LIBSRC):
        for f in fs:
            if f.endswith(".cpp"):
                p = os.path.join(d, f)
                if os.path.relpath(p, LIBSRC) not in LEFT_OUT:
                    out.append(p)
    # symbols that differ between this compiler and the one that built deal.II
    return sorted(out) + [os.path.join(VERIF, "harness", "bridge.cpp")]


def compile_many(variant, srcs):
    p = pch(variant)
    errs, objs = [], {}
    # the files that take longest first
    order = sorted(srcs, key=lambda s: -SLOW.get(os.path.basename(s), 0) if os.path.basename(s) in SLOW
                   else -os.path.getsize(s) * 1e-9 if os.path.exists(s) else 0)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, variant, s, p): s for s in order}
        for f in concurrent.futures.as_completed(futs):
            try:
                objs[futs[f]] = f.result()[0]
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs))
    return [objs[s] for s in srcs]


LIBS = ["/usr/lib/x86_64-linux-gnu/libdeal.ii.so.9.5.1"]


def linkflags(variant):
    """the link line of the project's own executables (libraries only)"""
    cache = os.path.join(VERIF, "compat", "link_libs.txt")
    libs = open(cache).read().split()
    if "-DDEBUG" in VARIANTS[variant]:
        libs = [re.sub(r"libdeal\.ii\.so", "libdeal.ii.g.so", l) for l in libs]
    return libs


def link(variant, objs, out_name, shared=False, libs=()):
    d = os.path.join(BUILD, "bin", variant)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256("\0".join(os.path.basename(o) for o in objs).encode() +
                       "\0".join(libs).encode() + (b"s" if shared else b"e")).hexdigest()[:16]
    ext = ".so" if shared else ""
    out = os.path.join(d, "%s-%s%s" % (out_name, h, ext))
    if os.path.exists(out):
        os.utime(out)
        return out
    t = time.time()
    tmp = out + ".tmp%d" % os.getpid()
    san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
    cmd = [CXX] + san + (["-shared", "-Wl,-soname," + os.path.basename(out)] if shared else []) + \
        ["-fuse-ld=" + LD, "-o", tmp] + list(objs) + list(libs)
    if shared:
        cmd += linkflags(variant)
    else:
        cmd += ["-rdynamic"] + linkflags(variant)
    r = _run(cmd)
    if r.returncode:
        msg = [l for l in r.stdout.decode(errors="replace").split("\n") if "Cannot export local" not in l]
        raise BuildError("linking %s:\n%s" % (out_name, "\n".join(msg)[:4000]))
    os.rename(tmp, out)
    for x in os.listdir(d):
        p = os.path.join(d, x)
        if x.startswith(out_name + "-") and p != out and time.time() - os.path.getmtime(p) > 600:
            try:
                os.unlink(p)
            except OSError:
                pass
    LOG.append(("link " + out_name, time.time() - t))
    return out


LD = "gold"


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_library(variant):
    return link(variant, compile_many(variant, library_sources()), "libnatrium", shared=True)


def build_harnesses(variant, names):
    """names: harness/<name>.cpp, each an executable against the shared library"""
    with Lock():
        srcs = library_sources()
        hs = [os.path.join(VERIF, "harness", n + ".cpp") for n in list(names) + ["vh_main"]]
        objs = compile_many(variant, srcs + hs)
        lib = link(variant, objs[:len(srcs)], "libnatrium", shared=True)
        out = {}
        for n, o in zip(names, objs[len(srcs):]):
            out[n] = link(variant, [o, objs[-1]], n, libs=[lib, "-Wl,-rpath," + os.path.dirname(lib)])
        return out


if __name__ == "__main__":
    t0 = time.time()
    variant = sys.argv[1]
    try:
        with Lock():
            lib = build_library(variant)
        print(lib)
    except BuildError as e:
        print(str(e)[:6000])
        sys.exit(2)
    for n, dt in sorted(LOG, key=lambda x: -x[1])[:25]:
        print("%6.1f %s" % (dt, n))
    print("total %.1f s" % (time.time() - t0))
