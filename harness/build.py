"""Content-addressed builder: compiles /repo's current sources (plus harness files) into /verif/build.

An object is keyed by the hash of its source, of every header it could include and of its flags, so a stale object can
never be linked, whatever the file times are; files are classified by content (pybind11 / cpp11 / core), not by name."""
import concurrent.futures as cf, glob, hashlib, os, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("STVERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
PYSITE = "/opt/vp/venv/lib/python3.12/site-packages"

INC = ["-I%s/include" % REPO, "-I%s/include" % HARN, "-I%s/cpp" % HARN, "-isystem", "/usr/include/eigen3"]
BASE = ["-std=c++17", "-w", "-pthread", "-DFMT_HEADER_ONLY"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    "asan": ("clang++", SAN + ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"]),
    "tsan": ("clang++", SAN + ["-fsanitize=thread"], ["-fsanitize=thread"]),
    "fast": ("g++", ["-O2", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"], []),
    "vg": ("g++", ["-O1", "-g", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"], []),
    "pic": ("g++", ["-O2", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"], []),
    "picasan": ("clang++", SAN + ["-fPIC", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-shared-libasan"],
                ["-fsanitize=address,undefined", "-shared-libasan"]),
    # only to measure reach (harness/reach.py); no check uses these
    "cov": ("clang++", ["-O1", "-g1", "-fprofile-instr-generate", "-fcoverage-mapping"], ["-fprofile-instr-generate"]),
    "piccov": ("clang++", ["-O1", "-g1", "-fPIC", "-fprofile-instr-generate", "-fcoverage-mapping"], ["-fprofile-instr-generate"]),
}


class BuildError(Exception):
    pass


def classify():
    core, py, r = [], [], []
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):
        t = open(f, errors="replace").read()
        (py if "pybind11/" in t else r if "cpp11" in t else core).append(f)
    return core, py, r


def _compile(job):
    """Key = hash of the preprocessed text (comments and line markers gone) and the flags."""
    cxx, flags, src = job
    p = subprocess.run([cxx] + flags + ["-E", "-P", src], capture_output=True)
    if p.returncode:
        raise BuildError("preprocessing %s failed:\n%s" % (src, p.stderr.decode(errors="replace")[-3000:]))
    key = hashlib.sha256(p.stdout + (cxx + " ".join(flags)).encode()).hexdigest()[:24]
    obj = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(src).replace(".cpp", ""), key)
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        p = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("%s failed on %s:\n%s" % (cxx, src, p.stderr[-3000:]))
        os.replace(tmp, obj)
    return obj


def _objects(variant, sources, extra):
    cxx, cflags, _ = VARIANTS[variant]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 4)) as ex:
        return list(ex.map(_compile, [(cxx, BASE + cflags + INC + extra, s) for s in sources]))


def _link(variant, objs, out, extra):
    cxx, _, lflags = VARIANTS[variant]
    key = hashlib.sha256((" ".join(objs) + cxx + " ".join(lflags + extra)).encode()).hexdigest()
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d.tmp" % (out, os.getpid())
    p = subprocess.run([cxx] + lflags + objs + ["-o", tmp, "-pthread"] + extra, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("link of %s failed:\n%s" % (out, p.stderr[-3000:]))
    os.replace(tmp, out)
    open(stamp, "w").write(key)
    return out


class _lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(BUILD + "/lock", "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver(name, variant="asan"):
    """harness/cpp/<name>.cpp linked with all of the core."""
    with _lock():
        core, _, _ = classify()
        objs = _objects(variant, [HARN + "/cpp/%s.cpp" % name] + core, [])
        return _link(variant, objs, "%s/bin/%s-%s" % (BUILD, name, variant), [])


def pyext(variant="pic"):
    """The project's Python extension, complete; returns the directory that holds it."""
    with _lock():
        core, py, _ = classify()
        extra = ["-isystem", "/usr/include/python3.12", "-isystem", PYSITE + "/pybind11/include", "-DVERSION_INFO=0.0.1", "-fvisibility=hidden"]
        objs = _objects(variant, py, extra) + _objects(variant, core, [])
        d = "%s/py-%s" % (BUILD, variant)
        _link(variant, objs, d + "/stochtree_cpp.so", ["-shared"])
        return d


def rlib(variant="pic"):
    with _lock():
        core, _, r = classify()
        extra = ["-isystem", "/usr/share/R/include", "-isystem", "/usr/lib/R/site-library/cpp11/include", "-I%s/src" % REPO, "-DSTOCHTREE_R_BUILD"]
        objs = _objects(variant, r + core, extra)
        return _link(variant, objs, "%s/r-%s/stochtree.so" % (BUILD, variant), ["-shared", "-L/usr/lib/R/lib", "-lR"])


if __name__ == "__main__":
    try:
        for a in sys.argv[1:]:
            kind, *rest = a.split(":")
            print({"driver": driver, "pyext": pyext, "rlib": rlib}[kind](*rest))
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
