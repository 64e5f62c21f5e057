"""Builds the library from /repo's working tree together with the monitors, one build per instrumentation."""
import hashlib, os, re, subprocess, sys, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INC = ["-I" + os.path.join(REPO, p) for p in ("levels/c_utils", "levels/libfftpack", "levels/cxxsupport", "levels/Healpix_cxx", "src")]
VARIANTS = {
    "plain": ["-O2", "-g"],
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fsanitize=float-cast-overflow,float-divide-by-zero", "-fno-sanitize=null,nonnull-attribute,pointer-overflow", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"],
}

class BuildError(Exception):
    pass

def repo_sources():
    """The library's sources: what the Makefile.am files name, minus the test programs."""
    out = []
    for am in ("src", "levels"):
        txt = ""
        for f in glob.glob(os.path.join(REPO, am, "**", "Makefile.am"), recursive=True):
            txt += open(f).read()
        names = set(re.findall(r"[\w./-]+\.(?:cpp|cc|c)\b", txt))
        names = {os.path.basename(n) for n in names}
        for f in sorted(glob.glob(os.path.join(REPO, am, "**", "*"), recursive=True)):
            b = os.path.basename(f)
            if not re.search(r"\.(cpp|cc|c)$", b) or b not in names or b.startswith("test_") or b in ("ffttest.c", "fftpack_inc.c"):
                continue
            out.append(f)
    return out

def header_hash(extra=()):
    h = hashlib.sha256()
    fs = []
    for d in ("src", "levels"):
        for f in glob.glob(os.path.join(REPO, d, "**", "*"), recursive=True):
            if re.search(r"\.(h|hpp|inc)$", f) or f.endswith("fftpack_inc.c"):
                fs.append(f)
    for d in ("simmpi", "driver", "omp"):
        fs += glob.glob(os.path.join(VERIF, d, "*.h"))
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def compile_one(src, flags, hh, lang_cc):
    key = hashlib.sha256((hh + "\0" + src + "\0" + " ".join(flags) + "\0").encode() + open(src, "rb").read()).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        rc, out = sh([lang_cc] + flags + ["-c", src, "-o", tmp])
        if rc:
            raise BuildError("compiling %s failed:\n%s" % (src, out))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj

def prune():
    d = os.path.join(BUILD, "obj")
    if not os.path.isdir(d):
        return
    fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d))
    tot = 0
    for t, f in reversed(fs):
        tot += os.path.getsize(f)
        if tot > 1500e6:
            try: os.unlink(f)
            except OSError: pass
    bins = sorted((os.path.getmtime(f), f) for f in glob.glob(os.path.join(BUILD, "bin", "*")))
    for t, f in bins[:-12]:
        try: os.unlink(f)
        except OSError: pass

def build_driver(variant):
    flags0 = VARIANTS[variant]
    omp = ["-fopenmp"]
    hh = header_hash()
    jobs = []
    common = INC + ["-I" + os.path.join(VERIF, "simmpi"), "-I" + os.path.join(VERIF, "driver"), "-DUSE_MPI", "-w"]
    for s in repo_sources():
        c = s.endswith(".c")
        jobs.append((s, flags0 + omp + common + ([] if c else ["-std=gnu++17"]), "gcc" if c else "g++"))
    for s in sorted(glob.glob(os.path.join(VERIF, "driver", "*.cc"))):
        fl = flags0 + common + ["-std=gnu++17", "-DVARIANT=" + variant]
        if "OPENMP" in open(s).read(): fl = fl + omp
        jobs.append((s, fl, "g++"))
    jobs.append((os.path.join(VERIF, "simmpi", "simmpi.cc"), flags0 + common + ["-std=gnu++17"], "g++"))
    if variant == "tsan":
        jobs.append((os.path.join(VERIF, "omp", "miniomp.cc"), flags0 + ["-std=gnu++17", "-w"], "g++"))
    core = ("main.cc", "common.cc", "convlib.cc")
    def one(j):
        # a monitor that no longer fits the library's interface leaves the others usable: its parts then give no answer
        optional = os.path.dirname(j[0]) == os.path.join(VERIF, "driver") and os.path.basename(j[0]) not in core
        try: return compile_one(j[0], j[1], hh, j[2]), optional
        except BuildError as e:
            if not optional: raise
            print("not usable: %s" % str(e)[:1500], file=sys.stderr); return None, True
    with ThreadPoolExecutor(8) as ex:
        res = [r for r in ex.map(one, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))) if r[0]]
    objs = [o for o, _ in res]; optional = {o for o, x in res if x}
    key = hashlib.sha256((variant + " ".join(sorted(objs))).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", "driver-%s-%s" % (variant, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        san = [f for f in flags0 if f.startswith("-fsanitize")]
        rc, out = sh(["g++"] + san + objs + ["-o", tmp, "-lcfitsio", "-lpthread", "-lm"] + ([] if variant == "tsan" else ["-fopenmp"]))
        drop = [o for o in optional if rc and o in out]
        if drop:
            print("not usable: %s" % out[:1500], file=sys.stderr)
            rc, out = sh(["g++"] + san + [o for o in objs if o not in drop] + ["-o", tmp, "-lcfitsio", "-lpthread", "-lm"] + ([] if variant == "tsan" else ["-fopenmp"]))
        if rc:
            raise BuildError("linking %s failed:\n%s" % (variant, out))
        os.replace(tmp, exe)
    prune()
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or list(VARIANTS):
        t = time.time(); print(v, build_driver(v), "%.1fs" % (time.time() - t))
