"""Builds the library with Open MPI for the Python module, and the C++ functions it is compared with."""
import hashlib, os, sys, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import vbuild
from concurrent.futures import ThreadPoolExecutor
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
def build(asan=False):
    flags0 = ["-O2" if not asan else "-O1", "-g", "-fPIC", "-fopenmp", "-DUSE_MPI", "-w"] + (ASAN if asan else []) + vbuild.INC
    hh = vbuild.header_hash()
    os.environ["OMPI_CC"] = "gcc"; os.environ["OMPI_CXX"] = "g++"
    jobs = [(s, flags0 + ([] if s.endswith(".c") else ["-std=gnu++11"]), "mpicc" if s.endswith(".c") else "mpicxx") for s in vbuild.repo_sources()]
    ref = os.path.join(V, "pydrv", "ref.cc")
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: vbuild.compile_one(j[0], j[1], hh, j[2]), sorted(jobs, key=lambda j: -os.path.getsize(j[0]))))
    robj = vbuild.compile_one(ref, flags0 + ["-std=gnu++17"], hh, "mpicxx")
    key = hashlib.sha256((str(asan) + robj + " ".join(sorted(objs))).encode()).hexdigest()[:24]
    d = os.path.join(vbuild.BUILD, "py-" + key)
    if not os.path.exists(os.path.join(d, "libref.so")):
        for o in sorted(glob.glob(os.path.join(vbuild.BUILD, "py-*")), key=os.path.getmtime)[:-4]: shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True); t = ".%d.tmp" % os.getpid(); san = ASAN if asan else []
        for out, what in (("_conviqt.so", objs + ["-Wl,-soname,_conviqt.so"]), ("libref.so", [robj, os.path.join(d, "_conviqt.so"), "-Wl,-rpath," + d])):
            p = os.path.join(d, out); rc, txt = vbuild.sh(["mpicxx", "-shared", "-fopenmp"] + san + what + ["-o", p + t, "-lcfitsio"])
            if rc: raise vbuild.BuildError("linking %s failed:\n%s" % (out, txt))
            os.replace(p + t, p)
    else: os.utime(d)
    return d
def script(asan=False):
    return lambda: [sys.executable, os.path.join(V, "pydrv", "run.py"), build(asan), "asan" if asan else "plain"]
if __name__ == "__main__": print(build("asan" in sys.argv))
