"""harness.py SEED TIER DIR CASES: random histories on the Python module, each step also done by the C++ classes (libref.so)."""
import ctypes as ct, gc, json, os, random, struct, sys
seed, tier, D, cases = sys.argv[1], sys.argv[2], sys.argv[3], [int(x) for x in sys.argv[4].split(",")]
from mpi4py import MPI
import numpy as np
W = MPI.COMM_WORLD; RANK, NP = W.Get_rank(), W.Get_size()
open(os.path.join(D, "pid.%d" % RANK), "w").write(str(os.getpid()))
LOG = open(os.path.join(D, "log.%d" % RANK), "w")
def log(**d): LOG.write(json.dumps(d) + "\n"); LOG.flush()
import libconviqt_wrapper as cv
assert cv.available, "the library was not found"
R = ct.CDLL(os.path.join(os.environ["VERIF_LIB"], "libref.so")); vp, cl, cd, ci = ct.c_void_p, ct.c_long, ct.c_double, ct.c_int
COMM = ct.c_void_p if MPI._sizeof(MPI.Comm) == 8 else ct.c_int
def sig(f, res, *a): f.restype = res; f.argtypes = list(a); return f
sig(R.r_beam, vp, cl, cl, ci, ct.c_char_p, COMM); sig(R.r_sky, vp, cl, ci, ct.c_char_p, cd, COMM); sig(R.r_lmax, ci, vp, ci); sig(R.r_mmax, ci, vp); sig(R.r_size, cl, vp, ci, ci)
sig(R.r_get, None, vp, ci, ci, vp); sig(R.r_set, None, vp, ci, ci, vp); sig(R.r_normalize, ci, vp, vp); sig(R.r_normalized, ci, vp); sig(R.r_remove, ci, vp, ci); sig(R.r_det, vp, ct.c_char_p)
sig(R.r_set_eps, ci, vp, cd); sig(R.r_get_eps, cd, vp); sig(R.r_id, cl, vp, vp, cl); sig(R.r_conv, vp, vp, vp, vp, ci, cl, cl, cl, ci, COMM); sig(R.r_convolve, cl, vp, vp, cl, vp, ci); sig(R.r_free, None, vp, ci); sig(R.r_scale, cd, vp, vp, vp)
def handle(c): return COMM.from_address(MPI._addressof(c))
FAIL = object()
def attempt(f):
    """the value, or FAIL when an exception was raised"""
    try: return f()
    except Exception: return FAIL
def card(k, v):
    if isinstance(v, bool): t = "%-8s= %20s" % (k, "T" if v else "F")
    elif isinstance(v, int): t = "%-8s= %20d" % (k, v)
    else: t = "%-8s= '%-8s'" % (k, v)
    return t.ljust(80)
def block(b, fill): return b + fill * (-len(b) % 2880)
def write_alm(name, lmax, mmax, tables, double):
    """an a_lm file with one table per component, without the library"""
    h = "".join([card("SIMPLE", True), card("BITPIX", 8), card("NAXIS", 0), card("EXTEND", True), "END".ljust(80)]); out = block(h.encode(), b" "); t = "D" if double else "E"
    for tab in tables:
        dt = np.dtype([("i", ">i4"), ("re", ">f8" if double else ">f4"), ("im", ">f8" if double else ">f4")]); a = np.zeros(len(tab), dt)
        for k, (l, m, re, im) in enumerate(tab): a[k] = (l * l + l + m + 1, re, im)
        h = "".join([card("XTENSION", "BINTABLE"), card("BITPIX", 8), card("NAXIS", 2), card("NAXIS1", dt.itemsize), card("NAXIS2", len(tab)), card("PCOUNT", 0), card("GCOUNT", 1), card("TFIELDS", 3), card("TTYPE1", "INDEX"), card("TFORM1", "1J"), card("TTYPE2", "REAL"), card("TFORM2", "1" + t), card("TTYPE3", "IMAG"), card("TFORM3", "1" + t), card("MAX-LPOL", lmax), card("MAX-MPOL", mmax), "END".ljust(80)])
        out += block(h.encode(), b" ") + block(a.tobytes(), b"\0")
    open(name, "wb").write(out)
class Case:
    def __init__(self, k):
        self.k = k; self.q = random.Random("%s/%d" % (seed, k)); self.own = random.Random("%s/%d/%d" % (seed, k, RANK)); self.what = "case %d, %d processes: " % (k, NP); self.cnt = {}; self.bad = 0; self.mirror = []; self.step = ""; self.files = []; self.trace = []
    def count(self, n, v=1): self.cnt[n] = self.cnt.get(n, 0) + v
    def check(self, ok, key, detail=""):
        self.count("checks")
        if not ok:
            self.bad += 1
            if self.bad <= 4: log(t="viol", case=self.k, key=key, what=self.what + ",".join(self.trace)[-400:], detail="%s: %s" % (self.step, detail))
        return ok
    # ---- files
    def make_file(self):
        q = self.q; lmax = q.randint(2, 24 if tier == "quick" else 60); mm = q.randint(0, min(lmax, 6)); pol = q.random() < .6; d = q.random() < .5
        name = os.path.join(D, "%d%s_%s%d.fits" % (self.k, self.half, q.choice(["beam", "b m", "b\u00e9am"]), len(self.files)))
        def table(mmax, first): return [(l, m, q.gauss(0, 1) + (4 if first and l == 0 else 0), 0. if m == 0 else q.gauss(0, 1)) for l in range(lmax + 1) for m in range(min(l, mmax) + 1)]
        sky = name.replace("b", "s", 1) if False else name + ".sky"; f = dict(beam=name, sky=sky, lmax=lmax, mmax=mm, pol=pol)
        nt = 3 if pol else 1; bt = [[(l, m, abs(re) + 1 if i == 0 and l == 0 else re, im) for l, m, re, im in table(mm, i == 0)] for i in range(nt)]; st = [table(lmax, False) for i in range(nt)]
        if self.W.Get_rank() == 0: write_alm(name, lmax, mm, bt, d); write_alm(sky, lmax, lmax, st, d)
        f["bt"] = bt; f["st"] = st; self.files.append(f)
    # ---- expansions
    def load(self, sky):
        q = self.q; f = q.choice(self.files); bad = q.random() < .25; lm = q.choice([-1, q.randint(1, f["lmax"])]); mm = q.choice([-1, q.randint(0, f["mmax"])]); pol = q.choice([True, 1]) if f["pol"] and q.random() < .7 else q.choice([False, 0]); name = f["sky" if sky else "beam"]; comm = q.choice([self.W, self.dup]); fw = q.choice([0., 0., 4., q.uniform(0, 60)])
        if lm >= 0 and not sky: mm = min(mm, lm)
        if bad:
            w = q.randint(0, 5)
            if w == 0: name += ".missing"
            elif w == 1: lm = f["lmax"] + q.randint(1, 9)
            elif w == 2: mm = f["mmax"] + q.randint(1, 9) if not sky else mm; lm = lm if not sky else 10 ** 6
            elif w == 3: pol = 1; name = "/dev/null"
            elif w == 4: lm = -q.randint(2, 99)
            else: name = "" if q.random() < .5 else "x" * 3000
        self.step = "%s(%d,%d,%s,%s,fwhm %r)" % ("Sky" if sky else "Beam", lm, mm, pol, os.path.basename(name)[-40:], fw); self.trace.append(self.step)
        a = attempt((lambda: cv.Sky(lm, pol, name, fw, comm)) if sky else (lambda: cv.Beam(lm, mm, pol, name, comm)))
        b = R.r_sky(lm, int(pol), name.encode(), fw, handle(comm)) if sky else R.r_beam(lm, mm, int(pol), name.encode(), handle(comm)); self.count("loads")
        if not self.check((a is FAIL) == (not b), "load-outcome", "Python %s, C++ %s" % ("raised" if a is FAIL else "succeeded", "failed" if not b else "succeeded")) or a is FAIL: self.count("refusals", a is FAIL); return
        self.mirror.append((b, 1 if sky else 0)); o = dict(py=a, ref=b, sky=sky, pol=bool(pol), f=f, fresh=fw == 0, norm=False); (self.skies if sky else self.beams).append(o); self.compare(o)
        if fw == 0: # against what is in the file
            for c in range(3 if pol else 1):
                L = R.r_lmax(b, int(sky)); M = L if sky else R.r_mmax(b); t = {(l, m): (re, im) for l, m, re, im in f["st" if sky else "bt"][c]}; g = o["py"].get_data()[c]; i = 0
                for m in range(M + 1):
                    for l in range(m, L + 1):
                        w = t.get((l, m), (0, 0)); self.count("coefficients_compared")
                        if not self.check(i < g.size and np.float32(g[i].real) == np.float32(w[0]) and np.float32(g[i].imag) == np.float32(w[1]), "file-coefficient", "component %d l %d m %d is %r, in the file %r" % (c, l, m, g[i] if i < g.size else None, w)): return
                        i += 1
    def raw(self, o, c):
        n = R.r_size(o["ref"], int(o["sky"]), c); v = np.zeros(2 * n, np.float32); R.r_get(o["ref"], int(o["sky"]), c, v.ctypes.data); return v
    def compare(self, o):
        p = o["py"]; L = R.r_lmax(o["ref"], int(o["sky"])); self.check(p.lmax() == L, "lmax", "%d, C++ %d" % (p.lmax(), L))
        if not o["sky"]: self.check(p.mmax() == R.r_mmax(o["ref"]), "mmax", "%d" % p.mmax()); n = p.normalized(); self.check(isinstance(n, bool) and n == bool(R.r_normalized(o["ref"])), "normalized", repr(n))
        self.check(p.num_alms() == R.r_size(o["ref"], int(o["sky"]), 0), "num-alms", "%d, C++ %d" % (p.num_alms(), R.r_size(o["ref"], int(o["sky"]), 0)))
        g = p.get_data()
        if not self.check(len(g) == (3 if o["pol"] else 1), "components", "%d" % len(g)): return
        for c in range(len(g)):
            v = self.raw(o, c); self.count("coefficients_compared", g[c].size)
            if self.check(2 * g[c].size == v.size and g[c].dtype == np.complex128, "component-size", "component %d has %d values, C++ %d" % (c, g[c].size, v.size // 2)):
                x = np.empty(v.size); x[0::2] = g[c].real; x[1::2] = g[c].imag; d = np.nonzero(x != v)[0]
                self.check(d.size == 0, "coefficient", "component %d value %d is %r, C++ %r" % (c, d[0] if d.size else -1, x[d[0]] if d.size else 0, v[d[0]] if d.size else 0))
    def set_data(self, o):
        q = self.q; n = R.r_size(o["ref"], int(o["sky"]), 0); nc = 3 if o["pol"] else 1; rng = np.random.RandomState(q.getrandbits(31)); d = [rng.normal(size=n) + 1j * rng.normal(size=n) for c in range(nc)]; L = R.r_lmax(o["ref"], int(o["sky"]))
        for c in range(nc): d[c][:L + 1] = d[c][:L + 1].real
        d[0][0] = abs(d[0][0]) + 1
        if q.random() < .3: d = [x.astype(np.complex64) for x in d]
        if q.random() < .15: d = [np.ascontiguousarray(np.repeat(x, 2))[::2] for x in d] # not contiguous
        self.step = "set_data"; self.trace.append("set_data")
        if q.random() < .3: # what does not fit is refused and changes nothing of the component it is in
            w = q.randint(0, 3); bad = [np.concatenate([d[0], d[0][:1]])] + d[1:] if w == 0 else [d[0][:-1]] + d[1:] if w == 1 else [] if w == 2 else None
            before = o["py"].get_data(); self.check(attempt(lambda: o["py"].set_data(bad)) is FAIL, "bad-coefficients-accepted", "kind %d" % w); self.count("refusals"); after = o["py"].get_data(); self.check(all(np.array_equal(x, y) for x, y in zip(before, after)), "refused-coefficients-stored", "kind %d" % w)
            if nc == 3:
                bad = [d[0], d[1]] if q.random() < .5 else [d[0], np.concatenate([d[1], d[1]]), d[2]]; self.check(attempt(lambda: o["py"].set_data(bad)) is FAIL, "bad-coefficients-accepted", "polarisation"); self.count("refusals")
        r = attempt(lambda: o["py"].set_data(d)); self.check(r is None, "set-data-failed"); self.count("set_data")
        for c in range(nc): v = np.empty(2 * n, np.float32); v[0::2] = d[c].real; v[1::2] = d[c].imag; R.r_set(o["ref"], int(o["sky"]), c, v.ctypes.data)
        o["fresh"] = False; self.compare(o)
    def normalize(self, o):
        self.step = "normalize"; self.trace.append("normalize"); s = cd(-7); a = attempt(o["py"].normalize); e = R.r_normalize(o["ref"], ct.addressof(s)); self.check((a is FAIL) == (e != 0) and (a is FAIL or a == s.value), "normalization", "Python %r, C++ %r" % (a, s.value)); self.count("normalizations"); self.compare(o)
    def remove(self, o):
        d = self.q.randint(0, 1); self.step = "remove_" + ("dipole" if d else "monopole"); self.trace.append(self.step); a = attempt(o["py"].remove_dipole if d else o["py"].remove_monopole); e = R.r_remove(o["ref"], d); self.check((a is FAIL) == (e != 0), "removal-outcome"); self.count("removals"); self.compare(o)
    # ---- detectors
    def detector(self):
        q = self.q; name = q.choice([None, "", "LFITEST", "d\u00e9t %d" % q.randint(0, 9), "n" * q.randint(1, 3000)]); eps = q.choice([None, 0., 1., q.random(), 1.32495160e-04]); self.step = "Detector(%r,%r)" % (name and name[:20], eps); self.trace.append(self.step)
        p = attempt(lambda: cv.Detector(name, eps) if q.random() < .5 else cv.Detector(name=name, epsilon=eps)); r = R.r_det(None if name is None else name.encode()); self.mirror.append((r, 2)); e = R.r_set_eps(r, eps) if eps is not None else 0
        if not self.check((p is FAIL) == (e != 0), "detector-outcome") or p is FAIL: return
        o = dict(py=p, ref=r); self.dets.append(o); self.compare_det(o)
    def compare_det(self, o):
        buf = ct.create_string_buffer(5000); n = R.r_id(o["ref"], buf, 5000); i = o["py"].get_id(); i = i.encode() if isinstance(i, str) else bytes(i); self.check(i == buf.raw[:n], "detector-id", "%r" % i[:60]); e = o["py"].get_epsilon(); self.check(e == R.r_get_eps(o["ref"]), "epsilon", "%r, C++ %r" % (e, R.r_get_eps(o["ref"]))); self.count("detectors_compared")
    def epsilon(self, o):
        e = self.q.choice([self.q.random(), 0., 1., -.5, 1.5, 1e-300, float("inf"), self.q.gauss(0, 1)]); self.step = "set_epsilon(%r)" % e; self.trace.append(self.step); a = attempt(lambda: o["py"].set_epsilon(e)); b = R.r_set_eps(o["ref"], e); self.check((a is FAIL) == (b != 0), "epsilon-outcome"); self.compare_det(o)
    # ---- pointings
    def pointing(self):
        q = self.q; n = self.own.choice([0, 1, self.own.randint(1, 30), self.own.randint(1, 90)]); self.step = "Pointing(%d)" % n; self.trace.append("Pointing")
        if q.random() < .5: p = cv.Pointing(n)
        else:
            p = cv.Pointing(); self.check(p.data().shape == (0, 5), "empty-pointing", repr(p.data().shape))
            if q.random() < .3: p.alloc(self.own.randint(0, 40))
            p.alloc(n)
        o = dict(py=p, n=n); self.fill(o); self.pnts.append(o); self.count("pointings")
        if q.random() < .25: # sizes that cannot be had
            p2 = cv.Pointing(3); v = p2.data(); v[:] = 7; del v
            bad = q.choice([-1, -10 ** 6, 2 ** 59, 2 ** 61, 2 ** 64 // 5 + 1, 2 ** 62, 2 ** 63, 2 ** 70]); self.step = "alloc(%d)" % bad; self.check(attempt(lambda: p2.alloc(bad)) is FAIL, "bad-size-accepted"); self.count("refusals"); d = attempt(p2.data)
            if self.check(d is FAIL or d.shape in ((0, 5), (3, 5)), "shape-after-refusal", repr(getattr(d, "shape", None))) and d is not FAIL: d[:] = 3.; self.check((d == 3).all(), "data-after-refusal")
            p2.alloc(2); self.check(p2.data().shape == (2, 5), "shape-after-refusal")
    def rows(self, n):
        g = np.random.RandomState(self.own.getrandbits(31)); a = np.empty((n, 5)); a[:, 0] = g.uniform(0, 2 * np.pi, n); a[:, 1] = np.arccos(g.uniform(-1, 1, n)); a[:, 2] = g.uniform(0, 2 * np.pi, n); a[:, 3] = g.normal(size=n); a[:, 4] = g.permutation(n); return a
    def fill(self, o):
        a = self.rows(o["n"]); v = o["py"].data(); self.check(v.shape == a.shape and v.dtype == np.float64, "data-shape", repr(v.shape)); v[:] = a; o["val"] = a.copy(); gc.collect(); self.check(np.array_equal(o["py"].data(), a), "data-not-kept"); self.count("rows_stored", o["n"])
        if self.own.random() < .2 and o["n"]: # the array outlives the object that gave it
            p = cv.Pointing(o["n"]); w = p.data(); w[:] = a; x = w[o["n"] // 2:, 1]; del p, w; gc.collect(); junk = [cv.Pointing(o["n"]) for i in range(3)]
            for j in junk: j.data()[:] = -5.
            self.check(np.array_equal(x, a[o["n"] // 2:, 1]), "array-of-deleted-pointing"); self.count("outliving_arrays")
    # ---- convolvers
    def convolver(self):
        q = self.q
        if not (self.skies and self.beams and self.dets): return
        s, b, d = q.choice(self.skies), q.choice(self.beams), q.choice(self.dets); pol = s["pol"] and b["pol"] and q.random() < .8
        if q.random() < .1: pol = not pol
        L = min(s["py"].lmax(), b["py"].lmax()); lm = q.choice([-1, q.randint(1, L)]); mm = q.choice([-1, q.randint(0, max(0, b["py"].mmax()))]); order = q.choice([1, 3, 5, 7, q.randint(0, 9)]); comm = q.choice([self.W, self.dup])
        if q.random() < .2:
            w = q.randint(0, 3)
            if w == 0: lm = 100001 + q.randint(0, 10 ** 6)
            elif w == 1: lm = L + q.randint(1, 50)
            elif w == 2: order = -q.randint(1, 20)
            else: mm = 2 + b["py"].mmax() + q.randint(0, 9)
        pol = int(pol) if q.random() < .5 else bool(pol); self.step = "Convolver(%s,%d,%d,%d)" % (pol, lm, mm, order); self.trace.append(self.step)
        p = attempt(lambda: cv.Convolver(s["py"], b["py"], d["py"], pol, lm, mm, order, 0, comm)); r = R.r_conv(s["ref"], b["ref"], d["ref"], int(pol), lm, mm, order, 0, handle(comm)) if lm <= 100000 else None
        if r: self.mirror.append((r, 3))
        if self.check((p is FAIL) == (not r), "convolver-outcome", "Python %s" % ("raised" if p is FAIL else "succeeded")) and p is not FAIL: self.convs.append(dict(py=p, ref=r, comm=comm, of=(s["ref"], b["ref"], d["ref"])))
        else: self.count("refusals")
    def convolve(self):
        q = self.q
        if not self.convs or not self.pnts: return
        c, o = q.choice(self.convs), q.choice(self.pnts); n = o["n"]
        if q.random() < .5: self.fill(o)
        if q.random() < .12 and n and self.own.random() < .7:
            v = o["py"].data(); i = self.own.randrange(n); j = self.own.randint(0, 2); x = self.own.choice([float("nan"), float("inf"), -1., 4., 1e300]); v[i, j] = x; o["val"][i, j] = x
        cal = q.choice([None, True, False, 1, 0]); self.step = "convolve(%r)" % cal; self.trace.append(self.step); inp = np.ascontiguousarray(o["val"]); out = np.zeros((n, 5))
        a = attempt(lambda: c["py"].convolve(o["py"]) if cal is None else c["py"].convolve(o["py"], cal) if q.random() < .5 else c["py"].convolve(o["py"], calibrate=cal))
        r = R.r_convolve(c["ref"], inp.ctypes.data, n, out.ctypes.data, int(bool(cal))); self.count("convolutions")
        if not self.check((a is FAIL) == (r < 0), "convolution-outcome", "Python %s, C++ %d" % ("raised" if a is FAIL else "succeeded", r)): return
        d = attempt(o["py"].data) # after a failure the rows may be gone
        if a is FAIL: self.check(d is FAIL or d.shape in ((n, 5), (0, 5)), "data-shape"); d = None; self.count("refusals"); o["py"].alloc(n); self.fill(o); return
        self.check(a is None, "return-value", repr(a))
        if self.check(d.shape == (n, 5), "data-shape", repr(d.shape)):
            self.count("rows_compared", n); self.check(np.array_equal(d[:, :3], inp[:, :3], equal_nan=True), "angles-changed"); tol = np.zeros((n, 5)); tol[:, 3] = 1e-12 * np.abs(out[:, 3]) + 1e-13 * R.r_scale(*c["of"]); e = np.nonzero(~(np.abs(d - out) <= tol) & (d != out) & ~(np.isnan(d) & np.isnan(out))); self.check(e[0].size == 0, "signal", "" if not e[0].size else "row %d column %d is %r, C++ %r" % (e[0][0], e[1][0], d[e[0][0], e[1][0]], out[e[0][0], e[1][0]])); o["val"] = np.array(d)
    # ---- wrong kinds of arguments, deletion
    def misuse(self):
        q = self.q; self.step = "misuse"; self.trace.append("misuse"); L = [lambda: cv.Beam("a", 1, 0, "f", self.W), lambda: cv.Beam(-1, -1, None, self.files[0]["beam"], self.W), lambda: cv.Beam(-1, -1, 0, None, self.W), lambda: cv.Sky(-1, 0, self.files[0]["sky"], "x", self.W), lambda: cv.Sky(-1, 0, self.files[0]["sky"], 0., None) if MPI._sizeof(MPI.Comm) else 0, lambda: cv.Detector(5), lambda: cv.Detector("a", "b"), lambda: cv.Pointing("x"), lambda: cv.Pointing(2.5), lambda: cv.Convolver(None, None, None, 0, -1, -1, 3, 0, self.W), lambda: cv.Convolver("s", "b", "d", 0, -1, -1, 3, 0, self.W)]
        if self.beams: L += [lambda: self.beams[0]["py"].set_data(None), lambda: self.beams[0]["py"].set_data(["abc"])]
        if self.dets: L += [lambda: self.dets[0]["py"].set_epsilon(None), lambda: self.dets[0]["py"].set_epsilon("1")]
        if self.convs: L += [lambda: self.convs[0]["py"].convolve(None), lambda: self.convs[0]["py"].convolve(np.zeros((3, 5))), lambda: self.convs[0]["py"].convolve(self.pnts[0]["py"], "yes") if self.pnts else None.x]
        for i in q.sample(range(len(L)), 3): self.check(attempt(L[i]) is FAIL, "wrong-argument-accepted", "kind %d" % i); self.count("refusals")
    def drop(self):
        l = self.q.choice([self.skies, self.beams, self.dets, self.pnts, self.convs]); self.trace.append("del")
        if l and (l is not self.pnts or len(l) > 1): o = l.pop(self.q.randrange(len(l))); o.pop("py"); del o; gc.collect(); self.count("deletions"); [cv.Pointing(50) for i in range(4)]
    # ---- equal cycles of making, using and deleting everything: the live heap must not grow in each of them
    def leak(self):
        q = self.q; f = q.choice(self.files); pol = f["pol"] and q.random() < .5; n = q.randint(1, 40); kind = q.randint(0, 3); self.step = "cycles of kind %d" % kind; self.trace.append(self.step)
        class MI(ct.Structure): _fields_ = [(k, ct.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
        libc = ct.CDLL(None); libc.mallinfo2.restype = MI
        def cycle():
            b = cv.Beam(-1, -1, pol, f["beam"], self.W); s = cv.Sky(-1, pol, f["sky"], 0., self.W); d = cv.Detector("cycle", .1); p = cv.Pointing(n); v = p.data(); v[:] = .5; del v; c = cv.Convolver(s, b, d, pol, -1, -1, 3, 0, self.W); c.convolve(p, True)
            if kind == 0: g = b.get_data(); b.set_data(g); s.set_data(s.get_data()); b.normalize(); s.remove_dipole()
            elif kind == 1: p.alloc(2 * n); p.alloc(0); p.alloc(n); d.set_epsilon(.2); d.get_id()
            elif kind == 2: attempt(lambda: cv.Convolver(s, b, d, pol, 10 ** 5 - 1, -1, 3, 0, self.W)); attempt(lambda: cv.Beam(-1, -1, pol, f["beam"] + ".missing", self.W)); attempt(lambda: p.alloc(2 ** 60))
        def live(): gc.collect(); m = libc.mallinfo2(); return m.uordblks + m.hblkhd
        for i in range(5): cycle()
        u = [live()]
        for i in range(15): cycle(); u.append(live())
        d = sorted(u[i + 1] - u[i] for i in range(15)); self.count("cycles", 15)
        self.check(d[7] < 16, "memory-kept", "each cycle keeps about %d bytes (%r)" % (d[7], u))
    def run(self):
        q = self.q; self.skies, self.beams, self.dets, self.pnts, self.convs = [], [], [], [], []; 
        self.W = W; self.half = ""
        if NP > 1 and self.k % 16 in (3, 6, 9, 11, 13, 15): # the halves of the world do different things on communicators of their own
            h = RANK % 2; self.W = W.Split(h, RANK if q.random() < .5 else -RANK); self.half = "h%d" % h; self.q = q = random.Random("%s/%d/half %d" % (seed, self.k, h)); self.count("cases_on_split_communicators")
        self.dup = self.W.Dup()
        for i in range(q.randint(1, 2)): self.make_file()
        self.W.Barrier(); ops = q.randint(12, 26) if tier == "quick" else q.randint(15, 60)
        def some(l): return q.choice(l) if l else None
        self.load(0); self.load(1); self.detector(); self.pointing()
        for i in range(ops):
            w = q.randint(0, 18)
            if w < 2 or (not self.skies and w < 6): self.load(1)
            elif w < 4 or (not self.beams and w < 9): self.load(0)
            elif w == 4: self.detector() if q.random() < .5 else self.dets and self.epsilon(some(self.dets))
            elif w == 5: self.pointing()
            elif w < 8: self.convolver()
            elif w == 8 and self.beams: self.set_data(some(self.beams))
            elif w == 9 and self.skies: self.set_data(some(self.skies))
            elif w == 10 and self.beams: self.normalize(some(self.beams))
            elif w == 11 and self.skies: self.remove(some(self.skies))
            elif w == 12 and q.random() < .5: self.misuse()
            elif w == 13: self.drop()
            else:
                if not self.convs: self.convolver()
                self.convolve()
        for l in q.sample([self.skies, self.beams, self.dets, self.pnts, self.convs], 5): # any order
            while l: o = l.pop(); o.clear(); gc.collect()
        for r, k in reversed(self.mirror): R.r_free(r, k)
        if self.k // 8 % 12 == 1: self.leak()
        self.W.Barrier(); self.dup.Free(); first = self.W.Get_rank() == 0
        if self.half: self.W.Free()
        if first:
            for f in self.files: os.unlink(f["beam"]); os.unlink(f["sky"])
        log(t="sum", case=self.k, what=self.what + ",".join(self.trace), counters=self.cnt)
for k in cases:
    c = Case(k); log(t="begin", case=k)
    try: c.run()
    except BaseException as e:
        import traceback
        log(t="viol", case=k, key="exception", what=c.what, detail=c.step + ": " + traceback.format_exc()[-1500:]); LOG.flush(); W.Abort(3)
    log(t="end", case=k)
LOG.close()
