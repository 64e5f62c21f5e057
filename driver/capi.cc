// The C interface against the C++ library (C10).
#include "sub.h"
#include "conviqt.hpp"
#include "cconviqt.h"
#include <unistd.h>
using namespace conviqt;

static bool write_junk(const std::string &p, Rng &g, const std::string &from) { // a damaged or foreign file
  std::string b; int kind = int(g.range(0, 3));
  if (FILE *f = fopen(from.c_str(), "rb")) { char t[4096]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n); fclose(f); }
  if (kind == 0) b = "not a FITS file\n"; else if (kind == 1) b.clear(); else if (kind == 2) b.resize(size_t(g.range(0, 2880 * 2))); else b.resize(2880);
  FILE *f = fopen(p.c_str(), "wb"); if (!f) return false; fwrite(b.data(), 1, b.size(), f); fclose(f); return true;
}
static std::vector<float> flat(Alm<xcomplex<float>> &a) { std::vector<float> v(2 * a.Alms().size()); if (!v.empty()) memcpy(v.data(), &a.Alms()[0], v.size() * 4); return v; }
template <class F> static bool throws(F f) { try { f(); return false; } catch (...) { return true; } }

static void c10(long, Rng &g) {
  struct F { std::string s, b; int L, M; bool pol; double b00; }; std::vector<F> f;
  for (int i = 0; i < 3; ++i) {
    bool pol = g.coin(0.6); int L = int(g.range(1, 14)), M = int(g.range(0, std::min(L, 4))); Inputs in = make_inputs(g, L, L, M, pol, int(g.range(0, 3)), int(g.range(0, 3)), std::to_string(i));
    in.beam.at(0, 0, 0) = cf(float(g.uni(0.1, 2)), 0); write_alm_file(in.bf, in.beam); f.push_back({in.sf, in.bf, L, M, pol, 1});
  }
  std::string junk = tmpfile_path("junk"), missing = tmpfile_path("missing"), directory = scratch; write_junk(junk, g, f[0].s);
  simmpi::Options o; o.nranks = g.coin(0.4) ? 1 : int(g.range(2, 4)); o.seed = g.u64(); o.delay = int(g.range(0, 2)); o.nthreads = 1; o.cpu_s = 120;
  uint64_t sq = g.u64(); int nops = int(g.range(15, opt_tier ? 80 : 45)); bool sane = g.coin(0.6), halves = o.nranks > 1 && g.coin(0.4); // sane: the calls that load inputs and make convolvers mostly succeed
  std::string what = strf("ranks=%d halves=%d sane=%d delay=%d pol=%d%d%d lmax=%d,%d,%d ops=%d opseed=%llx", o.nranks, int(halves), int(sane), o.delay, f[0].pol, f[1].pol, f[2].pol, f[0].L, f[1].L, f[2].L, nops, (unsigned long long)sq);
  R.eval(what, true);
  run_subs(what, o, [&](int r, Sub &S) {
    Rng q(sq); MPI_Comm comm; int nr;
    if (halves) { MPI_Comm_split(MPI_COMM_WORLD, r % 2, q.coin() ? r : -r, &comm); q = Rng(sq + 77 * uint64_t(r % 2)); S.count("runs_on_subcommunicators"); } // each half makes its own calls
    else MPI_Comm_dup(MPI_COMM_WORLD, &comm);
    MPI_Comm_rank(comm, &r); MPI_Comm_size(comm, &nr);
    struct Tw { void *c; void *x; bool loaded = false; }; std::vector<Tw> sk, bm, dt, pt; struct Cv { void *c; convolver *x; int s, b, d; }; std::vector<Cv> cv;
    auto str = [](const std::string &s) { return const_cast<char *>(s.c_str()); };
    auto X = [](Tw &t) { return t.x; }; (void)X;
    auto news = [&] { sk.push_back({conviqt_sky_new(), new sky}); S.check(sk.back().c, "new-returned-null", "sky"); };
    auto newb = [&] { bm.push_back({conviqt_beam_new(), new beam}); S.check(bm.back().c, "new-returned-null", "beam"); };
    auto newd = [&] { if (q.coin()) dt.push_back({conviqt_detector_new(), new detector}); else { std::string id(size_t(q.range(0, 60)), char('a' + q.range(0, 25))); dt.push_back({conviqt_detector_new_with_id(str(id)), new detector(id)}); } S.check(dt.back().c, "new-returned-null", "detector"); if (q.coin(0.7)) { double e = q.uni(-0.5, 2); conviqt_detector_set_epsilon(dt.back().c, e); ((detector *)dt.back().x)->set_epsilon(e); } };
    auto newp = [&] { pt.push_back({conviqt_pointing_new(), new pointing}); S.check(pt.back().c, "new-returned-null", "pointing"); };
    news(); newb(); newd(); newp();
    auto SKX = [&](Tw &t) { return (sky *)t.x; }; auto BMX = [&](Tw &t) { return (beam *)t.x; }; auto DTX = [&](Tw &t) { return (detector *)t.x; }; auto PTX = [&](Tw &t) { return (pointing *)t.x; };
    auto outcome = [&](int rc, bool threw, const std::string &w) { S.count(threw ? "failed_calls_compared" : "calls_compared"); S.check((rc != 0) == threw, "return-code", w + strf(": returned %d, the C++ call %s", rc, threw ? "throws" : "succeeds")); };
    auto coefs_equal = [&](Tw &t, bool issky, const std::string &w) {
      if (!t.loaded) return;
      for (int c = 0; c < 3; ++c) {
        void *d = issky ? (c == 0 ? conviqt_sky_Tdata(t.c) : c == 1 ? conviqt_sky_Gdata(t.c) : conviqt_sky_Cdata(t.c)) : (c == 0 ? conviqt_beam_Tdata(t.c) : c == 1 ? conviqt_beam_Gdata(t.c) : conviqt_beam_Cdata(t.c));
        std::vector<float> v; bool th = throws([&] { v = flat(issky ? (c == 0 ? SKX(t)->slmT() : c == 1 ? SKX(t)->slmG() : SKX(t)->slmC()) : (c == 0 ? BMX(t)->blmT() : c == 1 ? BMX(t)->blmG() : BMX(t)->blmC())); });
        if (th) S.check(d == nullptr, "data-of-missing-component", w + strf(": component %d", c));
        else if (S.check(d != nullptr, "data-null", w + strf(": component %d", c))) S.check(memcmp(d, v.data(), v.size() * 4) == 0, "data-differs", w + strf(": component %d differs from the C++ object", c));
        S.count("coefficient_arrays_compared");
      }
    };
    auto limits = [&](const std::string &w) {
      for (auto &t : sk) S.check(conviqt_sky_lmax(t.c) == SKX(t)->get_lmax(), "limits", w + " sky");
      for (auto &t : bm) S.check(conviqt_beam_lmax(t.c) == BMX(t)->get_lmax() && conviqt_beam_mmax(t.c) == BMX(t)->get_mmax() && conviqt_beam_normalized(t.c) == int(BMX(t)->normalized()), "limits", w + " beam");
    };
    auto pickpath = [&](bool s, int &i) -> std::string { i = int(q.range(0, 2)); double u = q.uni() + (sane ? 0.2 : 0); std::string p = s ? f[i].s : f[i].b; if (u < 0.08) p = junk; else if (u < 0.14) p = missing; else if (u < 0.17) p = ""; else if (u < 0.19) p = directory; else if (u < 0.21) p = std::string(size_t(q.range(100, 3000)), 'x'); return p; };
    // angles and index bit for bit, signals to rounding
    auto alike = [&](const double *p, const double *x, long n, Cv &v) {
      double norm = 0; auto a = [&](int c, bool s) { double t = 0; for (float y : flat(s ? (c == 0 ? SKX(sk[v.s])->slmT() : c == 1 ? SKX(sk[v.s])->slmG() : SKX(sk[v.s])->slmC()) : (c == 0 ? BMX(bm[v.b])->blmT() : c == 1 ? BMX(bm[v.b])->blmG() : BMX(bm[v.b])->blmC()))) t += std::fabs(y); return t; };
      for (int c = 0; c < 3; ++c) throws([&] { norm += a(c, true) * a(c, false); });
      norm *= std::max(1., std::fabs(2 / (1 + DTX(dt[v.d])->get_epsilon())));
      for (long i = 0; i < n; ++i) if (memcmp(p + i, x + i, 8) && !(i % 5 == 3 && std::fabs(p[i] - x[i]) <= 1e-12 * std::fabs(x[i]) + 1e-13 * norm) && !(i % 5 == 3 && p[i] != p[i] && x[i] != x[i])) return false;
      return true;
    };
    auto convolve = [&](Cv &v, size_t pi, bool calibrated, const std::string &w) {
      Rng d2(q.u64()); Rows all = random_rows(d2, d2.range(0, 12), int(d2.range(0, 8)), 8); int bad = q.coin(0.2) && !all.empty() ? int(q.range(0, 4)) : -1;
      if (bad >= 0) { Row &x = all[d2.u64() % all.size()]; static const double t[] = {NAN, -0.1, 3.2, INFINITY, -1e300}; x[1] = t[bad]; }
      Rows mine = distribute(d2, all, nr, int(d2.range(0, 6)))[r]; char cal = calibrated || q.coin() ? (q.coin() ? 1 : 2) : 0; long n = 5 * long(mine.size());
      int rc0 = conviqt_pointing_alloc(pt[pi].c, n); PTX(pt[pi])->alloc(tsize(n)); S.check(rc0 == 0, "return-code", w + " alloc");
      double *p = conviqt_pointing_data(pt[pi].c), *px = n ? &(*PTX(pt[pi]))[0] : nullptr; if (n) { if (!S.check(p != nullptr, "data-null", w + " pointing")) return; memcpy(p, mine.data(), size_t(n) * 8); memcpy(px, mine.data(), size_t(n) * 8); }
      int rc = conviqt_convolver_convolve(v.c, pt[pi].c, cal); bool th = throws([&] { v.x->convolve(*PTX(pt[pi]), cal); });
      outcome(rc, th, w + strf(" convolve bad=%d", bad)); if (bad >= 0) S.check(th, "illegal-pointing-accepted", w);
      if (!th && n) { p = conviqt_pointing_data(pt[pi].c); px = &(*PTX(pt[pi]))[0]; S.check(long(PTX(pt[pi])->size()) == n && alike(p, px, n, v), "convolution-differs", w + ": the pointing array differs from that of the C++ call"); S.count("signals_compared", double(mine.size())); }
      if (!th) S.count("convolutions_compared");
    };
    for (int k = 0; k < nops; ++k) {
      int op = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 9 : int(q.range(0, 19)); std::string w = strf("operation %d (%d)", k, op);
      Tw &s = sk[q.u64() % sk.size()], &b = bm[q.u64() % bm.size()], &d = dt[q.u64() % dt.size()]; size_t pi = q.u64() % pt.size();
      switch (op) {
        case 0: case 1: {
          bool is = op == 0; int i; std::string p = pickpath(is, i); char pol = q.coin(sane ? 0.97 : 0.8) ? f[i].pol : 1 - f[i].pol; if (q.coin(0.15) && pol) pol = 7; // any non-zero flag is true
          long l = q.coin(0.6) ? 0 : q.coin(sane ? 0.97 : 0.7) ? q.range(1, f[i].L) : f[i].L + q.range(1, 100), m = q.coin(0.6) ? -q.range(0, 1) : q.coin(sane ? 0.97 : 0.7) ? q.range(0, f[i].M) : f[i].M + q.range(1, 100);
          w += strf(" %s read %s lmax=%ld mmax=%ld pol=%d", is ? "sky" : "beam", p.substr(0, 80).c_str(), l, m, pol); double fw = q.coin(0.6) ? 0 : q.uni(1, 200); int rc; bool th;
          if (is) { rc = conviqt_sky_read(s.c, l, pol, str(p), fw, comm); th = throws([&] { SKX(s)->read(l, pol, p, fw, comm); }); if (!th) s.loaded = true; }
          else { rc = conviqt_beam_read(b.c, l, m, pol, str(p), comm); th = throws([&] { BMX(b)->read(l, m, pol, p, comm); }); if (!th) b.loaded = true; }
          outcome(rc, th, w); if (!th) coefs_equal(is ? s : b, is, w); break;
        }
        case 2: if (b.loaded && BMX(b)->blmT()(0, 0).re != 0) { double a = conviqt_beam_normalize(b.c), e = BMX(b)->normalize(); S.check(a == e, "normalize", w + strf(": returned %.17g, C++ %.17g", a, e)); coefs_equal(b, false, w); } break;
        case 3: if (s.loaded) { bool m = q.coin(); int rc = m ? conviqt_sky_remove_monopole(s.c) : conviqt_sky_remove_dipole(s.c); bool th = throws([&] { if (m) SKX(s)->remove_monopole(); else SKX(s)->remove_dipole(); }); outcome(rc, th, w); coefs_equal(s, true, w); } break;
        case 4: { double e = q.pick(std::vector<double>{0, 1, 0.3, -0.5, 1e-300, q.gauss()}), v = -7, y; if (q.coin()) { S.check(conviqt_detector_set_epsilon(d.c, e) == 0, "return-code", w + " set_epsilon"); DTX(d)->set_epsilon(e); } S.check(conviqt_detector_get_epsilon(d.c, &v) == 0 && v == (y = DTX(d)->get_epsilon()), "detector-epsilon", w + strf(": %g, C++ %g", v, y)); if (!cv.empty() && q.coin()) { convolve(cv[q.u64() % cv.size()], pi, true, w + " after the change"); S.count("convolutions_after_a_change"); } break; }
        case 5: { std::string id; int n = int(q.range(0, 200)); for (int i = 0; i < n; ++i) id += char(q.range(1, 127)); if (q.coin()) { S.check(conviqt_detector_set_id(d.c, str(id)) == 0, "return-code", w + " set_id"); DTX(d)->set_id(id); } std::vector<char> buf(DTX(d)->get_id().size() + 1, '#'); S.check(conviqt_detector_get_id(d.c, buf.data()) == 0 && buf.back() == 0 && DTX(d)->get_id() == buf.data(), "detector-id", w); break; }
        case 6: if (sk.size() < 3) news(); if (bm.size() < 3) newb(); break;
        case 7: if (dt.size() < 3) newd(); if (pt.size() < 3) newp(); break;
        case 8: case 9: { // a convolver
          bool okl = s.loaded && b.loaded; if (!okl && op == 8) { // without loaded inputs it is refused
            void *c = conviqt_convolver_new(s.c, b.c, d.c, 0, 5, 1, 3, 0, comm); bool th = throws([&] { convolver x(SKX(s), BMX(b), DTX(d), false, 5, 1, 3, 0, comm); }); S.check((c == nullptr) == th, "convolver-new", w + " without loaded inputs"); if (c) conviqt_convolver_del(c); break; }
          int L = std::min(SKX(s)->get_lmax(), BMX(b)->get_lmax()), M = BMX(b)->get_mmax(); if (!okl) break;
          long l = q.coin(0.4) ? -1 : q.coin(sane ? 0.95 : 0.8) ? q.range(1, std::max(1, L)) : L + q.range(1, 200000), m = q.coin(0.4) ? -1 : q.coin(sane ? 0.95 : 0.8) ? q.range(0, std::max(0, std::min<int>(M, int(l > 0 ? l : M)))) : M + q.range(1, 200000), ord = q.coin(sane ? 0.97 : 0.9) ? q.range(0, 7) : -q.range(1, 9);
          bool sp = !throws([&] { SKX(s)->slmG(); }), bp = !throws([&] { BMX(b)->blmG(); }); char pol = q.coin(0.8) ? (sp && bp ? (q.coin() ? 1 : 3) : 0) : q.coin();
          w += strf(" convolver lmax=%ld mmax=%ld order=%ld pol=%d", l, m, ord, pol);
          void *c = conviqt_convolver_new(s.c, b.c, d.c, pol, l, m, ord, 0, comm); convolver *x = nullptr; bool th = throws([&] { x = new convolver(SKX(s), BMX(b), DTX(d), pol, l, m, ord, 0, comm); }) || l > LMAXMAX || m > LMAXMAX;
          S.check((c == nullptr) == th, "convolver-new", w + (c ? ": succeeded, C++ throws" : ": returned null, C++ succeeds")); S.count(th ? "failed_calls_compared" : "calls_compared");
          if (c && x) cv.push_back({c, x, int(&s - &sk[0]), int(&b - &bm[0]), int(&d - &dt[0])}); else { if (c) conviqt_convolver_del(c); delete x; }
          break;
        }
        case 10: if (!cv.empty()) { Cv &v = cv[q.u64() % cv.size()]; int t = int(q.range(0, 2)); int rc; bool th; if (t == 0) { rc = conviqt_convolver_set_sky(v.c, s.c); th = throws([&] { v.x->set_sky(SKX(s)); }); } else if (t == 1) { rc = conviqt_convolver_set_beam(v.c, b.c); th = throws([&] { v.x->set_beam(BMX(b)); }); } else { rc = conviqt_convolver_set_detector(v.c, d.c); th = throws([&] { v.x->set_detector(DTX(d)); }); } outcome(rc, th, w); if (q.coin(0.7)) { convolve(v, pi, true, w + " after the change"); S.count("convolutions_after_a_change"); } } break;
        case 11: if (s.loaded && q.coin()) { float *p = (float *)conviqt_sky_Tdata(s.c); long n = long(SKX(s)->slmT().Alms().size()); long i = q.range(0, n - 1); p[2 * i] *= 0.5f; const_cast<float &>(SKX(s)->slmT().Alms()[tsize(i)].re) *= 0.5f; } coefs_equal(s, true, w); break; // coefficients changed in place
        case 12: { bool neg = variant == "plain" && q.coin(0.2); long n = neg ? (q.coin() ? -q.range(1, 1000) : (1L << 62) + q.range(0, 9)) : 5 * q.range(0, 9); int rc = conviqt_pointing_alloc(pt[pi].c, n); bool th = throws([&] { PTX(pt[pi])->alloc(tsize(n)); }); outcome(rc, th, w + strf(" alloc %ld", n)); if (!th && n) { double *p = conviqt_pointing_data(pt[pi].c); if (S.check(p != nullptr, "data-null", w + " pointing")) for (long i = 0; i < n; ++i) p[i] = (*PTX(pt[pi]))[tsize(i)] = 0.1; } break; }
        case 13: if (cv.size() > 1) { size_t i = q.u64() % cv.size(); S.check(conviqt_convolver_del(cv[i].c) == 0, "return-code", w + " del"); delete cv[i].x; cv.erase(cv.begin() + long(i)); } break;
        default: if (!cv.empty()) convolve(cv[q.u64() % cv.size()], pi, false, w);
      }
      limits(w); S.count("operations");
    }
    for (auto &v : cv) { S.check(conviqt_convolver_del(v.c) == 0, "return-code", "convolver del"); delete v.x; }
    for (auto &t : sk) { coefs_equal(t, true, "end"); S.check(conviqt_sky_del(t.c) == 0, "return-code", "sky del"); delete SKX(t); }
    for (auto &t : bm) { coefs_equal(t, false, "end"); S.check(conviqt_beam_del(t.c) == 0, "return-code", "beam del"); delete BMX(t); }
    for (auto &t : dt) { S.check(conviqt_detector_del(t.c) == 0, "return-code", "detector del"); delete DTX(t); }
    for (auto &t : pt) { S.check(conviqt_pointing_del(t.c) == 0, "return-code", "pointing del"); delete PTX(t); }
  });
}
static AddPart p10("c10.capi", [] { return 400L; }, c10);
