// Convolution parts: exact grid values and interpolation against the reference model.
#include "sub.h"

static const double SPOT = 123456789; // marks, in the fifth column of the request, the rows to compare of a large set
// Compare signals with the model.  mode 0: exact grid values, 1: interpolation, 2: the same for the marked rows only
static void compare(const ConvSpec &s, const ConvOut &o, ConvModel &m, int mode, const std::string &what) {
  bool spot = mode == 2; if (spot) mode = 1;
  double worst = 0; long nrows = 0, polluted = 0; bool told = false;
  for (int r = 0; r < s.nranks; ++r) {
    if (o.rows[r].size() != s.pnt[r].size()) { R.viol("row-count", what); return; }
    for (size_t i = 0; i < s.pnt[r].size(); ++i) {
      const Row &in = s.pnt[r][i]; double got = o.rows[r][i][3];
      if (spot && in[4] != SPOT) { if (!(std::fabs(got) <= 100 * double(m.norm))) { R.viol("signal-out-of-range", what + strf(" | rank %d row %zu signal %g, bound %Lg", r, i, got, m.norm)); return; } R.count("signals_bounded"); continue; }
      bool south = !(in[1] < PId / 2);
      ld x = ld(in[1]) * (m.lmax + 1) / PIl, y = (ld(in[0]) - PIl / 2) * (2 * m.lmax + 1) / (2 * PIl);
      Prediction q = m.interp(in[0], in[1], in[2], south);
      double sc = double(q.scale), tol = 4e-7 * sc;
      if (mode == 0) {
        long nphi = 2 * m.lmax + 1, p = lroundl(y); p = ((p % nphi) + nphi) % nphi;
        ld s2 = q.scale; q = m.grid(lroundl(x), p, in[2]); sc = double(q.scale);
        tol = 4e-7 * sc + 1e-12 * double(s2) * (m.lmax + 1);
      } else {
        if (m.order == 0 && (std::abs(x - roundl(x)) < 1e-8L || std::abs(y - roundl(y)) < 1e-8L)) continue; // on the edge of two cells
        tol += 1e-14 * sc * m.lmax * (10 + std::fabs(in[0]) * m.lmax);
      }
      tol += 1e-15 * sc * m.mmax * std::fabs(in[2]) + 3e-15 * double(m.norm);
      double err = std::fabs(got - double(q.exact));
      bool bad = !(err <= tol), known = bad && q.matches_defect(got, tol);
      if (bad && !known && mode == 1 && std::fabs(in[1] - PId / 2) < 1e-10) {
        Prediction q2 = m.interp(in[0], in[1], in[2], !south); err = std::fabs(got - double(q2.exact)); bad = !(err <= tol); known = bad && q2.matches_defect(got, tol);
      }
      ++nrows;
      if (known) { ++polluted; if (!told) R.viol("polar-ring-terms-dropped", what + strf(" | rank %d row %zu phi=%.17g theta=%.17g psi=%.17g got %.12g want %.12Lg scale %.6Lg", r, i, in[0], in[1], in[2], got, q.exact, q.scale)); told = true; continue; }
      if (bad) {
        R.viol(mode ? "interpolation-mismatch" : "grid-value-mismatch", what + strf(" | rank %d row %zu phi=%.17g theta=%.17g psi=%.17g got %.12g want %.12Lg (recorded finding would give %.12Lg) scale %.6Lg tol %.3g", r, i, in[0], in[1], in[2], got, q.exact, q.defect, q.scale, tol));
        return;
      }
      if (sc > 1e-6 * double(m.norm)) worst = std::max(worst, err / sc);
    }
  }
  R.count("samples_compared", double(nrows)); R.count("samples_touched_by_recorded_finding", double(polluted)); R.maxi("error_over_scale", worst);
}

// azimuthal limit of the beam: usually small, sometimes anything the band limit allows
static int pick_mmax(Rng &g, int lm, int usual) {
  if (lm <= 16 ? g.coin(0.12) : lm <= 64 && g.coin(0.06)) return lm;
  if (lm <= 64 && g.coin(0.1)) return int(g.range(0, lm));
  if (lm > 64 && lm <= 400 && g.coin(0.15)) return int(g.range(0, std::min(lm, 30)));
  return int(g.range(0, std::min(lm, usual)));
}

static void c01(long, Rng &g) {
  bool pol = g.coin(0.5);
  int lm = int(pick_lmax(g)); int lsky = lm, lbeam = lm;
  int mm = pick_mmax(g, lm, 12);
  bool trunc = g.coin(0.4);
  if (trunc) { lsky += int(g.range(0, 6)); lbeam += int(g.range(0, 6)); }
  int mbeam = std::min(lbeam, mm + (trunc ? int(g.range(0, 3)) : 0));
  Inputs in = make_inputs(g, lsky, lbeam, mbeam, pol, int(g.range(0, 5)), int(g.range(0, 5)));
  ConvSpec s; s.skyfile = in.sf; s.beamfile = in.bf; s.pol = pol; s.seed = g.u64();
  s.nranks = g.coin(0.6) ? 1 : int(g.range(2, 5)); s.nthreads = int(g.range(1, 4));
  s.order = g.range(1, 11);
  s.lmax = (!trunc && g.coin(0.2)) ? -1 : lm; s.mmax = (mbeam == mm && g.coin(0.2)) ? -1 : mm;
  if (!trunc && g.coin(0.3)) { s.skylmax = lsky; s.beamlmax = lbeam; s.beammmax = mbeam; }
  s.verbosity = g.coin(0.1) ? int(g.range(1, 10)) : 0;
  double dth = PId / (lm + 1), dph = 2 * PId / (2 * lm + 1);
  Rows all; long n = g.range(6, 40);
  for (long i = 0; i < n; ++i) {
    long j = g.range(0, lm + 1); if (i == 0) j = 0; if (i == 1) j = lm + 1; if (g.coin(0.1)) j = g.coin() ? 1 : lm;
    Row x = {PId / 2 + dph * g.range(-lm, 3 * lm), std::min(PId, j * dth), g.uni(-7, 7), 0, 0};
    if (j == lm + 1) x[1] = PId;
    all.push_back(x);
  }
  s.pnt = distribute(g, all, s.nranks, int(g.range(0, 6)));
  std::string what = s.describe() + strf(" lsky=%d lbeam=%d mbeam=%d", lsky, lbeam, mbeam);
  ConvOut o = run_conv(s);
  R.eval(what, lm >= 2); R.maxi("largest_beam_mmax", mm);
  if (!check_run(o.run, what)) return;
  ConvModel m(in.sky, in.beam, lm, mm, int(s.order), pol);
  compare(s, o, m, 0, what);
}
static AddPart p01("c01.grid", [] { return opt_tier ? 3000L : 320L; }, c01);

static void c02(long, Rng &g) {
  bool pol = g.coin(0.3);
  int lm = int(pick_lmax(g)), mm = pick_mmax(g, lm, 8);
  Inputs in = make_inputs(g, lm, lm, mm, pol, int(g.range(0, 5)), int(g.range(0, 5)));
  ConvSpec s; s.skyfile = in.sf; s.beamfile = in.bf; s.pol = pol; s.seed = g.u64(); s.lmax = lm; s.mmax = mm;
  s.nranks = g.coin(0.7) ? 1 : int(g.range(2, 4)); s.nthreads = int(g.range(1, 4));
  s.order = g.coin(0.12) ? g.range(14, std::min(34, 14 + 6 * (lm - 1))) : g.range(0, 13); // few turns only: the recorded finding depends on the rounding of the ring angle
  Rows all;
  for (int t = 0; t < 3; ++t) { Rows r = random_rows(g, g.range(3, 16), int(g.range(0, 8)), lm); all.insert(all.end(), r.begin(), r.end()); }
  s.pnt = distribute(g, all, s.nranks, int(g.range(0, 6)));
  std::string what = s.describe();
  ConvOut o = run_conv(s);
  R.eval(what, lm >= 2 && s.order >= 1); R.maxi("largest_beam_mmax", mm);
  if (!check_run(o.run, what)) return;
  ConvModel m(in.sky, in.beam, lm, mm, int(s.order), pol);
  compare(s, o, m, 1, what);
}
static AddPart p02("c02.interp", [] { return opt_tier ? 3000L : 320L; }, c02);

// Band limits of real use: few pointings at few colatitudes, so that few rings are needed
static long large_lmax(Rng &g) { double u = g.uni(); return u < 0.5 ? g.range(150, 400) : u < 0.85 ? g.range(401, 1000) : g.range(1001, opt_tier ? 3000 : 2000); }
static ConvSpec large(Rng &g, bool pol, int lm, int mm, Inputs &in) {
  in = make_inputs(g, lm, lm, mm, pol, int(g.range(0, 5)), int(g.range(0, 5)));
  ConvSpec s; s.skyfile = in.sf; s.beamfile = in.bf; s.pol = pol; s.seed = g.u64(); s.lmax = lm; s.mmax = mm;
  s.nranks = g.coin(0.6) ? 1 : int(g.range(2, 3)); s.nthreads = int(g.range(1, 4)); return s;
}
static void large_run(Rng &g, ConvSpec &s, const Inputs &in, const Rows &all, int mode) {
  s.pnt = distribute(g, all, s.nranks, int(g.range(0, 6)));
  std::string what = s.describe();
  ConvOut o = run_conv(s, 300);
  R.eval(what, true); R.maxi("largest_lmax", s.lmax); R.maxi("largest_beam_mmax", s.mmax);
  if (!check_run(o.run, what)) return;
  ConvModel m(in.sky, in.beam, int(s.lmax), int(s.mmax), int(s.order), s.pol);
  compare(s, o, m, mode, what);
}
static void c01large(long, Rng &g) {
  bool pol = g.coin(0.5); int lm = int(large_lmax(g)), mm = pick_mmax(g, lm, lm > 1000 ? 2 : 4); Inputs in;
  ConvSpec s = large(g, pol, lm, mm, in); s.order = g.range(1, 5);
  double dth = PId / (lm + 1), dph = 2 * PId / (2 * lm + 1); Rows all; int nring = int(g.range(1, 3));
  for (int k = 0; k < nring; ++k) {
    long j = g.range(0, lm + 1); double u = g.uni(); if (u < 0.1) j = 0; else if (u < 0.2) j = lm + 1; else if (u < 0.3) j = g.range(1, 9); else if (u < 0.4) j = lm + 1 - g.range(1, 9); else if (u < 0.5) j = (lm + 1) / 2;
    for (long i = g.range(1, 6); i > 0; --i) all.push_back(Row{PId / 2 + dph * g.range(-lm, 3 * lm), j == lm + 1 ? PId : std::min(PId, j * dth), g.uni(-7, 7), 0, 0});
  }
  large_run(g, s, in, all, 0);
}
static AddPart p01l("c01.large", [] { return opt_tier ? 400L : 32L; }, c01large);
static void c02large(long, Rng &g) {
  bool pol = g.coin(0.4); int lm = int(large_lmax(g)), mm = pick_mmax(g, lm, lm > 1000 ? 2 : 4); Inputs in;
  ConvSpec s = large(g, pol, lm, mm, in); s.order = g.range(0, lm > 1000 ? 4 : 9); Rows all; int nring = int(g.range(1, 2));
  for (int k = 0; k < nring; ++k) {
    double th = g.uni(0, PId), u = g.uni(); if (u < 0.1) th = g.uni(0, 5. / lm); else if (u < 0.2) th = PId - g.uni(0, 5. / lm); else if (u < 0.3) th = PId / 2 + g.uni(-1, 1) / lm;
    for (long i = g.range(1, 6); i > 0; --i) all.push_back(Row{g.coin(0.5) ? g.uni(0, 2 * PId) : g.uni(-10, 10), th, g.uni(-7, 7), 0, 0});
  }
  large_run(g, s, in, all, 1);
}
static AddPart p02l("c02.large", [] { return opt_tier ? 400L : 32L; }, c02large);

// Pointing sets of real size over the whole sphere (every ring of the cube is needed), some rows compared exactly
static void c02whole(long, Rng &g) {
  bool pol = g.coin(0.4); int lm = int(g.coin(0.3) ? g.range(20, 100) : g.range(100, opt_tier ? 700 : 350)), mm = pick_mmax(g, lm, 4); Inputs in; if (lm > 200) mm = std::min(mm, 6);
  ConvSpec s = large(g, pol, lm, mm, in); s.order = g.range(0, 9); s.nranks = int(g.range(1, 6)); s.nthreads = int(g.range(1, 3)); Rows all;
  int parts = int(g.range(1, 4)); long n = g.range(1000, opt_tier ? 40000 : 8000);
  for (int t = 0; t < parts; ++t) { Rows r = random_rows(g, n / parts + 1, int(t == 0 ? (g.coin() ? 0 : 4) : g.range(0, 8)), lm); all.insert(all.end(), r.begin(), r.end()); }
  for (int k = 0; k < 5; ++k) all[g.range(0, long(all.size()) - 1)][4] = SPOT;
  R.maxi("largest_set", double(all.size()));
  large_run(g, s, in, all, 2);
}
static AddPart p02w("c02.whole", [] { return opt_tier ? 400L : 24L; }, c02whole);
