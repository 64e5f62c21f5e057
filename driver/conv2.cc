// Convolution parts: distribution over ranks, threads, row identity, calibration, history.
#include <unistd.h>
#include "sub.h"
#include "conviqt.hpp"
#include <limits>
using namespace conviqt;

static void fill(pointing &p, const Rows &r) { p.alloc(5 * r.size()); if (!r.empty()) memcpy(&p[0], r.data(), sizeof(Row) * r.size()); }
static Rows rows_of(pointing &p) { Rows r(p.size() / 5); if (!r.empty()) memcpy(r.data(), &p[0], sizeof(Row) * r.size()); return r; }
static ConvSpec random_spec(Rng &g, Inputs &in, int maxlmax = 64) {
  bool pol = g.coin(0.4); int lm = std::min<int>(int(pick_lmax(g)), maxlmax), mm = int(g.range(0, g.coin(0.08) ? lm : std::min(lm, 8)));
  in = make_inputs(g, lm, lm, mm, pol, int(g.range(0, 5)), int(g.range(0, 5)));
  ConvSpec s; s.skyfile = in.sf; s.beamfile = in.bf; s.pol = pol; s.seed = g.u64(); s.lmax = lm; s.mmax = mm; s.order = g.range(0, 11);
  s.calibrate = g.coin(0.3); if (g.coin(0.6)) s.eps = g.uni(0, 1);
  return s;
}
static Rows random_set(Rng &g, int lm, long nmin, long nmax) {
  Rows all; int parts = int(g.range(1, 3));
  for (int t = 0; t < parts; ++t) { Rows r = random_rows(g, g.range(nmin, nmax), int(g.range(0, 8)), lm); all.insert(all.end(), r.begin(), r.end()); }
  return all;
}
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol || (std::isnan(a) && std::isnan(b)); }

// ------------------------------------------------------------------ C03
// many: thousands of samples per rank, few coefficients
static void c03_(long idx, Rng &g, bool many) {
  Inputs in; ConvSpec s = random_spec(g, in, many ? 10 : 40); if (many) s.order = std::min(s.order, 3L);
  Rows all; long kind = idx % 8;
  if (many) all = random_set(g, int(s.lmax), 1000, 15000);
  else if (kind == 0) all = random_set(g, int(s.lmax), 0, 2);
  else if (kind == 1 && g.coin(0.3)) all.clear();
  else if (kind == 2) all = random_rows(g, g.range(1, 40), 1, int(s.lmax));
  else if (kind == 3) all = random_rows(g, g.range(50, 400), int(g.range(0, 8)), int(s.lmax));
  else all = random_set(g, int(s.lmax), 1, 25);
  ConvSpec one = s; one.pnt = {all}; one.nthreads = 1;
  s.nranks = g.coin(0.85) ? int(g.range(2, 6)) : int(g.range(7, 12)); s.nthreads = int(g.range(1, 2)); s.delay = int(g.range(0, 2));
  if (!many && g.coin(0.15)) { s.verbosity = int(g.coin() ? g.range(1, 3) : g.range(6, 10)); R.count("runs_with_messages"); }
  int mode = int(g.range(0, 6));
  // remember where each row went through its fifth column
  for (size_t i = 0; i < all.size(); ++i) all[i][4] = double(i);
  s.pnt = distribute(g, all, s.nranks, mode); if (g.coin(0.3)) { use_subcomm(g, s); R.count("runs_on_subcommunicators"); }
  std::string what = s.describe() + strf(" mode=%d", mode);
  ConvOut a = run_conv(one), b = run_conv(s);
  R.eval(what, !all.empty());
  if (!check_run(a.run, "one rank: " + what)) return;
  if (!check_run(b.run, what)) return;
  double norm = signal_norm(in.sky, in.beam, int(s.lmax), int(s.mmax), s.pol), worst = 0;
  for (int r = 0; r < s.nranks; ++r) {
    if (b.rows[r].size() != s.pnt[r].size()) { R.viol("row-count", what + strf(" rank %d has %zu rows, gave %zu", r, b.rows[r].size(), s.pnt[r].size())); return; }
    for (size_t i = 0; i < s.pnt[r].size(); ++i) {
      const Row &o = b.rows[r][i], &want = a.rows[0][size_t(s.pnt[r][i][4])];
      if (memcmp(&o[0], &s.pnt[r][i][0], 3 * sizeof(double))) { R.viol("rows-exchanged", what + strf(" rank %d row %zu", r, i)); return; }
      double err = std::fabs(o[3] - want[3]); worst = std::max(worst, err / (norm + 1e-300));
      if (!(err <= 1e-10 * norm + 1e-11 * std::fabs(want[3]))) { R.viol("distribution-dependent-signal", what + strf(" rank %d row %zu theta=%.17g phi=%.17g: %.17g, one rank gives %.17g", r, i, o[1], o[0], o[3], want[3])); return; }
      R.count("signals_compared");
    }
  }
  R.maxi("difference_over_norm", worst); R.count(strf("partitions_mode_%d", mode)); R.sigs.insert(b.run.order_hash);
}
static void c03(long idx, Rng &g) { c03_(idx, g, false); }
static void c03many(long idx, Rng &g) { c03_(idx, g, true); }
static AddPart p03("c03.dist", [] { return opt_tier ? 4000L : 400L; }, c03);
static AddPart p03m("c03.many", [] { return opt_tier ? 400L : 40L; }, c03many);

// ------------------------------------------------------------------ C04
static void c04_(long idx, Rng &g, bool many) {
  Inputs in; ConvSpec s = random_spec(g, in, many ? 8 : variant == "plain" ? 64 : 24); if (many) s.order = std::min(s.order, 3L);
  if (idx % 4 == 0) { s.lmax = std::min(s.lmax, 6L); s.mmax = std::min(s.mmax, s.lmax); }
  Rows all = many ? random_set(g, int(s.lmax), 1000, variant == "plain" ? 15000 : 1500) : idx % 5 == 0 ? random_rows(g, g.range(1, 3), int(g.range(0, 8)), int(s.lmax)) : random_set(g, int(s.lmax), 1, variant == "plain" ? 120 : 40);
  s.nranks = g.coin(0.75) ? 1 : int(g.range(2, 3));
  s.pnt = distribute(g, all, s.nranks, int(g.range(0, 6)));
  s.verbosity = g.coin(0.1) ? 2 : 0;
  ConvSpec one = s; one.nthreads = 1;
  ConvOut a; bool has = false;
  std::vector<int> nts; nts.push_back(int(g.range(2, 4))); if (variant == "plain") { nts.push_back(int(g.range(5, 16))); nts.push_back(nts[0]); }
  double norm = signal_norm(in.sky, in.beam, int(s.lmax), int(s.mmax), s.pol);
  for (int nt : nts) {
    s.nthreads = nt; setenv("MINIOMP_SEED", std::to_string(g.u64() % 100000).c_str(), 1);
    std::string what = s.describe();
    if (!has) { a = run_conv(one); has = true; R.eval(what, all.size() > 1); if (!check_run(a.run, "one thread: " + what)) return; }
    ConvOut b = run_conv(s, 120);
    if (!check_run(b.run, what)) return;
    R.count("threaded_runs"); R.count("threads", nt);
    for (int r = 0; r < s.nranks; ++r) for (size_t i = 0; i < s.pnt[r].size(); ++i) {
      if (b.rows[r].size() != s.pnt[r].size()) { R.viol("row-count", what); return; }
      double x = b.rows[r][i][3], y = a.rows[r][i][3];
      R.count("signals_compared");
      if (!(std::fabs(x - y) <= 1e-11 * norm + 1e-12 * std::fabs(y))) { R.viol("thread-count-dependent-signal", what + strf(" rank %d row %zu: %.17g, one thread gives %.17g", r, i, x, y)); return; }
    }
  }
}
static void c04(long idx, Rng &g) { c04_(idx, g, false); }
static void c04many(long idx, Rng &g) { c04_(idx, g, true); }
static AddPart p04m("c04.many", [] { return opt_tier ? 300L : 30L; }, c04many);
static AddPart p04("c04.threads", [] { return variant == "tsan" ? (opt_tier ? 900L : 110L) : (opt_tier ? 2500L : 240L); }, c04);

// ------------------------------------------------------------------ C05
static void c05_(long idx, Rng &g, bool many) {
  Inputs in; ConvSpec s = random_spec(g, in, many ? 10 : 24); if (many) s.order = std::min(s.order, 3L);
  Rows all = many ? random_set(g, int(s.lmax), 1000, 15000) : random_set(g, int(s.lmax), 1, idx % 6 == 0 ? 300 : 30);
  // duplicates, equal angles with different junk, hostile junk in the result columns
  static const double junk[] = {0., -0., 1e300, -1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 5e-324, 17., -1.};
  size_t n0 = all.size();
  for (size_t i = 0; i < n0; ++i) if (g.coin(0.15)) all.push_back(all[g.u64() % n0]);
  bool jk = g.coin(0.6);
  for (auto &r : all) { r[3] = jk ? junk[g.u64() % 9] : 0; r[4] = jk ? junk[g.u64() % 9] : g.uni(-5, 5); if (g.coin(0.02)) r[0] = g.uni(-1e4, 1e4); if (g.coin(0.03)) r[2] = g.uni(-1e4, 1e4); if (g.coin(0.02)) r[2] = -0.; }
  if (g.coin(0.5)) for (size_t k = all.size(); k > 1; --k) std::swap(all[k - 1], all[g.u64() % k]); // unsorted
  s.nranks = int(g.range(1, 6)); s.nthreads = int(g.range(1, 3)); s.delay = int(g.range(0, 1)); if (!many && g.coin(0.08)) s.verbosity = int(g.range(1, 10));
  std::vector<std::vector<size_t>> ids(s.nranks);
  { Rows tmp = all; std::vector<double> keep(all.size()); for (size_t i = 0; i < all.size(); ++i) tmp[i][4] = double(i); auto d = distribute(g, tmp, s.nranks, int(g.range(0, 6))); s.pnt.assign(s.nranks, Rows()); for (int r = 0; r < s.nranks; ++r) for (auto &x : d[r]) { ids[r].push_back(size_t(x[4])); s.pnt[r].push_back(all[size_t(x[4])]); } }
  if (g.coin(0.4)) { use_subcomm(g, s); R.count("runs_on_subcommunicators"); }
  // reference: every row on its own in another order on one rank, junk free
  ConvSpec ref = s; ref.verbosity = 0; ref.place.clear(); ref.others.clear(); ref.nranks = 1; ref.nthreads = 1; ref.delay = 0; std::vector<size_t> perm(all.size()); for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
  for (size_t k = perm.size(); k > 1; --k) std::swap(perm[k - 1], perm[g.u64() % k]);
  Rows rr; for (size_t i : perm) { Row x = all[i]; x[3] = x[4] = 0; rr.push_back(x); }
  ref.pnt = {rr};
  std::string what = s.describe() + strf(" junk=%d", jk);
  ConvOut b = run_conv(s), a = run_conv(ref);
  R.eval(what, all.size() > 1);
  if (!check_run(b.run, what) || !check_run(a.run, what)) return;
  std::vector<double> want(all.size()); for (size_t k = 0; k < perm.size(); ++k) want[perm[k]] = a.rows[0][k][3];
  double norm = signal_norm(in.sky, in.beam, int(s.lmax), int(s.mmax), s.pol); long base = 0;
  for (int r = 0; r < s.nranks; ++r) {
    if (b.sizes[r] != long(5 * s.pnt[r].size())) { R.viol("row-count", what + strf(" rank %d: %ld values, gave %zu", r, b.sizes[r], 5 * s.pnt[r].size())); return; }
    for (size_t i = 0; i < s.pnt[r].size(); ++i) {
      const Row &o = b.rows[r][i];
      R.count("rows_checked");
      if (memcmp(&o[0], &s.pnt[r][i][0], 3 * sizeof(double))) { R.viol("angles-changed", what + strf(" rank %d row %zu: (%.17g %.17g %.17g) became (%.17g %.17g %.17g)", r, i, s.pnt[r][i][0], s.pnt[r][i][1], s.pnt[r][i][2], o[0], o[1], o[2])); return; }
      if (o[4] != double(base + long(i))) { R.viol("running-index", what + strf(" rank %d row %zu: %.17g instead of %ld", r, i, o[4], base + long(i))); return; }
      double w = want[ids[r][i]], tol = 1e-10 * norm * (1 + 1e-6 * std::fabs(o[0]) + 1e-6 * std::fabs(o[2]));
      if (!(std::fabs(o[3] - w) <= tol)) { R.viol("signal-of-another-row", what + strf(" rank %d row %zu (theta %.17g): %.17g, reference %.17g", r, i, o[1], o[3], w)); return; }
    }
    base += long(s.pnt[r].size());
  }
}
static void c05(long idx, Rng &g) { c05_(idx, g, false); }
static void c05many(long idx, Rng &g) { c05_(idx, g, true); }
// More rows than single precision or 24 bits can number: 64 distinct pointings in pseudo-random order
static uint64_t mixbits(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static void c05huge(long, Rng &g) {
  Inputs in = make_inputs(g, 3, 3, 1, false, 0, 0); Rows few = random_rows(g, 64, 4, 3); few.resize(64); for (size_t i = 0; i < 64; ++i) { few[i][3] = few[i][4] = 0; if (g.coin(0.3)) few[i][1] = PId - few[i][1]; }
  simmpi::Options o; o.nranks = int(g.range(3, 5)); o.nthreads = 2; o.seed = g.u64(); o.cpu_s = 1500; o.wall_s = 1500; uint64_t salt = g.u64();
  std::vector<long> n(o.nranks), base(o.nranks); long tot = 0; for (int r = 0; r < o.nranks; ++r) { base[r] = tot; n[r] = 17000000 / o.nranks + g.range(-100000, 100000); tot += n[r]; }
  std::string what = strf("%ld rows on %d ranks, order 1, lmax 3", tot, o.nranks); R.eval(what, true); R.maxi("rows", double(tot));
  double norm = signal_norm(in.sky, in.beam, 3, 1, false);
  run_subs(what, o, [&](int r, Sub &S) {
    sky sk; sk.read(3, false, in.sf, 0, MPI_COMM_WORLD); beam bm; bm.read(3, 1, false, in.bf, MPI_COMM_WORLD); detector d("x"); convolver cv(&sk, &bm, &d, false, 3, 1, 1, 0, MPI_COMM_WORLD);
    pointing pf; fill(pf, few); cv.convolve(pf, false); Rows want = rows_of(pf); // every rank gives the same few rows
    pointing p; p.alloc(5 * n[r]); for (long i = 0; i < n[r]; ++i) { const Row &x = few[mixbits(salt + uint64_t(base[r] + i)) % 64]; for (int c = 0; c < 5; ++c) p[5 * i + c] = x[c]; }
    cv.convolve(p, false); S.check(long(p.size()) == 5 * n[r], "row-count", "rows lost"); if (long(p.size()) != 5 * n[r]) return;
    for (long i = 0; i < n[r]; ++i) {
      size_t k = mixbits(salt + uint64_t(base[r] + i)) % 64;
      if (memcmp(&p[5 * i], &few[k][0], 24)) { S.viol("angles-changed", strf("row %ld", i)); return; }
      if (p[5 * i + 4] != double(base[r] + i)) { S.viol("running-index", strf("row %ld: %.17g instead of %ld", i, p[5 * i + 4], base[r] + i)); return; }
      if (!(std::fabs(p[5 * i + 3] - want[k][3]) <= 1e-10 * norm)) { S.viol("signal-of-another-row", strf("row %ld: %.17g, reference %.17g", i, p[5 * i + 3], want[k][3])); return; }
    }
    S.count("rows_checked", double(n[r]));
  });
}
static AddPart p05h("c05.huge", [] { return 2L; }, c05huge);
static AddPart p05m("c05.many", [] { return opt_tier ? 400L : 40L; }, c05many);
static AddPart p05("c05.rows", [] { return opt_tier ? 4000L : 400L; }, c05);

// ------------------------------------------------------------------ C06
static std::vector<float> coefs(Alm<xcomplex<float>> &a) { std::vector<float> v; for (tsize i = 0; i < a.Alms().size(); ++i) { v.push_back(a.Alms()[i].re); v.push_back(a.Alms()[i].im); } return v; }
static std::vector<std::vector<float>> coefs(beam &b, bool pol) { std::vector<std::vector<float>> r = {coefs(b.blmT())}; if (pol) { r.push_back(coefs(b.blmG())); r.push_back(coefs(b.blmC())); } return r; }
static std::vector<std::vector<float>> coefs(sky &b, bool pol) { std::vector<std::vector<float>> r = {coefs(b.slmT())}; if (pol) { r.push_back(coefs(b.slmG())); r.push_back(coefs(b.slmC())); } return r; }
static bool same(const std::vector<std::vector<float>> &a, const std::vector<std::vector<float>> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].size() != b[i].size() || (a[i].size() && memcmp(a[i].data(), b[i].data(), a[i].size() * 4))) return false; return true; }

static void c06(long, Rng &g) {
  bool pol = g.coin(0.5); int lm = int(g.range(2, g.coin(0.05) ? 80 : 20)), mm = int(g.range(0, g.coin(0.1) ? lm : std::min(lm, 5)));
  Inputs in = make_inputs(g, lm, lm, mm, pol, int(g.range(0, 1)), 3);
  in.beam.at(0, 0, 0) = cf(float(std::exp(g.uni(-6, 6)) * (g.coin(0.1) ? -1 : 1)), 0); write_alm_file(in.bf, in.beam);
  simmpi::Options o; o.nranks = int(g.range(1, 3)); o.nthreads = int(g.range(1, 2)); o.seed = g.u64();
  auto pnt = distribute(g, random_rows(g, g.range(2, 20), int(g.range(0, 8)), lm), o.nranks, int(g.range(0, 6)));
  double eps[3] = {0, g.uni(0, 1), g.uni(-0.9, 5)}; if (g.coin(0.2)) eps[1] = std::exp(g.uni(-20, 3));
  int nops = int(g.range(4, 9)); std::vector<int> ops; for (int i = 0; i < nops; ++i) ops.push_back(int(g.range(0, 6)));
  std::string what = strf("ranks=%d pol=%d lmax=%d mmax=%d b00=%g eps=%g,%g,%g ops=", o.nranks, pol, lm, mm, in.beam.at(0, 0, 0).real(), eps[0], eps[1], eps[2]); for (int x : ops) what += strf("%d", x);
  R.eval(what, true);
  run_subs(what, o, [&](int r, Sub &S) {
    sky sk; sk.read(lm, pol, in.sf, 0, MPI_COMM_WORLD);
    beam bm; bm.read(lm, mm, pol, in.bf, MPI_COMM_WORLD);
    detector d0("a"), d1("b"); d1.set_epsilon(eps[1]); detector *cur = &d0; double e[2] = {0, eps[1]};
    S.check(d0.get_epsilon() == 0, "fresh-detector-epsilon", "epsilon of a new detector is not 0");
    convolver cv(&sk, &bm, &d0, pol, lm, mm, 5, 0, MPI_COMM_WORLD);
    pointing p0; fill(p0, pnt[r]); cv.convolve(p0, false); Rows raw = rows_of(p0);
    auto orig = coefs(bm, pol); double b00 = in.beam.at(0, 0, 0).real(); bool normalized = false; double factor = 1;
    const double norm = signal_norm(in.sky, in.beam, lm, mm, pol);
    S.check(!bm.normalized(), "normalized-flag", "a beam just read says it is normalized");
    for (int op : ops) switch (op) {
      case 0: case 1: { // normalise
        double f = bm.normalize(), want = normalized ? 1.0 : 1 / (2 * std::sqrt(PId) * b00);
        S.check(std::fabs(f - want) <= 1e-12 * std::fabs(want), "normalize-factor", strf("normalize() returned %.17g, expected %.17g (normalized before: %d)", f, want, normalized));
        S.check(bm.normalized(), "normalized-flag", "not marked normalized after normalize()");
        if (!normalized) factor = want;
        normalized = true;
        auto now = coefs(bm, pol);
        for (size_t i = 0; i < now.size(); ++i) for (size_t k = 0; k < now[i].size(); ++k) { double w = double(orig[i][k]) * factor; if (!(std::fabs(now[i][k] - w) <= 2.5e-7 * std::fabs(w) + 1e-40)) { S.viol("normalize-scaling", strf("component %zu value %zu: %.9g, expected %.9g * %.9g", i, k, now[i][k], orig[i][k], factor)); i = now.size() - 1; break; } }
        S.check(std::fabs(2 * std::sqrt(PId) * now[0][0] - 1) < 1e-6, "normalize-integral", strf("the beam integrates to %.9g", 2 * std::sqrt(PId) * now[0][0]));
        break; }
      case 2: { // read anew
        bm.read(lm, mm, pol, in.bf, MPI_COMM_WORLD); normalized = false; factor = 1;
        S.check(!bm.normalized(), "normalized-flag", "a beam read anew says it is normalized");
        S.check(same(coefs(bm, pol), orig), "reread-coefficients", "reading the beam again gave other coefficients");
        break; }
      case 3: cur = cur == &d0 ? &d1 : &d0; cv.set_detector(cur); break;
      case 4: { int i = cur == &d1; e[i] = e[i] == eps[2] ? eps[1] : eps[2]; cur->set_epsilon(e[i]); S.check(cur->get_epsilon() == e[i], "epsilon", "get_epsilon() differs from what was set"); break; }
      default: break;
    }
    // and now all four combinations
    for (int calib = 0; calib < 2; ++calib) {
      pointing p; fill(p, pnt[r]); cv.convolve(p, calib); Rows x = rows_of(p);
      S.check(x.size() == raw.size(), "row-count", "rows lost");
      double cal = calib && !normalized ? 2 / (1 + e[cur == &d1]) : 1;
      for (size_t i = 0; i < x.size() && i < raw.size(); ++i) {
        double w = raw[i][3] * factor * cal, tol = 1e-13 * std::fabs(w) + (normalized ? 4e-6 * norm * std::fabs(factor) : 1e-13 * norm * std::fabs(cal));
        if (!S.check(std::fabs(x[i][3] - w) <= tol, "calibration-factor", strf("calibrate=%d normalized=%d eps=%.17g row %zu: %.17g, raw signal %.17g, expected factor %.17g", calib, normalized, e[cur == &d1], i, x[i][3], raw[i][3], factor * cal))) break;
        S.count("signals_compared");
      }
    }
    if (normalized) { double f = bm.normalize(); S.check(f == 1, "normalize-factor", strf("second normalize() returned %.17g", f)); }
  });
}
static AddPart p06("c06.calib", [] { return opt_tier ? 4000L : 500L; }, c06);

// ------------------------------------------------------------------ C07
// The reference for each convolve: everything built anew in the same rank.
struct SkyState { std::string file; int lmax; bool pol; double fwhm = 0; bool mono = false, dip = false; float tweak = 1; };
struct BeamState { std::string file; int lmax, mmax; bool pol; bool norm = false; };
static void load(sky &s, const SkyState &t, MPI_Comm c) { s.read(t.lmax, t.pol, t.file, t.fwhm, c); if (t.mono) s.remove_monopole(); if (t.dip) s.remove_dipole(); if (t.tweak != 1) s.slmT().Scale(t.tweak); }
static void load(beam &b, const BeamState &t, MPI_Comm c) { b.read(t.lmax, t.mmax, t.pol, t.file, c); if (t.norm) b.normalize(); }

static void c07(long idx, Rng &g) {
  bool pol = g.coin(0.4);
  int L[3], M[3]; Inputs in[3];
  for (int i = 0; i < 3; ++i) { L[i] = int(g.range(3, 16)); M[i] = int(g.range(0, std::min(L[i], 4))); in[i] = make_inputs(g, L[i], L[i], M[i], pol, int(g.range(0, 3)), int(g.range(0, 3)), std::to_string(i)); in[i].beam.at(0, 0, 0) = cf(float(g.uni(0.1, 2)), 0); write_alm_file(in[i].bf, in[i].beam); }
  simmpi::Options o; o.nranks = g.coin(0.3) ? 1 : int(g.range(2, 5)); o.nthreads = int(g.range(1, 2)); o.seed = g.u64(); o.delay = int(g.range(0, 2)); o.cpu_s = 120;
  uint64_t sq = g.u64(); int nops = int(g.range(6, opt_tier ? 30 : 16));
  std::string what = strf("ranks=%d threads=%d delay=%d pol=%d lmax=%d,%d,%d mmax=%d,%d,%d ops=%d opseed=%llu", o.nranks, o.nthreads, o.delay, pol, L[0], L[1], L[2], M[0], M[1], M[2], nops, (unsigned long long)sq);
  R.eval(what, true);
  std::string save = tmpfile_path("history");
  // target < 0: the whole history. Otherwise only its bookkeeping, up to the convolution of operation `target`, which then runs as the first thing in a new process.
  auto history = [&](int r, Sub &S, int target) {
    bool live = target < 0;
    Rng q(sq); // the same operations on every rank
    // communicators: world, a duplicate, halves
    MPI_Comm comms[3]; comms[0] = MPI_COMM_WORLD; MPI_Comm_dup(MPI_COMM_WORLD, &comms[1]); MPI_Comm_split(MPI_COMM_WORLD, r % 2, q.coin() ? r : -r, &comms[2]);
    sky sk[3]; beam bm[3]; detector dt[2]; SkyState ss[3]; BeamState bs[3]; double eps[2] = {0, 0.3};
    for (int i = 0; i < 3; ++i) { ss[i] = {in[i].sf, L[i], pol}; bs[i] = {in[i].bf, L[i], M[i], pol}; if (live) { load(sk[i], ss[i], MPI_COMM_WORLD); load(bm[i], bs[i], MPI_COMM_WORLD); } }
    dt[1].set_epsilon(0.3);
    FILE *out = nullptr, *old = nullptr;
    if (live) out = fopen((save + std::to_string(r)).c_str(), "wb"); else old = fopen((save + std::to_string(r)).c_str(), "rb");
    struct Cv { convolver *c; int s, b, d, comm; long lmax, mmax, order; bool pol; };
    pointing kept; // used again and again, whatever an earlier convolution left in it
    std::vector<Cv> cvs;
    auto make = [&] {
      Cv c; c.s = int(q.range(0, 2)); c.b = int(q.range(0, 2)); c.d = int(q.range(0, 1)); c.comm = int(q.range(0, 2));
      c.lmax = std::min(ss[c.s].lmax, bs[c.b].lmax); if (q.coin(0.3)) c.lmax = q.range(std::min(2L, c.lmax), c.lmax);
      c.mmax = q.range(0, std::min<long>(bs[c.b].mmax, c.lmax)); c.order = q.range(0, 9); int verb = q.coin(0.08) ? int(q.range(1, 8)) : 0; c.pol = pol && q.coin(0.8);
      c.c = live ? new convolver(&sk[c.s], &bm[c.b], &dt[c.d], c.pol, c.lmax, c.mmax, c.order, verb, comms[c.comm]) : nullptr;
      cvs.push_back(c);
    };
    size_t first_index = 0; // running index of this rank's first row
    auto pick_rows = [&](int comm) {
      int me, n; MPI_Comm_rank(comms[comm], &me); MPI_Comm_size(comms[comm], &n);
      Rng d(q.u64()); // consumes the same amount on every rank
      if (comm == 2) d = Rng(d.s + 77 * (r % 2)); // the two halves use different pointings
      int lm = 8; Rows all = random_rows(d, d.range(0, 14), int(d.range(0, 8)), lm);
      auto parts = distribute(d, all, n, int(d.range(0, 6))); first_index = 0; for (int i = 0; i < me; ++i) first_index += parts[i].size();
      return parts[me];
    };
    make();
    for (int k = 0; k < nops; ++k) {
      int op = int(q.range(0, 13));
      if (op <= 4 || cvs.empty()) {
        if (cvs.empty()) make();
        Cv &c = cvs[q.u64() % cvs.size()]; Rows mine = pick_rows(c.comm); bool cal = q.coin(), again = q.coin(0.4);
        bool fits = (!c.pol || (ss[c.s].pol && bs[c.b].pol)) && c.lmax <= ss[c.s].lmax && c.lmax <= bs[c.b].lmax && c.mmax <= bs[c.b].mmax;
        if (!live && k != target) continue;
        Rows got;
        if (live) {
          auto before_s = coefs(sk[c.s], ss[c.s].pol), before_b = coefs(bm[c.b], bs[c.b].pol); bool nb = bm[c.b].normalized(); double eb = dt[c.d].get_epsilon();
          pointing fresh, &p = again ? kept : fresh; fill(p, mine); bool threw = false;
          try { c.c->convolve(p, cal); } catch (std::exception &) { threw = true; }
          S.check(same(before_s, coefs(sk[c.s], ss[c.s].pol)) && sk[c.s].get_lmax() == ss[c.s].lmax, "convolve-modified-sky", strf("operation %d", k));
          S.check(same(before_b, coefs(bm[c.b], bs[c.b].pol)) && bm[c.b].normalized() == nb, "convolve-modified-beam", strf("operation %d", k));
          S.check(dt[c.d].get_epsilon() == eb, "convolve-modified-detector", strf("operation %d", k));
          if (!fits) { S.check(threw, "excess-limits-accepted", strf("operation %d: inputs no longer provide lmax=%ld mmax=%ld pol=%d", k, c.lmax, c.mmax, c.pol)); S.count("refused_convolutions"); continue; }
          if (threw) { S.viol("convolve-refused", strf("operation %d", k)); continue; }
          got = rows_of(p);
          long h[2] = {k, long(got.size())}; if (out) { fwrite(h, sizeof h, 1, out); for (auto &x : got) fwrite(&x[0], sizeof x, 1, out); }
        } else {
          long h[2]; bool found = false;
          while (old && fread(h, sizeof h, 1, old) == 1) { Rows x; x.resize(size_t(h[1])); for (auto &y : x) if (fread(&y[0], sizeof y, 1, old) != 1) break; if (h[0] == k) { got = x; found = true; break; } }
          if (!fits || !found) break;
        }
        sky fs; beam fb; detector fd; load(fs, ss[c.s], comms[c.comm]); load(fb, bs[c.b], comms[c.comm]); fd.set_epsilon(eps[c.d]);
        convolver fc(&fs, &fb, &fd, c.pol, c.lmax, c.mmax, c.order, 0, comms[c.comm]);
        pointing fp; fill(fp, mine); fc.convolve(fp, cal); Rows want = rows_of(fp);
        double mag = 0; { auto a = coefs(fs, c.pol), b = coefs(fb, c.pol); for (size_t i = 0; i < a.size(); ++i) { double x = 0, y = 0; for (float v : a[i]) x += std::fabs(v); for (float v : b[i]) y += std::fabs(v); mag += x * y; } }
        S.check(got.size() == want.size(), "row-count", strf("operation %d", k));
        for (size_t i = 0; live && i < got.size(); ++i) if (!S.check(got[i][4] == double(first_index + i), "running-index", strf("operation %d row %zu: %.17g instead of %zu (comm=%d)", k, i, got[i][4], first_index + i, c.comm))) break;
        for (size_t i = 0; i < got.size() && i < want.size(); ++i)
          if (!S.check(memcmp(&got[i][0], &want[i][0], 24) == 0 && got[i][4] == want[i][4] && close(got[i][3], want[i][3], 1e-11 * mag), live ? "history-dependent-result" : "process-history-dependent-result", strf("operation %d row %zu: %.17g, fresh objects%s give %.17g (lmax=%ld mmax=%ld order=%ld sky=%d beam=%d det=%d comm=%d)", k, i, got[i][3], live ? "" : " in a fresh process", want[i][3], c.lmax, c.mmax, c.order, c.s, c.b, c.d, c.comm))) break;
        S.count(live ? "convolutions_compared" : "fresh_process_comparisons");
        if (!live) break;
      } else if (op == 5) make();
      else if (op == 6) { Cv &c = cvs[q.u64() % cvs.size()]; c.s = int(q.range(0, 2)); if (live) c.c->set_sky(&sk[c.s]); }
      else if (op == 7) { Cv &c = cvs[q.u64() % cvs.size()]; c.b = int(q.range(0, 2)); if (live) c.c->set_beam(&bm[c.b]); }
      else if (op == 8) { Cv &c = cvs[q.u64() % cvs.size()]; c.d = int(q.range(0, 1)); if (live) c.c->set_detector(&dt[c.d]); }
      else if (op == 9) { int i = int(q.range(0, 1)); eps[i] = q.uni(0, 1); dt[i].set_epsilon(eps[i]); }
      else if (op == 10) { int i = int(q.range(0, 2)); bs[i].norm = true; if (live) bm[i].normalize(); }
      else if (op == 11) { int i = int(q.range(0, 2)); bool mono = q.coin(); (mono ? ss[i].mono : ss[i].dip) = true; if (live) { if (mono) sk[i].remove_monopole(); else sk[i].remove_dipole(); } }
      else if (op == 12) { // load other contents into an existing object
        int i = int(q.range(0, 2)), j = int(q.range(0, 2)); bool s = q.coin();
        if (s) { ss[i] = {in[j].sf, int(q.coin(0.7) ? L[j] : q.range(2, L[j])), pol && q.coin(0.85)}; ss[i].fwhm = q.coin(0.3) ? q.uni(1, 300) : 0; if (live) load(sk[i], ss[i], MPI_COMM_WORLD); }
        else { int l = int(q.coin(0.7) ? L[j] : q.range(std::max(2, M[j]), L[j])); bs[i] = {in[j].bf, l, M[j], pol && q.coin(0.85)}; if (live) { load(bm[i], bs[i], MPI_COMM_WORLD); S.check(bm[i].get_mmax() == M[j], "reread-limits", strf("mmax %d, expected %d", bm[i].get_mmax(), M[j])); } }
      } else { // destroy one, and a temporary convolver used in between
        if (cvs.size() > 1) { size_t i = q.u64() % cvs.size(); delete cvs[i].c; cvs.erase(cvs.begin() + long(i)); }
        else { int i = int(q.range(0, 2)), j = int(q.range(0, 2)); long lm = std::min(ss[i].lmax, bs[j].lmax); Rows m = pick_rows(0); if (live) { convolver t(&sk[i], &bm[j], &dt[0], pol && ss[i].pol && bs[j].pol, lm, std::min<long>(lm, bs[j].mmax), 3, 0, comms[0]); pointing p; fill(p, m); t.convolve(p, false); } }
      }
      if (live) S.count("operations");
    }
    for (auto &c : cvs) delete c.c;
    if (out) fclose(out); if (old) fclose(old);
  };
  if (run_subs(what, o, [&](int r, Sub &S) { history(r, S, -1); })) {
    // which operations convolved (rank 0 takes part in all but those of the other half)
    std::vector<long> ops; FILE *f = fopen((save + "0").c_str(), "rb"); long h[2];
    while (f && fread(h, sizeof h, 1, f) == 1) { ops.push_back(h[0]); fseek(f, h[1] * long(sizeof(Rows::value_type)), SEEK_CUR); }
    if (f) fclose(f);
    if (!ops.empty()) {
      int t = int(g.coin() ? ops.back() : ops[g.u64() % ops.size()]);
      run_subs(what + strf(" fresh process for operation %d", t), o, [&](int r, Sub &S) { history(r, S, t); });
    }
  }
  for (int r = 0; r < o.nranks; ++r) unlink((save + std::to_string(r)).c_str());
}
static AddPart p07("c07.history", [] { return opt_tier ? 3000L : 300L; }, c07);
