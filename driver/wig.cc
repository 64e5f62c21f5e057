// Wigner d generators against the reference recursion (C14).
#include "sub.h"
#include "ls_wigner.h"
using namespace levels;

static double pick_theta(Rng &g) {
  switch (g.range(0, 13)) {
    case 0: return 0; case 1: return PId; case 2: return PId / 2; case 3: return std::pow(10., g.uni(-12, -1)); case 4: return PId - std::pow(10., g.uni(-12, -1));
    case 5: return g.uni(-PId, 0); case 6: return g.uni(PId, 2 * PId); case 7: return g.uni(-30, 30); case 8: return PId / 2 + g.uni(-1e-6, 1e-6); case 9: return 2 * PId * g.range(-3, 3); case 10: return -PId;
    default: return g.uni(0, PId);
  }
}
struct Ref { std::vector<ld> d; double atol, cond; };
static Ref reference(int lmax, int m1, int m2, double th) {
  Ref r; wigner_col(lmax, m1, m2, ld(th), r.d);
  // angles are reduced to a turn in double precision, and angles at the poles are moved off them by 1e-15
  double red = (th >= 0 && th <= PId) ? 0 : 1e-15 * (1 + std::fabs(th)); double fold = std::fabs(std::remainder(th, PId)); if (fold < 1e-14) red += 1.5e-15; 
  r.atol = red * (lmax + 1) * 1.5 + 1e-100;
  r.cond = 1 / std::max(std::fabs(std::sin(th)), 1e-12); // the recursion runs on a rounded cosine: an angle error of eps/sin, of at most l^2 eps at the poles
  return r;
}
// got(l) for l >= firstl
template <class F> static bool compare(Sub &S, const std::string &what, const Ref &r, int lmax, int mx, int firstl, double eps, F got) {
  if (!S.check(firstl >= mx || firstl > lmax, "first-index", what + strf(": first index %d below max(|m|,|m'|) = %d", firstl, mx))) return false;
  for (int l = mx; l < std::min(firstl, lmax + 1); ++l) if (!S.check(std::fabs(double(r.d[l])) <= eps * (1 + 1e-6) + r.atol, "element-skipped", what + strf(": element l=%d is %.6Lg, above the threshold %g, but the first index is %d", l, r.d[l], eps, firstl))) return false;
  ld top = 0; for (int l = mx; l < std::min(firstl, lmax + 1); ++l) top = std::max(top, std::abs(r.d[l])); // errors of larger elements below are carried upwards
  for (int l = firstl; l <= lmax; ++l) {
    ld amp = top = std::max(top, std::abs(r.d[l])); if (l > mx) amp = std::max(amp, std::abs(r.d[l - 1])); if (l < lmax) amp = std::max(amp, std::abs(r.d[l + 1])); if (l > mx + 1) amp = std::max(amp, std::abs(r.d[l - 2]));
    double tol = double(amp) * (2e-15 * (l + 20) * 8 + 4e-16 * (l + 1) * std::min(l + 1., r.cond)) + r.atol, e = std::fabs(got(l) - double(r.d[l]));
    if (r.atol <= 1e-100 && amp > 1e-90) S.maxi("relative_error_over_l", e / double(amp) / (l + 20));
    if (!S.check(e <= tol, "element-value", what + strf(": l=%d is %.17g, expected %.17Lg (first index %d)", l, got(l), r.d[l], firstl))) return false;
    S.count("elements_compared");
  }
  return true;
}
static void c14(long idx, Rng &g) {
  int lmax = idx % 48 == 17 ? int(g.range(900, opt_tier ? 5000 : 4000)) : g.coin(0.2) ? int(g.range(1, 6)) : idx % 12 == 5 ? int(g.range(200, 900)) : int(g.range(5, 160)); int nt = int(g.range(1, 7)); uint64_t sd = g.u64();
  static const double epss[] = {1e-30, 1e-30, 1e-30, 1e-10, 1e-20, 1e-40, 1e-60, 1e-3}; double eps = epss[g.range(0, 7)]; int nprep = int(g.range(3, 12));
  std::string what = strf("lmax=%d eps=%g angles=%d preparations=%d", lmax, eps, nt, nprep);
  R.eval(what + strf(" %llx", (unsigned long long)sd), lmax > 1);
  isolated(what, [&](Sub &S) {
    Rng q(sd); arr<double> th(nt); for (int i = 0; i < nt; ++i) th[i] = pick_theta(q);
    wignergen w(lmax, th, eps); wignergen_scalar ws(lmax, th, eps); arr<double> mine(lmax + 1); arr_align<V2df, 16> mine2(lmax + 1);
    int m1 = 0, m2 = 0;
    for (int k = 0; k < nprep; ++k) {
      switch (k ? q.range(0, 7) : 0) { // sequences that reuse what the previous preparation left
        case 1: m1 = -m1; break; case 2: m2 = -m2; break; case 3: std::swap(m1, m2); break; case 4: m1 = -m1; m2 = -m2; break; case 5: m1 = 0; break;
        default: m1 = int(q.coin(0.3) ? q.range(-std::min(lmax, 3), std::min(lmax, 3)) : q.range(-lmax, lmax)); m2 = int(q.coin(0.5) ? q.range(-std::min(lmax, 14), std::min(lmax, 14)) : q.range(-lmax, lmax)); if (q.coin(0.1)) m1 = q.coin() ? lmax : -lmax; if (q.coin(0.1)) m2 = m1;
      }
      int mx = std::max(std::abs(m1), std::abs(m2));
      w.prepare(m1, m2); ws.prepare(m1, m2); if (q.coin(0.1)) w.prepare(m1, m2);
      std::vector<Ref> ref; for (int i = 0; i < nt; ++i) ref.push_back(reference(lmax, m1, m2, th[i]));
      for (int i = 0; i < nt; ++i) {
        std::string wh = what + strf(" m=%d m'=%d theta=%.17g preparation %d", m1, m2, th[i], k); int f = -7;
        int how = int(q.range(0, 3));
        const arr<double> *res = &mine; if (how == 0) res = &w.calc(i, f); else if (how == 1) res = &ws.calc(i, f); else if (how == 2) w.calc(i, f, mine); else ws.calc(i, f, mine);
        if (!compare(S, wh + " single", ref[i], lmax, mx, f, eps, [&](int l) { return (*res)[l]; })) return;
        int j = int(q.range(0, nt - 1)); f = -7; const arr_align<V2df, 16> *r2 = &mine2;
        if (q.coin()) r2 = &w.calc(i, j, f); else w.calc(i, j, f, mine2);
        wh += strf(" pair with theta=%.17g", th[j]);
        if (!compare(S, wh + " first", ref[i], lmax, mx, f, eps, [&](int l) { double a, b; (*r2)[l].writeTo(a, b); return a; })) return;
        if (!compare(S, wh + " second", ref[j], lmax, mx, f, eps, [&](int l) { double a, b; (*r2)[l].writeTo(a, b); return b; })) return;
        S.count("columns", 3);
      }
    }
    // the estimator: either refuses to answer or discards only what is negligible
    wigner_estimator est(lmax, q.pick(std::vector<double>{10, 30, 100}));
    for (int k = 0; k < 6; ++k) {
      int a = int(q.range(-lmax, lmax)), b = int(q.range(-std::min(lmax, 20), std::min(lmax, 20))); double t = q.coin(0.2) ? 0 : q.uni(0, PId); est.prepare_m(a, b);
      try { if (est.canSkip(t)) { std::vector<ld> d; wigner_col(lmax, a, b, t, d); ld top = 0; for (ld x : d) top = std::max(top, std::abs(x)); S.check(top < 1e-6, "estimator-discards", what + strf(" m=%d m'=%d theta=%.17g has elements up to %.3Lg", a, b, t, top)); } S.count("estimates"); }
      catch (std::exception &) { S.count("estimates_refused"); }
    }
  });
}
static AddPart p14("c14.wigner", [] { return 600L; }, c14);

static void c14r(long idx, Rng &g) {
  int lmax = variant == "tsan" ? int(g.range(2, 20)) : idx % 10 == 3 ? int(g.range(50, 100)) : int(g.range(0, 40)); double ang = g.coin(0.7) ? g.uni(0, PId) : pick_theta(g); uint64_t sd = g.u64();
  std::string what = strf("recursion to lmax=%d at %.17g", lmax, ang);
  R.eval(what, lmax > 1);
  simmpi::Options o; o.nthreads = int(g.range(1, 5)); setenv("MINIOMP_SEED", std::to_string(g.u64() % 100000 + 1).c_str(), 1);
  run_subs(what + strf(" threads=%d", o.nthreads), o, [&](int, Sub &S) {
    Rng q(sd); wigner_d_risbo_scalar a(lmax, ang); wigner_d_risbo_openmp b(lmax, ang); wigner_d_halfpi_risbo_scalar c(lmax); wigner_d_halfpi_risbo_openmp d(lmax);
    for (int n = 0; n <= lmax; ++n) {
      const arr2<double> *m[4] = {&a.recurse(), &b.recurse(), &c.recurse(), &d.recurse()};
      bool full = n < 8 || n == lmax || q.coin(0.15);
      for (int i = 0; i <= n; ++i) {
        if (!full && !q.coin(0.2)) continue;
        for (int j = 0; j <= 2 * n; ++j) {
          std::vector<ld> r; wigner_col(n, n - i, n - j, ang, r); double tol = 4e-15 * (n + 3) * (1 + (std::fabs(ang) > 7 ? std::fabs(ang) * 0.1 : 0));
          for (int t = 0; t < 2; ++t) { double e = std::fabs((*m[t])[i][j] - double(r[n])); S.maxi("recursion_error_over_n", e / (n + 3)); if (!S.check(e <= tol, "recursion-value", what + strf(": %s n=%d element (%d,%d) is %.17g, expected %.17Lg", t ? "threaded" : "serial", n, i, j, (*m[t])[i][j], r[n]))) return; }
          if (j > n) continue;
          wigner_col(n, n - i, n - j, PIl / 2, r);
          for (int t = 2; t < 4; ++t) { double e = std::fabs((*m[t])[i][j] - double(r[n])); S.maxi("recursion_error_over_n", e / (n + 3)); if (!S.check(e <= tol, "recursion-value-halfpi", what + strf(": %s n=%d element (%d,%d) is %.17g, expected %.17Lg", t == 3 ? "threaded" : "serial", n, i, j, (*m[t])[i][j], r[n]))) return; }
          S.count("elements_compared", 4);
        }
      }
    }
  });
}
static AddPart p14r("c14.risbo", [] { return 300L; }, c14r);
