// Rotation, smoothing, spectra and random realisations of coefficient sets (C15).
#include "sub.h"
#include <fcntl.h>
#include <unistd.h>
#include "ls_alm.h"
#include "ls_alm_powspec_tools.h"
#include "ls_constants.h"
#include "ls_powspec.h"
#include "ls_rng.h"
#include "ls_rotmatrix.h"
#include "ls_xcomplex.h"
#include "ls_vec3.h"
using namespace levels; using std::string; using std::vector;
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
template <class T> using CAlm = levels::Alm<xcomplex<T>>;
typedef std::complex<ld> cld;

template <class T> static void fill_random(CAlm<T> &a, Rng &q, int style) { // style 0: all, 1: one coefficient, 2: red, 3: sparse
  int lmax = a.Lmax(), mmax = a.Mmax(), l1 = int(q.range(0, lmax)), m1 = int(q.range(0, std::min(l1, mmax)));
  for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) { T re = T(q.gauss()), im = m ? T(q.gauss()) : T(0); T f = style == 1 ? T(l == l1 && m == m1) : style == 2 ? T(1 / std::pow(l + 1., 2)) : style == 3 ? T(q.coin(0.1)) : T(1); a(l, m).Set(re * f, im * f); }
}
template <class T> static double level(const CAlm<T> &a, int l) { ld s = 0; for (int m = 0; m <= std::min(l, a.Mmax()); ++m) s += (m ? 2 : 1) * (ld(a(l, m).re) * a(l, m).re + ld(a(l, m).im) * a(l, m).im); return double(s); }
template <class T> static double field_norm(const CAlm<T> &a) { double s = 0; for (int l = 0; l <= a.Lmax(); ++l) s += std::sqrt((2 * l + 1) / (4 * PId) * level(a, l)); return s; }
// value of the real field with these coefficients in direction (x, y, z)
template <class T> static ld field(const CAlm<T> &a, const ld v[3]) {
  int lmax = a.Lmax(); ld z = v[2], st = sqrtl(v[0] * v[0] + v[1] * v[1]), n = sqrtl(st * st + z * z); z /= n; st /= n; ld ph = atan2l(v[1], v[0]), sum = 0, pmm = sqrtl(1 / (4 * PIl));
  for (int m = 0; m <= std::min(lmax, a.Mmax()); ++m) {
    if (m) pmm *= -sqrtl((2 * m + 1) / ld(2 * m)) * st;
    ld p0 = pmm, pm1 = 0, c = cosl(m * ph), s = sinl(m * ph);
    for (int l = m; l <= lmax; ++l) {
      if (l > m) { ld al = sqrtl((4 * ld(l) * l - 1) / (ld(l) * l - ld(m) * m)), be = l - 1 > m ? sqrtl((ld(l - 1) * (l - 1) - ld(m) * m) / (4 * ld(l - 1) * (l - 1) - 1)) : 0; ld p = al * (z * p0 - be * pm1); pm1 = p0; p0 = p; }
      sum += (m ? 2 : 1) * p0 * (a(l, m).re * c - a(l, m).im * s);
    }
  }
  return sum;
}
static void mulz(ld r[3][3], ld ang) { ld c = cosl(ang), s = sinl(ang); for (int j = 0; j < 3; ++j) { ld a = r[0][j], b = r[1][j]; r[0][j] = c * a - s * b; r[1][j] = s * a + c * b; } }
static void muly(ld r[3][3], ld ang) { ld c = cosl(ang), s = sinl(ang); for (int j = 0; j < 3; ++j) { ld a = r[0][j], b = r[2][j]; r[0][j] = c * a + s * b; r[2][j] = -s * a + c * b; } }
static double pick_angle(Rng &q) { double u = q.uni(); return u < 0.1 ? 0 : u < 0.2 ? PId : u < 0.3 ? PId / 2 * q.range(-4, 4) : u < 0.4 ? q.uni(-1e-9, 1e-9) : u < 0.5 ? PId + q.uni(-1e-7, 1e-7) : u < 0.6 ? q.uni(-50, 50) : q.uni(-PId, PId); }

template <class T> static void rotation(Sub &S, Rng &q, const string &what, int lmax, bool pol, bool matrix, double psi, double theta, double phi) {
  CAlm<T> a[3], b[3]; int style = int(q.range(0, 3)); for (int k = 0; k < 3; ++k) { a[k].Set(lmax, lmax); fill_random(a[k], q, style); b[k] = a[k]; }
  ld R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  if (matrix) { // any rotation matrix
    rotmatrix M, N; if (q.coin()) { double w[3]; for (auto &x : w) x = q.coin(0.2) ? 0 : q.gauss(); double n = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); vec3 axis = n > 0 ? vec3(w[0] / n, w[1] / n, w[2] / n) : vec3(0, 0, 1); M.Make_Axis_Rotation_Transform(axis, theta); } else M.Make_CPAC_Euler_Matrix(phi, theta, psi);
    if (q.coin(0.3)) { N.Make_CPAC_Euler_Matrix(q.uni(-3, 3), q.uni(0, 3), q.uni(-3, 3)); M = M * N; }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i][j] = M.entry[i][j];
    if (pol) rotate_alm(b[0], b[1], b[2], M); else rotate_alm(b[0], M);
  } else { mulz(R, psi); muly(R, theta); mulz(R, phi); if (pol) rotate_alm(b[0], b[1], b[2], psi, theta, phi); else rotate_alm(b[0], psi, theta, phi); }
  double eps = sizeof(T) == 4 ? 3e-6 : 3e-13, tol = eps * (1 + (sizeof(T) == 4 ? 0 : 1e-3 * lmax * (std::fabs(psi) + std::fabs(theta) + std::fabs(phi)))) + 0;
  if (matrix) { double sb = double(hypotl(R[0][2], R[1][2])); tol += lmax * (sb <= 1e-6 ? 2 * sb + 1e-14 : 1e-14 + 4e-16 / sb); } // the extraction of angles takes sin(theta) <= 1e-6 for zero
  for (int k = 0; k < (pol ? 3 : 1); ++k) {
    double nrm = field_norm(a[k]);
    if (!S.check(b[k].Lmax() == lmax && b[k].Mmax() == lmax, "rotation-limits", what)) return;
    for (int l = 0; l <= lmax; ++l) { S.check(b[k](l, 0).im == 0, "rotation-imaginary-m0", what + strf(" l=%d", l)); double p = level(a[k], l), r = level(b[k], l); S.maxi("rotation_power_error", sizeof(T) == 8 ? std::fabs(r - p) / (p + 1e-30) : 0); if (!S.check(std::fabs(r - p) <= 4 * tol * p + 1e-300, "rotation-power", what + strf(": power of l=%d is %.17g, was %.17g", l, r, p))) return; }
    for (int t = 0; t < 8; ++t) {
      ld v[3], w[3] = {0, 0, 0}; for (auto &x : v) x = q.gauss(); if (t == 0) { v[0] = v[1] = 0; v[2] = 1; }
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w[i] += R[i][j] * v[j];
      ld f0 = field(a[k], v), f1 = field(b[k], w); S.count("field_values_compared"); if (sizeof(T) == 8) S.maxi("rotation_error_over_norm", double(fabsl(f1 - f0)) / (nrm + 1e-30));
      if (!S.check(fabsl(f1 - f0) <= tol * nrm, "rotation-field", what + strf(": component %d: the rotated field is %.17Lg where it should be %.17Lg (norm %.3g)", k, f1, f0, nrm))) return;
    }
  }
  // back
  if (!matrix) { if (pol) rotate_alm(b[0], b[1], b[2], -phi, -theta, -psi); else rotate_alm(b[0], -phi, -theta, -psi); for (int k = 0; k < (pol ? 3 : 1); ++k) for (int l = 0; l <= lmax; ++l) { double nl = std::sqrt(level(a[k], l)); for (int m = 0; m <= l; ++m) if (!S.check(std::fabs(double(b[k](l, m).re) - a[k](l, m).re) <= 3 * tol * nl && std::fabs(double(b[k](l, m).im) - a[k](l, m).im) <= 3 * tol * nl, "rotation-inverse", what + strf(": coefficient (%d, %d) does not come back", l, m))) return; } }
  if (lmax > 0) { CAlm<T> c(lmax, lmax - 1); fill_random(c, q, 0); S.check(throws([&] { rotate_alm(c, psi, theta, phi); }), "rotation-truncated-accepted", what); CAlm<T> d = a[0]; S.check(throws([&] { rotate_alm(d, c, d, psi, theta, phi); }), "rotation-nonconformable-accepted", what); S.count("refusals", 2); }
}
static void c15_rotate(long, Rng &g) {
  int lmax = int(g.coin(0.2) ? g.range(0, 3) : g.coin(0.8) ? g.range(4, 24) : g.range(25, opt_tier ? 120 : 60)); bool pol = g.coin(), matrix = g.coin(0.35), flt = g.coin(0.3); int nt = int(g.coin(0.4) ? 1 : g.range(2, 9)); double psi = pick_angle(g), theta = pick_angle(g), phi = pick_angle(g); uint64_t sq = g.u64();
  string what = strf("rotation of lmax %d %s %s by %s psi %.17g theta %.17g phi %.17g with %d threads, seed %llu", lmax, pol ? "TGC" : "T", flt ? "float" : "double", matrix ? "matrix" : "angles", psi, theta, phi, nt, (unsigned long long)sq);
  R.eval(what, lmax > 1);
  simmpi::Options o; o.nthreads = nt; o.seed = sq;
  run_subs(what, o, [&](int, Sub &S) { Rng q(sq); if (flt) rotation<float>(S, q, what, lmax, pol, matrix, psi, theta, phi); else rotation<double>(S, q, what, lmax, pol, matrix, psi, theta, phi); S.count("rotations"); });
}
static AddPart p1("c15.rotate", [] { return opt_tier ? 20000L : 2000L; }, c15_rotate);

template <class T> static bool near(T a, ld b, ld scale = 0) { ld e = fabsl(b) * (sizeof(T) == 4 ? 3e-7L : 3e-15L) * (1 + scale); return fabsl(ld(a) - b) <= e + 1e-300L; }
// the window itself is computed in double precision by a formula of the code's own choice
template <class T> static bool near_w(T a, ld b, ld cond = 0) { return near(a, b, sizeof(T) == 4 ? cond : cond + 4000); }
template <class T> static void smoothing(Sub &S, Rng &q, const string &what, int lmax, int mmax) {
  CAlm<T> a[3], b[3]; for (int k = 0; k < 3; ++k) { a[k].Set(lmax, mmax); fill_random(a[k], q, int(q.range(0, 3))); b[k] = a[k]; }
  bool pol = q.coin(); double sg = q.coin(0.1) ? 0 : std::pow(10., q.uni(-4, 0)) / (1 + 0.1 * lmax) * (q.coin(0.3) ? -1 : 1), fw = sg / fwhm2sigma; // sigma times lmax stays moderate
  ld sig = ld(fw) / sqrtl(8 * logl(2)); ld sgn = fw >= 0 ? 1 : -1; auto win = [&](int l, int spin) { return expl(-0.5L * sgn * (ld(l) * (l + 1) - spin * spin) * sig * sig); };
  if (pol) smoothWithGauss(b[0], b[1], b[2], fw); else smoothWithGauss(b[0], fw);
  for (int k = 0; k < 3; ++k) for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) { ld f = k && !pol ? 1 : win(l, k ? 2 : 0), cond = fabsl(logl(f)); S.count("coefficients_compared"); if (!S.check(near_w(b[k](l, m).re, f * a[k](l, m).re, cond) && near_w(b[k](l, m).im, f * a[k](l, m).im, cond), "smoothing-window", what + strf(": component %d coefficient (%d, %d) is %.17g, expected %.17Lg times %.17g (fwhm %.17g)", k, l, m, double(b[k](l, m).re), f, double(a[k](l, m).re), fw))) return; }
  if (pol) smoothWithGauss(b[0], b[1], b[2], -fw); else smoothWithGauss(b[0], -fw);
  for (int k = 0; k < 3; ++k) for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) if (!S.check(near_w(b[k](l, m).re, a[k](l, m).re) && near_w(b[k](l, m).im, a[k](l, m).im), "smoothing-inverse", what)) return;
}
template <class T> static void spectra(Sub &S, Rng &q, const string &what, int lmax, int mmax) {
  CAlm<T> a[3]; for (auto &x : a) { x.Set(lmax, mmax); fill_random(x, q, int(q.range(0, 3))); }
  auto sum = [&](const CAlm<T> &x, const CAlm<T> &y, int l, bool mag) { ld s = 0; for (int m = 0; m <= std::min(l, mmax); ++m) { ld r = ld(x(l, m).re) * y(l, m).re, i = ld(x(l, m).im) * y(l, m).im; s += (m ? 2 : 1) * (mag ? fabsl(r) + fabsl(i) : r + i); } return s / (2 * l + 1); };
  auto cmp = [&](const arr<double> &v, const CAlm<T> &x, const CAlm<T> &y, const char *n) { if (!S.check(v.size() == tsize(lmax) + 1, "spectrum-size", what + n)) return; for (int l = 0; l <= lmax; ++l) { ld e = sum(x, y, l, false), t = sum(x, y, l, true) * (sizeof(T) == 4 ? 4e-7L : 1e-14L); S.count("multipoles_compared"); if (!S.check(fabsl(v[l] - e) <= t, "spectrum-value", what + strf(": %s at l=%d is %.17g, expected %.17Lg", n, l, v[l], e))) return; } };
  PowSpec p; if (q.coin()) p.Set(q.coin() ? 4 : 6, int(q.range(0, 9))); // reused objects
  extract_powspec(a[0], a[1], a[2], p); p.assertArraySizes(); S.check(p.Num_specs() == 6 && p.Lmax() == lmax, "spectrum-size", what); cmp(p.tt(), a[0], a[0], "TT"); cmp(p.gg(), a[1], a[1], "GG"); cmp(p.cc(), a[2], a[2], "CC"); cmp(p.tg(), a[0], a[1], "TG"); cmp(p.tc(), a[0], a[2], "TC"); cmp(p.gc(), a[1], a[2], "GC");
  PowSpec c = p; if (q.coin()) extract_powspec(a[1], p); else p = PowSpec(1, lmax), extract_powspec(a[1], p); p.assertArraySizes(); S.check(p.Num_specs() == 1 && p.Lmax() == lmax, "spectrum-size", what); cmp(p.tt(), a[1], a[1], "GG alone"); cmp(c.tc(), a[0], a[2], "TC of the copy");
  { int save = dup(2), nul = open("/dev/null", O_WRONLY); fflush(stderr); dup2(nul, 2); close(nul); extract_crosspowspec(a[0], a[2], p); dup2(save, 2); close(save); } cmp(p.tt(), a[0], a[2], "cross spectrum");
  if (lmax > 0) { CAlm<T> d(lmax - 1, std::min(mmax, lmax - 1)); fill_random(d, q, 0); S.check(throws([&] { extract_crosspowspec(a[0], d, p); }) && throws([&] { extract_powspec(a[0], d, a[1], p); }), "spectrum-nonconformable-accepted", what); S.count("refusals", 2); }
}
static void powspec_object(Sub &S, Rng &q, const string &what) {
  static const int ns[] = {1, 4, 6}; int n = ns[q.range(0, 2)], lmax = int(q.range(0, 40)); PowSpec p(n, lmax); auto put = [&](PowSpec &x, int k, double f) { for (int l = 0; l <= x.Lmax(); ++l) { x.tt(l) = f * (l + 1); if (k > 1) { x.gg(l) = f * (l + 2); x.cc(l) = f * (l + 3); x.tg(l) = 0.5 * f * (l + 1); } if (k > 4) { x.tc(l) = 0.25 * f * l; x.gc(l) = 0.1 * f * l; } } };
  for (int t = 0; t < 6; ++t) {
    put(p, n, 1 + t); S.check(p.Num_specs() == n && p.Lmax() == lmax, "powspec-size", what); S.check(!throws([&] { p.assertArraySizes(); }), "powspec-arrays", what + strf(" with %d components", n)); S.check(p.consistentAutoPowspec(), "powspec-consistency", what);
    if (n <= 4) { double sg = q.uni(0, 3) / (lmax + 1); p.smoothWithGauss(sg / fwhm2sigma); for (int l = 0; l <= lmax; ++l) { ld w = expl(-0.5L * l * (l + 1) * ld(sg) * sg), v = expl(-0.5L * (l * (l + 1) - 4) * ld(sg) * sg), f = 1 + t; bool ok = fabsl(p.tt(l) / (f * (l + 1) * w * w) - 1) < 1e-14L && (n == 1 || (fabsl(p.gg(l) / (f * (l + 2) * v * v) - 1) < 1e-14L && fabsl(p.cc(l) / (f * (l + 3) * v * v) - 1) < 1e-14L && fabsl(p.tg(l) / (0.5L * f * (l + 1) * v * w) - 1) < 1e-14L)); if (!S.check(ok, "powspec-smoothing", what + strf(" l=%d sigma %.17g, %d components", l, sg, n))) break; } }
    else S.check(throws([&] { p.smoothWithGauss(0.1); }), "powspec-smoothing-accepted", what);
    if (n > 1) { int l = int(q.range(0, lmax)), k = int(q.range(0, n == 6 ? 4 : 2)); put(p, n, 1); double &x = k == 0 ? p.gg(l) : k == 1 ? p.cc(l) : k == 2 ? p.tg(l) : k == 3 ? p.tc(l) : p.gc(l); x = k < 2 ? -1 : q.coin() ? 1e3 * (l + 4) : -1e3 * (l + 4); S.check(!p.consistentAutoPowspec(), "powspec-consistency", what + strf(" component %d of l=%d", k, l)); }
    n = ns[q.range(0, 2)]; lmax = int(q.range(0, 40));
    if (q.coin()) p.Set(n, lmax);
    else { arr<double> v[6]; for (auto &x : v) x.allocAndFill(lmax + 1, 2.); if (n == 1) p.Set(v[0]); else if (n == 4) p.Set(v[0], v[1], v[2], v[3]); else p.Set(v[0], v[1], v[2], v[3], v[4], v[5]); S.check(v[0].size() == 0 && (n < 4 || v[3].size() == 0) && (n < 6 || v[5].size() == 0), "powspec-transfer", what); bool ok = p.Lmax() == lmax; for (int l = 0; ok && l <= lmax; ++l) ok = p.tt(l) == 2 && (n < 4 || (p.gg(l) == 2 && p.cc(l) == 2 && p.tg(l) == 2)) && (n < 6 || (p.tc(l) == 2 && p.gc(l) == 2)); S.check(ok, "powspec-values", what); }
  }
  S.check(throws([&] { PowSpec(int(q.coin() ? 2 : 5), 3); }), "powspec-components-accepted", what);
  arr<double> u[4]; for (auto &x : u) x.allocAndFill(5, 1.); u[q.range(0, 3)].allocAndFill(4, 1.); S.check(throws([&] { p.Set(u[0], u[1], u[2], u[3]); }), "powspec-sizes-accepted", what);
}
template <class T> static void container(Sub &S, Rng &q, const string &what, int lmax, int mmax) { // against a map (l, m) -> value
  CAlm<T> a(lmax, mmax), b; vector<vector<std::complex<T>>> v; auto read = [&](const CAlm<T> &x, const char *op) { if (!S.check(x.Lmax() == lmax && x.Mmax() == mmax && x.Alms().size() == Alm_Base::Num_Alms(lmax, mmax), "alm-limits", what + op)) return; for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) if (!S.check(x(l, m).re == v[m][l].real() && x(l, m).im == v[m][l].imag() && &x(l, m) == x.mstart(m) + l && &x(l, m) == &x.Alms()[x.index(l, m)], "alm-value", what + strf(" after %s: (%d, %d)", op, l, m))) return; };
  auto each = [&](std::function<void(int, int)> f) { for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) f(l, m); };
  vector<char> used(Alm_Base::Num_Alms(lmax, mmax), 0); bool ok = true; each([&](int l, int m) { int i = a.index(l, m); ok = ok && i >= 0 && tsize(i) < used.size() && !used[i]; if (ok) used[i] = 1; }); S.check(ok, "alm-index", what);
  v.assign(mmax + 1, vector<std::complex<T>>(lmax + 1)); fill_random(a, q, 0); each([&](int l, int m) { v[m][l] = {a(l, m).re, a(l, m).im}; });
  for (int t = 0; t < 8; ++t) switch (q.range(0, 6)) {
    case 0: { T f = T(q.range(-3, 3)) / T(2); a.Scale(f); each([&](int l, int m) { v[m][l] *= f; }); read(a, "Scale"); break; }
    case 1: { arr<T> f(lmax + 1 + q.range(0, 2)); for (tsize i = 0; i < f.size(); ++i) f[i] = T(q.range(-4, 4)) / T(4); a.ScaleL(f); each([&](int l, int m) { v[m][l] *= f[l]; }); read(a, "ScaleL"); arr<T> s(lmax); s.fill(T(1)); S.check(throws([&] { a.ScaleL(s); }), "alm-short-factor-accepted", what); break; }
    case 2: { arr<T> f(mmax + 1 + q.range(0, 2)); for (tsize i = 0; i < f.size(); ++i) f[i] = T(q.range(-4, 4)) / T(4); a.ScaleM(f); each([&](int l, int m) { v[m][l] *= f[m]; }); read(a, "ScaleM"); arr<T> s(mmax); s.fill(T(1)); S.check(throws([&] { a.ScaleM(s); }), "alm-short-factor-accepted", what); break; }
    case 3: { T x = T(q.range(-9, 9)); a.Add(x); v[0][0] += x; read(a, "Add(number)"); break; }
    case 4: { b = a; a.Add(b); each([&](int l, int m) { v[m][l] += v[m][l]; }); read(a, "Add(other)"); if (lmax) { CAlm<T> c(lmax - 1, 0); c.SetToZero(); S.check(throws([&] { a.Add(c); }), "alm-nonconformable-accepted", what); } break; }
    case 5: { CAlm<T> c(int(q.range(0, 5)), 0); c.SetToZero(); a.swap(c); read(c, "swap"); a.swap(c); read(a, "swap back"); break; }
    default: { arr<xcomplex<T>> d(a.Alms()); CAlm<T> c; c.Set(d, lmax, mmax); S.check(d.size() == 0, "alm-transfer", what); read(c, "Set"); arr<xcomplex<T>> e(d.size() + 1 + Alm_Base::Num_Alms(lmax, mmax)); S.check(throws([&] { c.Set(e, lmax, mmax); }), "alm-size-accepted", what); read(c, "refused Set"); a.Set(lmax, mmax); a.SetToZero(); each([&](int l, int m) { v[m][l] = 0; }); read(a, "SetToZero"); fill_random(a, q, 0); each([&](int l, int m) { v[m][l] = {a(l, m).re, a(l, m).im}; }); }
  }
  S.check(throws([&] { CAlm<T> c(3, 4); }), "alm-limits-accepted", what); S.count("container_programs");
}
static void c15_tools(long, Rng &g) {
  int lmax = int(g.coin(0.2) ? g.range(0, 3) : g.range(4, 60)), mmax = g.coin(0.4) ? lmax : int(g.range(0, lmax)); bool flt = g.coin(0.3); uint64_t sq = g.u64();
  string what = strf("coefficients lmax %d mmax %d %s, seed %llu", lmax, mmax, flt ? "float" : "double", (unsigned long long)sq); R.eval(what, lmax > 1);
  isolated(what, [&](Sub &S) { Rng q(sq); if (flt) { smoothing<float>(S, q, what, lmax, mmax); spectra<float>(S, q, what, lmax, mmax); container<float>(S, q, what, lmax, mmax); } else { smoothing<double>(S, q, what, lmax, mmax); spectra<double>(S, q, what, lmax, mmax); container<double>(S, q, what, lmax, mmax); } powspec_object(S, q, what); });
}
static AddPart p2("c15.tools", [] { return opt_tier ? 20000L : 2000L; }, c15_tools);

// ------------------------------------------------------------------ random realisations
template <class T> static void realise(Sub &S, Rng &q, const string &what, int lmax, int mmax) {
  PowSpec p(q.coin() ? 4 : 6, lmax); int style = int(q.range(0, 3)); double rho = q.coin(0.1) ? 1 : q.coin(0.1) ? -1 : q.coin(0.2) ? 0 : q.uni(-0.99, 0.99);
  for (int l = 0; l <= lmax; ++l) { double t = style == 1 ? std::pow(l + 1., -2) : std::exp(q.uni(-3, 3)), e = std::exp(q.uni(-3, 3)), c = std::exp(q.uni(-3, 3)); if (style >= 2 && q.coin(0.3)) t = 0; if (style >= 2 && q.coin(0.3)) e = 0; if (style >= 2 && q.coin(0.3)) c = 0; p.tt(l) = t; p.gg(l) = e; p.cc(l) = c; p.tg(l) = rho * std::sqrt(t * e) * (1 - 1e-10); if (p.Num_specs() == 6) { p.tc(l) = 0; p.gc(l) = 0; } }
  unsigned sd = unsigned(q.u64()); planck_rng r1(sd), r2(sd), r3(sd ^ 0x55555u); CAlm<T> a[3], b[3], c[3], t1(lmax, mmax), t2(lmax, mmax), t3(lmax, mmax); for (int k = 0; k < 3; ++k) { a[k].Set(lmax, mmax); b[k].Set(lmax, mmax); c[k].Set(lmax, mmax); for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) { a[k](l, m).Set(T(9), T(9)); b[k](l, m).Set(T(-5), T(3)); } }
  create_alm_pol(p, a[0], a[1], a[2], r1); create_alm_pol(p, b[0], b[1], b[2], r2); create_alm_pol(p, c[0], c[1], c[2], r3); create_alm(p, t1, r1); create_alm(p, t2, r2); create_alm(p, t3, r3);
  bool same = true, other = false; for (int k = 0; k < 4; ++k) { const CAlm<T> &x = k < 3 ? a[k] : t1, &y = k < 3 ? b[k] : t2, &z = k < 3 ? c[k] : t3; for (tsize i = 0; i < x.Alms().size(); ++i) { same = same && x.Alms()[i].re == y.Alms()[i].re && x.Alms()[i].im == y.Alms()[i].im; other = other || x.Alms()[i].re != z.Alms()[i].re; } }
  S.check(same, "realisation-not-reproducible", what); bool any = false; for (int l = 0; l <= lmax; ++l) any = any || p.tt(l) > 0 || p.gg(l) > 0 || p.cc(l) > 0; S.check(other || !any, "realisation-ignores-seed", what);
  // normalised sums: real and imaginary part of m > 0 have half the variance each, m = 0 is real
  struct Stat { double s = 0, n = 0; void add(double x) { s += x; n += 1; } double sig() const { return n ? s / std::sqrt(n) : 0; } };
  Stat v0[4], vr[4], vi[4], mean[4], ri[4], tg, tgp[3], tc, gc, tt2;
  for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= std::min(l, mmax); ++m) for (int k = 0; k < 4; ++k) {
    double C = k == 0 || k == 3 ? p.tt(l) : k == 1 ? p.gg(l) : p.cc(l); const xcomplex<T> &x = k < 3 ? a[k](l, m) : t1(l, m);
    if (m == 0) S.check(x.im == 0, "realisation-imaginary-m0", what + strf(": component %d l=%d", k, l));
    if (C == 0) { S.check(x.re == 0 && x.im == 0, "realisation-of-zero-power", what + strf(": component %d (%d, %d) is %g %g", k, l, m, double(x.re), double(x.im))); continue; }
    S.count("random_coefficients"); double re = x.re / std::sqrt(C), im = x.im / std::sqrt(C);
    if (!S.check(std::isfinite(re) && std::isfinite(im) && std::fabs(re) < 9 && std::fabs(im) < 9, "realisation-range", what)) return;
    if (m == 0) { v0[k].add(re * re - 1); mean[k].add(re); } else { vr[k].add(2 * re * re - 1); vi[k].add(2 * im * im - 1); mean[k].add(std::sqrt(2.) * re); mean[k].add(std::sqrt(2.) * im); ri[k].add(2 * re * im); }
    if (k == 1 && p.tt(l) > 0) { double f = (m ? 2. : 1.); double e = (a[0](l, m).re * re + a[0](l, m).im * im) / std::sqrt(p.tt(l)) * f - p.tg(l) / std::sqrt(p.tt(l) * C) * (m ? 2 : 1); tg.add(e / (m ? 2 : 1)); double rh = p.tg(l) / std::sqrt(p.tt(l) * C), st = std::sqrt(p.tt(l)); if (m == 0) tgp[0].add(a[0](l, m).re * re / st - rh); else { tgp[1].add(2 * a[0](l, m).re * re / st - rh); tgp[2].add(2 * a[0](l, m).im * im / st - rh); } }
    if (k == 2) { double f = m ? 2 : 1; if (p.tt(l) > 0) tc.add(f * (a[0](l, m).re * re + a[0](l, m).im * im) / std::sqrt(p.tt(l)) / f); if (p.gg(l) > 0) gc.add((a[1](l, m).re * re + a[1](l, m).im * im) / std::sqrt(p.gg(l))); }
    if (k == 3 && p.tt(l) > 0) tt2.add((a[0](l, m).re * re + a[0](l, m).im * im) / std::sqrt(p.tt(l)));
  }
  auto limit = [&](const Stat &s, double sd1, const char *n, int k) { S.maxi("largest_deviation_in_sigma", s.n >= 30 ? std::fabs(s.sig()) / sd1 : 0); S.check(s.n < 30 || std::fabs(s.sig()) / sd1 < 9, "realisation-distribution", what + strf(": %s of component %d deviates by %.1f sigma over %g values", n, k, s.sig() / sd1, s.n)); };
  for (int k = 0; k < 4; ++k) { limit(v0[k], std::sqrt(2.), "variance of m=0", k); limit(vr[k], std::sqrt(2.), "variance of the real parts", k); limit(vi[k], std::sqrt(2.), "variance of the imaginary parts", k); limit(mean[k], 1, "mean", k); limit(ri[k], 1, "correlation of real and imaginary parts", k); }
  for (int k = 0; k < 3; ++k) limit(tgp[k], 1.45, k == 0 ? "TG correlation at m=0" : k == 1 ? "TG correlation of the real parts" : "TG correlation of the imaginary parts", 1);
  limit(tg, 1.5, "TG correlation", 1); limit(tc, 1, "TC correlation", 2); limit(gc, 1, "GC correlation", 2); limit(tt2, 1, "correlation of two successive realisations", 3);
  if (lmax > 1) { PowSpec z(4, lmax); for (int l = 0; l <= lmax; ++l) { z.tt(l) = z.gg(l) = z.cc(l) = 1; z.tg(l) = 0; } z.tg(int(q.range(0, lmax))) = q.coin() ? 1.5 : -2; planck_rng r; S.check(throws([&] { create_alm_pol(z, a[0], a[1], a[2], r); }), "inconsistent-spectra-accepted", what); }
}
static void c15_random(long, Rng &g) {
  int lmax = int(g.coin(0.1) ? g.range(0, 3) : g.range(10, 90)), mmax = g.coin(0.6) ? lmax : int(g.range(0, lmax)); if (g.coin(0.15)) { lmax = int(g.range(400, 1200)); mmax = int(g.range(0, 2)); } bool flt = g.coin(0.3); uint64_t sq = g.u64();
  string what = strf("realisation lmax %d mmax %d %s, seed %llu", lmax, mmax, flt ? "float" : "double", (unsigned long long)sq); R.eval(what, lmax > 1);
  isolated(what, [&](Sub &S) { Rng q(sq); if (flt) realise<float>(S, q, what, lmax, mmax); else realise<double>(S, q, what, lmax, mmax); });
}
static AddPart p3("c15.random", [] { return opt_tier ? 10000L : 1000L; }, c15_random);
