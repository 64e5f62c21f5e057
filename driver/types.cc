// Arithmetic types and type descriptions (C22): SIMD vectors, complex numbers, 3-vectors, constants, data type tables, error reports.
#include "sub.h"
#include <complex>
#include <sstream>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include "ls_arr.h"
#include "ls_constants.h"
#include "ls_datatypes.h"
#include "ls_error_handling.h"
#include "ls_vec3.h" // before the vectors, whose sqrt() hides the one of the standard library
#include "ls_xcomplex.h"
#include "ls_sse_utils_cxx.h"
extern "C" {
#include "sse_utils.h"
}
using std::string; using std::vector;
namespace ls = levels;
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

// ------------------------------------------------------------------ vectors
template <class T> static T pick(Rng &q) {
  switch (q.range(0, 11)) { case 0: return T(0.); case 1: return T(-0.); case 2: return T(q.range(-5, 5)); case 3: return std::numeric_limits<T>::infinity() * (q.coin() ? 1 : -1); case 4: return std::numeric_limits<T>::quiet_NaN(); case 5: return std::numeric_limits<T>::denorm_min() * q.range(1, 9); case 6: return T(q.gauss() * 1e30); default: return T(q.gauss()); }
}
template <class T> static bool same(T a, T b) { return std::isnan(a) ? std::isnan(b) : memcmp(&a, &b, sizeof a) == 0; } // also tells -0 from 0
template <class T> static typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type bits(T x) { typename std::conditional<sizeof(T) == 4, uint32_t, uint64_t>::type b; memcpy(&b, &x, sizeof x); return b; }
template <class V, int N> static void float_vectors(Sub &S, Rng &q, const char *name) {
  typedef typename V::Ts T; T a[N], b[N], out[N]; for (int i = 0; i < N; ++i) { a[i] = pick<T>(q); b[i] = q.coin(0.2) ? a[i] : pick<T>(q); }
  V x, y; x.readFrom(a); y = q.coin() ? V(b[0]) : V(T(3)); for (int i = 0; i < N; ++i) y.set(i, b[i]);
  string what = name; for (int i = 0; i < N; ++i) what += strf(" (%.17g, %.17g)", double(a[i]), double(b[i]));
  auto is = [&](const V &v, const std::function<T(int)> &f, const char *op) { v.writeTo(out); bool ok = true; for (int i = 0; i < N; ++i) ok = ok && same(out[i], f(i)) && same(v[i], f(i)); S.check(ok, "vector-operation", what + " " + op); S.count("vector_operations"); };
  auto mask = [&](const V &v, const std::function<bool(int)> &f, const char *op) { v.writeTo(out); bool ok = true; int n = 0; for (int i = 0; i < N; ++i) { n += f(i); ok = ok && bits(out[i]) == (f(i) ? decltype(bits(T()))(-1) : 0); } S.check(ok && ls::any(v) == (n > 0) && ls::all(v) == (n == N) && ls::none(v) == (n == 0), "vector-comparison", what + " " + op); S.count("vector_operations"); };
  is(x, [&](int i) { return a[i]; }, "read"); is(y, [&](int i) { return b[i]; }, "set"); is(V(x), [&](int i) { return a[i]; }, "copy"); is(V(a[0]), [&](int) { return a[0]; }, "broadcast");
  is(x + y, [&](int i) { return a[i] + b[i]; }, "+"); is(x - y, [&](int i) { return a[i] - b[i]; }, "-"); is(x * y, [&](int i) { return a[i] * b[i]; }, "*"); is(x / y, [&](int i) { volatile T d = b[i]; return a[i] == 0 && d == 0 ? std::numeric_limits<T>::quiet_NaN() : d == 0 && !std::isnan(a[i]) ? std::copysign(std::numeric_limits<T>::infinity(), T(std::copysign(T(1), a[i]) * std::copysign(T(1), T(d)))) : d == 0 ? a[i] : T(a[i] / d); }, "/");
  { V z = x; z += y; is(z, [&](int i) { return a[i] + b[i]; }, "+="); z = x; z -= y; is(z, [&](int i) { return a[i] - b[i]; }, "-="); z = x; z *= y; is(z, [&](int i) { return a[i] * b[i]; }, "*="); z = V(T(1)); z /= V(T(8)); is(z, [&](int) { return T(0.125); }, "/="); z = a[0]; is(z, [&](int) { return a[0]; }, "="); z = x; z += z; is(z, [&](int i) { return a[i] + a[i]; }, "+= itself"); }
  is(-x, [&](int i) { return -a[i]; }, "negation"); is(ls::abs(x), [&](int i) { return std::fabs(a[i]); }, "abs"); is(ls::sqrt(ls::abs(x)), [&](int i) { return std::sqrt(std::fabs(a[i])); }, "sqrt");
  auto bit = [&](const V &v, const std::function<uint64_t(uint64_t, uint64_t)> &f, const char *op) { v.writeTo(out); bool ok = true; for (int i = 0; i < N; ++i) ok = ok && bits(out[i]) == decltype(bits(T()))(f(bits(a[i]), bits(b[i]))); S.check(ok, "vector-bits", what + " " + op); S.count("vector_operations"); };
  bit(x & y, [](uint64_t s, uint64_t t) { return s & t; }, "&"); bit(x | y, [](uint64_t s, uint64_t t) { return s | t; }, "|"); bit(x ^ y, [](uint64_t s, uint64_t t) { return s ^ t; }, "^");
  { V z = x; z &= y; bit(z, [](uint64_t s, uint64_t t) { return s & t; }, "&="); z = x; z |= y; bit(z, [](uint64_t s, uint64_t t) { return s | t; }, "|="); z = x; z ^= y; bit(z, [](uint64_t s, uint64_t t) { return s ^ t; }, "^="); }
  mask(x.eq(y), [&](int i) { return a[i] == b[i]; }, "eq"); mask(x.neq(y), [&](int i) { return a[i] != b[i]; }, "neq"); mask(x.lt(y), [&](int i) { return a[i] < b[i]; }, "lt"); mask(x.le(y), [&](int i) { return a[i] <= b[i]; }, "le"); mask(x.gt(y), [&](int i) { return a[i] > b[i]; }, "gt"); mask(x.ge(y), [&](int i) { return a[i] >= b[i]; }, "ge");
  is(ls::blend(x.lt(y), x, y), [&](int i) { return a[i] < b[i] ? a[i] : b[i]; }, "blend");
}
static void int_vectors(Sub &S, Rng &q) {
  int32_t a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = int32_t(q.coin(0.3) ? q.range(-3, 3) : q.u64()); b[i] = q.coin(0.2) ? a[i] : int32_t(q.u64()); if (q.coin(0.1)) a[i] = q.coin() ? INT32_MIN : INT32_MAX; }
  ls::V4si x(a[0], a[1], a[2], a[3]), y(0); for (int i = 0; i < 4; ++i) y.set(i, b[i]); int sh = int(q.range(0, 31));
  string what = "V4si"; for (int i = 0; i < 4; ++i) what += strf(" (%d, %d)", a[i], b[i]); what += strf(" %d", sh);
  auto is = [&](const ls::V4si &v, const std::function<uint32_t(uint32_t, uint32_t)> &f, const char *op) { bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && uint32_t(v[i]) == f(uint32_t(a[i]), uint32_t(b[i])); S.check(ok, "vector-operation", what + " " + op); S.count("vector_operations"); };
  typedef uint32_t u; auto all = [](bool t) { return t ? u(-1) : 0; };
  is(x, [](u s, u) { return s; }, "construction"); is(y, [](u, u t) { return t; }, "set"); is(x + y, [](u s, u t) { return s + t; }, "+"); is(x - y, [](u s, u t) { return s - t; }, "-"); is(x & y, [](u s, u t) { return s & t; }, "&"); is(x | y, [](u s, u t) { return s | t; }, "|"); is(x ^ y, [](u s, u t) { return s ^ t; }, "^"); is(x.andnot(y), [](u s, u t) { return ~s & t; }, "andnot");
  is(x << sh, [&](u s, u) { return s << sh; }, "<<"); is(x >> sh, [&](u s, u) { return u(int64_t(int32_t(s)) >> sh); }, ">>"); is(x.eq(y), [&](u s, u t) { return all(s == t); }, "eq"); is(x.gt(y), [&](u s, u t) { return all(int32_t(s) > int32_t(t)); }, "gt"); is(x.lt(y), [&](u s, u t) { return all(int32_t(s) < int32_t(t)); }, "lt");
  ls::V4si z = x; z += y; is(z, [](u s, u t) { return s + t; }, "+="); z = x; z -= y; is(z, [](u s, u t) { return s - t; }, "-="); z = x; z &= y; is(z, [](u s, u t) { return s & t; }, "&="); z = x; z |= y; is(z, [](u s, u t) { return s | t; }, "|="); z = x; z ^= y; is(z, [](u s, u t) { return s ^ t; }, "^="); z = x; z <<= sh; is(z, [&](u s, u) { return s << sh; }, "<<="); z = x; z >>= sh; is(z, [&](u s, u) { return u(int64_t(int32_t(s)) >> sh); }, ">>="); z = a[2]; S.check(z[0] == a[2] && z[3] == a[2], "vector-operation", what + " =");
  // conversions: of the first elements for doubles, rounding to nearest even
  ls::V4sf f(x); ls::V2df d(x); bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && same(f[i], float(a[i])) && (i > 1 || same(d[i], double(a[i])));
  double r0 = q.coin() ? q.range(-99, 99) + 0.5 : q.uni(-1e6, 1e6), r1 = q.uni(-2e9, 2e9); ls::V4si g = ls::V2df(r0, r1), h = ls::V4sf(float(r0), float(r1), 1.5f, -2.5f);
  S.check(ok && g[0] == int(std::nearbyint(r0)) && g[1] == int(std::nearbyint(r1)) && h[0] == int(std::nearbyint(float(r0))) && h[1] == int(std::nearbyint(float(r1))) && h[2] == 2 && h[3] == -2, "vector-conversion", what + strf(" %.17g %.17g", r0, r1));
  ls::V4sf c = ls::vcast<ls::V4sf>(x); ls::V4si e = ls::vcast<ls::V4si>(c); ls::V2df w = ls::vcast<ls::V2df>(x); bool cast = true; for (int i = 0; i < 4; ++i) cast = cast && e[i] == a[i]; S.check(cast && memcmp(&w.v, &x.v, 16) == 0, "vector-conversion", what + " vcast");
}
static void c_vectors(Sub &S, Rng &q) { // the C helpers
  float f[4], g[4] = {0, 0, 0, 0}; for (float &t : f) t = float(q.gauss()); v4sf v = build_v4sf(f[0], f[1], f[2], f[3]); int skip = int(q.range(0, 4)); read_v4sf(v, skip == 0 ? nullptr : g, skip == 1 ? nullptr : g + 1, skip == 2 ? nullptr : g + 2, skip == 3 ? nullptr : g + 3); for (int i = 0; i < 4; ++i) S.check(g[i] == (i == skip ? 0 : f[i]), "vector-operation", "read_v4sf");
  double a = pick<double>(q), b = pick<double>(q), la = std::fabs(q.gauss()), lb = q.coin(0.3) ? std::fabs(b) : std::fabs(q.gauss()), ra = 7, rb = 7; v2df d = build_v2df(a, b), l = build_v2df(la, lb); read_v2df(d, &ra, &rb); V2DF u = to_V2DF(d); string what = strf("(%.17g, %.17g) limits (%.17g, %.17g)", a, b, la, lb);
  S.check(same(ra, a) && same(rb, b) && same(u.d[0], a) && same(u.d[1], b), "vector-operation", "read_v2df " + what);
  S.check((v2df_any_gt(d, l) != 0) == (std::fabs(a) > la || std::fabs(b) > lb), "vector-comparison", "v2df_any_gt " + what); S.check((v2df_all_ge(d, l) != 0) == (!(std::fabs(a) < la) && !(std::fabs(b) < lb)), "vector-comparison", "v2df_all_ge " + what);
  v2df2 p; p.a = d; p.b = l; V2DF2 P = to_V2DF2(p); v2df2 r = to_v2df2(P), z = zero_v2df2(); S.check(same(P.a.d[1], b) && same(P.b.d[0], la) && memcmp(&r.a, &d, 16) == 0 && memcmp(&r.b, &l, 16) == 0 && to_V2DF(z.a).d[0] == 0 && to_V2DF(z.b).d[1] == 0, "vector-operation", "v2df2 " + what); S.count("vector_operations", 6);
}

// ------------------------------------------------------------------ complex numbers and 3-vectors
template <class T> static void complex_numbers(Sub &S, Rng &q, const char *name) {
  typedef ls::xcomplex<T> X; typedef std::complex<ld> C; const T eps = std::numeric_limits<T>::epsilon(); auto g = [&] { return q.coin(0.15) ? T(0) : q.coin(0.15) ? T(q.range(-9, 9)) : T(q.gauss() * std::pow(10., q.uni(-4, 4))); };
  X a(g(), g()), b(g(), g()); T t = g(); if (b.re == 0 && b.im == 0) b.re = 1; if (t == 0) t = 1; auto of = [](const X &x) { return C(x.re, x.im); }; C A = of(a), B = of(b); ld mag = std::abs(A) * std::abs(B);
  string what = strf("%s (%.9g,%.9g) (%.9g,%.9g) %.9g", name, double(a.re), double(a.im), double(b.re), double(b.im), double(t));
  auto near = [&](const X &x, C y, ld scale, const char *op) { S.check(std::abs(of(x) - y) <= 8 * eps * scale, "complex-operation", what + " " + op + strf(" gives (%.17g,%.17g)", double(x.re), double(x.im))); S.count("complex_operations"); };
  auto exact = [&](const X &x, T re, T im, const char *op) { S.check(x.re == re && x.im == im, "complex-operation", what + " " + op + strf(" gives (%.17g,%.17g)", double(x.re), double(x.im))); S.count("complex_operations"); };
  exact(a + b, a.re + b.re, a.im + b.im, "+"); exact(a - b, a.re - b.re, a.im - b.im, "-"); exact(-a, -a.re, -a.im, "negation"); exact(a.conj(), a.re, -a.im, "conj"); exact(ls::conj(a), a.re, -a.im, "conj"); exact(a.times_i(), -a.im, a.re, "times i"); exact(X(t), t, 0, "real"); exact(a * t, a.re * t, a.im * t, "* real"); exact(t * a, a.re * t, a.im * t, "real *"); exact(a / t, a.re / t, a.im / t, "/ real");
  near(a * b, A * B, mag, "*"); near(a / b, A / B, std::abs(A / B), "/"); near(t / b, C(t) / B, std::abs(C(t) / B), "real /"); near(ls::exp(X(T(a.re > 20 ? 20 : a.re < -20 ? -20 : a.re), a.im)), std::exp(C(a.re > 20 ? 20 : a.re < -20 ? -20 : a.re, a.im)), std::exp(ld(a.re > 20 ? 20 : a.re < -20 ? -20 : a.re)), "exp");
  X c = a; c += b; exact(c, a.re + b.re, a.im + b.im, "+="); c = a; c -= b; exact(c, a.re - b.re, a.im - b.im, "-="); c = a; c *= b; near(c, A * B, mag, "*="); c = a; c /= b; near(c, A / B, std::abs(A / B), "/="); c = a; c *= t; exact(c, a.re * t, a.im * t, "*= real"); c = a; c /= t; exact(c, a.re / t, a.im / t, "/= real"); c = a; c *= c; near(c, A * A, std::abs(A * A), "*= itself"); c = b; c /= c; near(c, C(1), 1, "/= itself"); c = b; c -= c; exact(c, 0, 0, "-= itself");
  c = t; exact(c, t, 0, "= real"); c = std::complex<T>(a.re, b.im); exact(c, a.re, b.im, "= std::complex"); c.Set(b.re, a.im); exact(c, b.re, a.im, "Set"); std::complex<T> s = a; exact(X(s), a.re, a.im, "std::complex"); c = a; c.Negate(); exact(c, -a.re, -a.im, "Negate"); c = a; c.Conjugate(); exact(c, a.re, -a.im, "Conjugate"); T ang = T(q.uni(-10, 10)); c = a; c.Rotate(ang); near(c, A * std::polar(ld(1), ld(ang)), std::abs(A), "Rotate"); c.real() = t; c.imag() = a.re; const X k = c; exact(k, t, a.re, "real() imag()"); S.check(k.real() == t && k.imag() == a.re, "complex-operation", what + " parts");
  S.check(std::fabs(ld(a.norm()) - std::norm(A)) <= 4 * eps * std::norm(A) && std::fabs(ld(ls::norm(a)) - std::norm(A)) <= 4 * eps * std::norm(A) && std::fabs(ld(ls::abs(a)) - std::abs(A)) <= 4 * eps * std::abs(A), "complex-operation", what + " norm"); ls::xcomplex<float> fl(a); ls::xcomplex<double> db(a); S.check(fl.re == float(a.re) && fl.im == float(a.im) && db.re == double(a.re) && db.im == double(a.im), "complex-operation", what + " precision"); std::ostringstream o, w; o << a; w << "(" << a.re << "," << a.im << ")"; S.check(o.str() == w.str(), "complex-print", what + " " + o.str());
}
template <class T> static void vectors3(Sub &S, Rng &q, const char *name) {
  typedef ls::vec3_t<T> V; const ld eps = std::numeric_limits<T>::epsilon(); auto g = [&] { return q.coin(0.2) ? T(q.range(-3, 3)) : T(q.gauss()); }; V a(g(), g(), g()), b(g(), g(), g()); if (a.x == 0 && a.y == 0 && a.z == 0) a.z = 1; T t = T(q.gauss()); if (t == 0) t = 2;
  string what = strf("%s (%.9g,%.9g,%.9g) (%.9g,%.9g,%.9g) %.9g", name, double(a.x), double(a.y), double(a.z), double(b.x), double(b.y), double(b.z), double(t));
  auto is = [&](const V &v, ld x, ld y, ld z, ld tol, const char *op) { S.check(std::fabs(v.x - x) <= tol && std::fabs(v.y - y) <= tol && std::fabs(v.z - z) <= tol, "3-vector", what + " " + op + strf(" gives (%.17g,%.17g,%.17g)", double(v.x), double(v.y), double(v.z))); S.count("vector3_operations"); };
  ld n2 = ld(a.x) * a.x + ld(a.y) * a.y + ld(a.z) * a.z, n = sqrtl(n2), nb = sqrtl(ld(b.x) * b.x + ld(b.y) * b.y + ld(b.z) * b.z), e = 4 * eps, s = n + nb;
  is(a + b, ld(a.x) + b.x, ld(a.y) + b.y, ld(a.z) + b.z, e * s, "+"); is(a - b, ld(a.x) - b.x, ld(a.y) - b.y, ld(a.z) - b.z, e * s, "-"); is(-a, -a.x, -a.y, -a.z, 0, "negation"); is(a * t, ld(a.x) * t, ld(a.y) * t, ld(a.z) * t, e * n * std::fabs(t), "*"); is(a / t, ld(a.x) / t, ld(a.y) / t, ld(a.z) / t, e * n / std::fabs(t), "/"); is(ls::crossprod(a, b), ld(a.y) * b.z - ld(a.z) * b.y, ld(a.z) * b.x - ld(a.x) * b.z, ld(a.x) * b.y - ld(a.y) * b.x, e * n * nb, "cross product");
  V c = a; c += b; is(c, ld(a.x) + b.x, ld(a.y) + b.y, ld(a.z) + b.z, e * s, "+="); c = a; c -= b; is(c, ld(a.x) - b.x, ld(a.y) - b.y, ld(a.z) - b.z, e * s, "-="); c = a; c *= t; is(c, ld(a.x) * t, ld(a.y) * t, ld(a.z) * t, e * n * std::fabs(t), "*="); c = a; c.Flip(); is(c, -a.x, -a.y, -a.z, 0, "Flip"); c = a; c.Normalize(); is(c, a.x / n, a.y / n, a.z / n, 2 * e, "Normalize"); is(a.Norm(), a.x / n, a.y / n, a.z / n, 2 * e, "Norm"); c.Set(b.x, t, a.x); is(c, b.x, t, a.x, 0, "Set");
  S.check(std::fabs(ls::dotprod(a, b) - (ld(a.x) * b.x + ld(a.y) * b.y + ld(a.z) * b.z)) <= e * n * nb && std::fabs(a.Length() - n) <= e * n && std::fabs(a.SquaredLength() - n2) <= e * n2, "3-vector", what + " products");
  T z = q.coin(0.2) ? T(q.range(-1, 1)) : T(q.uni(-1, 1)), ph = T(q.uni(-7, 7)); c.set_z_phi(z, ph); ld st = sqrtl((1 - ld(z)) * (1 + ld(z))); is(c, st * cosl(ph), st * sinl(ph), z, 4 * e, "set_z_phi"); ls::vec3_t<float> f(a); S.check(f.x == float(a.x) && f.y == float(a.y) && f.z == float(a.z), "3-vector", what + " precision"); std::ostringstream o, w; o << a; w << a.x << ", " << a.y << ", " << a.z << "\n"; S.check(o.str() == w.str(), "3-vector-print", what + " " + o.str());
}

// ------------------------------------------------------------------ tables
static void constants(Sub &S) {
  auto is = [&](double a, ld b, const char *n) { S.check(std::fabs(ld(a) - b) <= 3e-16L * std::fabs(b), "constant", strf("%s is %.17g, not %.17Lg", n, a, b)); S.count("constants"); };
  const ld P = acosl(-1.L), L2 = logl(2.L), F = sqrtl(8 * L2);
  is(ls::pi, P, "pi"); is(ls::twopi, 2 * P, "twopi"); is(ls::inv_twopi, 1 / (2 * P), "inv_twopi"); is(ls::fourpi, 4 * P, "fourpi"); is(ls::halfpi, P / 2, "halfpi"); is(ls::inv_halfpi, 2 / P, "inv_halfpi"); is(ls::inv_sqrt4pi, 1 / sqrtl(4 * P), "inv_sqrt4pi"); is(ls::ln2, L2, "ln2"); is(ls::inv_ln2, 1 / L2, "inv_ln2"); is(ls::ln10, logl(10.L), "ln10"); is(ls::onethird, 1.L / 3, "onethird"); is(ls::twothird, 2.L / 3, "twothird"); is(ls::fourthird, 4.L / 3, "fourthird"); is(ls::degr2rad, P / 180, "degr2rad"); is(ls::arcmin2rad, P / 10800, "arcmin2rad"); is(ls::rad2degr, 180 / P, "rad2degr"); is(ls::sigma2fwhm, F, "sigma2fwhm"); is(ls::fwhm2sigma, 1 / F, "fwhm2sigma"); is(ls::Jansky2SI, 1e-26L, "Jansky2SI"); is(ls::SI2Jansky, 1e26L, "SI2Jansky"); is(ls::speedOfLight, 299792458.L, "speedOfLight"); is(ls::sec_58_70, 12 * 365 * 86400.L + 3 * 86400, "sec_58_70");
  // Stefan-Boltzmann's constant follows from the others
  ld h = ls::hPlanck, k = ls::kBoltzmann, c = ls::speedOfLight, sb = 2 * powl(P, 5) * powl(k, 4) / (15 * h * h * h * c * c); S.check(std::fabs(ls::sigmaStefanBoltzmann - sb) < 2e-5L * sb, "constant", strf("sigmaStefanBoltzmann %.9g, from the others %.9Lg", ls::sigmaStefanBoltzmann, sb)); S.check(std::fabs(k / 1.3806504e-23L - 1) < 1e-12L && std::fabs(h / 6.62606896e-34L - 1) < 1e-12L && ls::tcmb == 2.725, "constant", "CODATA 2006");
}
template <class T> static void type_row(Sub &S, ls::PDT t, const char *name, int size) {
  S.check(ls::planckType<T>() == t && ls::string2type(name) == t && string(ls::type2string(t)) == name && ls::type2size(t) == size, "type-table", name); S.count("table_rows");
}
template <class T> static void native_row(Sub &S, const char *name) {
  S.check((string(name) == "char" || string(ls::type2typename<T>()) == name) && ls::ndt2size(ls::nativeType<T>()) == int(sizeof(T)), "native-type-table", name); S.count("table_rows");
}
template <> void native_row<char>(Sub &S, const char *) { S.check(ls::ndt2size(ls::nativeType<char>()) == 1, "native-type-table", "char"); }
template <> void native_row<string>(Sub &S, const char *) { S.check(string(ls::type2typename<string>()) == "std::string" && throws([] { ls::ndt2size(ls::nativeType<string>()); }), "native-type-table", "string"); }
struct Captured { int save; string file; explicit Captured(const string &f) : file(f) { std::cerr.flush(); fflush(stderr); save = dup(2); int n = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(n, 2); close(n); } string end() { std::cerr.flush(); fflush(stderr); dup2(save, 2); close(save); FILE *f = fopen(file.c_str(), "r"); string s; int c; while ((c = fgetc(f)) != EOF) s += char(c); fclose(f); unlink(file.c_str()); return s; } };
static void assert_here(int v, const string &m) { levels_assert(v > 0, m); }
static void fail_here(const char *m) { levels_fail(m); }
static void quiet_here(const char *m) { levels_fail_quietly(m); }
static void tables(Sub &S, Rng &q, const string &file) {
  type_row<ls::int8>(S, ls::LEVELS_INT8, "INT8", 1); type_row<ls::uint8>(S, ls::LEVELS_UINT8, "UINT8", 1); type_row<ls::int16>(S, ls::LEVELS_INT16, "INT16", 2); type_row<ls::uint16>(S, ls::LEVELS_UINT16, "UINT16", 2); type_row<ls::int32>(S, ls::LEVELS_INT32, "INT32", 4); type_row<ls::uint32>(S, ls::LEVELS_UINT32, "UINT32", 4); type_row<ls::int64>(S, ls::LEVELS_INT64, "INT64", 8); type_row<ls::uint64>(S, ls::LEVELS_UINT64, "UINT64", 8); type_row<ls::float32>(S, ls::LEVELS_FLOAT32, "FLOAT32", 4); type_row<ls::float64>(S, ls::LEVELS_FLOAT64, "FLOAT64", 8); type_row<bool>(S, ls::LEVELS_BOOL, "BOOL", 1); type_row<string>(S, ls::LEVELS_STRING, "STRING", 1);
  S.check(sizeof(ls::int8) == 1 && sizeof(ls::uint8) == 1 && sizeof(ls::int16) == 2 && sizeof(ls::uint16) == 2 && sizeof(ls::int32) == 4 && sizeof(ls::uint32) == 4 && sizeof(ls::int64) == 8 && sizeof(ls::uint64) == 8 && sizeof(ls::float32) == 4 && sizeof(ls::float64) == 8 && ls::int8(-1) < 0 && ls::int16(-1) < 0 && ls::int32(-1) < 0 && ls::int64(-1) < 0 && ls::uint8(-1) > 0 && ls::uint16(-1) > 0 && ls::uint32(-1) > 0 && ls::uint64(-1) > 0, "type-sizes", "");
  native_row<char>(S, "char"); native_row<signed char>(S, "signed char"); native_row<unsigned char>(S, "unsigned char"); native_row<short>(S, "short"); native_row<unsigned short>(S, "unsigned short"); native_row<int>(S, "int"); native_row<unsigned int>(S, "unsigned int"); native_row<long>(S, "long"); native_row<unsigned long>(S, "unsigned long"); native_row<long long>(S, "long long"); native_row<unsigned long long>(S, "unsigned long long"); native_row<float>(S, "float"); native_row<double>(S, "double"); native_row<long double>(S, "long double"); native_row<bool>(S, "bool"); native_row<string>(S, "std::string");
  { Captured c(file); string n = q.coin() ? "FLOAT" : q.coin() ? "float32" : ""; bool r = throws([&] { ls::string2type(n); }) && throws([] { ls::type2string(ls::LEVELS_INVALID); }) && throws([] { ls::type2size(ls::LEVELS_INVALID); }); c.end(); S.check(r, "unknown-type-accepted", n); }
  // error reports
  string m(size_t(q.range(1, 60)), 'a'); for (char &x : m) x = "abc XYZ.,%s"[q.range(0, 10)];
  for (int k = 0; k < 4; ++k) {
    string got, out; bool threw = false; { Captured c(file); try { if (k == 0) assert_here(1, m); else if (k == 1) assert_here(-1, m); else if (k == 2) fail_here(m.c_str()); else quiet_here(m.c_str()); } catch (ls::LEVELSError &e) { threw = true; got = e.what(); } catch (...) { got = "another exception"; threw = true; } out = c.end(); }
    S.check(threw == (k > 0) && (!k || got == m), "error-exception", strf("kind %d: \"%s\" for \"%s\"", k, got.c_str(), m.c_str())); bool loud = k == 1 || k == 2; S.check(loud ? out.find(m) != string::npos && out.find("types.cc") != string::npos && out.find(k == 1 ? "assert_here" : "fail_here") != string::npos : out.empty(), "error-report", strf("kind %d: ", k) + out); S.count("error_reports");
  }
}
template <int A> static void aligned(Sub &S, Rng &q) {
  std::vector<std::pair<char *, char *>> used; ls::arr_align<double, A> x[4]; for (auto &y : x) { size_t n = size_t(q.range(0, 300)); y.alloc(n); if (!n) continue; char *p = (char *)&y[0]; S.check((uintptr_t)p % A == 0, "alignment", strf("array of %zu doubles, alignment %d", n, A)); for (auto &u : used) S.check(p + 8 * n <= u.first || p >= u.second, "alignment", "overlap"); used.emplace_back(p, p + 8 * n); for (size_t i = 0; i < n; ++i) y[i] = double(i); S.count("aligned_arrays"); }
}
static void c22(long idx, Rng &g) {
  uint64_t sq = g.u64(); string what = strf("arithmetic types, seed %llu", (unsigned long long)sq), file = tmpfile_path("report"); R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq); if (idx < 8) constants(S);
    for (int k = 0; k < 60; ++k) { float_vectors<ls::V4sf, 4>(S, q, "V4sf"); float_vectors<ls::V2df, 2>(S, q, "V2df"); int_vectors(S, q); c_vectors(S, q); complex_numbers<float>(S, q, "float"); complex_numbers<double>(S, q, "double"); vectors3<float>(S, q, "float"); vectors3<double>(S, q, "double"); }
    for (int k = 0; k < 4; ++k) { float a[4], b[4]; for (int i = 0; i < 4; ++i) { a[i] = float(q.gauss()); b[i] = float(q.gauss()); } ls::V4sf x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]), mi = ls::min(x, y), ma = ls::max(x, y); float o[4]; x.writeTo(o[0], o[1], o[2], o[3]); for (int i = 0; i < 4; ++i) S.check(mi[i] == std::min(a[i], b[i]) && ma[i] == std::max(a[i], b[i]) && o[i] == a[i], "vector-operation", "V4sf min, max"); double c = q.gauss(), d = q.gauss(), e = 0, f = 0; ls::V2df z(c, d), w; z.writeTo(e, f); w.readFrom(d, c); S.check(e == c && f == d && w[0] == d && w[1] == c, "vector-operation", "V2df parts"); ls::V4sf r; r.readFrom(a[3], a[2], a[1], a[0]); S.check(r[0] == a[3] && r[3] == a[0], "vector-operation", "V4sf parts"); }
    for (int k = 0; k < 6; ++k) tables(S, q, file);
    aligned<16>(S, q); aligned<32>(S, q); aligned<64>(S, q); aligned<4096>(S, q);
  });
}
static AddPart p22("c22.types", [] { return opt_tier ? 2000L : 200L; }, c22);

// What a main program wrapped in the diagnosis macros does: every exception ends the whole job, with the message shown once
static int wrapped(int kind) {
  LEVELS_DIAGNOSIS_BEGIN
  if (kind == 1) levels_fail("levels trouble"); if (kind == 2) throw std::runtime_error("standard trouble"); if (kind == 3) throw 17;
  LEVELS_DIAGNOSIS_END
  return 5;
}
static void c22d(long, Rng &g) {
  int kind = int(g.range(0, 3)), n = int(g.range(1, 4)), who = int(g.range(0, n - 1)); string what = strf("kind %d on rank %d of %d, seed %llu", kind, who, n, (unsigned long long)g.u64()); R.eval(what, kind > 0);
  simmpi::Options o; o.nranks = n; o.seed = g.u64(); o.nthreads = 1;
  simmpi::Run r = simmpi::run(o, [&](int rank) { int k = rank == who ? kind : 0, v = wrapped(k); int64_t x = v; simmpi::put1(x); });
  if (r.inconclusive()) { R.inconclusive(what + ": " + r.describe()); return; }
  bool aborted = r.fatal == 3 && r.fatalmsg.find("MPI_Abort") != string::npos; R.count("job_ends", aborted);
  if (aborted != (kind > 0) || (!kind && !r.ok())) R.viol("job-end", what + ": " + r.describe());
}
static AddPart p22d("c22.diagnosis", [] { return opt_tier ? 400L : 40L; }, c22d);
