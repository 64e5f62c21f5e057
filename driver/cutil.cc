// The C utility library (C21): least squares by singular values, calendar, memory and time figures, allocation, messages.
#include "sub.h"
#include <cerrno>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "c_utils.h"
#include "memusage.h"
#include "svd_c.h"
#include "time_utils.h"
#include "walltime_c.h"
using std::string; using std::vector;
extern "C" int omp_get_max_threads(void) __attribute__((weak));

// ------------------------------------------------------------------ singular values
typedef vector<vector<ld>> Mat;
static Mat orthonormal(Rng &q, int rows, int cols) { // columns, two passes of Gram-Schmidt
  Mat c(cols, vector<ld>(rows));
  for (int j = 0; j < cols; ++j) for (;;) {
    for (auto &x : c[j]) x = q.gauss();
    for (int pass = 0; pass < 3; ++pass) for (int k = 0; k < j; ++k) { ld s = 0; for (int i = 0; i < rows; ++i) s += c[j][i] * c[k][i]; for (int i = 0; i < rows; ++i) c[j][i] -= s * c[k][i]; }
    ld n = 0; for (ld x : c[j]) n += x * x; n = sqrtl(n); if (n < 1e-6L) continue; for (auto &x : c[j]) x /= n; break;
  }
  return c;
}
static void c21_svd(long, Rng &g) {
  int style = int(g.range(0, 9)); bool wide = g.coin(0.15); int n = int(g.coin(0.3) ? g.range(1, 3) : g.range(1, opt_tier ? 40 : 20)), m = wide ? int(g.range(1, n)) : n + int(g.coin(0.4) ? 0 : g.range(0, opt_tier ? 60 : 20));
  double eps = g.coin(0.2) ? 0 : std::pow(10., g.uni(-12, -4)); uint64_t sq = g.u64();
  string what = strf("%d x %d matrix of style %d, threshold %g, seed %llu", m, n, style, eps, (unsigned long long)sq); R.eval(what, n > 1);
  isolated(what, [&](Sub &S) {
    Rng q(sq); Mat A(m, vector<ld>(n, 0)); int p = std::min(m, n); Mat Q1, Q2; vector<ld> s(p); bool spectrum = style <= 4 && eps > 0;
    if (style <= 4) { // a known decomposition
      Q1 = orthonormal(q, m, p); Q2 = orthonormal(q, n, p); ld top = std::pow(10., q.coin(0.7) ? q.uni(-2, 2) : q.uni(-60, 60)); bool eq = q.coin(0.2);
      for (int j = 0; j < p; ++j) { double lo = std::max(1e-10, eps * 30); s[j] = top * (j == 0 || eq ? 1 : std::pow(lo, q.uni(0, 1))); if (j && spectrum && q.coin(0.25)) s[j] = q.coin() ? 0 : top * eps * q.uni(1e-3, 0.03); }
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < p; ++k) A[i][j] += Q1[k][i] * s[k] * Q2[k][j];
    } else for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A[i][j] =
      style == 5 ? ld(q.range(-2, 2)) : style == 6 ? ld(i == j ? q.range(-3, 3) : 0) : style == 7 ? ld(i > j ? 0. : q.gauss()) : style == 8 ? (q.coin(0.2) ? q.gauss() : 0.) : ld((i + 1.) * (j % 3 + 1));
    vector<vector<double>> a(m, vector<double>(n)); vector<double *> rows(m); ld amax = 0; for (int i = 0; i < m; ++i) { rows[i] = a[i].data(); for (int j = 0; j < n; ++j) { a[i][j] = double(A[i][j]); amax = std::max(amax, fabsl(A[i][j])); } }
    vector<vector<double>> copy = a; svd_obj o; svd_init(rows.data(), eps, m, n, &o); S.check(copy == a, "input-changed", what); S.check(o.m == m && o.n == n, "shape", what); S.count("decompositions");
    ld wmax = 0; bool fin = true; for (int j = 0; j < n; ++j) { wmax = std::max(wmax, ld(o.w[j])); fin = fin && std::isfinite(o.w[j]); S.check(o.w[j] >= 0, "negative-singular-value", what + strf(": %g", o.w[j])); }
    if (!S.check(fin, "not-finite", what)) return;
    ld norm = std::max(wmax, amax), tol = 2e-15L * (m + n + 20), worst = 0; int kept = 0;
    for (int j = 0; j < n; ++j) { kept += o.w[j] != 0; S.check(o.w[j] == 0 || o.w[j] >= eps * wmax * (1 - 1e-14), "threshold", what + strf(": singular value %g of %Lg kept", o.w[j], wmax)); }
    S.check(kept <= p || eps == 0, "rank", what + strf(": %d values kept", kept));
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { ld x = 0; for (int k = 0; k < n; ++k) x += ld(o.u[k][i]) * o.w[k] * o.v[k][j]; worst = std::max(worst, fabsl(x - a[i][j])); }
    if (norm > 0) { S.maxi("reconstruction_error", double(worst / norm)); S.check(worst <= (tol + eps * sqrtl(ld(n)) * 1.001L) * norm, "reconstruction", what + strf(": U W V^T differs from the matrix by %Lg of its norm", worst / norm)); }
    for (int j = 0; j < n; ++j) for (int k = 0; k <= j; ++k) {
      ld x = 0, y = 0; for (int i = 0; i < n; ++i) x += ld(o.v[j][i]) * o.v[k][i]; for (int i = 0; i < m; ++i) y += ld(o.u[j][i]) * o.u[k][i];
      if (!S.check(fabsl(x - (j == k)) <= tol, "V-not-orthogonal", what + strf(": columns %d and %d: %Lg", j, k, x))) return;
      if (!wide && o.w[j] > 0 && o.w[k] > 0 && !S.check(fabsl(y - (j == k)) <= tol, "U-not-orthogonal", what + strf(": columns %d and %d: %Lg", j, k, y))) return;
    }
    if (style <= 4) { vector<ld> t(s), w(o.w, o.w + n); for (auto &x : t) if (x < eps * wmax) x = 0; std::sort(t.rbegin(), t.rend()); std::sort(w.rbegin(), w.rend()); t.resize(n, 0); for (int j = 0; j < n; ++j) if (!S.check(fabsl(t[j] - w[j]) <= (tol + (eps == 0 ? 1e-15L : 0)) * norm, "singular-values", what + strf(": value %d is %Lg, expected %Lg", j, w[j], t[j]))) return; S.count("spectra_compared"); }
    // solutions
    for (int rep = 0; rep < 3; ++rep) {
      vector<ld> b(m); for (auto &x : b) x = rep == 2 ? 0 : q.gauss() * double(norm); if (rep == 1) { vector<ld> x0(n); for (auto &x : x0) x = q.gauss(); for (int i = 0; i < m; ++i) { b[i] = 0; for (int j = 0; j < n; ++j) b[i] += A[i][j] * x0[j]; } }
      vector<double> bb(std::max(m, n) + 1, -77.25); ld bn = 0; for (int i = 0; i < m; ++i) { bb[i] = double(b[i]); bn += ld(bb[i]) * bb[i]; } bn = sqrtl(bn); svd_solve(&o, bb.data());
      S.check(bb.back() == -77.25 && (n >= m || std::equal(bb.begin() + n, bb.begin() + m, b.begin() + n, [](double x, ld y) { return x == double(y); })), "writes-beyond-solution", what);
      ld smin = 0; vector<ld> x(n, 0);
      if (spectrum) { for (int k = 0; k < p; ++k) if (s[k] >= eps * wmax) { smin = smin == 0 ? s[k] : std::min(smin, s[k]); ld d = 0; for (int i = 0; i < m; ++i) d += Q1[k][i] * ld(double(b[i])); for (int j = 0; j < n; ++j) x[j] += Q2[k][j] * d / s[k]; } }
      else for (int k = 0; k < n; ++k) if (o.w[k]) { smin = smin == 0 ? o.w[k] : std::min(smin, ld(o.w[k])); ld d = 0; for (int i = 0; i < m; ++i) d += ld(o.u[k][i]) * double(b[i]); for (int j = 0; j < n; ++j) x[j] += ld(o.v[k][j]) * d / o.w[k]; }
      if (smin > 0 && eps == 0 && norm / smin > 1e12L) continue; // rank deficient, nothing discarded: no defined solution
      ld e = 0, xt = smin > 0 ? bn / smin * tol * (spectrum ? 4 * norm / smin : 1) : 0; for (int j = 0; j < n; ++j) e = std::max(e, fabsl(x[j] - bb[j]));
      S.check(e <= xt, "solution", what + strf(": right-hand side %d: solution differs by %Lg, allowed %Lg", rep, e, xt)); S.count("solutions_compared");
      // a full-rank overdetermined system: the residual is orthogonal to the columns
      if (kept == p && !wide && smin > 0) for (int j = 0; j < n; ++j) { ld d = 0; for (int i = 0; i < m; ++i) { ld r = double(b[i]); for (int k = 0; k < n; ++k) r -= ld(a[i][k]) * bb[k]; d += r * a[i][j]; } if (!S.check(fabsl(d) <= 30 * tol * norm * bn * norm / smin * m, "normal-equations", what + strf(": column %d: %Lg", j, d))) break; }
    }
    svd_destroy(&o); S.check(!o.u && !o.v && !o.w, "not-cleared", what);
  });
}
// Many matrices whose singular values coincide, or nearly, or span the whole range: the iteration must end, and with the decomposition.
static void c21_equal(long, Rng &g) {
  uint64_t sq = g.u64(); int top = g.coin(0.1) ? 60 : 15; string what = strf("matrices of up to %d columns with coinciding singular values, seed %llu", top, (unsigned long long)sq); R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq); typedef vector<vector<double>> D;
    auto gs = [&](D &c) { for (size_t i = 0; i < c.size(); ++i) { for (auto &x : c[i]) x = q.gauss(); for (int pass = 0; pass < 3; ++pass) { for (size_t j = 0; j < i; ++j) { double d = 0; for (size_t k = 0; k < c[i].size(); ++k) d += c[i][k] * c[j][k]; for (size_t k = 0; k < c[i].size(); ++k) c[i][k] -= d * c[j][k]; } double d = 0; for (double x : c[i]) d += x * x; d = std::sqrt(d); for (auto &x : c[i]) x /= d; } } };
    for (int t = 0, lim = top == 60 ? 30 : 800; t < lim; ++t) {
      int n = int(q.range(2, top)), m = n + int(q.range(0, 2)), kind = int(q.range(0, 7)); D Q(n, vector<double>(m)), P(n, vector<double>(n)), A(m, vector<double>(n)); gs(Q); gs(P); double big = std::exp(q.gauss()); vector<double> s(n); vector<double *> rows(m);
      for (int j = 0; j < n; ++j) s[j] = big * (kind == 0 ? 1 : kind == 1 ? double(q.coin()) : kind == 2 ? (q.coin() ? 1 : 1e-13) : kind == 3 ? 1 + 1e-15 * double(q.range(0, 7)) : kind == 4 ? std::pow(10., -double(j)) : kind == 5 ? std::pow(2., -double(q.range(0, 60))) : kind == 6 ? double(q.range(1, 3)) : 1e-8 * double(q.coin()) + 1);
      for (int i = 0; i < m; ++i) { for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) A[i][j] += Q[k][i] * s[k] * P[k][j]; rows[i] = A[i].data(); }
      svd_obj o; svd_init(rows.data(), 0, m, n, &o); double norm = *std::max_element(s.begin(), s.end()), worst = 0; if (norm == 0) norm = 1;
      for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) { double x = 0; for (int k = 0; k < n; ++k) x += o.u[k][i] * o.w[k] * o.v[k][j]; if (!(std::fabs(x - A[i][j]) <= worst)) worst = std::fabs(x - A[i][j]); }
      vector<double> w(o.w, o.w + n); std::sort(w.begin(), w.end()); std::sort(s.begin(), s.end()); double off = 0; for (int j = 0; j < n; ++j) if (!(std::fabs(w[j] - s[j]) <= off)) off = std::fabs(w[j] - s[j]);
      S.check(worst <= 1e-13 * n * norm && off <= 1e-13 * n * norm, "decomposition-of-equal-values", what + strf(": matrix %d (kind %d, %d x %d): product off by %g, values by %g, largest value %g", t, kind, m, n, worst, off, norm)); S.count("equal_value_matrices"); svd_destroy(&o);
    }
  });
}
static AddPart p1e("c21.equal", [] { return opt_tier ? 6000L : 800L; }, c21_equal);
static AddPart p1("c21.svd", [] { return opt_tier ? 6000L : 800L; }, c21_svd);

// ------------------------------------------------------------------ calendar
static long long days_of(long long y, int m, int d) { y -= m <= 2; long long era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = unsigned(y - era * 400), doy = unsigned((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1), doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (long long)doe - 719468; }
static int month_days(long long y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && (y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)) ? 29 : d[m - 1]; }
static void c21_time(long, Rng &g) {
  uint64_t sq = g.u64(); string what = strf("calendar operations, seed %llu", (unsigned long long)sq); R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq); static const char *zones[] = {nullptr, "", "UTC", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", ":nonsense", "XXX-14", "America/New_York", "LHST-10:30LHDT-11"};
    const char *z = nullptr; auto zone = [&] { z = zones[q.range(0, 9)]; if (z) setenv("TZ", z, 1); else unsetenv("TZ"); tzset(); }; zone();
    for (int i = 0; i < 60; ++i) {
      if (q.coin(0.1)) zone(); static const int special[] = {1958, 1969, 1970, 1900, 2000, 2100, 1904, 1972, 2037, 2038, 2039, 1901, 9999, 1};
      int y = q.coin(0.5) ? int(q.range(1958, 2050)) : q.coin() ? special[q.range(0, 13)] : int(q.range(-3000, 20000)), mo = int(q.range(1, 12)), d = q.coin(0.3) ? month_days(y, mo) : q.coin(0.2) ? 1 : int(q.range(1, month_days(y, mo))), h = int(q.range(0, 23)), mi = int(q.range(0, 59)), s = int(q.range(0, 59));
      if (q.coin(0.1)) { mo = 12; d = 31; } else if (q.coin(0.1)) mo = d = 1; if (q.coin(0.15)) { h = 23; mi = s = 59; } else if (q.coin(0.1)) h = mi = s = 0;
      if (q.coin(0.03)) { y = 1969; mo = 12; d = 31; h = 23; mi = 59; s = int(q.range(57, 59)); }
      string date = what + strf(" (TZ %s): %d-%d-%d %d:%d:%d", z ? z : "unset", y, mo, d, h, mi, s); long long want = (days_of(y, mo, d) - days_of(1958, 1, 1)) * 86400 + h * 3600 + mi * 60 + s;
      time_t probe = 1700000000; struct tm l0, l1; localtime_r(&probe, &l0); long tz0 = timezone; int dl0 = daylight; string n0 = string(tzname[0]) + "/" + tzname[1]; long long t = dateandtime2planck(y, mo, d, h, mi, s); localtime_r(&probe, &l1); bool same = tz0 == timezone && dl0 == daylight && n0 == string(tzname[0]) + "/" + tzname[1]; struct tm l2 = *localtime(&probe); S.count("dates");
      S.check(t == want, "date-to-seconds", date + strf(" gives %lld, expected %lld", t, want));
      const char *now = getenv("TZ"); S.check((now == nullptr) == (z == nullptr) && (!z || string(z) == now), "time-zone-changed", date); S.check(same && l0.tm_hour == l1.tm_hour && l0.tm_min == l1.tm_min && l0.tm_isdst == l1.tm_isdst && l0.tm_hour == l2.tm_hour && l0.tm_min == l2.tm_min && l0.tm_isdst == l2.tm_isdst, "local-time-changed", date);
      int a[6] = {-9, -9, -9, -9, -9, -9}; planck2dateandtime(want, a, a + 1, a + 2, a + 3, a + 4, a + 5); S.check(a[0] == y && a[1] == mo && a[2] == d && a[3] == h && a[4] == mi && a[5] == s, "seconds-to-date", date + strf(": %lld gives %d-%d-%d %d:%d:%d", want, a[0], a[1], a[2], a[3], a[4], a[5]));
    }
  });
}
static AddPart p2("c21.time", [] { return opt_tier ? 3000L : 400L; }, c21_time);

// ------------------------------------------------------------------ memory, clock, allocation, messages
// runs f in a child, returns its output and wait status
template <class F> static int captured(F f, string &out) {
  int p[2]; if (pipe(p)) return -1; fflush(nullptr); pid_t c = fork();
  if (c == 0) { close(p[0]); dup2(p[1], 1); dup2(p[1], 2); f(); fflush(nullptr); _exit(0); }
  close(p[1]); char b[4096]; ssize_t n; out.clear(); while ((n = read(p[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) out.append(b, size_t(n)); close(p[0]); int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR); return st;
}
static void fails_here(int x) { UTIL_ASSERT(x != 5, "five is not allowed"); UTIL_WARN(x != 6, "six is odd"); if (x == 7) UTIL_FAIL("seven"); }
static double clock_now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void c21_misc(long, Rng &g) {
  uint64_t sq = g.u64(); string what = strf("memory, clock, allocation, messages, seed %llu", (unsigned long long)sq); R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq);
    { // resident memory follows what is touched, its high-water mark stays
      size_t n = size_t(q.range(12, 40)) << 20; double r0 = residentSetSize(); char *p = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { S.count("mmap_failed"); return; }
      madvise(p, n, MADV_NOHUGEPAGE); for (size_t i = 0; i < n; i += 4096) p[i] = 1; double r1 = residentSetSize(), h1 = VmHWM(); munmap(p, n); double r2 = residentSetSize(), h2 = VmHWM(), slack = 6e6;
      S.check(r0 > 0 && r1 > 0 && h1 > 0, "memory-figure-missing", what + strf(": resident %g, high-water mark %g", r0, h1));
      S.check(std::fabs(r1 - r0 - double(n)) < slack && std::fabs(r2 - r0) < slack, "resident-memory", what + strf(": %zu bytes touched, resident %.0f, then %.0f, after release %.0f", n, r0, r1, r2));
      S.check(h1 > r1 - slack && h2 > h1 - slack && h2 > r2 - slack, "high-water-mark", what + strf(": resident %.0f, mark %.0f, after release %.0f", r1, h1, h2)); S.count("memory_figures");
    }
    for (int i = 0; i < 5; ++i) { double a0 = clock_now(), w0 = wallTime(), a1 = clock_now(); usleep(useconds_t(q.range(0, 3000))); double b0 = clock_now(), w1 = wallTime(), b1 = clock_now(); S.check(w1 >= w0 && w1 - w0 >= b0 - a1 - 2e-5 && w1 - w0 <= b1 - a0 + 2e-5, "wall-clock", what + strf(": %.9g s measured, true value within %.9g and %.9g", w1 - w0, b0 - a1, b1 - a0)); S.count("clock_readings"); }
    // allocation: every block usable, aligned, separate from the others
    struct B { unsigned char *p; size_t n; unsigned char c; }; vector<B> bl;
    for (int i = 0; i < 60; ++i) {
      if (bl.empty() || q.coin(0.65)) { size_t n = q.coin(0.1) ? 0 : q.coin() ? size_t(q.range(1, 300)) : q.coin() ? size_t(q.range(4096 * 1, 4096 * 9)) : 4096 * size_t(q.range(1, 30)) - 32 + size_t(q.range(0, 160)); unsigned char *p = (unsigned char *)util_malloc_(n); S.check((p == nullptr) == (n == 0) && reinterpret_cast<size_t>(p) % 16 == 0, "allocation", what + strf(": %zu bytes at %p", n, (void *)p)); unsigned char c = (unsigned char)q.range(0, 255); if (p) memset(p, c, n); bl.push_back({p, n, c}); S.count("blocks"); }
      else { size_t k = size_t(q.range(0, long(bl.size()) - 1)); for (size_t j = 0; j < bl[k].n; ++j) if (bl[k].p[j] != bl[k].c) { S.viol("block-overwritten", what); break; } DEALLOC(bl[k].p); S.check(!bl[k].p, "pointer-kept", what); bl.erase(bl.begin() + long(k)); }
    }
    for (auto &x : bl) { for (size_t j = 0; j < x.n; ++j) if (x.p[j] != x.c) { S.viol("block-overwritten", what); break; } util_free_(x.p); }
    { // arrays in two dimensions, growth, fill, copy
      int n1 = int(q.range(1, 12)), n2 = int(q.range(1, 30)); double **t; ALLOC2D(t, double, n1, n2); for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) t[i][j] = i * 100 + j; bool ok = true; for (int i = 0; i < n1; ++i) for (int j = 0; j < n2; ++j) ok = ok && t[i][j] == i * 100 + j && &t[i][j] == t[0] + i * n2 + j; S.check(ok, "two-dimensional", what); DEALLOC2D(t); S.check(!t, "pointer-kept", what);
      size_t sz = 0; int *v = nullptr; for (int i = 0; i < 6; ++i) { size_t need = size_t(q.range(1, 500)), old = sz; GROW(v, int, sz, need); S.check(sz >= need && (need > old || sz == old), "growth", what); SET_ARRAY(v, 0, ptrdiff_t(need), int(i + 3)); for (size_t j = 0; j < need; ++j) ok = ok && v[j] == i + 3; }
      int *w = RALLOC(int, sz); SET_ARRAY(v, 0, ptrdiff_t(sz), 9); SET_ARRAY(w, 0, ptrdiff_t(sz), 4); ptrdiff_t a = q.range(0, long(sz)), b = q.range(a, long(sz)); COPY_ARRAY(v, w, a, b); for (ptrdiff_t j = 0; j < ptrdiff_t(sz); ++j) ok = ok && w[j] == (j >= a && j < b ? 9 : 4); S.check(ok, "fill-or-copy", what); DEALLOC(v); DEALLOC(w);
      int x = 3, y = 8; SWAP(x, y, int); S.check(x == 8 && y == 3 && IMAX(x, y) == 8 && IMIN(x, y) == 3 && FAPPROX(1.0, 1.0 + 1e-9, 1e-8) && !FAPPROX(1.0, 1.0 + 1e-7, 1e-8) && ABSAPPROX(5., 5.05, 0.1) && !ABSAPPROX(5., 5.2, 0.1), "macros", what);
    }
    if (q.coin(0.5)) { // messages and exits
      string out; int st = captured([] { fails_here(5); printf("still here"); }, out); S.check(WIFEXITED(st) && WEXITSTATUS(st) == 1 && out.find("five is not allowed") != string::npos && out.find("fails_here") != string::npos && out.find("cutil.cc") != string::npos && out.find("still here") == string::npos, "failed-assertion", what + ": " + out);
      st = captured([] { fails_here(6); printf("still here"); }, out); S.check(st == 0 && out.find("six is odd") != string::npos && out.find("fails_here") != string::npos && out.find("still here") != string::npos, "warning", what + ": " + out);
      st = captured([] { fails_here(7); }, out); S.check(WIFEXITED(st) && WEXITSTATUS(st) == 1 && out.find("seven") != string::npos, "failure", what + ": " + out); st = captured([] { fails_here(4); }, out); S.check(st == 0 && out.empty(), "passed-assertion", what + ": " + out);
      int n = int(q.range(0, 5)), e = int(q.range(0, 5)); bool vb = q.coin(); string name(size_t(q.range(1, 20)), 'm'); st = captured([&] { module_startup_c(name.c_str(), n, e, "<one> <two>", vb); printf("started"); }, out);
      S.check(n == e ? st == 0 && out.find("started") != string::npos : WIFEXITED(st) && WEXITSTATUS(st) == 1 && out.find("started") == string::npos, "module-startup", what + strf(": %d arguments, %d expected: ", n, e) + out);
      S.check((n != e && vb) == (out.find("Usage: " + name + " <one> <two>\n") != string::npos) && vb == (out.find("| " + name + " |\n") != string::npos) && (vb || out == (n == e ? "started" : "")), "module-message", what + ": " + out);
      int th = omp_get_max_threads ? omp_get_max_threads() : 1; if (vb) S.check(out.find(th > 1 ? strf("max. %d threads", th) : string("with 1 thread only")) != string::npos && out.find("running with 1 task only") != string::npos, "module-message", what + ": " + out); S.count("messages_captured", 5);
    }
  });
}
static AddPart p3("c21.misc", [] { return opt_tier ? 3000L : 320L; }, c21_misc);
