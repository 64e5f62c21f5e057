// FFT plans against the defining sum (C13).
#include "sub.h"
#include "ls_fftpack_support.h"
#include "ls_fft.h"
#include <thread>
using namespace levels;

static long pick_len(Rng &g, bool big) {
  static const int primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 127, 131, 149, 173, 191, 211, 223, 251, 257, 311, 401, 499, 503, 509, 521, 601, 701, 797, 809, 997, 1009, 1499, 1999, 2003, 2999, 4999};
  double u = g.uni();
  if (u < 0.3) return g.range(1, 70);
  if (u < 0.5) return primes[g.range(0, big ? 51 : 40)];
  if (u < 0.6) return primes[g.range(0, 40)] * g.range(1, 8);
  if (u < 0.7) return primes[g.range(0, 24)] * primes[g.range(0, 24)];
  if (u < 0.8) { long n = 1; static const int f[] = {2, 3, 4, 5, 7, 11}; while (true) { long m = n * f[g.range(0, 5)]; if (m > (big ? 4000 : 600)) break; n = m; if (g.coin(0.12)) break; } return n; }
  if (u < 0.9) return 2 * g.range(1, 400) + 1; // azimuth grids
  return g.range(1, big ? 5000 : 800);
}
static std::vector<double> random_vec(Rng &g, long n, int style) {
  std::vector<double> v(n);
  for (long i = 0; i < n; ++i) v[i] = style == 1 ? 0 : style == 2 ? 1 : style == 3 ? g.gauss() * std::pow(10., g.uni(-8, 8)) : g.gauss();
  if (style == 1) v[g.range(0, n - 1)] = g.gauss();
  return v;
}
static double norm2(const std::vector<double> &v) { ld s = 0; for (double x : v) s += ld(x) * x; return double(sqrtl(s)); }
struct Roots { long n; std::vector<ld> c, s; explicit Roots(long n_) : n(n_), c(n_), s(n_) { for (long i = 0; i < n; ++i) { c[i] = cosl(2 * PIl * i / n); s[i] = sinl(2 * PIl * i / n); } } };
// bin k of the forward (sign -1) or backward (sign +1) transform of interleaved complex data
static std::complex<ld> dft(const std::vector<double> &z, long k, int sign, const Roots &w) { ld re = 0, im = 0; long t = 0; for (long j = 0; j < w.n; ++j) { ld c = w.c[t], s = sign * w.s[t]; re += z[2 * j] * c - z[2 * j + 1] * s; im += z[2 * j] * s + z[2 * j + 1] * c; t += k; if (t >= w.n) t -= w.n; } return {re, im}; }
static double tol_for(long n, double nrm) { return nrm * 4e-15 * (std::log2(double(n)) + 3) * (n > 64 ? 4 : 2) + 1e-300; }

static void check_bins(Sub &S, Rng &q, const std::string &what, const std::vector<double> &in, const std::vector<double> &out, int sign, const Roots &w) { // interleaved complex
  long n = w.n; double nrm = norm2(in), tol = tol_for(n, nrm), top = 0; for (double x : out) top = std::max(top, std::fabs(x)); tol += top * 4e-15 * (std::log2(double(n)) + 3); long all = n <= 400 ? n : 60;
  ld p = 0; for (double x : out) p += ld(x) * x;
  S.check(std::fabs(double(sqrtl(p)) - std::sqrt(double(n)) * nrm) <= tol * std::sqrt(double(n)) * 4, "power", what + strf(": output norm %.17Lg, expected %.17g", sqrtl(p), std::sqrt(double(n)) * nrm));
  for (long t = 0; t < all; ++t) {
    long k = all == n ? t : t < 3 ? t : t == 3 ? n - 1 : t == 4 ? n / 2 : q.range(0, n - 1);
    auto r = dft(in, k, sign, w); double e = std::max(std::fabs(out[2 * k] - double(r.real())), std::fabs(out[2 * k + 1] - double(r.imag())));
    if (nrm > 0) S.maxi("error_over_norm_eps", e / nrm / 1.11e-16);
    if (!S.check(e <= tol, "transform-value", what + strf(": bin %ld is (%.17g, %.17g), the sum is (%.17Lg, %.17Lg)", k, out[2 * k], out[2 * k + 1], r.real(), r.imag()))) return;
  }
}
static std::vector<double> expand(const std::vector<double> &v, int scheme) { // halfcomplex of length n to full complex
  long n = long(v.size()); std::vector<double> z(2 * n, 0.); z[0] = v[0];
  for (long k = 1; k <= n / 2; ++k) { double re = scheme == 0 ? v[2 * k - 1] : v[k], im = 2 * k == n ? 0 : scheme == 0 ? v[2 * k] : v[n - k]; z[2 * k] = re; z[2 * k + 1] = im; z[2 * (n - k)] = re; z[2 * (n - k) + 1] = 2 * k == n ? 0 : -im; }
  return z;
}
static void c13_(long n, Rng &g) {
  int style = int(g.range(0, 3)); uint64_t sd = g.u64();
  std::string what = strf("length %ld input style %d", n, style);
  R.eval(what + strf(" %llx", (unsigned long long)sd), n > 1);
  isolated(what, [&](Sub &S) {
    Rng q(sd); Roots w(n); double mag = 0;
    { // complex
      auto in = random_vec(q, 2 * n, style); mag = norm2(in); auto a = in; cfft p(n); S.check(p.size() == tsize(n), "plan-size", what);
      int sign = q.coin() ? -1 : 1; if (sign < 0) p.forward(a.data()); else p.backward(a.data());
      check_bins(S, q, what + strf(" complex sign %d", sign), in, a, sign, w);
      if (sign < 0) p.backward((xcomplex<double> *)a.data()); else p.forward((xcomplex<double> *)a.data());
      for (long i = 0; i < 2 * n; ++i) if (!S.check(std::fabs(a[i] - double(n) * in[i]) <= tol_for(n, mag) * std::sqrt(double(n)) * 4, "round-trip", what + strf(" complex: element %ld is %.17g, expected %.17g", i, a[i], double(n) * in[i]))) break;
      arr<xcomplex<double>> b(n); for (long i = 0; i < n; ++i) b[i].Set(in[2 * i], in[2 * i + 1]); a = in; complex_plan cp = make_complex_plan(n); complex_plan_forward(cp, a.data()); kill_complex_plan(cp); p.forward(b); bool same = true; for (long i = 0; i < n; ++i) same = same && b[i].re == a[2 * i] && b[i].im == a[2 * i + 1]; S.check(same, "fresh-plan-differs", what + " complex");
    }
    auto in = random_vec(q, n, style); mag = norm2(in); std::vector<double> z(2 * n, 0.); for (long i = 0; i < n; ++i) z[2 * i] = in[i];
    real_plan rp = make_real_plan(n); rfft ro(n);
    for (int scheme = 0; scheme < 3; ++scheme) {
      std::string wh = what + (scheme == 0 ? " real fftpack" : scheme == 1 ? " real halfcomplex" : " real full");
      auto a = in; std::vector<double> full, back;
      bool obj = q.coin();
      if (scheme == 0) { if (obj) ro.forward_fftpack(a.data()); else real_plan_forward_fftpack(rp, a.data()); full = expand(a, 0); }
      else if (scheme == 1) { real_plan_forward_fftw(rp, a.data()); full = expand(a, 1); }
      else {
        full = z; for (long i = 0; i < n; ++i) full[2 * i + 1] = q.coin() ? NAN : 1e6;
        if (obj) { arr<xcomplex<double>> b(n); memcpy(&b[0], full.data(), 16 * n); ro.forward_c(b); memcpy(full.data(), &b[0], 16 * n); } else real_plan_forward_c(rp, full.data());
      }
      check_bins(S, q, wh, z, full, -1, w);
      // inverse, of its own output and of an unrelated spectrum
      for (int t = 0; t < 2; ++t) {
        std::vector<double> spec = a, fz = full;
        if (t == 1) { auto h = random_vec(q, n, style == 1 ? 0 : style); fz = expand(h, 0); if (scheme == 0) spec = h; else { spec.assign(n, 0); spec[0] = h[0]; for (long k = 1; k <= n / 2; ++k) { spec[k] = h[2 * k - 1]; if (2 * k != n) spec[n - k] = h[2 * k]; } } }
        std::vector<double> got(n); bool imag0 = true;
        if (scheme == 0) { got = spec; if (obj) ro.backward_fftpack(got.data()); else real_plan_backward_fftpack(rp, got.data()); }
        else if (scheme == 1) { got = spec; real_plan_backward_fftw(rp, got.data()); }
        else { auto f = fz; if (obj) { arr<xcomplex<double>> b(n); memcpy(&b[0], f.data(), 16 * n); ro.backward_c(b); memcpy(f.data(), &b[0], 16 * n); } else real_plan_backward_c(rp, f.data()); for (long i = 0; i < n; ++i) { got[i] = f[2 * i]; imag0 = imag0 && f[2 * i + 1] == 0; } S.check(imag0, "imaginary-part", wh + ": backward left imaginary parts"); }
        if (t == 0) { for (long i = 0; i < n; ++i) if (!S.check(std::fabs(got[i] - double(n) * in[i]) <= tol_for(n, mag) * std::sqrt(double(n)) * 4, "round-trip", wh + strf(": element %ld is %.17g, expected %.17g", i, got[i], double(n) * in[i]))) break; }
        else { std::vector<double> gz(2 * n, 0.); for (long i = 0; i < n; ++i) gz[2 * i] = got[i]; check_bins(S, q, wh + " backward", fz, gz, 1, w); }
      }
    }
    kill_real_plan(rp); S.count("lengths");
  });
}
static void c13(long idx, Rng &g) { c13_(idx < 66 ? idx + 1 : pick_len(g, true), g); }
static bool prime(long n) { for (long d = 2; d * d <= n; ++d) if (n % d == 0) return false; return n > 1; }
static void c13large(long, Rng &g) { // long transforms, a few bins of each checked
  long top = opt_tier ? 1000000 : 200000, n = long(5000 * std::pow(double(top) / 5000, g.uni())); double u = g.uni();
  if (u < 0.3) while (!prime(n)) ++n;
  else if (u < 0.5) { long p = 1; while (2 * p <= n) p *= 2; n = p; if (g.coin()) n = n / 4 * g.range(3, 7); }
  else if (u < 0.7) { long p = g.range(40, 400); while (!prime(p)) ++p; n = n / p * p; }
  else if (u < 0.85) n |= 1;
  R.maxi("largest_length", double(n)); c13_(n, g);
}
static AddPart p13l("c13.large", [] { return opt_tier ? 320L : 32L; }, c13large);
static AddPart p13("c13.fft", [] { return 600L; }, c13);

// Histories of plan objects: copies, assignments, resizing, use after use of others.
static void c13h(long, Rng &g) {
  uint64_t sd = g.u64(); int nops = int(g.range(10, 40)); std::string what = strf("plan history %llx of %d operations", (unsigned long long)sd, nops);
  R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sd); std::vector<std::unique_ptr<cfft>> c; std::vector<std::unique_ptr<rfft>> r; std::vector<long> cn, rn; std::vector<complex_plan> cp; std::vector<real_plan> rp; std::vector<long> cpn, rpn;
    long pool[6]; for (long &x : pool) x = pick_len(q, false); pool[0] = 503; // a length that needs the convolution method
    auto len = [&] { return pool[q.range(0, 5)]; };
    auto usec = [&](const std::function<void(double *, bool)> &f, long n, const char *k) {
      auto in = random_vec(q, 2 * n, 0); bool fw = q.coin(); auto a = in, b = in; f(a.data(), fw); complex_plan p = make_complex_plan(n); if (fw) complex_plan_forward(p, b.data()); else complex_plan_backward(p, b.data()); kill_complex_plan(p);
      S.check(a == b, "plan-history", strf("%s of length %ld gives other results than a fresh plan", k, n)); S.count("transforms_compared"); };
    auto user = [&](const std::function<void(double *, bool)> &f, long n, const char *k) {
      auto in = random_vec(q, n, 0); bool fw = q.coin(); auto a = in, b = in; f(a.data(), fw); real_plan p = make_real_plan(n); if (fw) real_plan_forward_fftpack(p, b.data()); else real_plan_backward_fftpack(p, b.data()); kill_real_plan(p);
      S.check(a == b, "plan-history", strf("%s of length %ld gives other results than a fresh plan", k, n)); S.count("transforms_compared"); };
    for (int k = 0; k < nops; ++k) {
      size_t i = c.empty() ? 0 : q.u64() % c.size(), j = c.empty() ? 0 : q.u64() % c.size(); bool cx = q.coin();
      if (!cx) { i = r.empty() ? 0 : q.u64() % r.size(); j = r.empty() ? 0 : q.u64() % r.size(); }
      size_t have = cx ? c.size() : r.size();
      switch (have ? q.range(0, 9) : 0) {
        case 0: { long n = len(); if (cx) { if (q.coin(0.3)) { c.emplace_back(new cfft()); c.back()->Set(n); } else c.emplace_back(new cfft(n)); cn.push_back(n); } else { if (q.coin(0.3)) { r.emplace_back(new rfft()); r.back()->Set(n); } else r.emplace_back(new rfft(n)); rn.push_back(n); } break; }
        case 1: if (cx) { c.emplace_back(new cfft(*c[i])); cn.push_back(cn[i]); } else { r.emplace_back(new rfft(*r[i])); rn.push_back(rn[i]); } break;
        case 2: if (cx) { *c[i] = *c[j]; cn[i] = cn[j]; } else { *r[i] = *r[j]; rn[i] = rn[j]; } break;
        case 3: { long n = len(); if (cx) { c[i]->Set(n); cn[i] = n; } else { r[i]->Set(n); rn[i] = n; } break; }
        case 4: if (cx) { c.erase(c.begin() + long(i)); cn.erase(cn.begin() + long(i)); } else { r.erase(r.begin() + long(i)); rn.erase(rn.begin() + long(i)); } break;
        case 5: { long n = len(); if (cx) { cp.push_back(make_complex_plan(n)); cpn.push_back(n); } else { rp.push_back(make_real_plan(n)); rpn.push_back(n); } break; }
        case 6: if (cx && !cp.empty()) { size_t x = q.u64() % cp.size(); complex_plan y = copy_complex_plan(cp[x]); if (q.coin()) { kill_complex_plan(cp[x]); cp[x] = y; } else { cp.push_back(y); cpn.push_back(cpn[x]); } } else if (!cx && !rp.empty()) { size_t x = q.u64() % rp.size(); real_plan y = copy_real_plan(rp[x]); if (q.coin()) { kill_real_plan(rp[x]); rp[x] = y; } else { rp.push_back(y); rpn.push_back(rpn[x]); } } break;
        case 7: if (cx && !cp.empty()) { size_t x = q.u64() % cp.size(); usec([&](double *d, bool f) { if (f) complex_plan_forward(cp[x], d); else complex_plan_backward(cp[x], d); }, cpn[x], "plan"); } else if (!cx && !rp.empty()) { size_t x = q.u64() % rp.size(); user([&](double *d, bool f) { if (f) real_plan_forward_fftpack(rp[x], d); else real_plan_backward_fftpack(rp[x], d); }, rpn[x], "plan"); } break;
        default: if (cx) { S.check(long(c[i]->size()) == cn[i], "plan-size", "complex plan"); usec([&](double *d, bool f) { if (f) c[i]->forward(d); else c[i]->backward(d); }, cn[i], "object"); } else { S.check(long(r[i]->size()) == rn[i], "plan-size", "real plan"); user([&](double *d, bool f) { if (f) r[i]->forward_fftpack(d); else r[i]->backward_fftpack(d); }, rn[i], "object"); }
      }
    }
    // all that is left still works
    for (size_t i = 0; i < c.size(); ++i) usec([&](double *d, bool f) { if (f) c[i]->forward(d); else c[i]->backward(d); }, cn[i], "object");
    for (size_t i = 0; i < r.size(); ++i) user([&](double *d, bool f) { if (f) r[i]->forward_fftpack(d); else r[i]->backward_fftpack(d); }, rn[i], "object");
    for (auto p : cp) kill_complex_plan(p);
    for (auto p : rp) kill_real_plan(p);
  });
}
static AddPart p13h("c13.history", [] { return 400L; }, c13h);

// Each thread with its own plan.
static void c13t(long, Rng &g) {
  int nt = int(g.range(2, 6)); std::vector<long> n; for (int i = 0; i < nt; ++i) n.push_back(g.coin(0.3) ? 503 : pick_len(g, false)); bool copies = g.coin(0.4); if (copies) for (long &x : n) x = n[0];
  uint64_t sd = g.u64(); std::string what = strf("%d threads, lengths %ld %ld..., %s plans", nt, n[0], n[1], copies ? "copied" : "own");
  R.eval(what + strf(" %llx", (unsigned long long)sd), true);
  isolated(what, [&](Sub &S) {
    Rng q(sd); std::vector<std::vector<double>> in, out, want; std::vector<cfft> pc; std::vector<rfft> pr; pc.reserve(size_t(nt)); pr.reserve(size_t(nt));
    for (int t = 0; t < nt; ++t) { in.push_back(random_vec(q, 2 * n[t], 0)); if (copies && t) { pc.push_back(pc[0]); pr.push_back(pr[0]); } else { pc.emplace_back(n[t]); pr.emplace_back(n[t]); } }
    auto work = [&](int t, std::vector<double> &v) { v = in[t]; for (int k = 0; k < 3; ++k) { pc[t].forward(v.data()); for (double &x : v) x /= n[t]; pr[t].forward_fftpack(v.data()); pr[t].backward_fftpack(v.data()); for (double &x : v) x *= 0.1; cfft mine(n[t]); mine.backward(v.data()); } };
    want.resize(size_t(nt)); out.resize(size_t(nt));
    for (int t = 0; t < nt; ++t) work(t, want[t]);
    std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back(work, t, std::ref(out[t]));
    for (auto &x : th) x.join();
    for (int t = 0; t < nt; ++t) S.check(out[t] == want[t], "threads-interact", strf("thread %d of %d, length %ld", t, nt, n[t]));
    S.count("threads", nt);
  });
}
static AddPart p13t("c13.threads", [] { return 200L; }, c13t);
