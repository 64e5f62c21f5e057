#include "common.h"
#include <cstdarg>
#include <fitsio.h>
#include <unistd.h>

Report R;
int opt_tier = 0; bool opt_verbose = false; std::string scratch, variant = "plain";

std::string strf(const char *f, ...) { va_list a; va_start(a, f); char b[8192]; vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string jesc(const std::string &s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; } return o;
}
void Report::viol(const std::string &key, const std::string &detail) {
  ++nviol; if (!known.count(key)) ++nunknown;
  if (++per_key[key] > viol_limit) return;
  printf("{\"t\":\"viol\",\"part\":\"%s\",\"case\":%ld,\"seed\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}\n", prop.c_str(), idx, (unsigned long long)seed, jesc(key).c_str(), jesc(detail.substr(0, 6000)).c_str());
  fflush(stdout);
}
void Report::inconclusive(const std::string &why) {
  ++ninc; printf("{\"t\":\"inc\",\"part\":\"%s\",\"case\":%ld,\"why\":\"%s\"}\n", prop.c_str(), idx, jesc(why.substr(0, 1500)).c_str()); fflush(stdout);
}
void Report::finish() {
  std::string s = strf("{\"t\":\"summary\",\"part\":\"%s\",\"evaluations\":%ld,\"violations\":%ld,\"inconclusive\":%ld,\"counters\":{", prop.c_str(), evaluations, nviol, ninc);
  bool f = true; for (auto &k : counters) { s += strf("%s\"%s\":%.17g", f ? "" : ",", jesc(k.first).c_str(), k.second); f = false; }
  s += "},\"samples\":["; f = true; for (auto &x : samples) { s += std::string(f ? "" : ",") + "\"" + jesc(x) + "\""; f = false; }
  s += "],\"sigs\":["; f = true; for (auto &x : sigs) { s += strf("%s\"%llx\"", f ? "" : ",", (unsigned long long)x); f = false; }
  s += "]}\n"; fputs(s.c_str(), stdout); fflush(stdout);
}

Alms random_alms(Rng &g, int lmax, int mmax, int ncomp, int style) {
  Alms a; a.alloc(lmax, mmax, ncomp);
  auto rnd = [&](int l, int m, double amp) { cf v(float(amp * g.gauss()), m ? float(amp * g.gauss()) : 0.f); (void)l; return v; };
  for (int i = 0; i < ncomp; ++i) {
    if (style == 2) { // a few isolated coefficients
      int n = int(g.range(1, 3));
      for (int t = 0; t < n; ++t) { int l = int(g.range(0, lmax)), m = int(g.range(0, std::min(l, mmax))); a.at(i, l, m) = rnd(l, m, 1); }
      continue;
    }
    for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= std::min(l, mmax); ++m) {
      double amp = 1;
      if (style == 1) amp = 1.0 / (1 + l);               // red
      if (style == 3) amp = std::exp(-0.5 * l * (l + 1) * 0.002) / (1 + m * m); // beam like
      if (style == 4) amp = (l + m) % 2 ? 0 : 1;           // parity structured
      if (style == 5) amp = std::pow(10., g.uni(-6, 3));   // wide dynamic range
      a.at(i, l, m) = rnd(l, m, amp);
    }
    if (i == 0 && style == 3) a.at(0, 0, 0) = cf(0.28f, 0);
  }
  return a;
}

bool write_alm_file(const std::string &path, const Alms &a, const AlmFileOpt &o) {
  unlink(path.c_str());
  int st = 0; fitsfile *f = nullptr;
  fits_create_file(&f, path.c_str(), &st);
  fits_create_img(f, 8, 0, nullptr, &st);
  Rng g(o.seed);
  int nh = o.nhdu > 0 ? o.nhdu : a.ncomp;
  for (int i = 0; i < nh; ++i) {
    std::vector<int> idx; std::vector<double> re, im;
    for (int l = 0; l <= a.lmax; ++l) for (int m = 0; m <= std::min(l, a.mmax); ++m) {
      cf v = a.get(i, l, m);
      if (o.compressed && v == cf(0, 0)) continue;
      idx.push_back(l * l + l + m + 1); re.push_back(v.real()); im.push_back(v.imag());
    }
    if (o.shuffle) for (size_t k = idx.size(); k > 1; --k) { size_t j = g.u64() % k; std::swap(idx[k - 1], idx[j]); std::swap(re[k - 1], re[j]); std::swap(im[k - 1], im[j]); }
    const char *names[] = {"index", "real", "imag"}, *units[] = {"l*l+l+m+1", "unknown", "unknown"};
    const char *forms[] = {"1J", o.dbl ? "1D" : "1E", o.dbl ? "1D" : "1E"};
    fits_create_tbl(f, BINARY_TBL, 0, 3, (char **)names, (char **)forms, (char **)units, "xtension", &st);
    long n = long(idx.size());
    if (n) {
      fits_write_col(f, TINT, 1, 1, 1, n, idx.data(), &st);
      fits_write_col(f, TDOUBLE, 2, 1, 1, n, re.data(), &st);
      fits_write_col(f, TDOUBLE, 3, 1, 1, n, im.data(), &st);
    }
    if (o.keys) {
      int v = a.lmax; fits_update_key(f, TINT, "MAX-LPOL", &v, "highest l", &st);
      v = a.mmax; fits_update_key(f, TINT, "MAX-MPOL", &v, "highest m", &st);
    }
  }
  fits_close_file(f, &st);
  if (st) { fprintf(stderr, "harness: cannot write %s (FITS status %d)\n", path.c_str(), st); _exit(9); }
  return true;
}

// ------------------------------------------------------------------ reference
void wigner_col(int lmax, int m, int k, ld theta, std::vector<ld> &d) {
  d.assign(lmax + 1, 0);
  int am = std::abs(m), ak = std::abs(k), l0 = std::max(am, ak);
  if (l0 > lmax) return;
  // Reduce to first index = l0 >= |second|: d_{mk} symmetries
  // d^l_{mk} = (-1)^{m-k} d^l_{km} = d^l_{-k,-m}
  int a = m, b = k; ld sgn = 1;
  if (am < ak) { a = -k; b = -m; }                       // now |a| = l0
  if (a < 0) { a = -a; b = -b; if ((a - b) % 2) sgn = -sgn; } // d_{mk} = (-1)^{m-k} d_{-m,-k}
  // d^{j}_{j,b} = (-1)^{j-b} sqrt((2j)!/((j+b)!(j-b)!)) cos^{j+b} sin^{j-b}
  int j = l0;
  ld c = cosl(theta / 2), s = sinl(theta / 2);
  ld v = 1;
  // product form: binom(2j, j-b)
  {
    ld bin = 0; bin = lgammal(2 * j + 1.0L) - lgammal(j + b + 1.0L) - lgammal(j - b + 1.0L);
    if (j <= 30) { ld p = 1; for (int i = 1; i <= j - b; ++i) p = p * (j + b + i) / i; v = sqrtl(p); }
    else v = expl(bin / 2);
    for (int i = 0; i < j + b; ++i) v *= c;
    for (int i = 0; i < j - b; ++i) v *= s;
  }
  if ((j - b) % 2) v = -v;
  d[l0] = sgn * v;
  ld x = cosl(theta);
  if (lmax == l0) return;
  ld mk = ld(m) * k;
  for (int l = l0; l < lmax; ++l) {
    if (l == 0) { d[1] = x * d[0]; continue; }
    ld L = l, prev = l > l0 ? d[l - 1] : 0;
    ld num = (2 * L + 1) * (L * (L + 1) * x - mk) * d[l] - (L + 1) * sqrtl((L * L - ld(m) * m) * (L * L - ld(k) * k)) * prev;
    ld den = L * sqrtl(((L + 1) * (L + 1) - ld(m) * m) * ((L + 1) * (L + 1) - ld(k) * k));
    d[l + 1] = num / den;
  }
}

RingModel::RingModel(const Alms &sky, const Alms &beam, int L, int M, bool pol, ld th) : lmax(L), mmax(M), theta(th), pole(false), absum(0) {
  C.assign(size_t(2 * L + 1) * (M + 1), cl(0, 0)); D = C;
  pole = std::abs(sinl(th)) < 1e-12L;
  std::vector<ld> d[2];
  int nc = pol ? 3 : 1;
  for (int am = 0; am <= L; ++am) for (int k = 0; k <= M; ++k) {
    wigner_col(L, -am, k, th, d[0]); wigner_col(L, am, k, th, d[1]);
    int l0 = std::max(am, k), cut = l0;
    for (int q = 0; q < 2; ++q) {
      int f = l0; while (f <= L && !(std::abs(d[q][f]) > 1e-30L)) ++f;
      if (f > L && (L - 1 - l0) % 2 == 0) { // the generator still reports its last element unless the start value underflows
        bool live;
        if (pole) live = am != k || k <= 4;
        else { live = l0 <= L && std::abs(d[q][l0]) > ldexpl(1, -450); for (int l = l0; l <= L; l += 2) if (std::abs(d[q][l]) > ldexpl(1, -360)) live = true; }
        if (live) f = L;
      }
      cut = std::max(cut, f);
    }
    for (int q = am ? 0 : 1; q < 2; ++q) {
      int m = q ? am : -am;
      cl sum(0, 0), kept(0, 0); ld ab = 0;
      bool tab = pole && am == 1 && k == 1;
      if (tab) { T[q].assign(L + 2, cl(0, 0)); cut = L + 1; }
      // position angle is measured from the direction opposite to increasing colatitude
      ld w = (k ? 2 : 1) * ((k & 1) ? -1 : 1);
      for (int l = L; l >= l0; --l) {
        if (d[q][l] != 0) for (int i = 0; i < nc; ++i) {
          cf s0 = sky.get(i, l, am), b0 = beam.get(i, l, k);
          cl s(s0.real(), s0.imag()), b(b0.real(), b0.imag());
          if (m < 0) { s = std::conj(s); if (m & 1) s = -s; }
          cl t = s * std::conj(b) * (d[q][l] * w);
          sum += t; ab += std::abs(s) * std::abs(b) * std::abs(d[q][l] * w);
          if (l >= cut) kept += t;
        }
        if (tab) T[q][l] = sum;
      }
      if (tab) T[q][0] = T[q][1];
      C[size_t(m + L) * (M + 1) + k] = sum; D[size_t(m + L) * (M + 1) + k] = kept;
      absum += ab;
    }
  }
}
std::vector<cl> RingModel::phase_sum(ld phi, bool defect) const {
  std::vector<cl> out(mmax + 1, cl(0, 0));
  for (int m = -lmax; m <= lmax; ++m) { cl e(cosl(m * phi), sinl(m * phi)); for (int k = 0; k <= mmax; ++k) out[k] += e * (defect ? D : C)[size_t(m + lmax) * (mmax + 1) + k]; }
  return out;
}
static ld psi_sum(const std::vector<cl> &v, ld psi) { ld r = 0; for (size_t k = 0; k < v.size(); ++k) r += cosl(k * psi) * v[k].real() - sinl(k * psi) * v[k].imag(); return r; }
bool Prediction::matches_defect(double got, double tol) const {
  ld rest = got - defect;
  if (pole.size() > 9) return false;
  std::function<bool(size_t, ld)> walk = [&](size_t i, ld left) {
    if (i == pole.size()) return std::abs(left) <= tol;
    for (ld x : pole[i]) if (walk(i + 1, left - x)) return true;
    return false;
  };
  return walk(0, rest);
}
ConvModel::ConvModel(const Alms &s, const Alms &b, int l, int m, int o, bool p) : sky(s), beam(b), lmax(l), mmax(m), order(o), pol(p), norm(0) {
  for (int i = 0; i < (p ? 3 : 1); ++i) for (int ll = 0; ll <= l; ++ll) { ld a = 0, c = 0; for (int mm = 0; mm <= ll; ++mm) a += 2 * std::abs(s.get(i, ll, mm)); for (int k = 0; k <= std::min(m, ll); ++k) c += 2 * std::abs(b.get(i, ll, k)); norm += a * c; }
}
RingModel &ConvModel::ring(long j) {
  auto it = rings.find(j); if (it != rings.end()) return it->second;
  return rings.emplace(j, RingModel(sky, beam, lmax, mmax, pol, j * PIl / (lmax + 1))).first->second;
}
const std::pair<std::vector<cl>, std::vector<cl>> &ConvModel::node(long j, long p) {
  auto &m = nodes[j]; auto it = m.find(p); if (it != m.end()) return it->second;
  ld phi = PIl / 2 + p * 2 * PIl / (2 * lmax + 1);
  return m.emplace(p, std::make_pair(ring(j).phase_sum(phi, false), ring(j).phase_sum(phi, true))).first->second;
}
void ConvModel::add(Prediction &q, long j, const std::vector<std::pair<long, ld>> &phis, ld psi, ld w) {
  RingModel &r = ring(j); ld aw = 0; cl e1(0, 0);
  for (auto &x : phis) {
    auto &n = node(j, x.first); q.exact += w * x.second * psi_sum(n.first, psi); q.defect += w * x.second * psi_sum(n.second, psi); aw += std::abs(x.second);
    ld phi = PIl / 2 + x.first * 2 * PIl / (2 * lmax + 1); e1 += x.second * cl(cosl(phi), sinl(phi));
  }
  q.scale += std::abs(w) * aw * r.absum;
  if (r.pole && mmax >= 1 && lmax >= 1) {
    // m=+1: weights sum of e^{i phi}; m=-1: its conjugate
    std::vector<ld> v; cl ps(cosl(psi), sinl(psi));
    for (int L = 1; L <= lmax + 1; ++L) v.push_back(w * ((e1 * r.T[1][L] + std::conj(e1) * r.T[0][L]) * ps).real());
    q.pole.push_back(v);
  }
}
Prediction ConvModel::grid(long j, long p, double psi) { Prediction q; add(q, j, {{p, 1.0L}}, psi, 1); return q; }
static void lagrange(ld x, int n, std::vector<ld> &w) { // nodes 0..n-1
  w.assign(n, 1); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j != i) w[i] *= (x - j) / ld(i - j);
}
Prediction ConvModel::interp(double phi, double theta, double psi, bool south) {
  int np = order + 1, off = order / 2; long nphi = 2 * lmax + 1; ld dth = PIl / (lmax + 1);
  // colatitude: nodes counted towards the pole of the pointing's hemisphere
  ld tf = south ? PIl - ld(theta) : ld(theta);
  ld h = np / 2 + 1;
  ld frac = (PIl + h * dth - tf) / dth;     // ring number, ring 0 at pi + h*dth
  long i0 = long(floorl(frac)) - off; if (i0 < 0) i0 = 0;
  std::vector<ld> wt, wp; lagrange(frac - i0, np, wt);
  ld fp = (ld(phi) - PIl / 2) / (2 * PIl / nphi); fp = fp - nphi * floorl(fp / nphi);
  long p0 = long(floorl(fp)) - off; lagrange(fp - p0, np, wp);
  Prediction q;
  std::map<long, ld> acc; for (int p = 0; p < np; ++p) acc[((p0 + p) % nphi + nphi) % nphi] += wp[p];
  std::vector<std::pair<long, ld>> phis(acc.begin(), acc.end());
  for (int i = 0; i < np; ++i) {
    long j = (lmax + 1) + long(h) - (i0 + i); // theta_f = j*dth
    if (south) j = (lmax + 1) - j;
    add(q, j, phis, psi, wt[i]);
  }
  ld lp = 0, lt = 0; for (ld w : wp) lp += std::abs(w); for (ld w : wt) lt += std::abs(w);
  q.scale = std::max(q.scale, lp * lt * norm * 1e-9L);
  return q;
}
