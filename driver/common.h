// Shared pieces of the monitoring drivers: random numbers, reporting, FITS
// writing that does not go through the code under test, and the reference model.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <array>
#include <algorithm>

typedef std::complex<float> cf;
typedef std::complex<long double> cl;
typedef long double ld;
const ld PIl = 3.141592653589793238462643383279502884L;
const double PId = 3.141592653589793238462643383279502884;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 3; ++i) u64(); }
  uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  double uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  long range(long a, long b) { return a + long(u64() % uint64_t(b - a + 1)); } // inclusive
  bool coin(double p = 0.5) { return uni() < p; }
  double gauss() { double u; do u = uni(); while (u <= 0); return std::sqrt(-2 * std::log(u)) * std::cos(2 * PId * uni()); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[u64() % v.size()]; }
};
inline uint64_t hash64(const std::string &s) { uint64_t h = 0xcbf29ce484222325ull; for (unsigned char c : s) { h ^= c; h *= 0x100000001b3ull; } return h ^ (h >> 29); }
std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string jesc(const std::string &s);

// ------------------------------------------------------------- reporting
struct Report {
  long evaluations = 0;
  std::set<uint64_t> sigs;               // distinct non-trivial case signatures
  std::map<std::string, double> counters;
  std::vector<std::string> samples;
  long nviol = 0, ninc = 0, nunknown = 0, nhang = 0; std::set<std::string> known; // known: keys of recorded findings
  uint64_t seed = 1; std::string prop; long idx = 0; int viol_limit = 8; std::map<std::string, int> per_key;
  void eval(const std::string &sig, bool nontrivial) { ++evaluations; if (nontrivial) sigs.insert(hash64(sig)); if (samples.size() < 3 && nontrivial) samples.push_back(sig); }
  void count(const std::string &k, double n = 1) { counters[k] += n; }
  void maxi(const std::string &k, double v) { std::string kk = "max_" + k; if (!counters.count(kk) || counters[kk] < v) counters[kk] = v; }
  void viol(const std::string &key, const std::string &detail);
  void inconclusive(const std::string &why);
  void finish();
};
extern Report R;
extern int opt_tier;       // 0 quick, 1 thorough
extern bool opt_verbose;
extern std::string scratch; // private scratch directory
extern std::string variant; // plain / asan / tsan

// A registered check part: cases are numbered 0..n-1, each is deterministic in (seed, index).
struct Part { std::string name; std::function<long()> ncases; std::function<void(long, Rng &)> run; };
void add_part(const std::string &name, std::function<long()> n, std::function<void(long, Rng &)> f);
struct AddPart { AddPart(const std::string &n, std::function<long()> c, std::function<void(long, Rng &)> f) { add_part(n, c, f); } };

// ------------------------------------------------------------- alm sets and FITS files
struct Alms {
  int lmax = -1, mmax = -1; int ncomp = 0;   // 1 or 3
  std::vector<cf> c[3];
  void alloc(int l, int m, int n) { lmax = l; mmax = m; ncomp = n; for (int i = 0; i < 3; ++i) { c[i].clear(); if (i < n) c[i].assign(size_t(l + 1) * (m + 1), cf(0, 0)); } }
  cf &at(int i, int l, int m) { return c[i][size_t(l) * (mmax + 1) + m]; }
  cf get(int i, int l, int m) const { if (l > lmax || m > mmax || m > l || i >= ncomp) return cf(0, 0); return c[i][size_t(l) * (mmax + 1) + m]; }
};
Alms random_alms(Rng &g, int lmax, int mmax, int ncomp, int style);
struct AlmFileOpt { bool dbl = false; bool keys = true; bool compressed = false; bool shuffle = false; int drop_percent = 0; uint64_t seed = 1; int nhdu = -1; };
// writes with cfitsio directly; returns false on error
bool write_alm_file(const std::string &path, const Alms &a, const AlmFileOpt &o = AlmFileOpt());

// ------------------------------------------------------------- reference model
// d^l_{m k}(theta) for l = 0..lmax (zero below max(|m|,|k|)), any real theta
void wigner_col(int lmax, int m, int k, ld theta, std::vector<ld> &out);
// Exact convolution of band-limited expansions on one ring: value at (phi, psi) and the sum of magnitudes of all terms.
struct RingModel {
  int lmax, mmax; ld theta;
  std::vector<cl> C; // exact, (2*lmax+1) x (mmax+1)
  // The same sum when the element d_{mk} is dropped below the multipole where both d_{mk} and d_{-m,k} exceed 1e-30
  // (a recorded finding).  At the poles the cut of the |m|=k=1 pair depends on how the ring angle rounds, so its
  // contribution from l >= L is tabulated in T[0] (m=-1) and T[1] (m=+1) for every L.
  std::vector<cl> D; bool pole; std::vector<cl> T[2];
  ld absum;
  RingModel(const Alms &sky, const Alms &beam, int lmax_, int mmax_, bool pol, ld theta_);
  std::vector<cl> phase_sum(ld phi, bool defect) const; // per k: sum_m C e^{i m phi}
};
struct Prediction {
  ld exact = 0, scale = 0;       // scale: sum of magnitudes of all contributing terms
  ld defect = 0;                 // value under the recorded finding
  std::vector<std::vector<ld>> pole; // per pole ring: what to add to defect for each cut
  bool matches_defect(double got, double tol) const;
};
struct ConvModel {
  const Alms &sky, &beam; int lmax, mmax, order; bool pol; ld norm;
  std::map<long, RingModel> rings; std::map<long, std::map<long, std::pair<std::vector<cl>, std::vector<cl>>>> nodes;
  ConvModel(const Alms &s, const Alms &b, int l, int m, int o, bool p);
  Prediction grid(long j, long p, double psi);
  // Lagrange interpolation on the documented grid; south decides the hemisphere window
  Prediction interp(double phi, double theta, double psi, bool south);
  void add(Prediction &q, long j, const std::vector<std::pair<long, ld>> &phis, ld psi, ld w);
  RingModel &ring(long j); // theta = j*pi/(lmax+1)
  const std::pair<std::vector<cl>, std::vector<cl>> &node(long j, long p);
};
#endif
