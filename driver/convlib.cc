#include "sub.h"
#include "conviqt.hpp"
#include <unistd.h>
using namespace conviqt;

std::string tmpfile_path(const std::string &n) { return scratch + "/" + n + "." + std::to_string(getpid()) + ".fits"; }
std::string ConvSpec::describe() const {
  std::string sub; if (!place.empty()) { sub = strf(" on a sub-communicator of %zu world ranks, its ranks at", place.size() + others.size()); for (int p : place) sub += strf(" %d", p); if (idle) sub += ", the others idle"; }
  size_t tot = 0; std::string d; for (auto &p : pnt) { tot += p.size(); d += (d.empty() ? "" : ",") + std::to_string(p.size()); }
  return strf("ranks=%d threads=%d delay=%d pol=%d lmax=%ld mmax=%ld order=%ld verb=%d norm=%d calib=%d eps=%g fwhm=%g samples=%zu[%s]", nranks, nthreads, delay, pol, lmax, mmax, order, verbosity, normalize, calibrate, eps, fwhm, tot, d.c_str()) + sub;
}
void use_subcomm(Rng &g, ConvSpec &s) {
  int extra = int(g.range(0, std::min(3, 15 - s.nranks))), n = s.nranks + extra; std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(i);
  for (int k = n; k > 1; --k) std::swap(w[k - 1], w[g.u64() % k]);
  s.place.assign(w.begin(), w.begin() + s.nranks); s.others.assign(extra, Rows());
  Rows all; for (auto &p : s.pnt) all.insert(all.end(), p.begin(), p.end());
  s.idle = g.coin(0.4); for (auto &o : s.others) { long k = g.range(0, 7); for (long i = 0; i < k && !all.empty(); ++i) o.push_back(all[g.u64() % all.size()]); }
}
simmpi::Run run_guarded(const simmpi::Options &o, const std::function<void(int)> &f) {
  simmpi::Run r = simmpi::run(o, f);
  if (r.inconclusive()) { R.count("reruns"); r = simmpi::run(o, f); }
  note_run(r);
  return r;
}
void note_run(const simmpi::Run &r) {
  R.count("runs"); R.count("ranks", double(r.ranks.size())); R.count("collectives", double(r.ncoll)); R.count("messages", double(r.nmsg)); R.count("collectives_in_non_rank_order", double(r.nonidentity_orders));
  R.sigs.size();
}
bool check_run(const simmpi::Run &r, const std::string &what) {
  if (r.ok()) return true;
  bool harness = false, hang = false;
  for (auto &e : r.ranks) { if (e.kind == simmpi::END_HARNESS) harness = true; if (e.kind == simmpi::END_CPU || e.kind == simmpi::END_WATCHDOG) hang = true; }
  if (r.fatal == 5 || harness) { R.inconclusive(what + " | " + r.describe()); return false; }
  if (hang) ++R.nhang;
  R.viol(r.key(), what + " | " + r.describe());
  return false;
}
ConvOut run_conv(const ConvSpec &s, int cpu_s) {
  ConvOut o;
  simmpi::Options op; op.nranks = s.place.empty() ? s.nranks : int(s.place.size() + s.others.size()); op.nthreads = s.nthreads; op.delay = s.delay; op.seed = s.seed; op.cpu_s = cpu_s;
  o.run = run_guarded(op, [&](int w) {
    MPI_Comm comm = MPI_COMM_WORLD; int r = w; const Rows *given = nullptr;
    if (!s.place.empty()) { // rank of the communicator, or which of the others
      bool mine = false; int k = 0; for (int i = 0; i < s.nranks; ++i) if (s.place[i] == w) { r = i; mine = true; }
      if (!mine) { std::vector<bool> in(op.nranks, false); for (int p : s.place) in[p] = true; for (int i = 0; i < w; ++i) k += !in[i]; r = k; given = &s.others[k]; }
      MPI_Comm_split(MPI_COMM_WORLD, mine ? 0 : 1, r, &comm);
    }
    sky sk; beam bm; detector det("det");
    sk.read(s.skylmax, s.pol, s.skyfile, s.fwhm, comm);
    bm.read(s.beamlmax, s.beammmax, s.pol, s.beamfile, comm);
    det.set_epsilon(s.eps);
    if (s.normalize) bm.normalize();
    convolver cv(&sk, &bm, &det, s.pol, s.lmax, s.mmax, s.order, s.verbosity, comm);
    pointing p;
    const Rows &mine = given ? *given : s.pnt[r];
    if (!mine.empty()) { p.alloc(5 * mine.size()); memcpy(&p[0], mine.data(), sizeof(Row) * mine.size()); }
    if (!(given && s.idle)) cv.convolve(p, s.calibrate);
    uint64_t n = p.size(); simmpi::put(&n, 8); if (n) simmpi::put(&p[0], n * 8);
  });
  o.rows.resize(s.nranks); o.sizes.assign(s.nranks, -1);
  if (!o.run.ok()) return o;
  o.complete = true;
  for (int r = 0; r < s.nranks; ++r) {
    simmpi::Reader rd(o.run.ranks[s.place.empty() ? r : s.place[r]].out); auto v = rd.vec<double>();
    if (rd.bad) { o.complete = false; continue; }
    o.sizes[r] = long(v.size()); o.rows[r].resize(v.size() / 5); if (!o.rows[r].empty()) memcpy(o.rows[r].data(), v.data(), sizeof(Row) * o.rows[r].size());
  }
  return o;
}
std::vector<Rows> distribute(Rng &g, const Rows &all, int n, int mode) {
  std::vector<Rows> o(n);
  size_t N = all.size();
  switch (mode) {
    case 0: for (size_t i = 0; i < N; ++i) o[i * n / std::max<size_t>(N, 1)].push_back(all[i]); break; // contiguous, balanced
    case 1: o[g.range(0, n - 1)] = all; break;                                                  // all on one rank
    case 2: { for (size_t i = 0; i < N; ++i) o[g.range(0, n - 1)].push_back(all[i]); break; }    // random
    case 3: { std::vector<int> use; for (int i = 0; i < n; ++i) if (g.coin(0.5)) use.push_back(i); if (use.empty()) use.push_back(n - 1); for (size_t i = 0; i < N; ++i) o[use[g.u64() % use.size()]].push_back(all[i]); break; } // some ranks empty
    case 4: { int k = int(g.range(0, n - 1)); for (size_t i = 0; i < N; ++i) o[g.coin(0.9) ? k : g.range(0, n - 1)].push_back(all[i]); break; } // skewed
    case 5: { Rows s = all; std::stable_sort(s.begin(), s.end(), [](const Row &a, const Row &b) { return a[1] < b[1]; }); for (size_t i = 0; i < N; ++i) o[i * n / std::max<size_t>(N, 1)].push_back(s[i]); break; } // sorted by latitude
    default: for (size_t i = 0; i < N; ++i) o[i % n].push_back(all[i]);
  }
  return o;
}
Rows random_rows(Rng &g, long n, int style, int lmax) {
  Rows r; double dth = PId / (lmax + 1), dph = 2 * PId / (2 * lmax + 1);
  double th0 = g.uni(0, PId);
  for (long i = 0; i < n; ++i) {
    Row x; x[0] = g.uni(0, 2 * PId); x[1] = std::acos(g.uni(-1, 1)); x[2] = g.uni(-PId, PId);
    x[3] = g.uni(-100, 100); x[4] = g.uni(-1e6, 1e6);
    switch (style) {
      case 1: x[1] = th0; break;                                              // one colatitude
      case 2: x[1] = std::min(PId, dth * g.range(0, lmax + 1)); x[0] = PId / 2 + dph * g.range(0, 2 * lmax); break; // grid nodes
      case 3: { static const double e[] = {0, PId, PId / 2, 1e-9, 1e-3, PId / 2 + 1e-12, PId / 2 - 1e-12}; x[1] = e[g.range(0, 6)]; if (g.coin(0.3)) x[1] = PId - x[1]; x[1] = std::min(std::max(x[1], 0.), PId); break; }
      case 4: x[0] = g.uni(-30, 30); x[2] = g.uni(-50, 50); break;             // many turns
      case 5: x[1] = g.uni(0, 0.2); break;                                     // near the pole
      case 6: x[1] = PId / 2 + g.uni(-0.1, 0.1); break;                        // near the equator
      case 7: x[1] = PId / 2; break;
      case 8: x[1] = std::min(PId, std::max(0., th0 + 0.02 * g.gauss())); x[0] = g.uni(0, 0.3); break; // small patch
      default: break;
    }
    r.push_back(x);
    if (g.coin(0.05)) { Row y = x; y[3] = -7; r.push_back(y); ++i; } // duplicates
  }
  return r;
}

bool run_subs(const std::string &what, const simmpi::Options &o, const std::function<void(int, Sub &)> &f) {
  simmpi::Run run = run_guarded(o, [&](int r) {
    Sub s; f(r, s);
    uint64_t n = s.v.size(); simmpi::put1(n); for (auto &x : s.v) { simmpi::puts_(x.first); simmpi::puts_(x.second); }
    n = s.c.size(); simmpi::put1(n); for (auto &x : s.c) { simmpi::puts_(x.first); simmpi::put1(x.second); }
    n = s.m.size(); simmpi::put1(n); for (auto &x : s.m) { simmpi::puts_(x.first); simmpi::put1(x.second); }
  });
  if (!check_run(run, what)) return false;
  for (size_t r = 0; r < run.ranks.size(); ++r) {
    simmpi::Reader rd(run.ranks[r].out);
    uint64_t n = rd.get<uint64_t>(); for (uint64_t i = 0; i < n && !rd.bad; ++i) { std::string k = rd.str(), d = rd.str(); R.viol(k, what + strf(" | rank %zu: ", r) + d); }
    n = rd.get<uint64_t>(); for (uint64_t i = 0; i < n && !rd.bad; ++i) { std::string k = rd.str(); R.count(k, rd.get<double>()); }
    n = rd.get<uint64_t>(); for (uint64_t i = 0; i < n && !rd.bad; ++i) { std::string k = rd.str(); R.maxi(k, rd.get<double>()); }
    if (rd.bad) { R.inconclusive(what + " | incomplete rank output"); return false; }
  }
  return true;
}
bool isolated(const std::string &what, const std::function<void(Sub &)> &f, int cpu_s) {
  simmpi::Options o; o.cpu_s = cpu_s;
  return run_subs(what, o, [&](int, Sub &s) { f(s); });
}
Inputs make_inputs(Rng &g, int lsky, int lbeam, int mbeam, bool pol, int style_s, int style_b, const std::string &tag) {
  Inputs in;
  in.sky = random_alms(g, lsky, lsky, pol ? 3 : 1, style_s);
  in.beam = random_alms(g, lbeam, mbeam, pol ? 3 : 1, style_b);
  in.sf = tmpfile_path("sky" + tag); in.bf = tmpfile_path("beam" + tag);
  AlmFileOpt o; o.keys = g.coin(0.8); o.dbl = g.coin(0.3); o.seed = g.u64(); // without keys the limits are the largest l and m in the (full) table
  write_alm_file(in.sf, in.sky, o); write_alm_file(in.bf, in.beam, o);
  return in;
}
long pick_lmax(Rng &g) { double u = g.uni(); if (u < 0.15) return g.range(1, 4); if (u < 0.7) return g.range(5, 20); if (u < 0.95) return g.range(21, 40); if (u < 0.985) return g.range(41, 64); return g.range(65, 150); }
double signal_norm(const Alms &sky, const Alms &beam, int lmax, int mmax, bool pol) {
  double n = 0;
  for (int i = 0; i < (pol ? 3 : 1); ++i) for (int l = 0; l <= lmax; ++l) { double a = 0, b = 0; for (int m = 0; m <= l; ++m) a += 2 * std::abs(sky.get(i, l, m)); for (int k = 0; k <= std::min(mmax, l); ++k) b += 2 * std::abs(beam.get(i, l, k)); n += a * b; }
  return n;
}
