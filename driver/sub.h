// Checks that run inside (simulated) ranks report through a Sub, merged by the parent.
#ifndef VERIF_SUB_H
#define VERIF_SUB_H
#include "convlib.h"
struct Sub {
  std::vector<std::pair<std::string, std::string>> v; std::map<std::string, double> c, m;
  void viol(const std::string &k, const std::string &d) { if (v.size() < 20) v.emplace_back(k, d); }
  void count(const std::string &k, double n = 1) { c[k] += n; }
  void maxi(const std::string &k, double x) { auto it = m.find(k); if (it == m.end() || it->second < x) m[k] = x; }
  // records one check; reports when it does not hold
  bool check(bool ok, const std::string &k, const std::string &d) { count("checks"); if (!ok) viol(k, d); return ok; }
};
// Runs f on every rank, merges the reports. Returns true if all ranks ended normally.
bool run_subs(const std::string &what, const simmpi::Options &o, const std::function<void(int, Sub &)> &f);
// One rank, for code that needs no peers.
bool isolated(const std::string &what, const std::function<void(Sub &)> &f, int cpu_s = 60);
struct Inputs { Alms sky, beam; std::string sf, bf; };
Inputs make_inputs(Rng &g, int lsky, int lbeam, int mbeam, bool pol, int style_s, int style_b, const std::string &tag = "");
long pick_lmax(Rng &g);
// Sum of magnitudes bounding every signal of a convolution of the two expansions
double signal_norm(const Alms &sky, const Alms &beam, int lmax, int mmax, bool pol);
#endif
