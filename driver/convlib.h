// Running the real library inside simmpi ranks, black box through its public API.
#ifndef VERIF_CONVLIB_H
#define VERIF_CONVLIB_H
#include "common.h"
#include "mpi.h"
#include "simmpi.h"
typedef std::array<double, 5> Row;
typedef std::vector<Row> Rows;
struct ConvSpec {
  int nranks = 1, nthreads = 1, delay = 0; uint64_t seed = 1;
  std::string skyfile, beamfile;
  long skylmax = 0, beamlmax = 0, beammmax = 0;   // arguments of the loads
  double fwhm = 0;
  bool pol = false;
  long lmax = -1, mmax = -1, order = 5; int verbosity = 0;
  bool normalize = false, calibrate = false; double eps = 0;
  std::vector<Rows> pnt; // per rank
  // Convolve on a sub-communicator: place[r] is the world rank of its rank r; the other world ranks make a
  // communicator of their own and convolve others' rows there at the same time. Empty: the world.
  std::vector<int> place; std::vector<Rows> others; bool idle = false;
  std::string describe() const;
};
struct ConvOut { simmpi::Run run; std::vector<Rows> rows; std::vector<long> sizes; bool complete = false; };
ConvOut run_conv(const ConvSpec &s, int cpu_s = 60);
// Puts the run on a sub-communicator of a larger world, in any rank order
void use_subcomm(Rng &g, ConvSpec &s);
// Splits rows over n ranks in the given mode
std::vector<Rows> distribute(Rng &g, const Rows &all, int nranks, int mode);
Rows random_rows(Rng &g, long n, int style, int lmax);
// Reports a run that did not end normally; returns true if it did end normally
bool check_run(const simmpi::Run &r, const std::string &what);
// Runs again once when the first run is inconclusive; the second hang is a violation
simmpi::Run run_guarded(const simmpi::Options &o, const std::function<void(int)> &f);
std::string tmpfile_path(const std::string &name);
void note_run(const simmpi::Run &r);
#endif
