// Driver-side interface of simmpi.
#ifndef SIMMPI_H
#define SIMMPI_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace simmpi {
enum { MAXR = 16 };
struct Options {
  int nranks = 1;
  uint64_t seed = 1;
  int delay = 0;        // 0 none, 1 random short delays before calls, 2 one slow rank
  bool sync_send = false;
  bool uninitialised = false; // the ranks start without MPI_Init
  int cpu_s = 60;       // CPU limit per rank
  int wall_s = 90;      // watchdog without any MPI progress or exit
  int nthreads = 0;     // OpenMP threads of each rank; 0: one, sometimes three
};
enum EndKind { END_OK = 0, END_EXCEPTION, END_SANITIZER, END_SIGNAL, END_FATAL, END_EXIT, END_CPU, END_WATCHDOG, END_HARNESS };
struct RankEnd {
  EndKind kind = END_OK;
  int code = 0;
  std::string what;      // exception text, last MPI call, ...
  std::string log;       // stderr/stdout of the rank (tail)
  std::vector<char> out; // bytes the rank wrote with put()
  uint64_t ncalls = 0, trace_hash = 0;
};
struct Run {
  std::vector<RankEnd> ranks;
  int fatal = 0;         // 1 deadlock, 2 collective mismatch, 3 usage error, 4 peer died while others wait, 5 harness limit
  std::string fatalmsg;
  uint64_t ncoll = 0, nmsg = 0, order_hash = 0, nonidentity_orders = 0;
  bool ok() const { for (auto &r : ranks) if (r.kind != END_OK) return false; return fatal == 0; }
  bool inconclusive() const { for (auto &r : ranks) if (r.kind == END_CPU || r.kind == END_WATCHDOG || r.kind == END_HARNESS) return true; return fatal == 5; }
  std::string describe() const;   // short text of what went wrong
  std::string key() const;        // stable signature of what went wrong
};
// Runs f(rank) in nranks forked processes. Must be called from a single-threaded process.
Run run(const Options &o, const std::function<void(int)> &f);
// In a rank: append bytes to the rank's output.
void put(const void *p, size_t n);
template <typename T> void putv(const std::vector<T> &v) { uint64_t n = v.size(); put(&n, 8); if (n) put(v.data(), n * sizeof(T)); }
template <typename T> void put1(const T &v) { put(&v, sizeof(T)); }
inline void puts_(const std::string &s) { uint64_t n = s.size(); put(&n, 8); if (n) put(s.data(), n); }
// In the parent: sequential reader over a rank's output.
struct Reader {
  const std::vector<char> &b; size_t pos = 0; bool bad = false;
  explicit Reader(const std::vector<char> &b_) : b(b_) {}
  void raw(void *p, size_t n);
  template <typename T> T get() { T v{}; raw(&v, sizeof(T)); return v; }
  template <typename T> std::vector<T> vec() { uint64_t n = get<uint64_t>(); std::vector<T> v; if (bad || n > (1ull << 32) || pos + n * sizeof(T) > b.size()) { bad = true; return v; } v.resize(n); if (n) raw(v.data(), n * sizeof(T)); return v; }
  std::string str() { auto v = vec<char>(); return std::string(v.begin(), v.end()); }
};
}
#endif
