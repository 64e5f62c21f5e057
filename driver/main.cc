// Driver: runs numbered cases of one part.  driver PART --seed S --shard i/n [--case k] [--tier quick|thorough]
#include "common.h"
#include <unistd.h>
#include <sys/stat.h>
static std::vector<Part> &parts() { static std::vector<Part> p; return p; }
void add_part(const std::string &name, std::function<long()> n, std::function<void(long, Rng &)> f) { parts().push_back({name, n, f}); }
#define XSTR(x) STR(x)
#define STR(x) #x
extern "C" {
const char *__asan_default_options() { return "exitcode=66:detect_leaks=0:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=4000"; }
const char *__ubsan_default_options() { return "exitcode=66:halt_on_error=1:print_stacktrace=1:abort_on_error=0"; }
const char *__tsan_default_options() { return "exitcode=66:halt_on_error=1:abort_on_error=0:report_signal_unsafe=0:history_size=4:report_thread_leaks=0"; }
}
int main(int argc, char **argv) {
#ifdef VARIANT
  variant = XSTR(VARIANT);
#endif
  std::string part; long si = 0, sn = 1, only = -1; uint64_t seed = 1; long limit = -1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--shard") sscanf(argv[++i], "%ld/%ld", &si, &sn);
    else if (a == "--case") only = atol(argv[++i]);
    else if (a == "--tier") opt_tier = std::string(argv[++i]) == "thorough";
    else if (a == "--scratch") scratch = argv[++i];
    else if (a == "--limit") limit = atol(argv[++i]);
    else if (a == "--known") R.known.insert(argv[++i]);
    else if (a == "-v") opt_verbose = true;
    else if (a == "--list") { for (auto &p : parts()) printf("%s %ld\n", p.name.c_str(), p.ncases()); return 0; }
    else part = a;
  }
  std::string own;
  if (scratch.empty()) { char t[] = "/tmp/verif-drv-XXXXXX"; if (!mkdtemp(t)) return 9; scratch = own = t; }
  for (auto &p : parts()) if (p.name == part) {
    long n = limit >= 0 ? limit : p.ncases();
    R.prop = part; R.seed = seed;
    long a = only >= 0 ? only : si, b = only >= 0 ? only + 1 : n, st = only >= 0 ? 1 : sn;
    for (long i = a; i < b; i += st) { R.idx = i; Rng g(seed * 1000003ull + hash64(part) + uint64_t(i) * 7919ull); p.run(i, g); if (R.nunknown >= 6 || R.ninc >= 4 || R.nhang >= 1) break; }
    R.finish();
    if (!own.empty()) { std::string cmd = "rm -rf '" + own + "'"; if (system(cmd.c_str())) {} }
    return 0;
  }
  fprintf(stderr, "unknown part %s\n", part.c_str());
  return 9;
}
