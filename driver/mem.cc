// Memory: hostile shapes under the sanitizers, independence of heap contents, no growth over repeated use (C12).
#include "sub.h"
#include "conviqt.hpp"
#include "cconviqt.h"
#include <malloc.h>
#include <memory>
#include <unistd.h>
#if defined(__has_include)
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#endif
#endif
#ifndef VALGRIND_CHECK_MEM_IS_DEFINED
#define VALGRIND_CHECK_MEM_IS_DEFINED(a, b) 0
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live_bytes() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
#endif
using namespace conviqt;

// Shapes at the edges of what is valid.
static ConvSpec hostile(Rng &g, Inputs &in, bool small) {
  ConvSpec s; s.pol = g.coin(0.4); int ls = int(g.coin(0.4) ? g.range(1, 3) : g.range(1, small ? 8 : 24)), lb = int(g.coin(0.4) ? g.range(1, 3) : g.range(1, small ? 8 : 24)), mb = int(g.coin(0.3) ? lb : g.range(0, lb));
  if (!small && g.coin(0.05)) { ls = int(g.range(55, 90)); lb = int(g.range(55, 90)); mb = int(g.range(0, 3)); } // transform lengths that need Bluestein's algorithm
  in = make_inputs(g, ls, lb, mb, s.pol, int(g.range(0, 3)), int(g.range(0, 3))); in.beam.at(0, 0, 0) = cf(1, 0); write_alm_file(in.bf, in.beam);
  int L = std::min(ls, lb); s.lmax = g.coin(0.3) ? -1 : g.coin(0.6) ? L : g.range(1, L); long el = s.lmax < 0 ? L : s.lmax; s.mmax = g.coin(0.3) ? -1 : g.range(0, std::min<long>(mb, el)); if (g.coin(0.2)) s.mmax = std::min<long>(mb, el);
  s.order = g.coin(0.3) ? g.range(0, 1) : g.coin(0.7) ? g.range(2, 9) : g.range(10, 25); s.skyfile = in.sf; s.beamfile = in.bf; s.verbosity = g.coin(0.1) ? int(g.range(1, 9)) : 0; s.fwhm = g.coin(0.3) ? g.uni(0, 300) : 0;
  s.nranks = g.coin(0.3) ? 1 : int(g.range(2, small ? 3 : 9)); s.nthreads = g.coin(0.5) ? 1 : int(g.range(2, small ? 3 : 5)); s.delay = int(g.range(0, 2)); s.seed = g.u64(); s.calibrate = g.coin(); s.eps = g.uni(0, 1); s.beamlmax = 0; s.skylmax = g.coin(0.3) ? el : 0;
  long n = g.coin(0.15) ? 0 : g.coin(0.3) ? g.range(1, 3) : g.range(1, small ? 20 : 150); Rows all;
  for (int part = int(g.range(1, 3)); part > 0 && n; --part) { auto r = random_rows(g, std::max(1L, n / part), int(g.range(0, 8)), int(el)); all.insert(all.end(), r.begin(), r.end()); }
  if (g.coin(0.1)) for (auto &x : all) x[1] = g.coin() ? 0 : PId;
  if (g.coin(0.1)) for (auto &x : all) x[0] = g.pick(std::vector<double>{0, 2 * PId, -1e-18, 1e9, -1e9, PId / 2, -PId / 2, 4 * PId, 1e15});
  if (g.coin(0.1)) for (auto &x : all) x[2] = g.pick(std::vector<double>{0, 1e9, -1e12, PId});
  s.pnt = distribute(g, all, s.nranks, int(g.range(0, 6)));
  return s;
}
static void c12(long, Rng &g) {
  Inputs in; bool small = getenv("VERIF_SMALL") != nullptr; ConvSpec s = hostile(g, in, small);
  std::string what = s.describe() + strf(" sky %d beam (%d,%d)", in.sky.lmax, in.beam.lmax, in.beam.mmax);
  R.eval(what, true);
  simmpi::Options o; o.nranks = s.nranks; o.nthreads = s.nthreads; o.delay = s.delay; o.seed = s.seed; if (small) { o.cpu_s = 600; o.wall_s = 600; o.delay = 0; }
  run_subs(what, o, [&](int r, Sub &S) {
    sky sk; beam bm; detector det("d"); sk.read(s.skylmax, s.pol, s.skyfile, s.fwhm, MPI_COMM_WORLD); bm.read(0, 0, s.pol, s.beamfile, MPI_COMM_WORLD); det.set_epsilon(s.eps);
    convolver cv(&sk, &bm, &det, s.pol, s.lmax, s.mmax, s.order, s.verbosity, MPI_COMM_WORLD);
    for (int k = 0; k < 2; ++k) {
      pointing p; p.alloc(5 * s.pnt[r].size()); for (size_t i = 0; i < s.pnt[r].size(); ++i) for (int c = 0; c < 5; ++c) p[5 * i + c] = s.pnt[r][i][c];
      cv.convolve(p, s.calibrate); S.check(p.size() == 5 * s.pnt[r].size(), "row-count", "");
      if (p.size()) { long bad = long(VALGRIND_CHECK_MEM_IS_DEFINED(&p[0], p.size() * 8)); S.check(!bad, "undefined-result", "a result depends on uninitialised memory"); }
      for (tsize i = 0; i < p.size(); ++i) if (!S.check(std::isfinite(p[i]), "result-not-finite", strf("value %zu is %g", size_t(i), p[i]))) break;
      S.count("samples", double(p.size() / 5)); S.count("convolutions");
    }
  });
}
static AddPart p12("c12.memory", [] { return 400L; }, c12);

// The same run with different bytes in fresh and freed heap blocks.
static void c12f(long, Rng &g) {
  Inputs in; ConvSpec s = hostile(g, in, false); s.verbosity = 0;
  std::string what = "heap contents: " + s.describe(); R.eval(what, true);
  std::vector<std::vector<char>> ref; uint64_t sd = g.u64();
  for (int k = 0; k < 3; ++k) {
    simmpi::Options o; o.nranks = s.nranks; o.nthreads = 1; o.seed = s.seed;
    simmpi::Run run = run_guarded(o, [&](int r) {
      if (k) { static const int pat[] = {0, 0x55, 0xff, 0x7f, 0x40, 0x01, 0xc0}; Rng q(sd); mallopt(M_PERTURB, k == 1 ? 0x55 : pat[2 + q.range(0, 4)]); std::vector<void *> v; for (int i = 0; i < 400; ++i) v.push_back(malloc(size_t(q.range(8, i % 20 ? 3000 : 200000)))); for (void *p : v) { memset(p, 0x7f, 8); free(p); } }
      sky sk; beam bm; detector det("d"); sk.read(s.skylmax, s.pol, s.skyfile, s.fwhm, MPI_COMM_WORLD); bm.read(0, 0, s.pol, s.beamfile, MPI_COMM_WORLD); det.set_epsilon(s.eps);
      for (int c = 0; c < 2; ++c) {
        convolver cv(&sk, &bm, &det, s.pol, s.lmax, s.mmax, s.order, 0, MPI_COMM_WORLD); pointing p; p.alloc(5 * s.pnt[r].size()); for (size_t i = 0; i < s.pnt[r].size(); ++i) for (int j = 0; j < 5; ++j) p[5 * i + j] = s.pnt[r][i][j];
        cv.convolve(p, s.calibrate); uint64_t n = p.size(); simmpi::put(&n, 8); if (n) simmpi::put(&p[0], n * 8); bm.normalize(); sk.remove_dipole();
      }
    });
    if (!check_run(run, what)) return;
    if (k == 0) for (auto &e : run.ranks) ref.push_back(e.out);
    else { for (size_t r = 0; r < ref.size(); ++r) if (run.ranks[r].out != ref[r]) { R.viol("depends-on-heap-contents", what + strf(" | rank %zu: the result changes with the contents of unused heap memory", r)); return; } R.count("runs_compared"); }
  }
}
static AddPart p12f("c12.fill", [] { return 200L; }, c12f);

// Live memory after each of many identical cycles.
static void c12l(long, Rng &g) {
  Inputs in; ConvSpec s = hostile(g, in, false); s.verbosity = 0; s.nthreads = 1; int cyc = 14; uint64_t sq = g.u64(); int mode = int(g.range(0, 3)); // 3: through the C interface
  std::string junk = tmpfile_path("junk"); { FILE *f = fopen(junk.c_str(), "wb"); if (f) { fputs("junk", f); fclose(f); } }
  std::string what = strf("repeated use, mode %d: ", mode) + s.describe(); R.eval(what, true);
  simmpi::Options o; o.nranks = s.nranks; o.nthreads = 1; o.seed = s.seed;
  run_subs(what, o, [&](int r, Sub &S) {
    std::vector<size_t> live; const Rows &mine = s.pnt[r]; live.reserve(100); MPI_Comm comm = MPI_COMM_WORLD;
    sky *keep_s = nullptr; beam *keep_b = nullptr; detector *keep_d = nullptr; convolver *keep_c = nullptr;
    auto fill = [&](pointing &p) { p.alloc(5 * mine.size()); for (size_t i = 0; i < mine.size(); ++i) for (int c = 0; c < 5; ++c) p[5 * i + c] = mine[i][c]; };
    for (int k = 0; k < cyc; ++k) {
      Rng q(sq);
      if (mode == 3) {
        char *sf = const_cast<char *>(s.skyfile.c_str()), *bf = const_cast<char *>(s.beamfile.c_str()); void *a = conviqt_sky_new(), *b = conviqt_beam_new(), *d = conviqt_detector_new_with_id((char *)"a detector with a long identifier for the heap"), *p = conviqt_pointing_new();
        conviqt_sky_read(a, s.skylmax, s.pol, sf, s.fwhm, comm); conviqt_beam_read(b, 0, 0, s.pol, bf, comm); conviqt_pointing_alloc(p, 5 * long(mine.size())); double *x = conviqt_pointing_data(p); if (x && !mine.empty()) memcpy(x, mine.data(), 40 * mine.size());
        void *c = conviqt_convolver_new(a, b, d, s.pol, s.lmax, s.mmax, s.order, 0, comm); if (S.check(c, "construction-failed", "")) { S.check(conviqt_convolver_convolve(c, p, 1) == 0, "convolution-failed", ""); conviqt_convolver_del(c); }
        void *bad = conviqt_convolver_new(a, b, d, s.pol, 5000, s.mmax, s.order, 0, comm); S.check(!bad, "excess-accepted", ""); conviqt_sky_del(a); conviqt_beam_del(b); conviqt_detector_del(d); conviqt_pointing_del(p);
      } else if (mode == 2 && keep_c) { // the objects stay, everything else repeats
        keep_s->read(s.skylmax, s.pol, s.skyfile, s.fwhm, comm); keep_b->read(0, 0, s.pol, s.beamfile, comm); pointing p; fill(p); keep_c->convolve(p, true); keep_c->set_sky(keep_s); keep_c->convolve(p, false);
      } else {
        std::unique_ptr<sky> sk(new sky); std::unique_ptr<beam> bm(new beam); std::unique_ptr<detector> det(new detector("another detector with a long identifier")); sk->read(s.skylmax, s.pol, s.skyfile, s.fwhm, comm); bm->read(0, 0, s.pol, s.beamfile, comm); bm->normalize(); sk->remove_monopole();
        std::unique_ptr<convolver> cv(new convolver(sk.get(), bm.get(), det.get(), s.pol, s.lmax, s.mmax, s.order, 0, comm)); pointing p; fill(p); cv->convolve(p, true);
        if (mode == 1) { // with refusals in between
          try { convolver c2(sk.get(), bm.get(), det.get(), s.pol, 5000, s.mmax, s.order, 0, comm); } catch (std::exception &) {}
          try { sk->read(5000, s.pol, s.skyfile, 0, comm); } catch (std::exception &) {}
          pointing bad; bad.alloc(5); bad.fill(-3); try { cv->convolve(bad, true); } catch (std::exception &) {}
          try { bm->read(0, 0, s.pol, q.coin() ? junk : junk + "missing", comm); } catch (std::exception &) {}
        }
        if (mode == 2) { keep_s = sk.release(); keep_b = bm.release(); keep_d = det.release(); keep_c = cv.release(); keep_c->set_beam(keep_b); keep_c->set_detector(keep_d); }
      }
      MPI_Barrier(comm); live.push_back(live_bytes()); S.count("cycles");
    }
    delete keep_c; delete keep_s; delete keep_b; delete keep_d;
    // steady growth: every late cycle ends with more than the one before, on the whole
    long grow = long(live.back()) - long(live[4]); int ups = 0; for (size_t k = 5; k < live.size(); ++k) if (live[k] > live[k - 1]) ++ups;
    S.maxi("late_growth_bytes", double(grow)); std::string l; for (size_t x : live) l += strf(" %zu", x);
    S.check(!(grow > 0 && ups >= int(live.size()) - 7), "memory-grows", "live bytes after each cycle:" + l);
  });
}
static AddPart p12l("c12.leak", [] { return 200L; }, c12l);
