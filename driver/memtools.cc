// No growth over repeated use, for the building blocks (C12): live memory after each of many identical cycles.
#include "sub.h"
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <unistd.h>
#include "ls_alm.h"
#include "ls_alm_fitsio.h"
#include "ls_alm_powspec_tools.h"
#include "ls_arr.h"
#include "ls_fft.h"
#include "ls_fftpack_support.h"
#include "ls_fitshandle.h"
#include "ls_mpi_support.h"
#include "ls_powspec.h"
#include "ls_rng.h"
#include "ls_rotmatrix.h"
#include "ls_string_utils.h"
#include "ls_wigner.h"
#include "ls_xcomplex.h"
#include "svd_c.h"
#include "time_utils.h"
#include "wrec3a.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live_bytes() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
#endif
using namespace levels; using std::string; using std::vector;
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
typedef levels::Alm<xcomplex<double>> DAlm; typedef levels::Alm<xcomplex<float>> FAlm;
template <class A> static void fill(A &a, Rng &q) { for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) { a(l, m).re = q.gauss(); a(l, m).im = m ? q.gauss() : 0; } }
static PowSpec spectrum(int n, int lmax) { PowSpec p(n, lmax); arr<double> t(lmax + 1), g(lmax + 1), c(lmax + 1), x(lmax + 1); for (int l = 0; l <= lmax; ++l) { t[l] = g[l] = c[l] = 1. / (1 + l); x[l] = 0.3 / (1 + l); } if (n == 1) p.Set(t); else p.Set(t, g, c, x); return p; }

static void t_fft(Rng &q) {
  long n = q.coin(0.5) ? q.range(1, 60) : q.coin() ? q.range(61, 900) : 2 * q.range(50, 400) + 1; vector<double> v(2 * n, 1.);
  complex_plan c = make_complex_plan(n), c2 = copy_complex_plan(c); complex_plan_forward(c, v.data()); kill_complex_plan(c); complex_plan_backward(c2, v.data()); kill_complex_plan(c2);
  real_plan r = make_real_plan(n); real_plan_forward_fftpack(r, v.data()); real_plan_backward_fftpack(r, v.data()); real_plan r2 = copy_real_plan(r); kill_real_plan(r);
  real_plan_forward_fftw(r2, v.data()); real_plan_backward_fftw(r2, v.data()); real_plan_forward_c(r2, v.data()); real_plan_backward_c(r2, v.data()); kill_real_plan(r2);
  cfft a(n), b(a), d, e(n + 1); d.Set(n); d = e; e = b; a.Set(n + 2); b.Set(n); d = cfft(); cfft none, none2(none); none = a; rfft f(n), g(f), h, i(n + 3); h.Set(n); h = i; i = g; f.Set(n + 5); rfft nn, nn2(nn); nn = f; h = rfft();
}
static void t_wigner(Rng &q) {
  int lmax = int(q.range(1, 120)); arr<double> th(3); for (auto k = 0; k < 3; ++k) th[k] = q.uni(0, 3);
  wignergen w(lmax, th, 1e-30); wignergen_scalar ws(lmax, th, 1e-30); for (int k = 0; k < 4; ++k) { int f, m1 = int(q.range(-lmax, lmax)), m2 = int(q.range(-lmax, lmax)); w.prepare(m1, m2); w.calc(k % 3, f); if (k < 2) w.calc(0, 1, f); ws.prepare(m1, m2); ws.calc(k % 3, f); }
  wigner_d_risbo_scalar s(std::min(lmax, 30), q.uni(0, 3)); wigner_d_risbo_openmp o(std::min(lmax, 30), q.uni(0, 3)); for (int l = 0; l <= std::min(lmax, 10); ++l) { s.recurse(); o.recurse(); }
  vector<double> res(200); wrec3jj(5, 6, 1, -2, res.data(), 200);
}
static void t_alm(Rng &q) {
  int lmax = int(q.range(2, 30)); DAlm a(lmax, lmax), b(lmax, lmax), c(lmax, lmax); fill(a, q); fill(b, q); fill(c, q); FAlm f(lmax, lmax); fill(f, q);
  rotmatrix M; M.Make_CPAC_Euler_Matrix(0.3, 1.2, -2); rotate_alm(a, b, c, 0.3, 1, 2); rotate_alm(a, M); rotate_alm(f, 0.1, 0.2, 0.3); rotate_alm(a, b, c, M); smoothWithGauss(a, b, c, 0.01); smoothWithGauss(f, 0.01);
  PowSpec p; extract_powspec(a, p); extract_crosspowspec(a, b, p); extract_powspec(a, b, c, p); throws([&] { p.smoothWithGauss(0.01); }); PowSpec z(spectrum(1, lmax)), z4(spectrum(4, lmax)); z4.smoothWithGauss(0.01); planck_rng r(3); create_alm(z, a, r); create_alm_pol(z4, a, b, c, r); PowSpec y(z4); y = z;
  DAlm d = a; d.Set(lmax + 3, 1); d.swap(b); d.Scale(2.); arr<double> sc(lmax + 1); sc.fill(1); a.ScaleL(sc); throws([&] { a.Add(b); }); 
}
static void t_fits(Rng &q) {
  string file = tmpfile_path("mem") + ".fits"; unlink(file.c_str()); fflush(stderr); int save = dup(2), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); ::close(nul);
  { int lmax = int(q.range(2, 20)); DAlm a(lmax, lmax), b; fill(a, q); fitshandle h; h.create(file); write_Alm_to_fits(h, a, lmax, lmax, LEVELS_FLOAT64); write_compressed_Alm_to_fits(h, a, lmax, lmax, LEVELS_FLOAT32);
    vector<fitscolumn> c; c.push_back(fitscolumn("A COLUMN WITH A LONG NAME", "a unit of some length", 3, LEVELS_FLOAT64)); c.push_back(fitscolumn("TEXT COLUMN WITH A LONG NAME", "[none of these units]", 12, LEVELS_STRING)); h.insert_bintab(c, "AN EXTENSION WITH A LONG NAME"); arr<double> d(30); d.fill(2); h.write_column(1, d); arr<string> t(10); t.fill("some text of"); h.write_column(2, t);
    h.set_key("KEYONE", string("a value that is long enough for the heap"), "a comment"); h.set_key("KEYTWO", 3.5); h.set_key("KEYTHREE", true); h.add_comment("a comment that is long enough for the heap"); throws([&] { h.get_key<int>("MISSING"); }); throws([&] { h.colname(9); }); h.delete_key("KEYTWO"); throws([&] { h.insert_bintab(vector<fitscolumn>(1, fitscolumn("X", "", 1, LEVELS_INVALID))); });
    arr2<double> im(5, 6); im.fill(1); h.insert_image(LEVELS_FLOAT32, im); h.write_checksum(); h.close(); }
  { fitshandle h; h.open(file); int l, m; h.goto_hdu(2); get_almsize(h, l, m); DAlm b; read_Alm_from_fits(h, b, l, m); FAlm f; read_Alm_from_fits(file, f, l, m, 3); h.goto_hdu(4); arr<double> d; h.read_entire_column(1, d); arr<string> t; h.read_entire_column(2, t); vector<string> k; h.get_all_keys(k); h.get_key<string>("KEYONE"); h.key_present("KEYTHREE"); h.goto_hdu(5); arr2<float> im; h.read_image(im); throws([&] { h.goto_hdu(77); }); throws([&] { h.open(file + ".none"); }); }
  { fitshandle h; throws([&] { h.open(file + ".none"); }); throws([&] { h.create(file); }); throws([&] { h.create("/nonexistent/dir/x.fits"); }); h.open(file); throws([&] { arr<double> x; h.goto_hdu(4); x.alloc(5000); h.read_column(1, x); }); throws([&] { DAlm b; read_Alm_from_fits(file, b, 5, 5, 5); }); }
  { PowSpec p; (void)p; fitshandle::delete_file(file); } fflush(stderr); dup2(save, 2); ::close(save);
}
static void t_mpi(Rng &q) {
  MPI_Manager m; int n = m.num_ranks(), r = m.rank(); long k = q.range(1, 200); int64 mlo, mhi; m.calcShare(0, k, mlo, mhi); m.barrier(); arr<double> x(k), y; x.fill(r); double s = 2, t; m.allreduce(s, MPI_Manager::Sum); m.allreduce(s, t, MPI_Manager::Max); m.allreduce(x, MPI_Manager::Max); m.allreduce(x, y, MPI_Manager::Min); m.reduce(x, y, MPI_Manager::Prod, n - 1); m.bcast(x, 0); m.bcast(s, n - 1);
  if (m.master()) { arr<int> g; m.gather_m(r, g); } else m.gather_s(r);
  arr<double> v(3 + r), o; v.fill(1); m.gatherv(v, o); arr2<double> a(2, 3), b; a.fill(2); if (m.master()) m.gatherv_m(a, b); else m.gatherv_s(a);
  arr<int> c; m.allgather(r, c); m.allgather(x, y); arr<double> snd(n * 3), rcv; snd.fill(1); m.all2all(snd, rcv); arr<int> ni(n), no; ni.fill(2); arr<double> d(2 * n); d.fill(5); m.all2allv_easy(d, ni, o, no);
  if (n > 1) { int to = (r + 1) % n, from = (r + n - 1) % n; m.sendrecv_replace(x, to, from); m.sendrecv(x, to, y = x, from); if (r == 0) m.send(x, 1); if (r == 1) m.recv(y, 0); }
}
static void t_text(Rng &q) {
  string file = tmpfile_path("mem") + ".par"; { FILE *f = fopen(file.c_str(), "w"); if (!f) return; fprintf(f, "# a comment\nkey_one = a value long enough for the heap\nkey_two = 7\n\nbroken line\n"); fclose(f); }
  fflush(stderr); fflush(stdout); int save = dup(2), s1 = dup(1), nul = open("/dev/null", O_WRONLY); dup2(nul, 2); dup2(nul, 1); ::close(nul);
  std::map<string, string> dict; parse_file(file, dict); vector<string> w, parts; throws([&] { parse_words_from_file(file, w); }); tokenize("one,two long enough for the heap,three", ',', parts); vector<double> nums; split("1 2 3.5", nums); throws([&] { stringToData<double>("nonsense that is long enough for the heap"); }); throws([&] { vector<int> i; split("1 x", i); }); throws([&] { stringToData<bool>("perhaps, maybe, possibly, who knows"); });
  dataToString(3.25); intToString(77, 30); throws([&] { intToString(12345, 2); }); trim("  text long enough for the heap really  "); levels::tolower("SOME TEXT LONG ENOUGH FOR THE HEAP"); throws([&] { parse_file(file + ".none", dict); });
  const char *av[] = {"prog", "key=a value long enough for the heap", "other=2"}; parse_cmdline_equalsign(3, av, dict); const char *aw[] = {"prog", "-key_with_a_long_name", "a value long enough for the heap"}; parse_cmdline_classic(3, aw, dict); std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr); dup2(save, 2); dup2(s1, 1); ::close(save); ::close(s1); unlink(file.c_str());
}
static void t_cutil(Rng &q) {
  int n = int(q.range(1, 12)), m = n + int(q.range(0, 12)); vector<vector<double>> a(m, vector<double>(n)); vector<double *> r(m); for (int i = 0; i < m; ++i) { r[i] = a[i].data(); for (auto &x : a[i]) x = q.gauss(); } svd_obj o; svd_init(r.data(), 1e-9, m, n, &o); vector<double> b(m, 1.); svd_solve(&o, b.data()); svd_destroy(&o);
  long long t = dateandtime2planck(2009, 5, 14, 13, 12, 0); int y, mo, d, h, mi, s; planck2dateandtime(t, &y, &mo, &d, &h, &mi, &s);
  double **z; ALLOC2D(z, double, 3, 4); DEALLOC2D(z); void *p = util_malloc_(100); util_free_(p);
}
static void t_containers(Rng &q) {
  long n = q.range(1, 300); arr<double> a(n), b(a), c; c = a; c.alloc(n + 1); c.dealloc(); b.swap(c); vector<double> v(n, 1.); c.copyFrom(v); c.copyTo(v); arr_align<double, 32> al(n); al.alloc(n + 7); arr2<double> m2(3, n), k2(m2); k2.alloc(2, 5); k2 = m2; k2.fast_alloc(1, 3); arr2b<double> bb(4, n); bb.alloc(2, 2); arr3<double> m3(2, 3, n), k3(m3); k3.alloc(1, 1, 1); k3 = m3; arr<string> st(20); st.fill("text that is long enough for the heap"); arr<string> s2(st); s2 = st; s2.alloc(3);
}
typedef void (*Tool)(Rng &);
static const struct { const char *name; Tool f; bool mpi; } tools[] = {{"transforms", t_fft, false}, {"wigner", t_wigner, false}, {"coefficients", t_alm, false}, {"files", t_fits, false}, {"messages", t_mpi, true}, {"text", t_text, false}, {"C utilities", t_cutil, false}, {"containers", t_containers, false}};
static void c12t(long idx, Rng &g) {
  int k = int(idx % 8), nr = tools[k].mpi ? int(g.range(1, 4)) : 1, cyc = 14; uint64_t sq = g.u64(); string what = strf("repeated use of %s, seed %llu, ranks %d", tools[k].name, (unsigned long long)sq, nr); R.eval(what, true);
  simmpi::Options o; o.nranks = nr; o.nthreads = 1; o.seed = sq;
  run_subs(what, o, [&](int, Sub &S) {
    vector<size_t> live; live.reserve(100);
    for (int i = 0; i < cyc; ++i) { Rng q(sq); tools[k].f(q); live.push_back(live_bytes()); S.count("tool_cycles"); S.count(strf("cycles_of_%c%c", tools[k].name[0], tools[k].name[2])); }
    long grow = long(live.back()) - long(live[4]); int ups = 0; for (size_t i = 5; i < live.size(); ++i) if (live[i] > live[i - 1]) ++ups;
    string l; for (size_t x : live) l += strf(" %zu", x); S.check(!(grow > 0 && ups >= int(live.size()) - 7), "memory-grows", "live bytes after each cycle:" + l);
  });
}
static AddPart p12t("c12.tools", [] { return 200L; }, c12t);
