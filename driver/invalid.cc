// Invalid requests are refused on all ranks (C11).
#include "sub.h"
#include "conviqt.hpp"
#include <fitsio.h>
#include <limits>
#include <unistd.h>
using namespace conviqt;

static std::string slurp(const std::string &p) { std::string b; if (FILE *f = fopen(p.c_str(), "rb")) { char t[8192]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n); fclose(f); } return b; }
static void spit(const std::string &p, const std::string &b) { if (FILE *f = fopen(p.c_str(), "wb")) { if (!b.empty()) fwrite(b.data(), 1, b.size(), f); fclose(f); } }

// A file that no load can accept. Starts from a good one with nhdu tables.
static const int NBAD = 17;
static std::string damage(const std::string &good, const std::string &out, int kind, int nhdu, Rng &g, std::string &name) {
  std::string b = slurp(good); int st = 0; fitsfile *f = nullptr; unlink(out.c_str());
  auto edit = [&] { spit(out, b); fits_open_file(&f, out.c_str(), READWRITE, &st); fits_movabs_hdu(f, 2 + int(g.range(0, nhdu - 1)), nullptr, &st); };
  auto done = [&] { fits_close_file(f, &st); if (st) fprintf(stderr, "harness: status %d while making a bad file of kind %d\n", st, kind); };
  switch (kind) {
    case 0: name = "missing"; return out;
    case 1: name = "empty"; spit(out, ""); break;
    case 2: name = "not FITS"; spit(out, std::string(size_t(g.range(1, 9000)), char(g.range(32, 126)))); break;
    case 3: { name = "data cut off"; long total = long(b.size()); b.resize(size_t(std::max(2880L, total - 2880 * g.range(1, 2)))); spit(out, b); break; } // loses at least the last data block
    case 4: name = "header cut off"; b.resize(size_t(g.range(1, 2880 + 2879))); spit(out, b); break;
    case 5: name = "no table"; b.resize(2880); spit(out, b); break;
    case 6: case 7: case 8: { // a table with a bad index
      name = kind == 6 ? "zero index" : kind == 7 ? "negative index" : "lowest index"; edit(); long n = 0; fits_get_num_rows(f, &n, &st); int v = kind == 6 ? 0 : kind == 7 ? -int(g.range(1, 1000)) : std::numeric_limits<int>::min(); fits_write_col(f, TINT, 1, g.range(1, n), 1, 1, &v, &st); done(); break; }
    case 9: { name = "text columns"; edit(); long n = 0; fits_get_num_rows(f, &n, &st); int c = int(g.range(1, 3)); fits_delete_col(f, c, &st); fits_insert_col(f, c, (char *)"text", (char *)"8A", &st); done(); break; }
    case 10: { name = "missing columns"; edit(); int n = int(g.range(1, 2)); while (n--) fits_delete_col(f, 3 - (n ? 0 : 0) > 2 ? 3 : 2, &st), st = 0; done(); break; }
    case 11: { name = "negative limits in keys"; for (int h = 0; h < nhdu; ++h) { if (!h) edit(); fits_movabs_hdu(f, 2 + h, nullptr, &st); int v = -int(g.range(1, 1000)); fits_update_key(f, TINT, "MAX-LPOL", &v, nullptr, &st); fits_update_key(f, TINT, "MAX-MPOL", &v, nullptr, &st); } done(); break; }
    case 12: { name = "huge limits in keys"; for (int h = 0; h < nhdu; ++h) { if (!h) edit(); fits_movabs_hdu(f, 2 + h, nullptr, &st); int v = int(g.pick(std::vector<long>{46340, 65535, 65536, 1000000, 2147483647})); fits_update_key(f, TINT, "MAX-LPOL", &v, nullptr, &st); fits_update_key(f, TINT, "MAX-MPOL", &v, nullptr, &st); } done(); break; }
    case 13: { name = "key that is not a number"; edit(); fits_update_key(f, TSTRING, g.coin() ? "MAX-LPOL" : "MAX-MPOL", (void *)"many", nullptr, &st); int v = 3; for (const char *k : {"MAX-LPOL", "MAX-MPOL"}) { char c[80]; int s2 = 0; if (fits_read_key(f, TSTRING, k, c, nullptr, &s2)) fits_update_key(f, TINT, k, &v, nullptr, &st); } done(); break; }
    case 14: { name = "image instead of table"; fits_create_file(&f, out.c_str(), &st); long ax[2] = {5, 7}; fits_create_img(f, 8, 0, nullptr, &st); for (int h = 0; h < nhdu; ++h) fits_create_img(f, FLOAT_IMG, 2, ax, &st); done(); break; }
    case 15: { name = "table without rows or limits"; spit(out, b); fits_open_file(&f, out.c_str(), READWRITE, &st); for (int h = 0; h < nhdu; ++h) { fits_movabs_hdu(f, 2 + h, nullptr, &st); long n = 0; fits_get_num_rows(f, &n, &st); if (n) fits_delete_rows(f, 1, n, &st); int s2 = 0; fits_delete_key(f, "MAX-LPOL", &s2); s2 = 0; fits_delete_key(f, "MAX-MPOL", &s2); } done(); break; }
    default: name = "directory"; return scratch;
  }
  return out;
}
struct Snap { int L[3]; bool n; std::vector<float> c; bool operator==(const Snap &o) const { return memcmp(L, o.L, sizeof L) == 0 && n == o.n && c.size() == o.c.size() && (c.empty() || memcmp(c.data(), o.c.data(), c.size() * 4) == 0); } };
static void addc(std::vector<float> &v, Alm<xcomplex<float>> &a) { size_t n = v.size(); v.resize(n + 2 * a.Alms().size()); if (a.Alms().size()) memcpy(&v[n], &a.Alms()[0], 8 * a.Alms().size()); }
static Snap snap(sky &s) { Snap r{{s.get_lmax(), 0, 0}, false, {}}; addc(r.c, s.slmT()); try { addc(r.c, s.slmG()); addc(r.c, s.slmC()); r.L[2] = 1; } catch (std::exception &) {} return r; }
static Snap snap(beam &s) { Snap r{{s.get_lmax(), s.get_mmax(), 0}, s.normalized(), {}}; addc(r.c, s.blmT()); try { addc(r.c, s.blmG()); addc(r.c, s.blmC()); r.L[2] = 1; } catch (std::exception &) {} return r; }

static void c11(long idx, Rng &g) {
  bool pol = g.coin(0.5); int ls = int(g.range(2, 14)), lb = int(g.range(2, 14)), mb = int(g.range(0, std::min(lb, 4)));
  Inputs in = make_inputs(g, ls, lb, mb, pol, int(g.range(0, 2)), int(g.range(0, 2))), un = make_inputs(g, ls, lb, mb, false, 0, 0, "u");
  in.beam.at(0, 0, 0) = cf(1, 0); write_alm_file(in.bf, in.beam); // some size keys absent: the limits are those of the table
  simmpi::Options o; o.nranks = g.coin(0.15) ? 1 : int(g.range(2, 6)); o.seed = g.u64(); o.delay = int(g.range(0, 2)); o.nthreads = 1; o.cpu_s = 60;
  struct Bad { std::string path, name; bool sky; }; std::vector<Bad> bad; int nh = pol ? 3 : 1;
  for (int i = 0; i < 4; ++i) { Bad b; b.sky = g.coin(); int kind = i == 0 ? int(idx % NBAD) : int(g.range(0, NBAD - 1)); b.path = damage(b.sky ? in.sf : in.bf, tmpfile_path("bad" + std::to_string(i)), kind, nh, g, b.name); bad.push_back(b); }
  uint64_t sq = g.u64(); int nops = int(g.range(8, opt_tier ? 40 : 18)); bool halves = o.nranks > 1 && g.coin(0.35);
  std::string what = strf("ranks=%d halves=%d delay=%d pol=%d sky %d beam (%d,%d) files %s/%s/%s/%s ops=%d opseed=%llx", o.nranks, int(halves), o.delay, pol, ls, lb, mb, bad[0].name.c_str(), bad[1].name.c_str(), bad[2].name.c_str(), bad[3].name.c_str(), nops, (unsigned long long)sq);
  R.eval(what, true);
  run_subs(what, o, [&](int r, Sub &S) {
    Rng q(sq); MPI_Comm comm; int n;
    if (halves) { MPI_Comm_split(MPI_COMM_WORLD, r % 2, q.coin() ? r : -r, &comm); q = Rng(sq + 77 * uint64_t(r % 2)); S.count("runs_on_subcommunicators"); } // each half makes its own requests
    else if (q.coin()) comm = MPI_COMM_WORLD; else MPI_Comm_dup(MPI_COMM_WORLD, &comm);
    MPI_Comm_rank(comm, &r); MPI_Comm_size(comm, &n);
    sky sk; beam bm; detector dt; sky us; beam ub; sky fresh_s; beam fresh_b;
    sk.read(0, pol, in.sf, 0, comm); bm.read(0, 0, pol, in.bf, comm); us.read(0, false, un.sf, 0, comm); ub.read(0, 0, false, un.bf, comm);
    long L = std::min(ls, lb), M = std::min<long>(bm.get_mmax(), L), ord = q.range(0, 6);
    convolver cv(&sk, &bm, &dt, pol, L, M, ord, 0, comm);
    Rng d0(q.u64()); Rows all = random_rows(d0, d0.range(1, 16), int(d0.range(0, 8)), int(L)); Rows mine = distribute(d0, all, n, int(d0.range(0, 6)))[r]; Rows want;
    auto set = [&](pointing &p, const Rows &v) { p.alloc(5 * v.size()); if (!v.empty()) memcpy(&p[0], v.data(), v.size() * 40); };
    // every rank must have had the same outcome; a rank left behind shows as a mismatched or blocked call
    auto agree = [&](bool threw, const std::string &w) { int t = threw, lo, hi; MPI_Allreduce(&t, &lo, 1, MPI_INT, MPI_MIN, comm); MPI_Allreduce(&t, &hi, 1, MPI_INT, MPI_MAX, comm); S.check(lo == hi, "ranks-disagree", w + (threw ? ": refused here, accepted elsewhere" : ": accepted here, refused elsewhere")); };
    auto attempt = [&](const std::string &w, bool refuse, const std::function<void()> &f) {
      bool threw = false, odd = false; try { f(); } catch (std::exception &) { threw = true; } catch (...) { threw = odd = true; }
      (void)odd; agree(threw, w); S.count(threw ? "refusals" : "accepted_calls");
      return S.check(threw == refuse, refuse ? "invalid-request-accepted" : "valid-request-refused", w);
    };
    auto valid = [&](const std::string &w) {
      pointing p; set(p, mine); if (!attempt(w + ": valid convolution", false, [&] { cv.convolve(p, false); })) return;
      Rows got(p.size() / 5); if (!got.empty()) memcpy(got.data(), &p[0], p.size() * 8);
      if (want.empty()) { want = got; return; }
      S.check(got.size() == want.size(), "row-count", w); for (size_t i = 0; i < got.size() && i < want.size(); ++i) if (!S.check(memcmp(&got[i], &want[i], 24) == 0 && got[i][4] == want[i][4] && std::fabs(got[i][3] - want[i][3]) <= 1e-10 * (1 + std::fabs(want[i][3])), "result-after-refusal", w + strf(": row %zu gives %.17g, before %.17g", i, got[i][3], want[i][3]))) break;
      S.count("valid_convolutions_after");
    };
    valid("start"); Snap s0 = snap(sk), b0 = snap(bm); const double pi_ = 3.141592653589793;
    auto untouched = [&](const std::string &w) { S.check(snap(sk) == s0, "sky-changed-by-refusal", w + strf(" (lmax now %d, was %d)", sk.get_lmax(), s0.L[0])); S.check(snap(bm) == b0, "beam-changed-by-refusal", w + strf(" (limits now (%d, %d), were (%d, %d))", bm.get_lmax(), bm.get_mmax(), b0.L[0], b0.L[1])); };
    for (int k = 0; k < nops; ++k) {
      std::string w = strf("operation %d: ", k);
      switch (q.range(0, 9)) {
        case 0: case 1: case 2: { // a bad angle somewhere
          bool phi = q.coin(0.2); double v; if (phi) v = q.pick(std::vector<double>{NAN, INFINITY, -INFINITY}); else v = q.pick(std::vector<double>{NAN, -NAN, INFINITY, -INFINITY, -1e-300, -5e-324, -1e-10, -0.5, std::nextafter(pi_, 4), pi_ + 1e-9, 3.2, 6.4, 1e10, 1e300, -1e300});
          std::set<int> who; who.insert(int(q.range(0, n - 1))); if (q.coin(0.4)) who.insert(int(q.range(0, n - 1))); if (q.coin(0.1)) for (int i = 0; i < n; ++i) who.insert(i);
          Rows v2 = mine; uint64_t a = q.u64(); bool onlybad = q.coin(0.1); if (onlybad) v2.clear();
          if (who.count(r)) { Row x{{1, 1, 1, 0, 0}}; if (v2.empty() || (a & 64)) v2.insert(v2.begin() + long(a % (v2.size() + 1)), x); v2[(a >> 8) % v2.size()][phi ? 0 : 1] = v; }
          pointing p; set(p, v2); w += strf("%s = %.17g on %zu of %d ranks", phi ? "longitude" : "colatitude", v, who.size(), n); attempt(w, true, [&] { cv.convolve(p, q.coin()); }); S.check(p.size() == 5 * v2.size(), "row-count", w); S.count("illegal_angles"); break; }
        case 3: { // construction with excessive limits
          long l = L, m = M, od = ord; int t = int(q.range(0, 6)); bool huge = q.coin(0.3); long big = q.pick(std::vector<long>{100001, 2147483647L, 2147483648L, 4294967296L, std::numeric_limits<long>::max()});
          if (t == 0) l = L + (huge ? big - L : q.range(1, 20)); else if (t == 1) m = mb + (huge ? big - mb : q.range(1, 9)); else if (t == 2) l = 0; else if (t == 3) od = huge ? std::numeric_limits<long>::min() : -q.range(1, 20); else if (t == 4) { l = std::max(1L, std::min(L, M) - 1); m = l + 1; } else if (t == 5) { l = L + q.range(1, 9); m = mb + 1; } else { l = -1; m = mb + q.range(1, 9); }
          bool refuse = l == 0 || l > L || m > bm.get_mmax() || m > (l < 0 ? L : l) || od < 0; w += strf("convolver lmax=%ld mmax=%ld order=%ld", l, m, od);
          attempt(w, refuse, [&] { convolver c(&sk, &bm, &dt, pol, l, m, od, 0, comm); }); break; }
        case 4: { // polarised work with unpolarised inputs
          bool a = q.coin(), b = !a || q.coin(); w += strf("polarised convolution with %s%s", a ? "unpolarised sky " : "", b ? "unpolarised beam" : ""); if (!pol) a = b = true;
          attempt(w, true, [&] { convolver c(a ? &us : &sk, b ? &ub : &bm, &dt, true, std::min(L, 3L), 0, 3, 0, comm); pointing p; set(p, mine); c.convolve(p, false); }); break; }
        case 5: { // inputs replaced by smaller ones
          sky small; beam sb; bool a = q.coin(); long l = std::max(1L, L - q.range(1, 3)); if (l == L) break; w += strf("convolver of lmax=%ld after replacing the %s by one of lmax=%ld", L, a ? "sky" : "beam", l);
          if (a) small.read(l, pol, in.sf, 0, comm); else sb.read(l, std::min<long>(l, mb), pol, in.bf, comm);
          if (q.coin()) { if (a) cv.set_sky(&small); else cv.set_beam(&sb); pointing p; set(p, mine); attempt(w, true, [&] { cv.convolve(p, false); }); cv.set_sky(&sk); cv.set_beam(&bm); }
          else attempt(w + " (new)", true, [&] { convolver c(a ? &small : &sk, a ? &bm : &sb, &dt, pol, L, M, ord, 0, comm); });
          break; }
        case 6: case 7: { // files that cannot be loaded, into objects in use or unused ones
          Bad &f = bad[size_t(q.range(0, 3))]; bool own = q.coin(0.4); w += strf("loading a %s from a file: %s (%s)", f.sky ? "sky" : "beam", f.name.c_str(), own ? "fresh object" : "object in use");
          bool refuse = true; sky *s = own ? &fresh_s : &sk; beam *b = own ? &fresh_b : &bm;
          attempt(w, refuse, [&] { if (q.coin(0.2) && own) { if (f.sky) sky x(0, pol, f.path, 0, comm); else beam x(0, 0, pol, f.path, comm); } else if (f.sky) s->read(0, pol, f.path, 0, comm); else b->read(0, 0, pol, f.path, comm); });
          S.check(fresh_s.get_lmax() == -1 && fresh_b.get_lmax() == -1, "limits-after-refusal", w); S.count("bad_files"); break; }
        case 8: { // loads beyond what the file has, or polarised from unpolarised files
          int t = int(q.range(0, 3)); w += strf("excessive load %d", t);
          attempt(w, true, [&] { if (t == 0) sk.read(ls + q.range(1, 90000), pol, in.sf, 0, comm); else if (t == 1) bm.read(lb + q.range(1, 90000), 0, pol, in.bf, comm); else if (t == 2) bm.read(0, lb + 1 + q.range(0, 90000), pol, in.bf, comm); else if (q.coin()) sk.read(0, true, un.sf, 0, comm); else bm.read(0, 0, true, un.bf, comm); }); break; }
        default: { // nothing loaded
          w += "convolver with an empty sky or beam"; attempt(w, true, [&] { convolver c(q.coin() ? &fresh_s : &sk, &fresh_b, &dt, q.coin(), q.coin() ? -1 : L, q.coin() ? -1 : 0, 3, 0, comm); }); break; }
      }
      untouched(w); if (q.coin(0.5)) valid(w);
    }
    valid("end"); S.count("operations", nops);
  });
}
static AddPart p11("c11.invalid", [] { return 400L; }, c11);

// Coefficient files with arbitrary damage: whatever becomes of the load, it does so on all ranks and nothing is left broken.
static bool moderate(const std::string &p, int nhdu) { // false when a load would have to allocate much, or cfitsio itself is led astray
  int st = 0; fitsfile *f = nullptr; if (fits_open_file(&f, p.c_str(), READONLY, &st)) return true;
  bool ok = true;
  for (int h = 0; h < nhdu && ok; ++h) {
    int s2 = 0, ty = 0; if (fits_movabs_hdu(f, h + 2, &ty, &s2)) break;
    long l = -1, m = -1; int a = 0, b = 0; fits_read_key(f, TLONG, "MAX-LPOL", &l, nullptr, &a); fits_read_key(f, TLONG, "MAX-MPOL", &m, nullptr, &b);
    if ((l > 200 && l < 46340) || (m > 200 && m < 46340)) ok = false;
    if (a || b) { // the limits come from the table
      long n = 0, rep = 1, w = 0; int tc = 0; fits_get_num_rows(f, &n, &s2); fits_get_coltype(f, 1, &tc, &rep, &w, &s2); if (s2) continue; if (n > 2000000 || rep > 10000) { ok = false; continue; }
      std::vector<int> ix(size_t(std::max(0L, n * rep)) + 1); fits_read_col(f, TINT, 1, 1, 1, n * rep, nullptr, ix.data(), nullptr, &s2); for (int v : ix) if (v > 40000) ok = false;
    }
  }
  int s3 = 0; fits_close_file(f, &s3); return ok;
}
static void c11f(long, Rng &g) {
  bool pol = g.coin(0.4); int ls = int(g.range(2, 10)), lb = int(g.range(2, 10)), mb = int(g.range(0, std::min(lb, 4))); Inputs in = make_inputs(g, ls, lb, mb, pol, 0, 0);
  struct F { std::string p; bool sky; }; std::vector<F> fs; std::string how;
  for (int i = 0; i < 6; ++i) {
    F f; f.sky = g.coin(); f.p = tmpfile_path("mut" + std::to_string(i)); std::string b = slurp(f.sky ? in.sf : in.bf);
    int n = int(g.range(1, 3)); std::string h = f.sky ? "s" : "b";
    for (int k = 0; k < n; ++k) {
      if (g.coin(0.6)) { // a value in a header card of a table
        std::vector<size_t> cards; for (size_t c = 2880; c + 80 <= b.size(); c += 80) { std::string w = b.substr(c, 8); for (const char *key : {"NAXIS2  ", "NAXIS1  ", "TFORM1  ", "TFORM2  ", "TFORM3  ", "TFIELDS ", "MAX-LPOL", "MAX-MPOL", "PCOUNT  ", "XTENSION", "BITPIX  ", "NAXIS   ", "TTYPE1  "}) if (w == key) cards.push_back(c); }
        if (cards.empty()) continue; size_t c = g.pick(cards); static const char *val[] = {"0", "1", "2", "-1", "7", "100000", "2147483647", "-2147483648", "4294967296", "99999999999999999999", "'1E      '", "'0J      '", "'5J      '", "'1PJ(3)  '", "'8A      '", "'1X      '", "''", "T", "1.5", "'IMAGE   '"};
        char t[81]; snprintf(t, sizeof t, "%.8s= %20s", b.substr(c, 8).c_str(), val[g.range(0, 19)]); std::string card(t); card.resize(80, ' '); b.replace(c, 80, card); h += b.substr(c, 8);
      } else if (g.coin(0.7)) { size_t p = 2880 + g.u64() % (b.size() - 2880); b[p] = char(g.u64()); h += strf("@%zu", p); }
      else { b.resize(std::max<size_t>(10, g.u64() % b.size())); h += "cut"; }
      if (b.size() <= 2880) break;
    }
    spit(f.p, b); if (!moderate(f.p, pol ? 3 : 1)) { R.count("files_skipped_for_size"); continue; }
    fs.push_back(f); how += h + " ";
  }
  simmpi::Options o; o.nranks = int(g.range(1, 4)); o.seed = g.u64(); o.delay = int(g.range(0, 1)); o.nthreads = 1; uint64_t sq = g.u64();
  std::string what = strf("damaged files: ranks=%d pol=%d %s", o.nranks, pol, how.c_str());
  R.eval(what, !fs.empty());
  run_subs(what, o, [&](int r, Sub &S) {
    Rng q(sq); MPI_Comm comm = MPI_COMM_WORLD; sky sk; beam bm; detector dt; sk.read(0, pol, in.sf, 0, comm); bm.read(0, 0, pol, in.bf, comm); long L = std::min(ls, lb);
    Rng d0(q.u64()); Rows mine = distribute(d0, random_rows(d0, 6, 0, int(L)), o.nranks, int(d0.range(0, 6)))[r]; std::vector<double> want;
    for (size_t k = 0; k <= fs.size(); ++k) {
      convolver cv(&sk, &bm, &dt, pol, L, std::min<long>(mb, L), 3, 0, comm); pointing p; p.alloc(5 * mine.size()); for (size_t i = 0; i < mine.size(); ++i) for (int c = 0; c < 5; ++c) p[5 * i + c] = mine[i][c];
      cv.convolve(p, false); std::vector<double> got; for (tsize i = 0; i < p.size(); ++i) got.push_back(p[i]);
      if (k == 0) want = got; else S.check(got == want || [&] { for (size_t i = 0; i < got.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= 1e-10 * (1 + std::fabs(want[i])))) return false; return true; }(), "result-after-refusal", strf("after file %zu", k - 1));
      if (k == fs.size()) break;
      const F &f = fs[k]; sky s2; beam b2; bool threw = false; try { if (f.sky) s2.read(0, pol, f.p, 0, comm); else b2.read(0, 0, pol, f.p, comm); } catch (...) { threw = true; }
      long v[3] = {threw, f.sky ? s2.get_lmax() : b2.get_lmax(), f.sky ? 0 : b2.get_mmax()}, lo[3], hi[3]; MPI_Allreduce(v, lo, 3, MPI_LONG, MPI_MIN, comm); MPI_Allreduce(v, hi, 3, MPI_LONG, MPI_MAX, comm);
      S.check(memcmp(lo, hi, sizeof lo) == 0, "ranks-disagree", strf("file %zu: refused %ld limits (%ld, %ld) here", k, v[0], v[1], v[2])); if (threw) S.check(v[1] == -1, "limits-after-refusal", strf("file %zu", k)); else S.check(v[1] >= 0 && v[2] <= v[1], "limits", strf("file %zu", k));
      S.count(threw ? "damaged_files_refused" : "damaged_files_loaded");
      if (!threw && v[1] >= 1) { long l = std::min(L, v[1]), m = std::min<long>(l, f.sky ? mb : v[2]); convolver c2(f.sky ? &s2 : &sk, f.sky ? &bm : &b2, &dt, pol, l, m, 3, 0, comm); pointing p2; p2.alloc(5 * mine.size()); for (size_t i = 0; i < mine.size(); ++i) for (int c = 0; c < 5; ++c) p2[5 * i + c] = mine[i][c]; c2.convolve(p2, false); }
    }
  });
}
static AddPart p11f("c11.damaged", [] { return 400L; }, c11f);
