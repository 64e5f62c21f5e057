// Coefficient files: loading of skies and beams (C08), round trips (C09), removal of monopole and dipole (C20).
#include "sub.h"
#include "conviqt.hpp"
#include <fitsio.h>
#include <limits>
#include <unistd.h>
using namespace conviqt;

// One table of a coefficient file, as rows, independent of the code under test.
struct Table { std::vector<int> idx; std::vector<double> re, im; bool dbl = false, keys = true; int kl = 0, km = 0; std::map<std::pair<int, int>, int> at; };
static bool write_tables(const std::string &path, const std::vector<Table> &ts) {
  unlink(path.c_str()); int st = 0; fitsfile *f = nullptr;
  fits_create_file(&f, path.c_str(), &st); fits_create_img(f, 8, 0, nullptr, &st);
  for (auto &t : ts) {
    const char *names[] = {"index", "real", "imag"}, *units[] = {"l*l+l+m+1", "unknown", "unknown"}, *forms[] = {"1J", t.dbl ? "1D" : "1E", t.dbl ? "1D" : "1E"};
    fits_create_tbl(f, BINARY_TBL, 0, 3, (char **)names, (char **)forms, (char **)units, "xtension", &st);
    long n = long(t.idx.size());
    if (n) { fits_write_col(f, TINT, 1, 1, 1, n, (void *)t.idx.data(), &st); fits_write_col(f, TDOUBLE, 2, 1, 1, n, (void *)t.re.data(), &st); fits_write_col(f, TDOUBLE, 3, 1, 1, n, (void *)t.im.data(), &st); }
    if (t.keys) { int v = t.kl; fits_update_key(f, TINT, "MAX-LPOL", &v, nullptr, &st); v = t.km; fits_update_key(f, TINT, "MAX-MPOL", &v, nullptr, &st); }
  }
  fits_close_file(f, &st);
  if (st) { char m[81]; while (fits_read_errmsg(m)) fprintf(stderr, "harness cfitsio: %s\n", m); }
  return st == 0;
}
static Table random_table(Rng &g, int lmax, int mmax, int dropp, bool dbl, bool keys) {
  Table t; t.dbl = dbl; t.keys = keys; t.kl = lmax; t.km = mmax;
  for (int l = 0; l <= lmax; ++l) for (int m = 0; m <= std::min(l, mmax); ++m) {
    if (int(g.range(0, 99)) < dropp && !(l == lmax && m == mmax)) continue;
    t.idx.push_back(l * l + l + m + 1);
    double a = g.gauss(), b = g.gauss(); if (g.coin(0.1)) { a *= 1e-6; } if (g.coin(0.05)) b = 0; if (g.coin(0.02)) a = 1e30;
    if (!dbl) { a = float(a); b = float(b); }
    t.re.push_back(a); t.im.push_back(b);
  }
  for (size_t k = t.idx.size(); k > 1 && g.coin(0.9); --k) if (dropp) { size_t j = g.u64() % k; std::swap(t.idx[k - 1], t.idx[j]); std::swap(t.re[k - 1], t.re[j]); std::swap(t.im[k - 1], t.im[j]); }
  if (!keys) { t.kl = t.km = -1; for (int i : t.idx) { int l = 0; while ((l + 1) * (l + 1) <= i - 1) ++l; int m = i - l * l - l - 1; t.kl = std::max(t.kl, l); t.km = std::max(t.km, m); } }
  for (size_t i = 0; i < t.idx.size(); ++i) { int l = 0; while ((l + 1) * (l + 1) <= t.idx[i] - 1) ++l; t.at[{l, t.idx[i] - l * l - l - 1}] = int(i); }
  return t;
}

// ------------------------------------------------------------------ C08
static void c08_compare(Sub &S, const std::string &what, Alm<xcomplex<float>> &a, const Table &t, int lmax, int mmax, double fwhm_arcmin, bool spin2, std::vector<float> &all) {
  if (!S.check(a.Lmax() == lmax && a.Mmax() == mmax, "limits", what + strf(": coefficients have limits (%d, %d), expected (%d, %d)", a.Lmax(), a.Mmax(), lmax, mmax))) return;
  ld sig = ld(fwhm_arcmin) * PIl / 10800 / sqrtl(8 * logl(2)); long n = 0;
  for (int m = 0; m <= mmax; ++m) for (int l = m; l <= lmax; ++l) {
    ld wr = 0, wi = 0; auto it = t.at.find({l, m}); if (it != t.at.end()) { wr = t.re[size_t(it->second)]; wi = t.im[size_t(it->second)]; }
    float gr = a(l, m).re, gi = a(l, m).im; all.push_back(gr); all.push_back(gi); ++n;
    bool ok;
    if (fwhm_arcmin == 0) ok = gr == float(double(wr)) && gi == float(double(wi));
    else { ld w = expl(-0.5L * (ld(l) * (l + 1) - (spin2 ? 4 : 0)) * sig * sig); wr /= w; wi /= w; ok = std::fabs(gr - double(wr)) <= 4e-7 * std::fabs(double(wr)) + 1e-43 && std::fabs(gi - double(wi)) <= 4e-7 * std::fabs(double(wi)) + 1e-43; if (std::fabs(double(wr)) > 3e38 || std::fabs(double(wi)) > 3e38) ok = true; }
    if (!ok) { S.viol("coefficient", what + strf(": (l=%d, m=%d) is (%.9g, %.9g), expected (%.9Lg, %.9Lg)%s", l, m, gr, gi, wr, wi, it == t.at.end() ? " (not in the file)" : "")); return; }
  }
  S.count("coefficients_compared", double(n));
}
static void same_everywhere(Sub &S, const std::string &what, MPI_Comm c, const std::vector<float> &v) {
  int n; MPI_Comm_size(c, &n); std::string b((const char *)v.data(), v.size() * 4); uint64_t h = hash64(b); std::vector<uint64_t> o(n);
  MPI_Allgather(&h, 8, MPI_BYTE, o.data(), 8, MPI_BYTE, c);
  for (int i = 0; i < n; ++i) S.check(o[i] == h, "ranks-differ", what + strf(": coefficients differ from those on rank %d", i));
}
static void c08(long idx, Rng &g) {
  struct File { std::string name; std::vector<Table> t; int L[2], M[2]; }; // limits without and with polarisation
  File f[3]; int nf = 3;
  for (int i = 0; i < nf; ++i) {
    bool sky = i < 2, large = idx % 96 == 35 && variant == "plain"; int lm = large ? int(sky ? g.range(181, opt_tier ? 900 : 400) : g.range(181, 5000)) : g.coin(0.1) ? int(g.range(0, 2)) : int(g.range(2, idx % 16 == 3 ? 120 : 30)), dp = g.coin(0.5) ? 0 : int(g.range(5, 90)); bool keys = g.coin(0.65), dbl = g.coin(0.4);
    for (int h = 0; h < 3; ++h) {
      int l = lm, m = sky ? l : int(g.range(0, std::min(l, large ? 3 : 7))); if (g.coin(0.25)) { l = int(g.range(1, std::max(1, lm))); m = sky && g.coin(0.8) ? l : std::min(m, l); }
      f[i].t.push_back(random_table(g, l, m, dp, dbl, keys && g.coin(0.95)));
    }
    f[i].L[0] = f[i].t[0].kl; f[i].M[0] = f[i].t[0].km; f[i].L[1] = f[i].M[1] = 0;
    f[i].L[1] = f[i].M[1] = -1; for (auto &t : f[i].t) { f[i].L[1] = std::max(f[i].L[1], t.kl); f[i].M[1] = std::max(f[i].M[1], t.km); }
    f[i].name = tmpfile_path("load" + std::to_string(i));
    if (!write_tables(f[i].name, f[i].t)) { R.inconclusive("cannot write " + f[i].name); return; }
  }
  simmpi::Options o; o.nranks = int(g.range(1, 5)); o.seed = g.u64(); o.delay = int(g.range(0, 2)); uint64_t sq = g.u64(); int nops = int(g.range(3, 8));
  std::string what = strf("ranks=%d limits (%d,%d)(%d,%d)(%d,%d) keys=%d%d%d dbl=%d%d%d ops=%d", o.nranks, f[0].L[0], f[0].M[0], f[1].L[0], f[1].M[0], f[2].L[0], f[2].M[0], f[0].t[0].keys, f[1].t[0].keys, f[2].t[0].keys, f[0].t[0].dbl, f[1].t[0].dbl, f[2].t[0].dbl, nops);
  R.eval(what, true); for (auto &x : f) R.maxi("largest_lmax", x.L[0]);
  run_subs(what, o, [&](int r, Sub &S) {
    Rng all_q(sq); MPI_Comm comms[2]; comms[0] = MPI_COMM_WORLD; MPI_Comm_split(MPI_COMM_WORLD, r % 2, all_q.coin() ? r : -r, &comms[1]);
    sky sk; beam bm; int sl = -1, bl = -1, bmm = -1; bool bn = false;
    S.check(sk.get_lmax() == -1 && bm.get_lmax() == -1 && bm.get_mmax() == -1 && !bm.normalized(), "fresh-limits", "limits before any load");
    for (int k = 0; k < nops; ++k) {
      int cm = int(all_q.range(0, 1)), own = all_q.coin(0.6); uint64_t opseed = all_q.u64(); Rng q(opseed);
      if (cm && own) { q = Rng(opseed + 77 * uint64_t(1 + r % 2)); if (q.coin(0.3)) { S.count("loads_left_out_by_one_half"); continue; } S.count("loads_by_halves_of_their_own"); } // the halves load different things, or one loads nothing
      int i = int(q.range(0, nf - 1)), pol = q.coin(0.5); bool s = q.coin(0.5); const File &F = f[i];
      long want_l = q.coin(0.35) ? -long(q.range(0, 3)) : q.coin(0.75) ? long(q.range(1, std::max(1, F.L[pol]))) : F.L[pol] + long(q.range(1, 5));
      long want_m = q.coin(0.4) ? -long(q.range(0, 2)) : q.coin(0.8) ? long(q.range(1, std::max(1, F.M[pol]))) : F.M[pol] + long(q.range(1, 3));
      double fw = q.coin(0.5) ? 0 : q.coin(0.7) ? q.uni(1, 120) : q.uni(120, 1200);
      { double l = std::max(want_l, long(F.L[pol])), top = std::sqrt(2 * 80 / (l * (l + 1) + 1)) * 2.3548 * 10800 / PId; fw = std::min(fw, top); } // the window must not underflow single precision
      bool ctor = q.coin(0.15);
      long el = want_l > 0 ? want_l : F.L[pol], em; bool refuse;
      std::string w = strf("load %d: %s file %d pol=%d lmax=%ld", k, s ? "sky" : "beam", i, pol, want_l);
      if (s) { refuse = want_l > F.L[pol] || F.M[pol] < el || el < 0; em = el; w += strf(" fwhm=%g", fw); }
      else { em = want_m > 0 ? want_m : std::min<long>(el, F.M[pol]); refuse = want_l > F.L[pol] || want_m > F.M[pol] || em > el || el < 0 || em < 0; w += strf(" mmax=%ld", want_m); }
      bool threw = false; sky *sp = &sk; beam *bp = &bm; sky *own_s = nullptr; beam *own_b = nullptr;
      try {
        if (s) { if (ctor) sp = own_s = new sky(want_l, pol, F.name, fw, comms[cm]); else sk.read(want_l, pol, F.name, fw, comms[cm]); }
        else { if (ctor) bp = own_b = new beam(want_l, want_m, pol, F.name, comms[cm]); else bm.read(want_l, want_m, pol, F.name, comms[cm]); }
      } catch (std::exception &) { threw = true; }
      if (refuse) {
        S.check(threw, "excess-accepted", w + strf(": accepted, the file provides (%d, %d)", F.L[pol], F.M[pol])); S.count("refused_loads");
        S.check(sk.get_lmax() == sl && bm.get_lmax() == bl && bm.get_mmax() == bmm && bm.normalized() == bn, "limits-after-refusal", w + strf(": limits are now sky %d beam (%d, %d), were %d (%d, %d)", sk.get_lmax(), bm.get_lmax(), bm.get_mmax(), sl, bl, bmm));
        if (threw) continue;
      } else if (!S.check(!threw, "valid-load-refused", w + strf(": refused, the file provides (%d, %d)", F.L[pol], F.M[pol]))) continue;
      std::vector<float> all;
      if (s) {
        S.check(sp->get_lmax() == el, "limits", w + strf(": reports lmax=%d, expected %ld", sp->get_lmax(), el)); if (!ctor) sl = int(el);
        c08_compare(S, w + " T", sp->slmT(), F.t[0], int(el), int(el), fw, false, all);
        if (pol) { c08_compare(S, w + " G", sp->slmG(), F.t[1], int(el), int(el), fw, true, all); c08_compare(S, w + " C", sp->slmC(), F.t[2], int(el), int(el), fw, true, all); }
      } else {
        S.check(bp->get_lmax() == el && bp->get_mmax() == em, "limits", w + strf(": reports (%d, %d), expected (%ld, %ld)", bp->get_lmax(), bp->get_mmax(), el, em)); if (!ctor) { bl = int(el); bmm = int(em); bn = false; }
        S.check(!bp->normalized(), "normalized-flag", w);
        c08_compare(S, w + " T", bp->blmT(), F.t[0], int(el), int(em), 0, false, all);
        if (pol) { c08_compare(S, w + " G", bp->blmG(), F.t[1], int(el), int(em), 0, false, all); c08_compare(S, w + " C", bp->blmC(), F.t[2], int(el), int(em), 0, false, all); }
        if (!ctor && q.coin(0.2) && (bm.blmT())(0, 0).re != 0) { bm.normalize(); bn = true; }
      }
      same_everywhere(S, w, comms[cm], all); S.count("loads");
      delete own_s; delete own_b;
    }
  });
}
static AddPart p08("c08.load", [] { return opt_tier ? 5000L : 500L; }, c08);

// ------------------------------------------------------------------ C09
template <class T> static T special(Rng &g, bool wide) { // wide: beyond the range of single precision
  switch (g.range(0, 11)) {
    case 0: return T(0); case 1: return T(-0.0); case 2: return wide ? std::numeric_limits<T>::denorm_min() : T(std::numeric_limits<float>::denorm_min()); case 3: return wide ? -std::numeric_limits<T>::max() : T(-std::numeric_limits<float>::max()); case 4: return wide ? std::numeric_limits<T>::min() : T(std::numeric_limits<float>::min()); case 5: return T(1) / T(3);
    default: return T(g.gauss() * std::pow(10., g.uni(-20, 20)));
  }
}
template <class T> static bool biteq(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class T> static void c09_case(Rng &g, bool big) {
  bool deep = big && g.coin(0.12) && variant == "plain"; // far beyond what 24 bits or one chunk can hold
  int L = deep ? int(g.range(300, 6000)) : big ? int(g.range(120, 320)) : g.coin(0.15) ? int(g.range(0, 3)) : int(g.range(1, 40)); int M = deep ? int(g.range(0, 300000 / L / (1 + L / 1000))) : g.coin(0.5) ? L : int(g.range(0, L)); M = std::min(M, L);
  auto lim = [&](int x) { return g.coin(0.5) ? x : g.coin(0.5) ? int(g.range(0, x)) : x + int(g.range(0, 6)); };
  int wl = lim(L), wm = std::min(wl, lim(M)), ncomp = g.coin(0.3) ? 3 : 1; bool comp = g.coin(0.5), dbl = sizeof(T) == 8 ? g.coin(0.7) : g.coin(0.3);
  int zeros = comp || g.coin(0.3) ? int(g.range(0, 100)) : 0; int sub = int(g.range(0, 2)); bool dropkeys = g.coin(0.3), wide = sizeof(T) == 8 && dbl && g.coin(0.4);
  uint64_t sd = g.u64(); std::string name = tmpfile_path("rt");
  std::string what = strf("%s alm(%d,%d) written (%d,%d) %s as %s, %d components, %d%% zeros, api %d, keys %s wide=%d", sizeof(T) == 8 ? "double" : "float", L, M, wl, wm, comp ? "compressed" : "full", dbl ? "double" : "float", ncomp, zeros, sub, dropkeys ? "deleted" : "kept", wide);
  R.eval(what, L > 0); R.maxi("largest_lmax", L);
  isolated(what, [&](Sub &S) {
    Rng q(sd); unlink(name.c_str());
    std::vector<Alm<xcomplex<T>>> a;
    for (int i = 0; i < ncomp; ++i) { a.emplace_back(L, M); for (int m = 0; m <= M; ++m) for (int l = m; l <= L; ++l) { T x = special<T>(q, wide), y = special<T>(q, wide); if (q.range(0, 99) < zeros) x = y = 0; if (q.coin(0.1)) x = 0; if (q.coin(0.1)) y = 0; a.back()(l, m).Set(x, y); } }
    PDT ty = dbl ? LEVELS_FLOAT64 : LEVELS_FLOAT32;
    if (ncomp == 1 && !comp && sub == 0) { fitshandle o; o.create(name); write_Alm_to_fits(o, a[0], wl, wm, ty); }
    else if (ncomp == 1 && !comp) write_Alm_to_fits(name, a[0], wl, wm, ty);
    else if (ncomp == 3 && !comp && sub) write_Alm_to_fits(name, a[0], a[1], a[2], wl, wm, ty);
    else { fitshandle o; o.create(name); for (auto &x : a) { if (comp) write_compressed_Alm_to_fits(o, x, wl, wm, ty); else write_Alm_to_fits(o, x, wl, wm, ty); } }
    auto conv = [&](T v) -> double { return dbl ? double(v) : double(float(v)); };
    // structure, seen through cfitsio
    std::vector<int> fl(ncomp, -1), fm(ncomp, -1); std::vector<long> nz(ncomp, 0);
    { int st = 0; fitsfile *f = nullptr; fits_open_file(&f, name.c_str(), READWRITE, &st);
      for (int i = 0; i < ncomp; ++i) {
        fits_movabs_hdu(f, i + 2, nullptr, &st); long n = -1; fits_get_num_rows(f, &n, &st);
        std::set<std::pair<int, int>> want;
        for (int l = 0; l <= wl; ++l) for (int m = 0; m <= std::min(l, wm); ++m) { bool in = l <= L && m <= M; T x = in ? a[i](l, m).re : 0, y = in ? a[i](l, m).im : 0; if (!comp || x != 0 || y != 0) want.insert({l, m}); if (x != 0 || y != 0 || !comp) { fl[i] = std::max(fl[i], l); fm[i] = std::max(fm[i], m); } }
        if (S.check(st == 0 && n == long(want.size()), "rows-written", strf("component %d: %ld rows (status %d), expected %zu", i, n, st, want.size())) && n) {
          std::vector<int> ix(n); fits_read_col(f, TINT, 1, 1, 1, n, nullptr, ix.data(), nullptr, &st); std::set<int> u(ix.begin(), ix.end());
          for (int c = 1; c <= 3; ++c) { int ty = 0; long rep = 0, wd = 0; fits_get_coltype(f, c, &ty, &rep, &wd, &st); S.check(rep == 1, "one-value-per-row", strf("component %d column %d: %ld values per row", i, c, rep)); }
          bool ok = long(u.size()) == n; for (auto &p : want) ok = ok && u.count(p.first * p.first + p.first + p.second + 1); S.check(ok && st == 0, "indices-written", strf("component %d", i));
        }
        nz[i] = n;
        if (dropkeys) { fits_delete_key(f, "MAX-LPOL", &st); fits_delete_key(f, "MAX-MPOL", &st); }
      }
      fits_close_file(f, &st); S.check(st == 0, "file-structure", strf("cfitsio status %d", st)); }
    // size query
    for (int i = 0; i < ncomp; ++i) { int l = -9, m = -9; get_almsize(name, l, m, i + 2); int el = fl[i], em = fm[i]; if (comp && !dropkeys) { el = fl[i] = std::max(el, 0); em = fm[i] = std::max(em, 0); } S.check(l == el && m == em, "size-query", strf("component %d: (%d, %d), expected (%d, %d)", i, l, m, el, em)); }
    if (ncomp == 3) { int l = -9, m = -9, el = -1, em = -1; get_almsize_pol(name, l, m); for (int i = 0; i < 3; ++i) { el = std::max(el, fl[i]); em = std::max(em, fm[i]); } S.check(l == el && m == em, "size-query", strf("all components: (%d, %d), expected (%d, %d)", l, m, el, em)); }
    // read back with several limits and both precisions
    for (int t = 0; t < 3; ++t) {
      int rl = t == 0 ? wl : q.coin(0.5) ? int(q.range(0, wl)) : wl + int(q.range(0, 9)), rm = t == 0 ? wm : std::min(rl, q.coin(0.5) ? int(q.range(0, wm)) : wm + int(q.range(0, 9)));
      auto compare = [&](int i, double re, double im, int l, int m, bool sp) {
        bool in = l <= wl && m <= wm && l <= L && m <= M; double x = in ? conv(a[i](l, m).re) : 0, y = in ? conv(a[i](l, m).im) : 0; if (comp && in && a[i](l, m).re == 0 && a[i](l, m).im == 0) x = y = 0;
        if (sp) { x = float(x); y = float(y); }
        S.count("coefficients_compared");
        return S.check(biteq(re, x) && biteq(im, y), "value-read-back", strf("component %d (l=%d, m=%d) read with limits (%d,%d) as %s: (%.17g, %.17g), expected (%.17g, %.17g)", i, l, m, rl, rm, sp ? "float" : "double", re, im, x, y));
      };
      auto all = [&](auto &v, bool sp) { for (int i = 0; i < ncomp; ++i) { if (!S.check(v[i].Lmax() == rl && v[i].Mmax() == rm, "limits-read-back", strf("component %d", i))) return; for (int m = 0; m <= rm; ++m) for (int l = m; l <= rl; ++l) if (!compare(i, v[i](l, m).re, v[i](l, m).im, l, m, sp)) return; } };
      if (q.coin() || wide) { std::vector<Alm<xcomplex<double>>> v(ncomp); if (ncomp == 3 && q.coin()) read_Alm_from_fits(name, v[0], v[1], v[2], rl, rm); else for (int i = 0; i < ncomp; ++i) read_Alm_from_fits(name, v[i], rl, rm, i + 2); all(v, false); }
      else { std::vector<Alm<xcomplex<float>>> v(ncomp); if (ncomp == 3 && q.coin()) read_Alm_from_fits(name, v[0], v[1], v[2], rl, rm); else for (int i = 0; i < ncomp; ++i) { fitshandle h; h.open(name); h.goto_hdu(i + 2); read_Alm_from_fits(h, v[i], rl, rm); } all(v, true); }
      S.count("files_read");
    }
    unlink(name.c_str());
  });
}
static void c09(long idx, Rng &g) { bool big = idx % 6 == 2; if (g.coin()) c09_case<double>(g, big); else c09_case<float>(g, big); }
static AddPart p09("c09.roundtrip", [] { return opt_tier ? 6000L : 600L; }, c09);

// ------------------------------------------------------------------ C20
static std::vector<float> coefs(Alm<xcomplex<float>> &a) { std::vector<float> v; for (tsize i = 0; i < a.Alms().size(); ++i) { v.push_back(a.Alms()[i].re); v.push_back(a.Alms()[i].im); } return v; }
static void c20(long, Rng &g) {
  bool pol = g.coin(0.5); int lm = g.coin(0.3) ? int(g.range(0, 3)) : g.coin(0.03) ? int(g.range(60, 250)) : int(g.range(2, 30)); int bl = std::max(lm, 1), mm = int(g.range(0, std::min(lm, 4)));
  Inputs in = make_inputs(g, lm, bl, mm, pol, int(g.range(0, 1)), int(g.range(0, 1)));
  simmpi::Options o; o.nranks = int(g.range(1, 3)); o.seed = g.u64(); std::vector<int> ops; int nops = int(g.range(1, 5)); for (int i = 0; i < nops; ++i) ops.push_back(int(g.range(0, 1)));
  auto pnt = distribute(g, random_rows(g, 12, int(g.range(0, 8)), std::max(lm, 2)), o.nranks, int(g.range(0, 6)));
  std::string what = strf("ranks=%d pol=%d lmax=%d mmax=%d operations ", o.nranks, pol, lm, mm); for (int x : ops) what += x ? 'd' : 'm';
  R.eval(what, true);
  Alms z = in.sky; for (int x : ops) { if (x == 0) z.at(0, 0, 0) = 0; else if (lm >= 1) for (int m = 0; m <= 1; ++m) z.at(0, 1, m) = 0; }
  std::string zf = tmpfile_path("skyz"); write_alm_file(zf, z);
  run_subs(what, o, [&](int r, Sub &S) {
    sky sk; sk.read(0, pol, in.sf, 0, MPI_COMM_WORLD); beam bm; bm.read(0, 0, pol, in.bf, MPI_COMM_WORLD);
    auto throws = [&](const std::function<void()> &f) { try { f(); return false; } catch (std::exception &) { return true; } };
    S.check(throws([&] { sk.slmG(); }) == !pol && throws([&] { sk.slmC(); }) == !pol, "polarised-access", strf("sky components with pol=%d", pol));
    S.check(throws([&] { bm.blmG(); }) == !pol && throws([&] { bm.blmC(); }) == !pol, "polarised-access", strf("beam components with pol=%d", pol));
    auto T = coefs(sk.slmT()); std::vector<float> G, C; if (pol) { G = coefs(sk.slmG()); C = coefs(sk.slmC()); }
    int L = lm; auto ix = [&](int l, int m) { return size_t(2 * (m * (2 * L + 1 - m) / 2 + l)); };
    for (int x : ops) {
      if (x == 0) { sk.remove_monopole(); T[ix(0, 0)] = T[ix(0, 0) + 1] = 0; }
      else { sk.remove_dipole(); if (L >= 1) for (int m = 0; m <= 1; ++m) T[ix(1, m)] = T[ix(1, m) + 1] = 0; }
      auto n = coefs(sk.slmT()); bool ok = n.size() == T.size(); size_t bad = 0; for (size_t i = 0; ok && i < n.size(); ++i) if (!(n[i] == T[i])) { ok = false; bad = i; }
      S.check(ok, "intensity-after-removal", strf("after removing the %s value %zu is %.9g, expected %.9g", x ? "dipole" : "monopole", bad, bad < n.size() ? n[bad] : 0, bad < T.size() ? T[bad] : 0));
      if (pol) S.check(coefs(sk.slmG()) == G && coefs(sk.slmC()) == C, "polarisation-after-removal", strf("after removing the %s", x ? "dipole" : "monopole"));
      S.check(sk.get_lmax() == lm, "limits", "get_lmax changed"); S.count("removals"); S.count("coefficients_compared", double(n.size()));
    }
    if (lm >= 1) {
      sky zs; zs.read(0, pol, zf, 0, MPI_COMM_WORLD); detector d; long m = std::min(lm, mm);
      convolver a(&sk, &bm, &d, pol, lm, m, 3, 0, MPI_COMM_WORLD), b(&zs, &bm, &d, pol, lm, m, 3, 0, MPI_COMM_WORLD);
      pointing p, q; p.alloc(5 * pnt[r].size()); q.alloc(5 * pnt[r].size()); for (size_t i = 0; i < pnt[r].size(); ++i) for (int k = 0; k < 5; ++k) p[5 * i + k] = q[5 * i + k] = pnt[r][i][k];
      a.convolve(p, false); b.convolve(q, false);
      for (tsize i = 0; i < p.size(); ++i) if (!S.check(p[i] == q[i] || std::fabs(p[i] - q[i]) <= 1e-12 * (1 + std::fabs(q[i])), "convolution-after-removal", strf("value %zu: %.17g, a sky without the removed terms gives %.17g", size_t(i), p[i], q[i]))) break;
      S.count("convolutions");
    }
  });
}
static AddPart p20("c20.removal", [] { return opt_tier ? 4000L : 500L; }, c20);
