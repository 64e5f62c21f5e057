// Sorting, text, containers, rotations, numbers (C19): each against a small model.
#include "sub.h"
#include <fcntl.h>
#include <limits>
#include <map>
#include <unistd.h>
#include "ls_arr.h"
#include "ls_math_utils.h"
#include "ls_rng.h"
#include "ls_rotmatrix.h"
#include "ls_safe_cast.h"
#include "ls_string_utils.h"
#include "wrec3a.h"
#include "conviqt.hpp" // last: its SSE header overloads sqrt in levels
namespace conviqt { void hpsort_arr(levels::arr<double> &ra, int sortcol) __attribute__((weak)); } // not in the header: checked when it is there
using std::string; using std::vector;

template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

// ------------------------------------------------------------------ sorting
static double key_of(Rng &q, int style) {
  switch (style) {
    case 0: return q.gauss();
    case 1: return double(q.range(-3, 3));
    case 2: return q.coin() ? 0. : -0.;
    case 3: return q.coin(0.2) ? (q.coin() ? INFINITY : -INFINITY) : q.uni(-1, 1);
    case 4: return 1;
    case 5: return q.gauss() * std::pow(10., q.uni(-300, 300));
    default: return 0.5 * PId * (1 + 1e-16 * q.range(-4, 4));
  }
}
static void c19_sort(long, Rng &g) {
  uint64_t sq = g.u64(); int n = int(g.coin(0.3) ? g.range(0, 4) : g.coin(0.9) ? g.range(5, 200) : g.range(200, 3000)), style = int(g.range(0, 6)), order = int(g.range(0, 2)); unsigned fn = unsigned(g.range(0, 6));
  string what = strf("sort function %u, %d rows, keys of style %d, initial order %d, seed %llu", fn, n, style, order, (unsigned long long)sq);
  R.eval(what, n > 1);
  isolated(what, [&](Sub &S) {
    Rng q(sq); vector<double> keys(n); for (auto &k : keys) k = key_of(q, style);
    if (order == 1) std::sort(keys.begin(), keys.end()); if (order == 2) std::sort(keys.rbegin(), keys.rend());
    S.count("rows_sorted", n);
    auto ascending = [&](const vector<double> &k) { for (int i = 1; i < n; ++i) if (k[i] < k[i - 1]) return i; return 0; };
    if (fn <= 4) { // five columns
      int col = int(q.range(0, 4)); if (fn == 1) col = 1; if (fn == 2) col = 3; if (fn == 3) col = 4;
      levels::arr<double> a(5 * n); vector<Row> rows(n);
      for (int i = 0; i < n; ++i) for (int c = 0; c < 5; ++c) a[5 * i + c] = rows[i][c] = c == col ? keys[i] : 1000. * c + i;
      if (fn == 1) conviqt::hpsort_arrTheta(a); else if (fn == 2) conviqt::hpsort_arrTOD(a); else if (fn == 3) conviqt::hpsort_arrTime(a); else if (conviqt::hpsort_arr) conviqt::hpsort_arr(a, col); else return;
      if (!S.check(long(a.size()) == 5L * n, "sort-size", "the number of elements changed")) return;
      vector<char> seen(n, 0); vector<double> k(n);
      for (int i = 0; i < n; ++i) {
        k[i] = a[5 * i + col]; int other = col == 0 ? 1 : 0; double t = a[5 * i + other] - 1000. * other; long j = long(t);
        if (!S.check(t == double(j) && j >= 0 && j < n && !seen[j], "sort-rows", strf("row %d does not appear once", i))) return;
        seen[j] = 1;
        for (int c = 0; c < 5; ++c) if (!S.check(memcmp(&a[5 * i + c], &rows[j][c], 8) == 0, "sort-rows", strf("row %d column %d: %.17g, the row had %.17g", i, c, a[5 * i + c], rows[j][c]))) return;
      }
      S.check(!ascending(k), "sort-order", strf("element %d is smaller than the one before", ascending(k)));
      if (n && conviqt::hpsort_arr) { S.check(throws([&] { conviqt::hpsort_arr(a, 5); }) && throws([&] { conviqt::hpsort_arr(a, -1); }), "sort-column", "a column that does not exist was accepted"); }
    } else {
      levels::arr<double> a(n), b(n); levels::arr<long> l(n); vector<double> k(n); vector<char> seen(n, 0);
      for (int i = 0; i < n; ++i) { a[i] = keys[i]; b[i] = i; l[i] = i; }
      if (fn == 5) conviqt::hpsort_DL(a, l); else conviqt::hpsort_DDcm(a, b);
      for (int i = 0; i < n; ++i) {
        k[i] = a[i]; long j = fn == 5 ? l[i] : long(b[i]);
        if (!S.check(j >= 0 && j < n && !seen[j] && memcmp(&k[i], &keys[j], 8) == 0, "sort-companion", strf("element %d: companion %ld, key %.17g", i, j, k[i]))) return;
        seen[j] = 1;
      }
      S.check(!ascending(k), "sort-order", strf("element %d is smaller than the one before", ascending(k)));
      levels::arr<double> c(n + 1); levels::arr<long> m(n + 1); c.fill(0); m.fill(0);
      S.check(throws([&] { if (fn == 5) conviqt::hpsort_DL(a, m); else conviqt::hpsort_DDcm(a, c); }), "sort-sizes", "arrays of different size were accepted");
    }
  });
}
static AddPart p1("c19.sort", [] { return opt_tier ? 6000L : 800L; }, c19_sort);

// ------------------------------------------------------------------ text
template <class T> static T random_int(Rng &q) {
  typedef std::numeric_limits<T> L; double u = q.uni();
  if (u < 0.1) return L::max(); if (u < 0.2) return L::min(); if (u < 0.25) return 0;
  T v = T(q.u64()); return q.coin() ? v : T(v >> q.range(0, long(8 * sizeof(T)) - 1));
}
template <class T> static void integer_text(Sub &S, Rng &q, const char *name) {
  T v = random_int<T>(q); string t = levels::dataToString(v); std::ostringstream o; o << +v; T w = T(~v); levels::stringToData(t, w);
  S.check(t == o.str(), "integer-text", strf("%s: \"%s\", expected \"%s\"", name, t.c_str(), o.str().c_str()));
  S.check(w == v && levels::stringToData<T>("  " + t + " \t") == v, "integer-round-trip", strf("%s \"%s\"", name, t.c_str()));
  const char *bad[] = {"", " ", "x", "1x", "1 2", "--1", "1.5", "99999999999999999999999"}; string b = bad[q.range(0, 7)]; T keep;
  S.check(throws([&] { levels::stringToData(b, keep); }), "bad-number-accepted", strf("%s from \"%s\"", name, b.c_str()));
  S.count("conversions", 3);
}
template <class T, class U> static void float_text(Sub &S, Rng &q, const char *name) {
  T v;
  double u = q.uni();
  if (u < 0.4) { U b; do { b = U(q.u64()); memcpy(&v, &b, sizeof v); } while (!std::isfinite(v)); }
  else if (u < 0.6) v = T(q.range(-1000000, 1000000)) / T(1000); else if (u < 0.7) v = std::numeric_limits<T>::max(); else if (u < 0.75) v = std::numeric_limits<T>::min(); else if (u < 0.8) v = T(-0.); else v = T(q.gauss() * std::pow(10., q.uni(-30, 30)));
  string t = levels::dataToString(v); T w = 0;
  bool refused = throws([&] { levels::stringToData(t, w); });
  S.check(!refused && memcmp(&w, &v, sizeof v) == 0, "float-round-trip", strf("%s %.17g becomes \"%s\" and %.17g", name, double(v), t.c_str(), double(w)));
  const char *bad[] = {"", "  ", "abc", "1.0e", "1.5 2.5", "1,5", "e5", "1.0x"}; string b = bad[q.range(0, 7)];
  S.check(throws([&] { levels::stringToData(b, w); }), "bad-number-accepted", strf("%s from \"%s\"", name, b.c_str()));
  S.count("conversions", 2);
}
static string random_word(Rng &q, const char *alphabet, int lo, int hi) { string s; int n = int(q.range(lo, hi)), m = int(strlen(alphabet)); for (int i = 0; i < n; ++i) s += alphabet[q.range(0, m - 1)]; return s; }
static string strip(const string &s) { size_t a = 0, b = s.size(); while (a < b && (s[a] == ' ' || s[a] == '\t')) ++a; while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t')) --b; return s.substr(a, b - a); }
struct Quiet { int save; Quiet() { fflush(stderr); save = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(save, 2); close(save); } };
static string show(const std::map<string, string> &m) { string s; for (auto &x : m) s += "[" + x.first + "=" + x.second + "]"; return s; }

static void c19_text(long, Rng &g) {
  uint64_t sq = g.u64(); string what = strf("text operations, seed %llu", (unsigned long long)sq); string file = tmpfile_path("text");
  R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq);
    for (int k = 0; k < 12; ++k) {
      integer_text<signed char>(S, q, "signed char"); integer_text<unsigned char>(S, q, "unsigned char"); integer_text<short>(S, q, "short"); integer_text<unsigned short>(S, q, "unsigned short"); integer_text<int>(S, q, "int"); integer_text<unsigned int>(S, q, "unsigned int"); integer_text<long>(S, q, "long"); integer_text<unsigned long>(S, q, "unsigned long"); integer_text<long long>(S, q, "long long"); integer_text<unsigned long long>(S, q, "unsigned long long");
      float_text<float, uint32_t>(S, q, "float"); float_text<double, uint64_t>(S, q, "double"); { long double v = (ld(random_int<long>(q)) + q.uni()) * powl(10, q.uni(-300, 300)), w = 0; levels::stringToData(levels::dataToString(v), w); S.check(v == w, "float-round-trip", strf("long double %.25Lg becomes %.25Lg", v, w)); }
      { bool b = q.coin(); S.check(levels::stringToData<bool>(levels::dataToString(b)) == b, "bool-round-trip", ""); static const char *y[] = {"T", "t", "y", "Y", "true", ".true.", "TRUE", ".TRUE."}, *n[] = {"F", "f", "n", "N", "false", ".false.", "FALSE", ".FALSE."}; int i = int(q.range(0, 7)); S.check(levels::stringToData<bool>(y[i]) && !levels::stringToData<bool>(n[i]), "bool-text", y[i]); S.check(throws([&] { levels::stringToData<bool>(q.coin() ? "yes!" : ""); }), "bad-bool-accepted", ""); }
      { string s = random_word(q, "ab \t.=", 0, 12); S.check(levels::trim(s) == strip(s), "trim", "\"" + s + "\" gives \"" + levels::trim(s) + "\""); S.check(levels::dataToString(s) == strip(s) && levels::stringToData<string>(s) == strip(s), "string-conversion", s); }
      { // padded integers
        levels::int64 v = q.coin(0.3) ? random_int<long>(q) : q.range(-100000, 100000); int w = int(q.range(1, 22)); char b[64]; bool fits; string t; int n = snprintf(b, sizeof b, "%0*ld", w, long(v)); fits = n == w;
        bool threw = throws([&] { t = levels::intToString(v, levels::tsize(w)); });
        S.check(threw == !fits && (threw || t == b), "padded-integer", strf("%ld in %d characters: \"%s\", expected %s%s", long(v), w, threw ? "(refused)" : t.c_str(), fits ? b : "", fits ? "" : "a refusal"));
      }
      { string a = random_word(q, "aAbBzZ0_-", 0, 6), b = a; for (auto &c : b) if (q.coin(0.4)) c = char(isupper(c) ? ::tolower(c) : ::toupper(c)); bool same = q.coin(); if (!same) { if (b.empty() || q.coin(0.3)) b += 'q'; else b[q.range(0, long(b.size()) - 1)] = '#'; }
        S.check(levels::equal_nocase(a, b) == same, "equal-nocase", a + " / " + b); string l = levels::tolower(a), m = a; for (auto &c : m) c = char(::tolower(c)); S.check(l == m, "tolower", a); }
      { // splitting
        int n = int(q.range(0, 8)); vector<long> v; vector<string> w; string s = random_word(q, " \t", 0, 2); for (int i = 0; i < n; ++i) { long x = q.range(-1000, 1000); v.push_back(x); w.push_back(std::to_string(x)); s += std::to_string(x) + random_word(q, " \t\n", 1, 3); }
        vector<long> r; vector<string> t; vector<int> ri; vector<double> rd; vector<float> rf; levels::split(s, r); levels::split(s, t); levels::split(s, ri); levels::split(s, rd); levels::split(s, rf);
        S.check(r == v && t == w && ri == vector<int>(v.begin(), v.end()) && rd == vector<double>(v.begin(), v.end()) && rf == vector<float>(v.begin(), v.end()), "split", "\"" + s + "\"");
        S.check(throws([&] { vector<int> z; levels::split(s + " 3x", z); }), "bad-split-accepted", s);
        char d = ",:; "[q.range(0, 3)]; vector<string> tok; string joined; int m = int(q.range(1, 6)); for (int i = 0; i < m; ++i) { tok.push_back(random_word(q, "xy.|", i == m - 1 ? 1 : 0, 4)); joined += (i ? string(1, d) : "") + tok.back(); }
        vector<string> got(3, "old"); levels::tokenize(joined, d, got); S.check(got == tok, "tokenize", "\"" + joined + "\"");
        S.count("words", n + m);
      }
    }
    { // parameter files
      std::map<string, string> model, dict; dict["old"] = "entry"; string text; int n = int(q.range(0, 14)); vector<string> words;
      for (int i = 0; i < n; ++i) {
        string key = random_word(q, "abc_1", 1, 4), val = random_word(q, "xyz=/. ", 0, 10), sp = random_word(q, " \t", 0, 2), line; int kind = int(q.range(0, 9));
        if (kind == 0) line = "# " + key + "=" + val; else if (kind == 1) line = sp; else if (kind == 2) line = sp + "no separator"; else if (kind == 3) line = sp + "=" + val;
        else { line = sp + key + sp + "=" + sp + val; string v = val; if (kind == 4) { line += "# = comment"; } if (kind == 5) line += "\r"; model[key] = strip(v); }
        text += line + (i == n - 1 && q.coin(0.3) ? "" : "\n");
      }
      FILE *f = fopen(file.c_str(), "w"); fwrite(text.data(), 1, text.size(), f); fclose(f);
      { Quiet quiet; levels::parse_file(file, dict); }
      S.check(dict == model, "parameter-file", "file {" + text + "} gives " + show(dict) + ", expected " + show(model));
      std::istringstream is(text); string w; vector<string> wm, wg(2, "old"); while (is >> w) wm.push_back(w); levels::parse_words_from_file(file, wg); S.check(wg == wm, "words-from-file", text);
      { Quiet quiet; S.check(throws([&] { levels::parse_file(file + ".none", dict); }) && throws([&] { levels::parse_words_from_file(file + ".none", wg); }), "missing-file-accepted", ""); }
      unlink(file.c_str()); S.count("files");
    }
    for (int k = 0; k < 6; ++k) { // command lines
      vector<string> lead; std::map<string, string> model, dict; vector<string> args = {"program"}; int nl = int(q.range(0, 2)); bool bad = false;
      for (int i = 0; i < nl; ++i) { lead.push_back("lead" + std::to_string(i)); args.push_back(q.coin(0.15) ? "a=b" : random_word(q, "ab-", 1, 4)); model[lead.back()] = args.back(); }
      bool classic = q.coin(); int n = int(q.range(0, 5));
      for (int i = 0; i < n; ++i) {
        string key = random_word(q, "abc", 1, 3), val = random_word(q, "xyz0", 1, 4);
        if (classic) { int kind = int(q.range(0, 4)); args.push_back("-" + key); if (kind == 0) model[key] = "true"; else { if (kind == 1) val = "-" + std::to_string(q.range(0, 99)); if (kind == 2) val = "-.5"; if (kind == 3 && q.coin(0.3)) val = q.coin() ? "-" : ""; args.push_back(val); model[key] = val; } if (kind == 4 && q.coin(0.2)) { args.push_back(q.coin() ? "stray" : q.coin() ? "-" : "-7"); bad = true; } }
        else { if (q.coin(0.15)) args.push_back("  "); args.push_back(key + random_word(q, " ", 0, 1) + "=" + random_word(q, " ", 0, 1) + val + "=1"); model[key] = val + "=1"; if (q.coin(0.1)) args.push_back("=empty"); if (q.coin(0.1)) args.push_back("strange"); }
      }
      bool few = q.coin(0.1); if (few && nl) args.resize(size_t(q.range(1, nl))); else few = false;
      vector<const char *> av; for (auto &a : args) av.push_back(a.c_str()); dict["old"] = "entry"; string line; for (auto &a : args) line += "'" + a + "' ";
      Quiet quiet;
      bool threw = throws([&] { if (!nl && q.coin()) { classic ? levels::parse_cmdline_classic(int(av.size()), av.data(), dict) : levels::parse_cmdline_equalsign(int(av.size()), av.data(), dict); return; } if (classic) levels::parse_cmdline_classic(int(av.size()), av.data(), lead, dict); else levels::parse_cmdline_equalsign(int(av.size()), av.data(), lead, dict); });
      S.check(threw == (bad || few) && (threw || dict == model), "command-line", strf("%s %s: %s gives %s, expected %s", classic ? "classic" : "equalsign", line.c_str(), threw ? "refused" : "accepted", show(dict).c_str(), bad || few ? "a refusal" : show(model).c_str()));
      S.count("command_lines");
    }
  });
}
static AddPart p2("c19.text", [] { return opt_tier ? 3000L : 400L; }, c19_text);

// ------------------------------------------------------------------ containers
template <class A> static bool equal(const A &a, const vector<int> &v) { if (a.size() != v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (a[i] != v[i]) return false; return true; }
template <class A> static void one_dim(Sub &S, Rng &q, const char *name, bool external) {
  struct Obj { A a; vector<int> v; }; vector<Obj *> o; vector<int *> mem; for (int i = 0; i < 3; ++i) o.push_back(new Obj);
  int n = int(q.range(5, 40));
  for (int k = 0; k < n; ++k) {
    Obj &x = *o[q.range(0, 2)], &y = *o[q.range(0, 2)]; int op = int(q.range(0, 12)), sz = int(q.coin(0.2) ? 0 : q.range(1, 30));
    auto refill = [&](Obj &z) { z.v.resize(z.a.size()); for (size_t i = 0; i < z.v.size(); ++i) z.a[i] = z.v[i] = int(q.range(-99, 99)); };
    switch (op) {
      case 0: x.a.alloc(size_t(sz)); S.check(x.a.size() == size_t(sz), "array-size", name); refill(x); break;
      case 1: x.a.resize(size_t(sz)); S.check(x.a.size() == size_t(sz), "array-size", name); { size_t old = std::min(x.v.size(), size_t(sz)); x.v.resize(size_t(sz)); for (size_t i = old; i < x.v.size(); ++i) x.a[i] = x.v[i] = int(q.range(-99, 99)); } break;
      case 2: x.a = y.a; x.v = y.v; break;
      case 3: x.a.swap(y.a); std::swap(x.v, y.v); break;
      case 4: if (&x != &y) { x.a.transfer(y.a); x.v = y.v; y.v.clear(); } break;
      case 5: x.a.fill(7); x.v.assign(x.v.size(), 7); break;
      case 6: x.a.allocAndFill(size_t(sz), 5); x.v.assign(size_t(sz), 5); break;
      case 7: x.a.dealloc(); x.v.clear(); break;
      case 8: { A c(x.a); S.check(equal(c, x.v), "array-copy", name); if (!x.v.empty()) { c[0] = 12345; S.check(equal(x.a, x.v), "array-copy-shares", name); } break; }
      case 9: { vector<int> w(size_t(sz), 0); for (auto &e : w) e = int(q.range(0, 9)); x.a.copyFrom(w); x.v = w; break; }
      case 10: { vector<int> w(5, 1); x.a.copyTo(w); S.check(w == x.v, "array-copy-out", name); break; }
      case 11: { vector<int> w(size_t(sz), 3); for (auto &e : w) e = int(q.range(0, 9)); x.a.copyFromPtr(w.data(), w.size()); x.v = w; break; }
      default:
        x.a.sort(); std::sort(x.v.begin(), x.v.end());
        if (!x.v.empty()) { int lo, hi; x.a.minmax(lo, hi); S.check(lo == x.v.front() && hi == x.v.back(), "array-minmax", name); int t = x.v[q.range(0, long(x.v.size()) - 1)]; S.check(x.a.contains(t) && x.a.find(t) == size_t(std::find(x.v.begin(), x.v.end(), t) - x.v.begin()) && !x.a.contains(1 << 20) && throws([&] { x.a.find(1 << 20); }), "array-find", name); }
        else { int lo, hi; S.check(throws([&] { x.a.minmax(lo, hi); }), "array-minmax-empty", name); }
        S.check(x.a.contentsEqual(y.a) == (x.v == y.v), "array-equality", name);
    }
    for (auto *z : o) if (!S.check(equal(z->a, z->v), "array-contents", strf("%s after operation %d", name, op))) return;
    S.count("container_operations");
  }
  for (auto *z : o) delete z;
}
template <class A> static bool equal2(A &a, const vector<vector<int>> &v, size_t n2) { if (a.size1() != v.size() || a.size2() != n2 || a.size() != v.size() * n2) return false; for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < n2; ++j) if (a[i][j] != v[i][j]) return false; return true; }
template <class A, bool full> static void two_dim(Sub &S, Rng &q, const char *name) {
  struct Obj { A a; vector<vector<int>> v; size_t n2 = 0; }; Obj o[3];
  auto refill = [&](Obj &z, size_t n1, size_t n2) { z.v.assign(n1, vector<int>(n2)); z.n2 = n2; for (size_t i = 0; i < n1; ++i) for (size_t j = 0; j < n2; ++j) z.a[i][j] = z.v[i][j] = int(q.range(-99, 99)); };
  int n = int(q.range(5, 30));
  for (int k = 0; k < n; ++k) {
    Obj &x = o[q.range(0, 2)], &y = o[q.range(0, 2)]; int op = int(q.range(0, 6)); size_t n1 = size_t(q.coin(0.1) ? 0 : q.range(1, 9)), n2 = size_t(q.coin(0.1) ? 0 : q.range(1, 9));
    switch (op) {
      case 0: x.a.alloc(n1, n2); refill(x, n1, n2); break;
      case 1: x.a = y.a; x.v = y.v; x.n2 = y.n2; break;
      case 2: { A c(x.a); S.check(equal2(c, x.v, x.n2), "array-copy", name); if (x.v.size() && x.n2) { c[0][0] = 12345; S.check(equal2(x.a, x.v, x.n2), "array-copy-shares", name); } break; }
      case 3: x.a.fill(4); for (auto &r : x.v) r.assign(x.n2, 4); break;
      case 4: x.a.dealloc(); x.v.clear(); x.n2 = 0; break;
      default:
        if constexpr (full) {
          if (op == 5) { switch (q.range(0, 3)) { case 0: x.a.swap(y.a); std::swap(x.v, y.v); std::swap(x.n2, y.n2); break; case 1: x.a.fast_alloc(n1, n2); refill(x, n1, n2); break; case 2: x.a.scale(2); for (auto &r : x.v) for (auto &e : r) e = e * 2 % 100000; for (size_t i = 0; i < x.v.size(); ++i) for (size_t j = 0; j < x.n2; ++j) { x.a(i, j) %= 100000; } break; default: x.a.allocAndFill(n1, n2, 6); x.v.assign(n1, vector<int>(n2, 6)); x.n2 = n2; } }
          else { S.check(x.a.conformable(y.a) == (x.v.size() == y.v.size() && x.n2 == y.n2), "array-conformable", name); if (x.v.size() && x.n2) { int lo, hi, l = x.v[0][0], h = l; for (auto &r : x.v) for (int e : r) { l = std::min(l, e); h = std::max(h, e); } x.a.minmax(lo, hi); S.check(lo == l && hi == h, "array-minmax", name); } }
        }
    }
    for (auto &z : o) if (!S.check(equal2(z.a, z.v, z.n2), "array-contents", strf("%s after operation %d", name, op))) return;
    S.count("container_operations");
  }
}
static void three_dim(Sub &S, Rng &q) {
  struct Obj { levels::arr3<int> a; vector<int> v; size_t n[3] = {0, 0, 0}; }; Obj o[3];
  auto ok = [&](Obj &z) { if (z.a.size1() != z.n[0] || z.a.size2() != z.n[1] || z.a.size3() != z.n[2] || z.a.size() != z.v.size()) return false; size_t t = 0; for (size_t i = 0; i < z.n[0]; ++i) for (size_t j = 0; j < z.n[1]; ++j) for (size_t k = 0; k < z.n[2]; ++k) if (z.a(i, j, k) != z.v[t++]) return false; return true; };
  int n = int(q.range(5, 25));
  for (int k = 0; k < n; ++k) {
    Obj &x = o[q.range(0, 2)], &y = o[q.range(0, 2)];
    switch (q.range(0, 5)) {
      case 0: { size_t d[3]; for (auto &e : d) e = size_t(q.coin(0.1) ? 0 : q.range(1, 5)); x.a.alloc(d[0], d[1], d[2]); for (int i = 0; i < 3; ++i) x.n[i] = d[i]; x.v.assign(d[0] * d[1] * d[2], 0); size_t t = 0; for (size_t i = 0; i < d[0]; ++i) for (size_t j = 0; j < d[1]; ++j) for (size_t l = 0; l < d[2]; ++l) x.a(i, j, l) = x.v[t++] = int(q.range(-99, 99)); break; }
      case 1: x.a = y.a; x.v = y.v; std::copy(y.n, y.n + 3, x.n); break;
      case 2: x.a.swap(y.a); std::swap(x.v, y.v); std::swap(x.n, y.n); break;
      case 3: { levels::arr3<int> c(x.a); if (x.v.size()) { c(0, 0, 0) = 4444; } S.check(c.size() == x.v.size() && c.conformable(x.a), "array-copy", "arr3"); break; }
      case 4: x.a.fill(3); x.v.assign(x.v.size(), 3); break;
      default: x.a.dealloc(); x.v.clear(); x.n[0] = x.n[1] = x.n[2] = 0;
    }
    for (auto &z : o) if (!S.check(ok(z), "array-contents", "arr3")) return;
    S.count("container_operations");
  }
}
static void c19_containers(long idx, Rng &g) {
  uint64_t sq = g.u64(); string what = strf("container operations, seed %llu", (unsigned long long)sq);
  R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq);
    for (int k = 0; k < 4; ++k) {
      one_dim<levels::arr<int>>(S, q, "arr", true); one_dim<levels::arr_align<int, 64>>(S, q, "arr_align", false);
      two_dim<levels::arr2<int>, true>(S, q, "arr2"); two_dim<levels::arr2_align<int, 32>, true>(S, q, "arr2_align"); two_dim<levels::arr2b<int>, false>(S, q, "arr2b"); three_dim(S, q);
      // memory of the caller is used, not freed
      vector<int> m(size_t(q.range(1, 20)), 3); { levels::arr<int> a(m.data(), m.size()); a[0] = 9; S.check(m[0] == 9 && a.size() == m.size(), "array-view", "arr"); levels::arr<int> b(a); b[0] = 1; S.check(m[0] == 9, "array-copy-shares", "arr"); if (q.coin()) { a.resize(m.size() + 2); a[0] = 5; S.check(m[0] == 9, "array-view", "arr after resize"); } else if (q.coin()) { levels::arr<int> c; c.transfer(a); S.check(a.size() == 0 && c.size() == m.size() && c[0] == 9, "array-view", "arr after transfer"); } }
      S.check(m[0] == 9, "array-view", "arr");
      { levels::arr_align<double, 64> a(size_t(q.range(1, 50))); S.check(reinterpret_cast<uintptr_t>(a.begin()) % 64 == 0, "array-alignment", ""); }
    }
  });
}
static AddPart p3("c19.containers", [] { return opt_tier ? 3000L : 400L; }, c19_containers);

// ------------------------------------------------------------------ rotations
using levels::rotmatrix; using levels::vec3;
typedef std::array<std::array<ld, 3>, 3> M3;
static M3 mul(const M3 &a, const M3 &b) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j]; } return r; }
static M3 Rz(ld a) { return {{{cosl(a), -sinl(a), 0}, {sinl(a), cosl(a), 0}, {0, 0, 1}}}; }
static M3 Ry(ld a) { return {{{cosl(a), 0, sinl(a)}, {0, 1, 0}, {-sinl(a), 0, cosl(a)}}}; }
static M3 about(const vec3 &v, ld a) { // Rodrigues
  ld n = sqrtl(ld(v.x) * v.x + ld(v.y) * v.y + ld(v.z) * v.z), x = v.x / n, y = v.y / n, z = v.z / n; M3 K = {{{0, -z, y}, {z, 0, -x}, {-y, x, 0}}}, K2 = mul(K, K), r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = (i == j) + sinl(a) * K[i][j] + (1 - cosl(a)) * K2[i][j]; return r; }
static double dist(const rotmatrix &a, const M3 &b) { double d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double e = std::fabs(double(a.entry[i][j] - b[i][j])); if (!(e <= d)) d = e; } return d; }
static M3 of(const rotmatrix &a) { M3 r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a.entry[i][j]; return r; }
static double pick_angle(Rng &q) { double u = q.uni(); if (u < 0.4) return q.uni(-PId, PId); if (u < 0.5) return q.range(-4, 4) * PId / 2; if (u < 0.65) return PId * q.range(-2, 2) + (q.coin() ? 1 : -1) * std::pow(10., q.uni(-18, -1)); if (u < 0.8) return std::pow(10., q.uni(-18, -2)) * (q.coin() ? 1 : -1); return q.uni(-30, 30); }
static vec3 pick_axis(Rng &q) { double u = q.uni(); vec3 v; if (u < 0.2) { v = vec3(0, 0, 0); double s = q.coin() ? 1 : -1; switch (q.range(0, 2)) { case 0: v.x = s; break; case 1: v.y = s; break; default: v.z = s; } return v; } if (u < 0.4) { double t = q.uni(0, 7); v = vec3(cos(t), sin(t), 0); return q.coin() ? vec3(v.x, 0, v.y) : vec3(0, v.x, v.y); } v = vec3(q.gauss(), q.gauss(), q.gauss() * (q.coin(0.2) ? 1e-9 : 1)); v.Normalize(); return v; }
static void c19_rotation(long, Rng &g) {
  uint64_t sq = g.u64(); string what = strf("rotations, seed %llu", (unsigned long long)sq);
  R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq);
    for (int k = 0; k < 40; ++k) {
      double a = pick_angle(q), b = pick_angle(q), c = pick_angle(q); vec3 ax = pick_axis(q); rotmatrix m, e; string in = strf("axis (%.17g,%.17g,%.17g) angles %.17g %.17g %.17g", ax.x, ax.y, ax.z, a, b, c);
      m.Make_Axis_Rotation_Transform(ax, a); S.check(dist(m, about(ax, a)) <= 4e-15, "axis-rotation", in);
      e.Make_CPAC_Euler_Matrix(a, b, c); S.check(dist(e, mul(mul(Rz(a), Ry(b)), Rz(c))) <= 4e-15, "euler-rotation", in);
      const rotmatrix &r = q.coin() ? m : e; M3 rr = of(r);
      { std::ostringstream o; o << r; std::istringstream i(o.str()); bool good = true; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) { double v; good = (i >> v) && std::fabs(v - r.entry[x][y]) <= 6e-6 && good; } S.check(good, "matrix-print", in + ": " + o.str()); }
      if (q.coin(0.15)) { rotmatrix t = r; t.Transpose(); rotmatrix p = r * t; S.check(dist(p, M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}) <= 4e-15, "transpose", in); const_cast<rotmatrix &>(r) = p; rr = of(r); }
      { vec3 x; double t; r.toAxisAngle(x, t); double len = x.Length(); S.check(std::fabs(len - 1) <= 1e-12, "axis-length", in + strf(": length %.17g", len)); S.check(dist(r, about(x, t)) <= 2e-14, "axis-angle", in + strf(": axis (%.17g,%.17g,%.17g) angle %.17g", x.x, x.y, x.z, t)); S.maxi("axis_angle_error", dist(r, about(x, t))); }
      { double x, y, z; r.Extract_CPAC_Euler_Angles(x, y, z); double sb = std::hypot(r.entry[0][2], r.entry[1][2]); M3 back = mul(mul(Rz(x), Ry(y)), Rz(z)); S.check(dist(r, back) <= (sb <= 1e-6 ? 2e-6 : 1e-14 + 4e-16 / sb), "euler-angles", in + strf(": %.17g %.17g %.17g", x, y, z)); S.check(sb > 1e-6 || x == 0, "euler-ambiguity", in); S.check(y >= 0 && y <= PId, "euler-range", in); }
      { rotmatrix p = m * e, p2, p3, t = m; matmult(m, e, p2); t.Transpose(); TransposeTimes(t, e, p3); M3 w = mul(of(m), of(e)); S.check(dist(p, w) <= 1e-15 && dist(p2, w) <= 1e-15 && dist(p3, w) <= 1e-15, "matrix-product", in); M3 tt = of(t), mm = of(m); bool ok = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ok = ok && tt[i][j] == mm[j][i]; S.check(ok, "transpose", in);
        vec3 v(q.gauss(), q.gauss(), q.gauss()), u = p.Transform(v), u2; p.Transform(v, u2); ld x[3] = {v.x, v.y, v.z}; double l = v.Length(); ok = u.x == u2.x && u.y == u2.y && u.z == u2.z; double uu[3] = {u.x, u.y, u.z}; for (int i = 0; i < 3; ++i) { ld s = 0; for (int j = 0; j < 3; ++j) s += w[i][j] * x[j]; ok = ok && std::fabs(double(uu[i] - s)) <= 4e-15 * l; } S.check(ok && std::fabs(u.Length() - l) <= 1e-14 * l, "transform", in);
        vec3 cr = crossprod(v, u); S.check(std::fabs(dotprod(cr, v)) <= 1e-14 * l * l * l && std::fabs(cr.SquaredLength() + dotprod(v, u) * dotprod(v, u) - l * l * l * l) <= 1e-14 * l * l * l * l, "vector-products", in);
        rotmatrix col(vec3(1, 2, 3), vec3(4, 5, 6), vec3(7, 8, 9)); S.check(dist(col, M3{{{1, 4, 7}, {2, 5, 8}, {3, 6, 9}}}) == 0, "columns", ""); col.SetToIdentity(); S.check(dist(col, M3{{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}) == 0, "identity", ""); col.SetToZero(); S.check(dist(col, M3{{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}}) == 0, "zero", "");
        vec3 zp; double zz = q.uni(-1, 1); zp.set_z_phi(zz, a); S.check(std::fabs(zp.Length() - 1) < 1e-14 && zp.z == zz && std::fabs(zp.x - std::sqrt(1 - zz * zz) * std::cos(a)) < 2e-14, "z-phi", in); }
      S.count("rotations");
    }
  });
}
static AddPart p4("c19.rotation", [] { return opt_tier ? 6000L : 600L; }, c19_rotation);

// ------------------------------------------------------------------ numbers
template <class I> static void int_functions(Sub &S, Rng &q, const char *name) {
  typedef unsigned __int128 big;
  I v; do v = random_int<I>(q); while (v < 0);
  if (q.coin(0.4)) { uint64_t r = uint64_t(std::sqrt(double(std::numeric_limits<I>::max()))), b = q.coin(0.3) ? r - q.range(0, 3) : uint64_t(std::pow(double(r), q.uni())); if (sizeof(I) == 8 && b > r) b = r; big sqv = big(b) * b + big(q.range(-1, 1)); if (sqv <= big(std::numeric_limits<I>::max()) && b > 0) v = I(sqv); }
  uint64_t r = levels::isqrt(v); S.check(big(r) * r <= big(v) && big(r + 1) * (r + 1) > big(v), "isqrt", strf("%s %llu gives %llu", name, (unsigned long long)v, (unsigned long long)r));
  if (v > 0) { int l = levels::ilog2(v), w = 63 - __builtin_clzll((unsigned long long)v); S.check(l == w, "ilog2", strf("%s %llu gives %d", name, (unsigned long long)v, l)); }
  S.count("numbers", 2);
}
template <class A, class B> static void cast_check(Sub &S, Rng &q, const char *name) {
  B v = random_int<B>(q); __int128 w = v; bool fits = w >= __int128(std::numeric_limits<A>::min()) && w <= __int128(std::numeric_limits<A>::max()); A r = 0; bool threw = throws([&] { r = levels::safe_cast<A>(v); });
  S.check(threw == !fits && (threw || __int128(r) == w), "safe-cast", strf("%s %lld", name, (long long)v)); S.count("numbers");
}
// 3j symbols from the explicit sum over factorials, in quadruple precision; arguments doubled
static ld three_j(int j1, int j2, int j3, int m1, int m2, int m3) {
  typedef __float128 qd; static vector<qd> f; if (f.empty()) { f.resize(400); f[0] = 1; for (int i = 1; i < 400; ++i) f[i] = f[i - 1] * i; }
  if (m1 + m2 + m3 || abs(m1) > j1 || abs(m2) > j2 || abs(m3) > j3 || j3 > j1 + j2 || j3 < abs(j1 - j2) || ((j1 + j2 + j3) & 1)) return 0;
  auto h = [](int x) { return x / 2; };
  qd pre = f[h(j1 + j2 - j3)] / f[h(j1 + j2 + j3) + 1] * f[h(j1 - j2 + j3)] * f[h(-j1 + j2 + j3)], p2 = f[h(j1 + m1)] * f[h(j1 - m1)]; qd p3 = f[h(j2 + m2)] * f[h(j2 - m2)] * f[h(j3 + m3)] * f[h(j3 - m3)];
  int lo = std::max(0, std::max(h(j2 - j3 - m1), h(j1 - j3 + m2))), hi = std::min(h(j1 + j2 - j3), std::min(h(j1 - m1), h(j2 + m2))); qd s = 0;
  for (int t = lo; t <= hi; ++t) { qd d = f[t] * f[h(j1 + j2 - j3) - t] * f[h(j1 - m1) - t] * f[h(j2 + m2) - t] * f[h(j3 - j2 + m1) + t] * f[h(j3 - j1 - m2) + t]; s += (t & 1 ? -1 : 1) / d; }
  ld r = sqrtl(ld(pre)) * sqrtl(ld(p2)) ; r = r * sqrtl(ld(p3)) * ld(s); return (h(j1 - j2 - m3) & 1) ? -r : r;
}
static void c19_numbers(long, Rng &g) {
  uint64_t sq = g.u64(); string what = strf("numbers, seed %llu", (unsigned long long)sq);
  R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq);
    for (int k = 0; k < 30; ++k) {
      int_functions<int>(S, q, "int"); int_functions<unsigned int>(S, q, "unsigned"); int_functions<long>(S, q, "long"); int_functions<unsigned long>(S, q, "unsigned long");
      cast_check<int, long>(S, q, "long to int"); cast_check<unsigned, long>(S, q, "long to unsigned"); cast_check<int, unsigned long>(S, q, "unsigned long to int"); cast_check<long, unsigned long>(S, q, "unsigned long to long"); cast_check<unsigned long, long>(S, q, "long to unsigned long"); cast_check<short, int>(S, q, "int to short"); cast_check<unsigned short, unsigned>(S, q, "unsigned to unsigned short");
      { double v = q.coin(0.2) ? q.range(-5, 5) * 2 * PId : q.coin(0.2) ? -std::pow(10., q.uni(-320, -1)) : q.gauss() * std::pow(10., q.uni(-3, 8)), w = q.coin() ? 2 * PId : std::fabs(q.gauss()) + 1e-3, r = levels::fmodulo(v, w); double t = std::fabs(std::remainder(v - r, w)); S.check(r >= 0 && r < w && t <= 4e-16 * (std::fabs(v) + w), "fmodulo", strf("%.17g modulo %.17g gives %.17g", v, w, r)); }
      { int v = int(q.range(-1000, 1000)), w = int(q.range(1, 50)), r = levels::imodulo(v, w); S.check(r >= 0 && r < w && (v - r) % w == 0, "imodulo", strf("%d modulo %d gives %d", v, w, r)); }
      { double v = q.uni(-1e6, 1e6); S.check(levels::ifloor<long>(v) == long(std::floor(v)), "ifloor", strf("%.17g", v)); long t = levels::nearest<long>(v); S.check(std::fabs(double(t) - v) <= 0.5, "nearest", strf("%.17g gives %ld", v, t)); int e = int(q.range(-9, 9)); S.check(levels::xpow(e, v) == (e % 2 ? -v : v) && levels::sign(v) == (v >= 0 ? 1 : -1), "sign", ""); double y = q.coin(0.2) ? 0 : q.gauss(), x = q.coin(0.2) ? 0 : q.gauss(); S.check(levels::safe_atan2(y, x) == (x == 0 && y == 0 ? 0 : std::atan2(y, x)), "safe-atan2", ""); }
      { int n = int(q.range(2, 12)); vector<double> a; double t = q.gauss(); for (int i = 0; i < n; ++i) { a.push_back(t); t += q.uni(0.01, 1); } double v = q.coin(0.3) ? a[q.range(0, n - 1)] : q.uni(a[0] - 1, t); levels::tsize i; double f; levels::interpol_helper(a.begin(), a.end(), v, i, f);
        S.check(i + 1 < size_t(n) && std::fabs(a[i] + f * (a[i + 1] - a[i]) - v) < 1e-11 && (v < a[0] ? i == 0 && f < 0 : v > a[n - 1] ? int(i) == n - 2 && f > 1 : f >= 0 && f <= 1), "interpolation", strf("%.17g in %d values: index %zu fraction %.17g", v, n, size_t(i), f)); }
      { double a = q.gauss(), e = std::fabs(q.gauss()) * 0.1, b = a * (1 + q.uni(-0.2, 0.2)); S.check(levels::approx(a, b, e) == (std::fabs(a - b) <= e * std::fabs(b)) && levels::abs_approx(a, b, e) == (std::fabs(a - b) <= e), "approx", ""); }
      // 3j symbols
      { int h = q.coin(0.3), j2 = int(q.range(0, q.coin(0.8) ? 24 : 120)), j3 = int(q.range(0, q.coin(0.8) ? 24 : 120)); (void)h; int m2 = int(-j2 + 2 * q.range(0, j2)), m3 = int(-j3 + 2 * q.range(0, j3)), m1 = -m2 - m3; if (q.coin(0.1)) { m2 = m3 = m1 = 0; if (j2 & 1) ++j2; if (j3 & 1) ++j3; }
        int lo = std::max(abs(j2 - j3), abs(m1)), n = (j2 + j3 - lo) / 2 + 1; vector<double> r(size_t(n) + 2, 777.); wrec3jj(j2 / 2., j3 / 2., m2 / 2., m3 / 2., r.data(), n);
        for (int i = 0; i < n; ++i) { ld w = three_j(lo + 2 * i, j2, j3, m1, m2, m3); S.maxi("three_j_error", std::fabs(double(r[i] - w))); if (!S.check(std::fabs(double(r[i] - w)) <= 1e-11, "three-j", strf("2j=(%d,%d,%d) 2m=(%d,%d,%d): %.17g, expected %.17Lg", lo + 2 * i, j2, j3, m1, m2, m3, r[i], w))) break; }
        S.check(r[n] == 777. && r[n + 1] == 777., "three-j-bounds", "wrote beyond the result"); S.count("three_j_symbols", n); }
    }
    { // the generator against the published algorithm (Marsaglia's xor128 with the documented seeding)
      unsigned s[4]; for (auto &x : s) x = q.coin(0.2) ? 0 : unsigned(q.u64()); levels::planck_rng a(s[0], s[1], s[2], s[3]); unsigned def[4] = {123456789, 362436069, 521288629, 88675123}, x[4];
      for (int i = 0; i < 4; ++i) { x[i] = s[i] ? s[i] : def[i]; for (int t = 0; t < 9; ++t) { x[i] ^= x[i] << 13; x[i] ^= x[i] >> 17; x[i] ^= x[i] << 5; } }
      auto next = [&] { unsigned t = x[0] ^ (x[0] << 11); x[0] = x[1]; x[1] = x[2]; x[2] = x[3]; return x[3] = (x[3] ^ (x[3] >> 19)) ^ (t ^ (t >> 8)); }; for (int i = 0; i < 16; ++i) next();
      double gs = 0; bool have = false, ok = true; int n = int(q.range(5, 200));
      for (int i = 0; i < n && ok; ++i) switch (q.range(0, 3)) {
        case 0: ok = a.int_rand_uni() == next(); break;
        case 1: { double u = a.rand_uni(); ok = u == next() / 4294967296. && u >= 0 && u < 1; break; }
        case 2: { double u = next() / 4294967296.; ok = a.rand_exp() == -std::log(u == 0 ? 1. : u); break; }
        default: { double w; if (have) { w = gs; have = false; } else { double v1, v2, r; do { v1 = 2 * (next() / 4294967296.) - 1; v2 = 2 * (next() / 4294967296.) - 1; r = v1 * v1 + v2 * v2; } while (r >= 1 || r == 0); double f = std::sqrt(-2 * std::log(r) / r); gs = v1 * f; have = true; w = v2 * f; } ok = std::fabs(a.rand_gauss() - w) <= 1e-14 * std::fabs(w); }
      }
      S.check(ok, "random-sequence", "the sequence differs from the published generator"); S.count("random_numbers", n);
      levels::planck_rng b(7, 8, 9, 10), c; c.rand_gauss(); c.seed(7, 8, 9, 10); bool same = true; for (int i = 0; i < 20; ++i) same = same && b.rand_gauss() == c.rand_gauss(); S.check(same, "random-seed", "seeding again does not restart the sequence");
    }
  });
}
static AddPart p5("c19.numbers", [] { return opt_tier ? 3000L : 400L; }, c19_numbers);
