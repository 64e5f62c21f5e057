// Tables, keywords and images through the FITS handle (C17): random histories on one file against a model, the file
// then examined with CFITSIO alone and read back.
#include "sub.h"
#include <fcntl.h>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <fitsio.h>
#include "ls_fitshandle.h"
#include "ls_arr.h"
using namespace levels; using std::string; using std::vector;
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
namespace {
struct Quiet { int save; Quiet() { fflush(stderr); save = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(n); } ~Quiet() { dup2(save, 2); close(save); } };
struct Cell { bool def = false; uint64_t bits = 0; string s; };
struct Column { string name, unit; int64 rep; PDT type; vector<Cell> v; };
struct Key { string name; PDT type; uint64_t bits; string s, com; };
struct Hdu { int kind; vector<Column> cols; int64 nrows = 0; string ext; PDT itype; vector<int64> axes; vector<uint64_t> pix; vector<char> def; bool ready() const { return std::find(def.begin(), def.end(), 0) == def.end(); } vector<Key> keys; vector<string> comments; bool named() const { return kind == 1 || kind == 2; } int64 npix() const { int64 n = axes.empty() ? 0 : 1; for (auto a : axes) n *= a; return n; } }; // kind 0 empty, 1 binary, 2 ASCII, 3 image
template <class F> void typed(PDT t, F f) { switch (t) { case LEVELS_BOOL: f(bool()); break; case LEVELS_INT8: f(int8()); break; case LEVELS_UINT8: f(uint8()); break; case LEVELS_INT16: f(int16()); break; case LEVELS_INT32: f(int32()); break; case LEVELS_INT64: f(int64()); break; case LEVELS_FLOAT32: f(float32()); break; default: f(float64()); } }
template <class T> T cell_get(uint64_t b) { T t; memcpy(&t, &b, sizeof t); return t; }
template <class T> uint64_t cell_put(T t) { uint64_t b = 0; memcpy(&b, &t, sizeof t); return b; }
ld cell_value(PDT t, uint64_t b) { ld v = 0; typed(t, [&](auto x) { v = ld(cell_get<decltype(x)>(b)); }); return v; }
uint64_t random_cell(Rng &q, PDT t, bool ascii) {
  uint64_t b = 0;
  typed(t, [&](auto x) {
    typedef decltype(x) T; T v;
    if (t == LEVELS_BOOL) v = T(q.coin());
    else if (std::numeric_limits<T>::is_integer) { v = q.coin(0.1) ? std::numeric_limits<T>::max() : q.coin(0.1) ? std::numeric_limits<T>::min() : T(q.u64() >> q.range(0, 63)); if (ascii && t == LEVELS_INT64) v = T(int64(v) / 4096); }
    else { v = T(q.gauss() * std::pow(10., t == LEVELS_FLOAT32 ? q.uni(-30, 30) : ascii ? q.uni(-90, 90) : q.uni(-280, 280))); if (!ascii) { if (q.coin(0.03)) v = T(NAN); if (q.coin(0.03)) v = T(INFINITY); if (q.coin(0.03)) v = T(-0.); } }
    b = cell_put(v);
  });
  return b;
}
string text(Rng &q, int lo, int hi, const char *al = "abcXYZ019 _-+'/&\"=.") { string s; int n = int(q.range(lo, hi)), m = int(strlen(al)); for (int i = 0; i < n; ++i) s += al[q.range(0, m - 1)]; while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
string strip(const string &s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == string::npos ? "" : s.substr(a, b - a + 1); }
string upper(string s) { for (auto &c : s) c = char(toupper(c)); return s; }
bool cell_same(PDT t, uint64_t a, uint64_t b, bool ascii) { // the same value
  if (t == LEVELS_BOOL) return cell_get<bool>(a) == cell_get<bool>(b);
  if (t == LEVELS_FLOAT32 || t == LEVELS_FLOAT64) { ld x = cell_value(t, a), y = cell_value(t, b); if (ascii) return fabsl(x - y) <= fabsl(x) * (t == LEVELS_FLOAT32 ? 1e-6L : 3e-15L); if (std::isnan(x)) return std::isnan(y); }
  return a == b;
}
const char *mode_name[] = {"empty", "binary table", "ASCII table", "image"};
struct World {
  Sub &S; Rng &q; string what, file; fitshandle h; vector<Hdu> hd; int cur = 0; bool writable = true;
  World(Sub &s, Rng &r, const string &w, const string &f) : S(s), q(r), what(w), file(f) {}
  Hdu &H() { return hd[cur]; }
  string op = "none"; string at(const char *op) { return strf("%s in HDU %d (%s) of %zu; ", op, cur + 1, mode_name[H().kind], hd.size()) + what; }
  // ---- structure
  void structure(const char *op) {
    Hdu &x = H(); S.count("structure_checks"); if (!S.check(h.num_hdus() == int(hd.size()), "hdu-count", at(op) + strf(" %d HDUs", h.num_hdus()))) return;
    if (x.named()) {
      int n = int(x.cols.size()); if (!S.check(h.ncols() == n && h.nrows() == x.nrows, "table-shape", at(op) + strf(" %d columns, %ld rows, expected %d, %ld", h.ncols(), long(h.nrows()), n, long(x.nrows)))) return;
      for (int i = 1; i <= n; ++i) { Column &c = x.cols[i - 1]; PDT want = c.type == LEVELS_UINT8 ? LEVELS_INT8 : c.type; bool ok = h.colname(i) == c.name && h.colunit(i) == c.unit && h.repcount(i) == c.rep && h.nelems(i) == (c.type == LEVELS_STRING ? x.nrows : x.nrows * c.rep) && (x.kind == 2 || h.coltype(i) == want); S.check(ok, "column-structure", at(op) + strf(" column %d: name %s unit %s repetition %ld elements %ld type %d, expected %s %s %ld type %d", i, h.colname(i).c_str(), h.colunit(i).c_str(), long(h.repcount(i)), long(h.nelems(i)), int(h.coltype(i)), c.name.c_str(), c.unit.c_str(), long(c.rep), int(want))); int64 e = h.efficientChunkSize(i); S.check(e >= 1, "chunk-size", at(op) + strf(" %ld", long(e))); }
    } else if (x.kind == 3) S.check(h.axes() == x.axes, "image-axes", at(op));
    else S.check(h.axes().empty(), "image-axes", at(op));
    refuse_structure();
  }
  void refuse_structure() { // questions that do not fit the HDU
    Hdu &x = H(); Quiet quiet; int n = int(x.cols.size()), bad = q.coin() ? 0 : q.coin() ? n + 1 : -int(q.range(1, 9));
    S.check(throws([&] { switch (q.range(0, 5)) { case 0: h.colname(bad); break; case 1: h.colunit(bad); break; case 2: h.repcount(bad); break; case 3: h.coltype(bad); break; case 4: h.nelems(bad); break; default: h.efficientChunkSize(bad); } }), "bad-column-accepted", at("query") + strf(" column %d", bad));
    if (x.named()) S.check(throws([&] { h.axes(); }), "axes-of-table-accepted", at("axes")); else S.check(throws([&] { q.coin() ? (void)h.ncols() : (void)h.nrows(); }), "table-shape-of-image-accepted", at("ncols"));
    S.count("refusals", 2);
  }
  // ---- creating
  void insert() {
    Hdu x; x.kind = int(q.coin(0.6) ? 1 : q.coin() ? 2 : 3); x.itype = LEVELS_FLOAT64;
    if (x.kind == 3) {
      int nd = int(q.range(1, 3)); x.itype = q.coin() ? LEVELS_FLOAT32 : LEVELS_FLOAT64; for (int i = 0; i < nd; ++i) x.axes.push_back(q.range(1, nd == 1 ? 200 : 12)); x.pix.assign(x.npix(), 0); x.def.assign(x.npix(), 0);
      if (nd == 2 && q.coin()) { x.def.assign(x.npix(), 1); bool f = q.coin(); for (auto &p : x.pix) { float v = float(q.gauss()); p = x.itype == LEVELS_FLOAT32 ? cell_put(v) : cell_put(double(v)); } auto val = [&](int64 i) { return cell_value(x.itype, x.pix[i]); };
        if (f) { arr2<float> a(x.axes[0], x.axes[1]); for (int64 i = 0; i < x.npix(); ++i) a[i / x.axes[1]][i % x.axes[1]] = float(val(i)); h.insert_image(x.itype, a); } else { arr2<double> a(x.axes[0], x.axes[1]); for (int64 i = 0; i < x.npix(); ++i) a[i / x.axes[1]][i % x.axes[1]] = double(val(i)); h.insert_image(x.itype, a); } }
      else { h.insert_image(x.itype, x.axes); }
    } else {
      int n = int(q.range(1, 7)); vector<fitscolumn> fc; static const PDT bt[] = {LEVELS_BOOL, LEVELS_INT8, LEVELS_UINT8, LEVELS_INT16, LEVELS_INT32, LEVELS_INT64, LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_STRING};
      for (int i = 0; i < n; ++i) { Column c; c.name = strf("C%d", i) + text(q, 0, q.coin(0.2) ? 60 : 8, "abcXY_019"); c.unit = text(q, 0, q.coin(0.1) ? 66 : 6, "abcK/2 "); if (q.coin(0.05)) c.name += string(68 - c.name.size(), 'n'); if (q.coin(0.05)) c.unit = string(68, 'u'); while (!c.unit.empty() && c.unit[0] == ' ') c.unit.erase(0, 1); c.type = bt[x.kind == 2 ? q.range(1, 8) : q.range(0, 8)]; c.rep = c.type == LEVELS_STRING ? q.range(1, 30) : x.kind == 2 || q.coin(0.4) ? 1 : q.coin(0.9) ? q.range(2, 12) : q.range(100, 1500); x.cols.push_back(c); fc.push_back(fitscolumn(c.name, c.unit, c.rep, c.type)); S.check(fc.back().name() == c.name && fc.back().unit() == c.unit && fc.back().repcount() == c.rep && fc.back().type() == c.type, "column-object", what); }
      x.ext = q.coin(0.3) ? "xtension" : "E" + text(q, 0, 12, "abcX_0");
      if (q.coin(0.1)) { // what cannot be created
        Quiet quiet; vector<fitscolumn> bad = fc; bool asc = x.kind == 2; switch (q.range(0, asc ? 3 : 2)) { case 0: bad.push_back(fitscolumn("bad", "u", 1, q.coin() ? LEVELS_UINT16 : LEVELS_UINT64)); break; case 1: bad.push_back(fitscolumn(string(69 + q.range(0, 300), 'n'), "u", 1, LEVELS_INT32)); break; case 2: bad.push_back(fitscolumn("n", string(69 + q.range(0, 300), 'u'), 1, LEVELS_INT32)); break; default: bad.push_back(fitscolumn("n", "u", 2, LEVELS_INT32)); }
        S.check(throws([&] { asc ? h.insert_asctab(bad, x.ext) : h.insert_bintab(bad, x.ext); }), "bad-column-description-accepted", at("insert")); S.count("refusals");
      }
      if (x.kind == 1) h.insert_bintab(fc, x.ext); else h.insert_asctab(fc, x.ext);
    }
    hd.insert(hd.begin() + cur + 1, x); ++cur; S.count("hdus_created"); structure("after insertion");
  }
  // ---- columns
  void write_piece() {
    Hdu &x = H(); if (!x.named()) return; int ci = int(q.range(0, long(x.cols.size()) - 1)); Column &c = x.cols[ci]; int64 per = c.type == LEVELS_STRING ? 1 : c.rep, have = x.nrows * per, off = q.coin(0.5) ? (have ? q.range(0, have - 1) : 0) : q.coin(0.7) ? have : have + q.range(0, 3 * per), num = q.coin(0.1) ? 0 : q.coin(0.8) ? q.range(1, 3 * per + 5) : q.range(1, 400); bool single = num == 1 && q.coin();
    op = strf("write %ld at %ld of column %d type %d repetition %ld rows %ld", long(num), long(off), ci + 1, int(c.type), long(c.rep), long(x.nrows)); if (int64(c.v.size()) < off + num) c.v.resize(off + num);
    if (c.type == LEVELS_STRING) { arr<string> d(num); for (int64 i = 0; i < num; ++i) { d[i] = text(q, 0, int(c.rep), "abcXYZ 019'"); c.v[off + i].def = true; c.v[off + i].s = d[i]; } if (single) h.write_column(ci + 1, d[0], off); else h.write_column(ci + 1, d, off); }
    else typed(c.type, [&](auto t) { typedef decltype(t) T; arr<T> d(num); for (int64 i = 0; i < num; ++i) { uint64_t b = random_cell(q, c.type, x.kind == 2); c.v[off + i].def = true; c.v[off + i].bits = b; d[i] = cell_get<T>(b); } if (single) h.write_column(ci + 1, d[0], off); else if (q.coin()) h.write_column(ci + 1, d, off); else h.write_column_raw(ci + 1, num ? &d[0] : (T *)0, num, off); });
    if (num) x.nrows = std::max(x.nrows, (off + num + per - 1) / per); S.count("pieces_written"); S.count("elements_written", double(num));
    S.check(h.nrows() == x.nrows, "row-count", at("write") + strf(" of %ld elements at %ld of column %d (repetition %ld): %ld rows, expected %ld", long(num), long(off), ci + 1, long(c.rep), long(h.nrows()), long(x.nrows)));
  }
  void compare(Column &c, int64 i, uint64_t got, bool ascii, const char *how) {
    Cell k = i < int64(c.v.size()) ? c.v[i] : Cell(); if (!k.def) return; S.count("elements_compared"); // the value of elements never written is CFITSIO's business
    S.check(cell_same(c.type, k.bits, got, ascii), "element-value", at(how) + strf(" column %s (type %d, repetition %ld) element %ld is %.20Lg, %s %.20Lg", c.name.c_str(), int(c.type), long(c.rep), long(i), cell_value(c.type, got), k.def ? "written was" : "never written,", cell_value(c.type, k.bits)));
  }
  void compare_text(Column &c, int64 i, string got, bool ascii) { Cell k = i < int64(c.v.size()) ? c.v[i] : Cell(); if (!k.def) return; while (!got.empty() && got.back() == ' ') got.pop_back(); S.count("elements_compared"); S.check(got == k.s, "string-value", at("read") + strf(" column %s width %ld element %ld is \"%s\", expected \"%s\"", c.name.c_str(), long(c.rep), long(i), got.c_str(), k.s.c_str())); }
  void read_piece(bool all = false, int which = -1) {
    Hdu &x = H(); if (!x.named()) return; int ci = which >= 0 ? which : int(q.range(0, long(x.cols.size()) - 1)); Column &c = x.cols[ci]; int64 per = c.type == LEVELS_STRING ? 1 : c.rep, have = x.nrows * per, off = all || !have ? 0 : q.range(0, have), num = all ? have : q.range(0, std::min<int64>(have - off, 500)); bool asc = x.kind == 2; S.count("pieces_read"); op = strf("read %ld at %ld of column %d type %d repetition %ld rows %ld", long(num), long(off), ci + 1, int(c.type), long(c.rep), long(x.nrows));
    if (asc || writable) for (int64 i = off; i < off + num; ++i) if (i >= int64(c.v.size()) || !c.v[i].def) return; // blank ASCII fields have no value; binary ones may not be in the file before the HDU is completed
    if (c.type == LEVELS_STRING) { arr<string> d; if (all) h.read_entire_column(ci + 1, d); else { d.alloc(num); h.read_column(ci + 1, d, off); } if (!S.check(int64(d.size()) == num, "read-size", at("read"))) return; for (int64 i = 0; i < num; ++i) compare_text(c, off + i, d[i], asc); if (num && q.coin(0.3)) { string s; h.read_column(ci + 1, s, off); compare_text(c, off, s, asc); } }
    else typed(c.type, [&](auto t) { typedef decltype(t) T; arr<T> d; if (all) h.read_entire_column(ci + 1, d); else if (q.coin()) { d.alloc(num); h.read_column(ci + 1, d, off); } else { d.alloc(num); h.read_column_raw(ci + 1, num ? &d[0] : (T *)0, num, off); } if (!S.check(int64(d.size()) == num, "read-size", at("read"))) return; for (int64 i = 0; i < num; ++i) compare(c, off + i, cell_put(T(d[i])), asc, "read"); if (num && q.coin(0.3)) { T y; h.read_column(ci + 1, y, off); compare(c, off, cell_put(y), asc, "single read"); } });
    if (num && !asc && (c.type == LEVELS_INT16 || c.type == LEVELS_INT32 || c.type == LEVELS_FLOAT32) && q.coin(0.3)) { arr<double> d(num); h.read_column(ci + 1, d, off); for (int64 i = 0; i < num; ++i) { Cell k = off + i < int64(c.v.size()) ? c.v[off + i] : Cell(); ld w = cell_value(c.type, k.bits); S.check(!k.def || (std::isnan(w) ? std::isnan(d[i]) : ld(d[i]) == w), "converted-value", at("read as double") + strf(" element %ld is %.17g, expected %.17Lg", long(off + i), d[i], w)); } }
  }
  void refuse_access() {
    Hdu &x = H(); Quiet quiet; S.count("refusals");
    if (!x.named()) { arr<double> d(1); S.check(throws([&] { h.read_column(1, d); }) && throws([&] { h.write_column(1, d); }), "column-of-image-accepted", at("access")); return; }
    int ci = int(q.range(0, long(x.cols.size()) - 1)); Column &c = x.cols[ci]; int64 per = c.type == LEVELS_STRING ? 1 : c.rep, have = x.nrows * per; int64 off = q.coin() ? 0 : q.range(0, have + 5), num = have - off + q.range(1, 50); if (num < 1) num = 1; int how = int(q.range(0, 3)); bool bad = false; string d;
    if (c.type == LEVELS_STRING) bad = throws([&] { arr<string> v(num); if (how == 3) { arr<int32> w(1); h.read_column(ci + 1, w, 0); } else if (how == 2) h.read_column(ci + 1, v, -1 - q.range(0, 5)); else h.read_column(ci + 1, v, off); });
    else typed(c.type, [&](auto t) { typedef decltype(t) T; bad = throws([&] { arr<T> v(num); if (how == 2) { arr<T> w(1); h.read_column(ci + 1, w, -1 - q.range(0, 2 * c.rep)); } else if (how == 3) { arr<uint16> w(1); q.coin() ? h.read_column(ci + 1, w, 0) : h.write_column(ci + 1, w, 0); } else h.read_column(ci + 1, v, off); }); });
    S.check(bad || (how == 3 && c.type == LEVELS_STRING), "read-beyond-accepted", at("read") + strf(" column %d of %ld elements, %ld at %ld, kind %d", ci + 1, long(have), long(num), long(off), how));
    int no = q.coin() ? 0 : int(x.cols.size()) + 1; arr<double> v(1); S.check(throws([&] { h.read_column(no, v); }) && throws([&] { h.write_column(no, v); }), "bad-column-accepted", at("access")); arr<string> sv(1); S.check(throws([&] { h.read_column(no, sv); }) && throws([&] { h.write_column(no, sv); }), "bad-column-accepted", at("string access"));
    S.check(throws([&] { arr2<double> im(1, 1); h.read_image(im); }) && throws([&] { arr<double> im(1); h.read_subimage(im); }) && throws([&] { arr<double> im(1); h.write_subimage(im); }), "image-of-table-accepted", at("access"));
  }
  // ---- images
  void image_op(bool write) {
    Hdu &x = H(); if (x.kind != 3) return; int64 n = x.npix(); int nd = int(x.axes.size()); auto pixel = [&](int64 i) { return cell_value(x.itype, x.pix[i]); }; auto is = [&](int64 i, ld v, const char *how) { if (!x.def[i]) return true; S.count("pixels_compared"); return S.check(v == pixel(i) || (std::isnan(v) && std::isnan(pixel(i))), "pixel-value", at(how) + strf(" pixel %ld is %.17Lg, expected %.17Lg", long(i), v, pixel(i))); };
    if (write) {
      int64 off = q.range(0, n - 1), num = q.range(0, n - off); bool whole = nd == 2 && q.coin(0.3), flt = x.itype == LEVELS_FLOAT32 || q.coin(); if (whole || q.coin(0.3)) { off = 0; num = n; }
      vector<double> v(num); for (int64 i = 0; i < num; ++i) { x.def[off + i] = 1; v[i] = flt ? double(float(q.gauss())) : q.gauss(); x.pix[off + i] = x.itype == LEVELS_FLOAT32 ? cell_put(float(v[i])) : cell_put(v[i]); }
      if (whole) { if (flt) { arr2<float> a(x.axes[0], x.axes[1]); for (int64 i = 0; i < n; ++i) a[i / x.axes[1]][i % x.axes[1]] = float(v[i]); h.write_image(a); } else { arr2<double> a(x.axes[0], x.axes[1]); for (int64 i = 0; i < n; ++i) a[i / x.axes[1]][i % x.axes[1]] = v[i]; h.write_image(a); } }
      else if (flt) { arr<float> a(num); for (int64 i = 0; i < num; ++i) a[i] = float(v[i]); h.write_subimage(a, off); } else { arr<double> a(num); for (int64 i = 0; i < num; ++i) a[i] = v[i]; h.write_subimage(a, off); }
      S.count("pieces_written");
    } else {
      if (writable && !x.ready()) return; // CFITSIO fills what was never written when the HDU is completed
      S.count("pieces_read"); int64 off = q.range(0, n - 1), num = q.range(0, n - off); { arr<double> a(num); h.read_subimage(a, off); for (int64 i = 0; i < num; ++i) if (!is(off + i, a[i], "read_subimage")) return; }
      if (nd == 2) { arr2<double> a; h.read_image(a); if (S.check(int64(a.size1()) == x.axes[0] && int64(a.size2()) == x.axes[1], "image-size", at("read_image"))) for (int64 i = 0; i < n; ++i) if (!is(i, a[i / x.axes[1]][i % x.axes[1]], "read_image")) return;
        int x0 = int(q.range(0, x.axes[0] - 1)), y0 = int(q.range(0, x.axes[1] - 1)); arr2<double> b(q.range(1, x.axes[0] - x0), q.range(1, x.axes[1] - y0)); h.read_subimage(b, x0, y0); for (size_t i = 0; i < b.size1(); ++i) for (size_t j = 0; j < b.size2(); ++j) if (!is((x0 + int64(i)) * x.axes[1] + y0 + int64(j), b[i][j], "read_subimage (2D)")) return;
        if (x.itype == LEVELS_FLOAT32) { arr2<float> f; h.read_image(f); for (int64 i = 0; i < n; ++i) if (!is(i, f[i / x.axes[1]][i % x.axes[1]], "read_image")) return; } }
      if (nd == 3 && x.itype == LEVELS_FLOAT32) { arr3<float> a; h.read_image(a); if (S.check(int64(a.size1()) == x.axes[0] && int64(a.size2()) == x.axes[1] && int64(a.size3()) == x.axes[2], "image-size", at("read_image"))) for (int64 i = 0; i < n; ++i) if (!is(i, a(i / (x.axes[1] * x.axes[2]), i / x.axes[2] % x.axes[1], i % x.axes[2]), "read_image")) return; }
      if (x.itype == LEVELS_FLOAT32) { arr<float> a(num); h.read_subimage(a, off); for (int64 i = 0; i < num; ++i) if (!is(off + i, a[i], "read_subimage")) return; }
      if (nd == 2 && x.itype == LEVELS_FLOAT32) { int x0 = int(q.range(0, x.axes[0] - 1)), y0 = int(q.range(0, x.axes[1] - 1)); arr2<float> b(q.range(1, x.axes[0] - x0), q.range(1, x.axes[1] - y0)); h.read_subimage(b, x0, y0); for (size_t i = 0; i < b.size1(); ++i) for (size_t j = 0; j < b.size2(); ++j) if (!is((x0 + int64(i)) * x.axes[1] + y0 + int64(j), b[i][j], "read_subimage")) return; }
      if (nd == 3) { arr3<double> a; h.read_image(a); if (S.check(int64(a.size1()) == x.axes[0] && int64(a.size2()) == x.axes[1] && int64(a.size3()) == x.axes[2], "image-size", at("read_image"))) for (int64 i = 0; i < n; ++i) if (!is(i, a(i / (x.axes[1] * x.axes[2]), (i / x.axes[2]) % x.axes[1], i % x.axes[2]), "read_image (3D)")) return; }
      // refusals
      Quiet quiet; S.count("refusals"); int64 over = n - off + q.range(1, 20); arr<double> a(over); a.fill(0); S.check(throws([&] { h.read_subimage(a, off); }), "pixels-beyond-image-read", at("read_subimage") + strf(" %ld pixels at %ld of %ld", long(over), long(off), long(n))); arr<double> e(1); e.fill(0); int64 far = n + q.range(0, 5000); S.check(throws([&] { h.read_subimage(e, q.coin() ? far : -1 - q.range(0, 3)); }), "pixels-beyond-image-read", at("read_subimage") + strf(" at %ld of %ld", long(far), long(n)));
      if (nd == 2) { int x0 = int(q.range(0, x.axes[0] - 1)), y0 = int(q.range(0, x.axes[1] - 1)); arr2<double> b(x.axes[0] - x0 + (q.coin() ? 1 : 0), x.axes[1] - y0), c(1, x.axes[1] - y0 + 1); S.check(int64(b.size1()) + x0 <= x.axes[0] || throws([&] { h.read_subimage(b, x0, y0); }), "pixels-beyond-image-read", at("read_subimage (2D)") + " too many rows"); S.check(throws([&] { h.read_subimage(c, x0, y0); }), "pixels-beyond-image-read", at("read_subimage (2D)") + strf(" row %d of %ld, %zu pixels from %d of %ld", x0, long(x.axes[0]), c.size2(), y0, long(x.axes[1]))); arr2<double> one(1, 1); S.check(throws([&] { q.coin() ? h.read_subimage(one, -1, 0) : h.read_subimage(one, 0, -1); }), "pixels-beyond-image-read", at("read_subimage (2D)") + " negative corner"); S.check(throws([&] { arr3<double> z; h.read_image(z); }), "wrong-dimensions-accepted", at("read_image")); }
      else S.check(throws([&] { arr2<double> z; h.read_image(z); }), "wrong-dimensions-accepted", at("read_image"));
      if (writable) { arr<double> w(over); w.fill(3); S.check(throws([&] { h.write_subimage(w, off); }), "pixels-beyond-image-written", at("write_subimage") + strf(" %ld pixels at %ld of %ld", long(over), long(off), long(n))); S.check(throws([&] { h.write_subimage(e, -1 - q.range(0, 3)); }), "pixels-beyond-image-written", at("write_subimage") + " negative offset"); arr2<double> z(x.axes[0] + 1, nd > 1 ? x.axes[1] : 1); z.fill(4); S.check(throws([&] { h.write_image(z); }), "wrong-dimensions-accepted", at("write_image")); }
    }
  }
  // ---- keywords
  Key *find(const string &n) { for (auto &k : H().keys) if (upper(k.name) == upper(n)) return &k; return nullptr; }
  string key_name() { if (!H().keys.empty() && q.coin(0.4)) { string n = H().keys[q.range(0, long(H().keys.size()) - 1)].name; return n; } int st = int(q.range(0, 2)); return st == 0 ? "K" + text(q, 1, 7, "ABCXYZ019_-") : st == 1 ? "k" + text(q, 1, 20, "abcxyzXY019_-") : "K" + text(q, 8, 22, "ABCXYZ019_"); }
  void set_key() {
    Key k; k.name = key_name(); static const PDT kt[] = {LEVELS_BOOL, LEVELS_INT8, LEVELS_UINT8, LEVELS_INT16, LEVELS_INT32, LEVELS_INT64, LEVELS_FLOAT32, LEVELS_FLOAT64, LEVELS_STRING}; k.type = kt[q.range(0, 8)]; string com = q.coin() ? "" : text(q, 0, 40); k.bits = 0; k.com = com;
    if (k.type == LEVELS_STRING) { k.s = text(q, 0, k.name.size() > 8 || k.name[0] == 'k' ? 20 : q.coin(0.3) ? 300 : 60); h.set_key(k.name, k.s, com); }
    else { k.bits = random_cell(q, k.type, true); typed(k.type, [&](auto t) { typedef decltype(t) T; T v = cell_get<T>(k.bits); h.set_key(k.name, v, com); }); }
    Key *o = find(k.name); if (o) { string n = o->name; *o = k; o->name = n; } else H().keys.push_back(k); S.count("keys_set"); check_key(k);
  }
  void check_key(const Key &k) {
    S.count("keys_compared"); if (!S.check(h.key_present(k.name), "key-missing", at("key") + k.name)) return;
    if (k.type == LEVELS_STRING) { string s = h.get_key<string>(k.name); while (!s.empty() && s.back() == ' ') s.pop_back(); S.check(s == k.s, "key-value", at("key") + k.name + " is \"" + s + "\", expected \"" + k.s + "\""); if (q.coin(0.1)) { Quiet quiet; S.check(k.s.empty() || !isalpha(k.s[0]) || throws([&] { h.get_key<int32>(k.name); }), "mistyped-key-accepted", at("key") + k.name + " = " + k.s); } }
    else typed(k.type, [&](auto t) { typedef decltype(t) T; T v; h.get_key(k.name, v); ld a = cell_value(k.type, k.bits), b = ld(v); bool ok = k.type == LEVELS_FLOAT32 ? fabsl(a - b) <= fabsl(a) * 1e-6L : k.type == LEVELS_FLOAT64 ? fabsl(a - b) <= fabsl(a) * 2e-14L : a == b; S.check(ok, "key-value", at("key") + k.name + strf(" is %.20Lg, expected %.20Lg (type %d)", b, a, int(k.type))); });
  }
  void delete_key() { if (q.coin(0.3) || H().keys.empty()) { Quiet quiet; string n = "NOKEY" + text(q, 1, 3, "XYZ"); S.check(throws([&] { h.delete_key(n); }) && !h.key_present(n) && throws([&] { h.get_key<int32>(n); }) && throws([&] { h.get_key<string>(n); }), "missing-key-accepted", at("key")); S.count("refusals"); return; } size_t i = q.range(0, long(H().keys.size()) - 1); string n = H().keys[i].name; h.delete_key(n); H().keys.erase(H().keys.begin() + i); S.check(!h.key_present(n), "deleted-key-present", at("key") + n); S.count("keys_deleted"); }
  void check_keys() {
    for (auto &k : H().keys) check_key(k); vector<string> l; h.get_all_keys(l); if (cur == 0) l.erase(std::remove(l.begin(), l.end(), string("DATE")), l.end()); vector<string> want; for (auto &k : H().keys) want.push_back(upper(k.name)); for (auto &x : l) x = upper(x); std::sort(l.begin(), l.end()); std::sort(want.begin(), want.end());
    string g, w; for (auto &x : l) g += x + " "; for (auto &x : want) w += x + " "; S.check(g == w, "key-list", at("keys") + " are " + g + ", expected " + w);
  }
  void go() { int to = int(q.range(1, long(hd.size()))); h.goto_hdu(to); cur = to - 1; structure("goto_hdu"); }
  void go_wrong() { Quiet quiet; int to = q.coin() ? int(hd.size()) + int(q.range(1, 5)) : q.coin() ? 0 : -1; S.check(throws([&] { h.goto_hdu(to); }), "missing-hdu-accepted", at("goto_hdu")); S.count("refusals");
    // the handle goes on working; it may be at another HDU only if it says so
    if (q.coin()) go(); else if (H().named()) { bool ok = !throws([&] { h.ncols(); }); if (ok) { S.check(h.ncols() == int(H().cols.size()) && h.nrows() == H().nrows, "structure-after-refusal", at("after goto_hdu of a missing HDU")); read_piece(); } else go(); } else go(); }
  void verify_all() { for (cur = 0; cur < int(hd.size()); ++cur) { h.goto_hdu(cur + 1); structure("reading back"); if (H().named()) for (size_t i = 0; i < H().cols.size(); ++i) read_piece(true, int(i)); image_op(false); check_keys(); } cur = int(hd.size()) - 1; }
  // the file without the library
  void examine() {
    int st = 0, n = 0; fitsfile *f = nullptr; if (!S.check(fits_open_file(&f, file.c_str(), READONLY, &st) == 0, "file-unreadable", what)) return; fits_get_num_hdus(f, &n, &st); S.check(n == int(hd.size()), "hdu-count", what + strf(": %d HDUs in the file", n));
    for (cur = 0; cur < int(hd.size()) && cur < n && st == 0; ++cur) {
      int ty; fits_movabs_hdu(f, cur + 1, &ty, &st); Hdu &x = H(); if (!S.check(st == 0 && ty == (x.kind == 1 ? BINARY_TBL : x.kind == 2 ? ASCII_TBL : IMAGE_HDU), "hdu-type", at("file"))) break;
      if (x.named()) {
        long nr; int nc; char ext[81] = ""; fits_get_num_rows(f, &nr, &st); fits_get_num_cols(f, &nc, &st); fits_read_key(f, TSTRING, "EXTNAME", ext, 0, &st); S.check(nr == x.nrows && nc == int(x.cols.size()) && x.ext == ext, "table-in-file", at("file") + strf(" %ld rows %d columns name %s", nr, nc, ext)); if (nr != x.nrows || nc != int(x.cols.size())) break;
        for (int i = 0; i < nc; ++i) { Column &c = x.cols[i]; if (c.type == LEVELS_STRING || c.type == LEVELS_BOOL || c.type == LEVELS_INT8) continue; int64 m = x.nrows * c.rep; if (x.kind == 2) { bool all = true; for (int64 k = 0; k < m; ++k) all = all && k < int64(c.v.size()) && c.v[k].def; if (!all) continue; } if (c.type == LEVELS_INT64) { vector<LONGLONG> v(m + 1); fits_read_col(f, TLONGLONG, i + 1, 1, 1, m, 0, v.data(), 0, &st); for (int64 k = 0; k < m && st == 0; ++k) compare(c, k, cell_put(int64(v[k])), x.kind == 2, "file"); } else { vector<double> v(m + 1); fits_read_col(f, TDOUBLE, i + 1, 1, 1, m, 0, v.data(), 0, &st); for (int64 k = 0; k < m && st == 0; ++k) typed(c.type, [&](auto t) { compare(c, k, cell_put(decltype(t)(v[k])), x.kind == 2, "file"); }); } if (!S.check(st == 0, "column-unreadable", at("file") + strf(" column %d status %d", i + 1, st))) break; }
      } else if (x.kind == 3) { int64 m = x.npix(); vector<double> v(m); int na; long ax[3]; fits_get_img_param(f, 3, 0, &na, ax, &st); bool ok = st == 0 && na == int(x.axes.size()); for (int i = 0; ok && i < na; ++i) ok = ax[i] == x.axes[na - 1 - i]; if (!S.check(ok, "image-in-file", at("file"))) break; fits_read_img(f, TDOUBLE, 1, m, 0, v.data(), 0, &st); for (int64 i = 0; i < m; ++i) if (x.def[i] && !S.check(st == 0 && ld(v[i]) == cell_value(x.itype, x.pix[i]), "pixel-value", at("file") + strf(" pixel %ld", long(i)))) break; }
    }
    for (cur = 0; cur < int(hd.size()) && cur < n; ++cur) { // comments, in order, and those of the keywords
      st = 0; fits_movabs_hdu(f, cur + 1, 0, &st); int nk = 0; fits_get_hdrspace(f, &nk, 0, &st); vector<string> got; for (int i = 1; i <= nk && !st; ++i) { char card[120] = ""; fits_read_record(f, i, card, &st); if (!strncmp(card, "COMMENT", 7)) got.push_back(strip(string(card).substr(7))); }
      size_t k = 0; for (auto &g : got) if (k < H().comments.size() && g == H().comments[k]) ++k; if (!S.check(k == H().comments.size(), "comment-lost", at("file") + (k < H().comments.size() ? " \"" + H().comments[k] + "\"" : string()))) break; S.count("comments_found", double(k));
      for (auto &x : H().keys) { if (x.name.size() > 8 || x.name != upper(x.name) || (x.type == LEVELS_STRING && (x.s.size() > 18 || x.s.find('\'') != string::npos)) || (!x.com.empty() && x.com[0] == '&')) continue; char val[200] = "", com[200] = ""; st = 0; fits_read_keyword(f, x.name.c_str(), val, com, &st); if (!S.check(st == 0 && strip(com) == strip(x.com), "keyword-comment", at("file") + " " + x.name + " has \"" + com + "\", expected \"" + x.com + "\"")) break; S.count("keyword_comments"); }
    }
    cur = int(hd.size()) - 1; st = 0; fits_close_file(f, &st); S.count("files_examined");
  }
};
} // namespace

static void c17_history(long, Rng &g) {
  uint64_t sq = g.u64(); int nops = int(g.range(6, opt_tier ? 120 : 50)); bool compress = false; (void)compress; string file = tmpfile_path("c17") + ".fits"; string what = strf("FITS history of %d operations, seed %llu", nops, (unsigned long long)sq); R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq); World w(S, q, what, file); unlink(file.c_str());
    try {
      w.h.create(file); { string fn = w.h.fileName(); S.check(fn == file, "file-name", what + " " + fn); } { Hdu p; p.kind = 0; p.itype = LEVELS_FLOAT64; w.hd.push_back(p); } w.structure("after create");
      { Quiet quiet; fitshandle o; S.check(throws([&] { o.create(file); }), "existing-file-overwritten", what); }
      w.insert();
      for (int i = 0; i < nops && S.v.empty(); ++i) {
        switch (q.range(0, 17)) {
          case 0: if (w.hd.size() < 7) w.insert(); break;
          case 1: w.go(); break; case 2: w.go_wrong(); break; case 3: case 4: w.set_key(); break; case 5: w.delete_key(); break; case 6: w.check_keys(); break;
          case 7: w.refuse_access(); break; case 8: { string t = text(q, 0, q.coin(0.3) ? 400 : 100); w.h.add_comment(t); for (size_t k = 0; k < t.size(); k += 72) w.H().comments.push_back(strip(t.substr(k, 72))); S.count("comments_added"); break; }
          case 9: w.structure("history"); break; case 10: case 11: w.read_piece(); w.image_op(false); break;
          case 12: if (q.coin(0.3)) { w.h.write_checksum(); int st = 0, d = 0, hh = 0; (void)st; (void)d; (void)hh; for (auto &k : w.H().keys) w.check_key(k); S.count("checksums"); } break;
          default: w.write_piece(); w.image_op(true);
        }
      }
      if (!S.v.empty()) return;
      if (q.coin()) w.verify_all();
      w.h.close(); S.check(throws([&] { w.h.fileName(); }), "closed-handle-accepted", what); w.writable = false; w.examine(); if (!S.v.empty()) return;
      w.h.open(file); w.verify_all(); if (!S.v.empty()) return;
      { Quiet quiet; int t = -1; for (size_t i = 0; i < w.hd.size(); ++i) if (w.hd[i].named() && w.hd[i].cols[0].type != LEVELS_STRING && w.hd[i].nrows > 0) t = int(i); // refused when the data reach the file, at the latest when it is closed
        bool wrote = q.coin(), refused = false; if (!wrote || t < 0) refused = throws([&] { w.h.set_key("NEWKEY", 1); }); else { w.h.goto_hdu(t + 1); refused = throws([&] { arr<double> d(1); d.fill(1); w.h.write_column(1, d); }); }
        bool late = throws([&] { w.h.close(); }); S.check(refused || late, "read-only-file-written", what); S.check(throws([&] { w.h.num_hdus(); }), "closed-handle-accepted", what); S.count("refusals"); }
      w.h.close();
    } catch (LEVELSError &e) { S.viol("valid-operation-refused", w.hd.empty() ? what : w.at("last operation") + " " + w.op + ": " + e.what()); }
    if (S.v.empty()) { // the file is intact after the refused writes
      w.examine(); if (q.coin()) { fitshandle::delete_file(file); S.check(access(file.c_str(), F_OK) != 0, "file-not-deleted", what); Quiet quiet; S.check(throws([&] { fitshandle::delete_file(file); }), "missing-file-deleted", what); }
    }
  });
  unlink(file.c_str());
}
static AddPart p1("c17.history", [] { return opt_tier ? 20000L : 2000L; }, c17_history);

// Handles without a file, missing and odd files.
static void c17_handles(long, Rng &g) {
  uint64_t sq = g.u64(); string base = tmpfile_path("c17h"), what = strf("FITS handles, seed %llu", (unsigned long long)sq); R.eval(what, true);
  isolated(what, [&](Sub &S) {
    Rng q(sq); Quiet quiet; vector<string> made;
    auto all_refused = [&](fitshandle &h, const char *state) {
      for (int k = 0; k < 22; ++k) {
        bool t = throws([&] { arr<double> d(2); d.fill(0); arr<string> s(1); arr2<double> d2(2, 2); arr3<double> d3; vector<string> keys; vector<fitscolumn> c(1, fitscolumn("a", "b", 1, LEVELS_FLOAT64)); vector<int64> ax(1, 4);
          switch (k) { case 0: h.fileName(); break; case 1: h.goto_hdu(int(q.range(1, 3))); break; case 2: h.num_hdus(); break; case 3: h.insert_bintab(c); break; case 4: h.insert_asctab(c); break; case 5: h.insert_image(LEVELS_FLOAT64, ax); break; case 6: h.insert_image(LEVELS_FLOAT32, d2); break; case 7: h.write_checksum(); break; case 8: h.axes(); break; case 9: h.colname(1); break; case 10: h.ncols(); break; case 11: h.nrows(); break; case 12: h.get_all_keys(keys); break; case 13: h.set_key("A", 1); break; case 14: h.delete_key("A"); break; case 15: h.get_key<int32>("A"); break; case 16: h.key_present("A"); break; case 17: h.read_column(1, d); break; case 18: h.write_column(1, s); break; case 19: h.read_image(d2); break; case 20: h.read_subimage(d); break; default: h.add_comment("x"); } });
        S.check(t, "unconnected-handle-accepted", what + strf(": operation %d on %s", k, state)); S.count("refusals");
      }
    };
    { fitshandle h; all_refused(h, "a new handle"); h.close(); all_refused(h, "a closed new handle"); }
    // files that do not exist, directories, empty and foreign files, long names
    { fitshandle h; string n[] = {base + ".missing", "/nonexistent_dir_verif/x.fits", base + string(size_t(q.range(100, 6000)), 'n'), "", base + ".empty", base + ".text", base + ".dir"};
      { FILE *f = fopen(n[4].c_str(), "w"); fclose(f); f = fopen(n[5].c_str(), "w"); for (int i = 0; i < 3000; ++i) fputs(q.coin() ? "SIMPLE  " : "not a FITS file ", f); fclose(f); mkdir(n[6].c_str(), 0700); }
      for (int i = 0; i < 7; ++i) { S.check(throws([&] { h.open(n[i]); }), "bad-file-opened", what + strf(" name %d", i)); S.count("refusals"); all_refused(h, "a handle whose file could not be opened"); }
      if (q.coin()) { S.check(throws([&] { h.create(n[1]); }), "file-created-nowhere", what); all_refused(h, "a handle whose file could not be created"); S.check(throws([&] { h.create(n[2].substr(0, 1200 + size_t(q.range(0, 3000))) + string(1500, 'm')); }), "file-created-with-long-name", what); all_refused(h, "a handle whose file could not be created"); }
      S.check(throws([&] { fitshandle::delete_file(n[0]); }), "missing-file-deleted", what); S.check(throws([&] { fitshandle::delete_file(n[2] + string(3000, 'd')); }), "missing-file-deleted", what + " long name"); unlink(n[4].c_str()); unlink(n[5].c_str()); rmdir(n[6].c_str()); }
    // many handles on one file, reopening, columns of types the library does not know
    { string f1 = base + "_1.fits", f2 = base + "_2.fits"; unlink(f1.c_str()); unlink(f2.c_str()); { fitshandle h; h.create(f1); vector<fitscolumn> c; c.push_back(fitscolumn("X", "u", 3, LEVELS_INT32)); h.insert_bintab(c); arr<int32> v(30); for (int i = 0; i < 30; ++i) v[i] = 7 * i; h.write_column(1, v); }
      { fitshandle a, b; a.open(f1); b.open(f1); b.goto_hdu(2); a.goto_hdu(2); arr<int32> v, u; a.read_entire_column(1, v); b.read_entire_column(1, u); bool ok = v.size() == 30 && u.size() == 30; for (int i = 0; ok && i < 30; ++i) ok = v[i] == 7 * i && u[i] == 7 * i; S.check(ok, "two-handles", what); a.close(); b.read_entire_column(1, u); S.check(u.size() == 30 && u[29] == 203, "two-handles", what); b.open(f1); b.goto_hdu(2); S.check(b.nrows() == 10, "reopened-handle", what); S.check(throws([&] { b.open(base + ".missing"); }), "bad-file-opened", what); all_refused(b, "a handle reopened with a missing file"); }
      { int st = 0; fitsfile *f; fits_create_file(&f, f2.c_str(), &st); const char *tt[] = {"A", "Z", "B"}, *tf[] = {"2J", "1C", "1D"}, *tu[] = {"", "", ""}; int kind = int(q.range(0, 2)); if (kind == 1) tf[1] = "5X"; if (kind == 2) tf[1] = "1PE(4)"; fits_create_tbl(f, BINARY_TBL, 4, 3, (char **)tt, (char **)tf, (char **)tu, "odd", &st); int v[8] = {1, 2, 3, 4, 5, 6, 7, 8}; fits_write_col(f, TINT, 1, 1, 1, 8, v, &st); const char *t2[] = {"OK"}, *tf2[] = {"1J"}, *tu2[] = {""}; fits_create_tbl(f, BINARY_TBL, 4, 1, (char **)t2, (char **)tf2, (char **)tu2, "good", &st); fits_write_col(f, TINT, 1, 1, 1, 4, v, &st); fits_close_file(f, &st); if (st) { S.check(false, "harness-file", strf("status %d", st)); return; }
        { unsigned char raw[9]; FILE *io = nullptr; (void)io; const char *t3[] = {"L"}, *tf3[] = {"9L"}, *tu3[] = {""}; st = 0; fits_open_file(&f, f2.c_str(), READWRITE, &st); fits_movabs_hdu(f, 3, 0, &st); fits_insert_btbl(f, 1, 1, (char **)t3, (char **)tf3, (char **)tu3, "logical", 0, &st); for (auto &b : raw) b = q.coin() ? 'T' : q.coin() ? 'F' : (unsigned char)q.range(0, 255); raw[0] = 'T'; raw[1] = 'F'; fits_write_tblbytes(f, 1, 1, 9, raw, &st); fits_close_file(f, &st); if (!S.check(st == 0, "harness-file", strf("status %d", st))) return;
          fitshandle l; l.open(f2); l.goto_hdu(4); arr<bool> b; l.read_entire_column(1, b); S.check(b.size() == 9, "read-size", what); int sum = 0; for (size_t i = 0; i < b.size(); ++i) { unsigned char c; memcpy(&c, &b[i], 1); sum += c <= 1; if (raw[i] == 'T' || raw[i] == 'F') S.check(c == (raw[i] == 'T'), "logical-value", what); } S.check(sum == 9, "invalid-bool", what); }
        fitshandle h; h.open(f2); bool refused = throws([&] { h.goto_hdu(2); }); S.check(refused, "unknown-type-accepted", what); if (refused) S.check(throws([&] { h.ncols(); }) || h.ncols() == 3, "structure-after-refusal", what + strf(": after the refused HDU the handle reports %d columns of 3", throws([&] { h.ncols(); }) ? -1 : h.ncols())); h.goto_hdu(3); arr<int32> u; h.read_entire_column(1, u); S.check(u.size() == 4 && u[0] == 1 && u[3] == 4 && h.ncols() == 1 && h.colname(1) == "OK", "handle-after-refusal", what); }
      unlink(f1.c_str()); unlink(f2.c_str()); S.count("handles", 6);
    }
  });
}
static AddPart p2("c17.handles", [] { return opt_tier ? 4000L : 400L; }, c17_handles);
