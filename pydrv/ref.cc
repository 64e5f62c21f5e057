// The C++ classes behind plain functions: what the Python module is compared with (C18).
#include "conviqt.hpp"
using namespace conviqt;
typedef levels::Alm<levels::xcomplex<float> > A;
static A &comp(void *o, int sky_, int c) { if (sky_) { sky *s = (sky *)o; return c == 0 ? s->slmT() : c == 1 ? s->slmG() : s->slmC(); } beam *b = (beam *)o; return c == 0 ? b->blmT() : c == 1 ? b->blmG() : b->blmC(); }
template <class F> static int run(F f) { try { f(); return 0; } catch (...) { return -1; } }
extern "C" {
void *r_beam(long lmax, long mmax, int pol, const char *file, MPI_Comm c) { beam *b = new beam; if (run([&] { b->read(lmax, mmax, pol != 0, file, c); })) { delete b; return 0; } return b; }
void *r_sky(long lmax, int pol, const char *file, double fwhm, MPI_Comm c) { sky *s = new sky; if (run([&] { s->read(lmax, pol != 0, file, fwhm, c); })) { delete s; return 0; } return s; }
int r_lmax(void *o, int s) { return s ? ((sky *)o)->get_lmax() : ((beam *)o)->get_lmax(); }
int r_mmax(void *o) { return ((beam *)o)->get_mmax(); }
long r_size(void *o, int s, int c) { return long(comp(o, s, c).Alms().size()); }
void r_get(void *o, int s, int c, float *v) { A &a = comp(o, s, c); for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) { *v++ = a(l, m).re; *v++ = a(l, m).im; } }
void r_set(void *o, int s, int c, const float *v) { A &a = comp(o, s, c); for (int m = 0; m <= a.Mmax(); ++m) for (int l = m; l <= a.Lmax(); ++l) { a(l, m).re = *v++; a(l, m).im = *v++; } }
int r_normalize(void *b, double *scale) { return run([&] { *scale = ((beam *)b)->normalize(); }); }
int r_normalized(void *b) { return ((beam *)b)->normalized(); }
int r_remove(void *s, int dipole) { return run([&] { if (dipole) ((sky *)s)->remove_dipole(); else ((sky *)s)->remove_monopole(); }); }
void *r_det(const char *id) { return id ? new detector(id) : new detector; }
int r_set_eps(void *d, double e) { return run([&] { ((detector *)d)->set_epsilon(e); }); }
double r_get_eps(void *d) { return ((detector *)d)->get_epsilon(); }
long r_id(void *d, char *s, long n) { std::string i = ((detector *)d)->get_id(); long k = long(i.size()); if (k < n) { memcpy(s, i.data(), size_t(k)); return k; } return -1; }
// one convolution; in: n rows; returns -1 if it threw, else the number of rows that came back (at most cap)
void *r_conv(void *s, void *b, void *d, int pol, long lmax, long mmax, long order, int verbosity, MPI_Comm c) { convolver *p = 0; if (run([&] { p = new convolver((sky *)s, (beam *)b, (detector *)d, pol != 0, lmax, mmax, order, verbosity, c); })) return 0; return p; }
// What rounding in a signal is measured against: the coefficients' magnitudes, times the calibration
double r_scale(void *s, void *b, void *d) {
  double r = 0; auto sum = [](Alm<xcomplex<float>> &a) { double x = 0; for (tsize i = 0; i < a.Alms().size(); ++i) x += std::fabs(a.Alms()[i].re) + std::fabs(a.Alms()[i].im); return x; };
  r += sum(((sky *)s)->slmT()) * sum(((beam *)b)->blmT());
  run([&] { double g = sum(((sky *)s)->slmG()) * sum(((beam *)b)->blmG()) + sum(((sky *)s)->slmC()) * sum(((beam *)b)->blmC()); r += g; });
  double c = 2 / (1 + ((detector *)d)->get_epsilon()); return r * std::max(1., std::fabs(c));
}
long r_convolve(void *v, const double *in, long n, double *out, int cal) {
  pointing p; p.alloc(5 * n); for (long i = 0; i < 5 * n; ++i) p[i] = in[i]; if (run([&] { ((convolver *)v)->convolve(p, cal != 0); })) return -1;
  if (long(p.size()) != 5 * n) return -2 - long(p.size()); for (long i = 0; i < 5 * n; ++i) out[i] = p[i]; return n;
}
void r_free(void *o, int k) { switch (k) { case 0: delete (beam *)o; break; case 1: delete (sky *)o; break; case 2: delete (detector *)o; break; default: delete (convolver *)o; } }
}
