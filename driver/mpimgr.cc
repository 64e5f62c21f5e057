// The message-passing wrappers against a sequential model (C16). Every rank knows the data of all ranks (they are a
// function of the seed), so each computes what it must receive without communicating.
#include "sub.h"
#include "ls_mpi_support.h"
#include "ls_openmp_support.h"
#include <cstring>
using namespace levels; using std::string; using std::vector;

template <class T> static bool same(T a, T b) { return a == b && std::signbit(ld(a)) == std::signbit(ld(b)); }
template <> bool same(int a, int b) { return a == b; } template <> bool same(char a, char b) { return a == b; } template <> bool same(unsigned a, unsigned b) { return a == b; } template <> bool same(long a, long b) { return a == b; } template <> bool same(unsigned long a, unsigned long b) { return a == b; } template <> bool same(long long a, long long b) { return a == b; } template <> bool same(unsigned long long a, unsigned long long b) { return a == b; }
template <class T> static T value(Rng &q) { // any bits
  if (std::numeric_limits<T>::is_integer) return q.coin(0.1) ? std::numeric_limits<T>::max() : q.coin(0.1) ? std::numeric_limits<T>::min() : T(q.u64());
  if (q.coin(0.1)) return T(-0.); if (q.coin(0.05)) return T(INFINITY);
  return T(ld(q.gauss()) * powl(10, sizeof(T) == 4 ? q.uni(-30, 30) : q.uni(-280, 280)) * (1 + 1e-18L * ld(q.range(0, 9))));
}
template <class T> static T small(Rng &q, int op) { if (op == 1 || op == 2) { T v = value<T>(q); return v == T(0) ? T(0) : v; } return op == 3 ? T(q.range(1, 2)) : T(q.range(0, 100)) - (std::numeric_limits<T>::is_signed && sizeof(T) > 1 ? T(50) : T(0)); } // sums and products are exact in every order
template <class T> static const char *tname() { return type2typename<T>(); }
template <> const char *tname<char>() { return "char"; }
// n elements between guards, in a heap block of its own
template <class T> struct Buf {
  vector<T> v; size_t n; enum { G = 3 };
  static T mark() { T t; memset(&t, 0, sizeof t); memset(&t, 0x5a, sizeof t < 10 ? sizeof t : 10); if (std::numeric_limits<T>::is_integer) return t; return T(-7.25); }
  explicit Buf(size_t n_) : v(n_ + 2 * G, mark()), n(n_) {}
  T *p() { return v.data() + G; } T &operator[](size_t i) { return v[G + i]; } const T &operator[](size_t i) const { return v[G + i]; }
  bool intact() const { for (int i = 0; i < G; ++i) if (!same(v[i], mark()) || !same(v[G + n + i], mark())) return false; return true; }
};
struct Ctx {
  Sub &S; const MPI_Manager &m; uint64_t seed; int n, r; string what;
  Rng shared(int k) const { return Rng(seed * 1000003ull + k); }
  Rng of(int rank, int k) const { return Rng((seed ^ 0x9e3779b97f4a7c15ull) + 7919ull * rank + 104729ull * k); }
};
template <class T> static vector<T> data(const Ctx &c, int rank, int k, long n, int op = -1) { Rng q = c.of(rank, k); vector<T> v(n); for (auto &x : v) x = op < 0 ? value<T>(q) : small<T>(q, op); return v; }
template <class T> static arr<T> to_arr(const vector<T> &v) { arr<T> a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; return a; }
template <class T, class A> static bool expect(const Ctx &c, const char *name, const A &got, size_t ngot, const vector<T> &want) {
  c.S.count("values_compared", want.size());
  if (!c.S.check(ngot == want.size(), "wrapper-size", strf("%s<%s> on rank %d of %d has %zu elements, expected %zu; ", name, tname<T>(), c.r, c.n, ngot, want.size()) + c.what)) return false;
  for (size_t i = 0; i < want.size(); ++i) if (!c.S.check(same(T(got[i]), want[i]), "wrapper-value", strf("%s<%s> on rank %d of %d: element %zu of %zu is %.20Lg, expected %.20Lg; ", name, tname<T>(), c.r, c.n, i, want.size(), ld(got[i]), ld(want[i])) + c.what)) return false;
  return true;
}
template <class T> static bool expect(const Ctx &c, const char *name, const arr<T> &got, const vector<T> &want) { return expect<T>(c, name, got, got.size(), want); }
template <class T> static void expect_raw(const Ctx &c, const char *name, Buf<T> &got, const vector<T> &want) { expect<T>(c, name, got, got.n, want); c.S.check(got.intact(), "wrapper-outside-buffer", strf("%s<%s> on rank %d wrote outside its buffer; ", name, tname<T>(), c.r) + c.what); }
template <class T> static arr<T> stale(Rng &q) { arr<T> a(q.coin() ? 0 : q.range(1, 40)); for (size_t i = 0; i < a.size(); ++i) a[i] = T(77); return a; }
static long len(Rng &q) { return q.coin(0.2) ? 0 : q.coin(0.2) ? 1 : q.coin(0.9) ? q.range(2, 40) : q.range(100, 3000); }
template <class T> static T combine(T a, T b, int op) { return op == 0 ? T(a + b) : op == 1 ? std::min(a, b) : op == 2 ? std::max(a, b) : T(a * b); }
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }

template <class T, bool REDUCE> static void ops(Ctx &c, int kind) {
  const MPI_Manager &m = c.m; int n = c.n, r = c.r; Rng s = c.shared(1), own = c.of(r, 99); // s: the same on all ranks
  int root = int(s.range(0, n - 1)), op = int(s.range(0, 3)); MPI_Manager::redOp rop = MPI_Manager::redOp(op); long L = len(s); int form = int(s.range(0, 2)); vector<long> ls(n); for (auto &x : ls) x = s.coin(0.15) ? 0 : len(s);
  vector<T> mine = data<T>(c, r, 2, L);
  switch (kind) {
    case 0: { // messages between pairs, in order
      int np = int(s.range(1, 2 * n));
      for (int i = 0; i < np; ++i) {
        int a = int(s.range(0, n - 1)), b = int(s.range(0, n - 1)); long l = len(s); bool rawa = s.coin(), rawb = s.coin(), one = s.coin(0.3); if (one) l = 1; if (a == b) continue;
        vector<T> d = data<T>(c, a, 100 + i, l);
        if (r == a) { if (one && !rawa) m.send(d[0], b); else if (rawa) { Buf<T> x(l); for (long j = 0; j < l; ++j) x[j] = d[j]; m.sendRaw(x.p(), l, b); expect_raw(c, "send buffer", x, d); } else m.send(to_arr(d), b); }
        if (r == b) { if (one && !rawb) { T x = T(); m.recv(x, a); expect<T>(c, "recv", &x, 1, d); } else if (rawb) { Buf<T> x(l); m.recvRaw(x.p(), l, a); expect_raw(c, "recvRaw", x, d); } else { arr<T> x(l); m.recv(x, a); expect(c, "recv", x, d); } }
      }
      break; }
    case 1: { // exchange along a ring with uneven lengths
      int sh = int(s.range(0, n - 1)), to = (r + sh) % n, from = (r - sh + n) % n; long lin = ls[r], lout = ls[from]; vector<T> in = data<T>(c, r, 3, lin), want = data<T>(c, from, 3, lout);
      if (form == 0) { arr<T> x = to_arr(in), y(lout); m.sendrecv(x, to, y, from); expect(c, "sendrecv", y, want); expect(c, "sendrecv input", x, in); }
      else if (form == 1) { Buf<T> x(lin), y(lout); for (long j = 0; j < lin; ++j) x[j] = in[j]; m.sendrecvRaw(x.p(), lin, to, y.p(), lout, from); expect_raw(c, "sendrecvRaw", y, want); expect_raw(c, "sendrecvRaw input", x, in); }
      else { T a = data<T>(c, r, 4, 1)[0], b = T(); m.sendrecv(a, to, b, from); expect<T>(c, "sendrecv", &b, 1, data<T>(c, from, 4, 1)); c.S.check(throws([&] { m.sendrecv(a, to, a, from); }), "identical-buffers", "sendrecv accepted one buffer for both"); }
      break; }
    case 2: {
      int sh = int(s.range(0, n - 1)), to = (r + sh) % n, from = (r - sh + n) % n; vector<T> want = data<T>(c, from, 2, L);
      if (form == 0) { arr<T> x = to_arr(mine); m.sendrecv_replace(x, to, from); expect(c, "sendrecv_replace", x, want); }
      else if (form == 1) { Buf<T> x(L); for (long j = 0; j < L; ++j) x[j] = mine[j]; m.sendrecv_replaceRaw(x.p(), L, to, from); expect_raw(c, "sendrecv_replaceRaw", x, want); }
      else { T a = data<T>(c, r, 4, 1)[0]; m.sendrecv_replace(a, to, from); expect<T>(c, "sendrecv_replace", &a, 1, data<T>(c, from, 4, 1)); }
      break; }
    case 3: {
      T a = data<T>(c, r, 4, 1)[0];
      if (r == root) { arr<T> out = stale<T>(own); m.gather_m(a, out, root); vector<T> want; for (int i = 0; i < n; ++i) want.push_back(data<T>(c, i, 4, 1)[0]); expect(c, "gather", out, want); } else m.gather_s(a, root);
      break; }
    case 4: {
      vector<T> want; for (int i = 0; i < n; ++i) { auto d = data<T>(c, i, 3, ls[i]); want.insert(want.end(), d.begin(), d.end()); }
      arr<T> in = to_arr(data<T>(c, r, 3, ls[r])), out = stale<T>(own); size_t before = out.size();
      if (form == 0) m.gatherv(in, out); else if (r == 0) m.gatherv_m(in, out); else m.gatherv_s(in);
      if (r == 0) expect(c, "gatherv", out, want); else c.S.check(out.size() == before, "wrapper-size", "gatherv changed the output of another rank than the root");
      break; }
    case 5: {
      long w = s.range(1, 7); vector<T> want; for (int i = 0; i < n; ++i) { auto d = data<T>(c, i, 3, (ls[i] % 60) * w); want.insert(want.end(), d.begin(), d.end()); }
      long rows = ls[r] % 60; auto d = data<T>(c, r, 3, rows * w); arr2<T> in(rows, w), out; for (long i = 0; i < rows; ++i) for (long j = 0; j < w; ++j) in[i][j] = d[i * w + j];
      if (r == 0) { m.gatherv_m(in, out); vector<T> got; for (size_t i = 0; i < out.size1(); ++i) for (size_t j = 0; j < out.size2(); ++j) got.push_back(out[i][j]); c.S.check(long(out.size2()) == w, "wrapper-size", "gatherv of two-dimensional arrays changed the row length"); expect<T>(c, "gatherv (2D)", got, got.size(), want); } else m.gatherv_s(in);
      break; }
    case 6: case 7: if (REDUCE) { // reductions
      vector<T> want = data<T>(c, 0, 5, L, op), in = data<T>(c, r, 5, L, op); for (int i = 1; i < n; ++i) { auto d = data<T>(c, i, 5, L, op); for (long j = 0; j < L; ++j) want[j] = combine(want[j], d[j], op); }
      if (kind == 6) {
        if (form == 0) { arr<T> x = to_arr(in), out = stale<T>(own); size_t before = out.size(); m.reduce(x, out, rop, root); if (r == root) expect(c, "reduce", out, want); else c.S.check(out.size() == before, "wrapper-size", "reduce changed the output of another rank than the root"); expect(c, "reduce input", x, in); }
        else if (form == 1) { Buf<T> x(L), y(L); for (long j = 0; j < L; ++j) x[j] = in[j]; m.reduceRaw(x.p(), y.p(), L, rop, root); expect_raw(c, "reduceRaw", y, r == root ? want : vector<T>(L, Buf<T>::mark())); }
        else { T a = data<T>(c, r, 6, 1, op)[0], b = T(42), w = data<T>(c, 0, 6, 1, op)[0]; for (int i = 1; i < n; ++i) w = combine(w, data<T>(c, i, 6, 1, op)[0], op); m.reduce(a, b, rop, root); vector<T> e(1, r == root ? w : T(42)); expect<T>(c, "reduce", &b, 1, e); }
      } else {
        int f = int(s.range(0, 5)); arr<T> x = to_arr(in); vector<T> one = data<T>(c, 0, 6, 1, op); for (int i = 1; i < n; ++i) one[0] = combine(one[0], data<T>(c, i, 6, 1, op)[0], op); T a = data<T>(c, r, 6, 1, op)[0], b = T();
        if (f == 0) { arr<T> out = stale<T>(own); m.allreduce(x, out, rop); expect(c, "allreduce", out, want); expect(c, "allreduce input", x, in); }
        else if (f == 1) { m.allreduce(x, rop); expect(c, "allreduce in place", x, want); }
        else if (f == 2) { m.allreduce(a, b, rop); expect<T>(c, "allreduce", &b, 1, one); }
        else if (f == 3) { m.allreduce(a, rop); expect<T>(c, "allreduce in place", &a, 1, one); }
        else { Buf<T> y(L), z(L); for (long j = 0; j < L; ++j) y[j] = in[j]; if (f == 4) { m.allreduceRaw((const T *)y.p(), z.p(), L, rop); expect_raw(c, "allreduceRaw", z, want); expect_raw(c, "allreduceRaw input", y, in); } else { m.allreduceRaw(y.p(), L, rop); expect_raw(c, "allreduceRaw in place", y, want); } }
      }
      c.S.count(strf("reductions_op_%d", op));
      break; }
      // fall through: types without reductions
    case 8: {
      vector<T> want; for (int i = 0; i < n; ++i) { auto d = data<T>(c, i, 2, L); want.insert(want.end(), d.begin(), d.end()); }
      if (form == 0) { arr<T> x = to_arr(mine), out = stale<T>(own); m.allgather(x, out); expect(c, "allgather", out, want); }
      else if (form == 1) { Buf<T> x(L), y(L * n); for (long j = 0; j < L; ++j) x[j] = mine[j]; m.allgatherRaw(x.p(), y.p(), L); expect_raw(c, "allgatherRaw", y, want); }
      else { T a = data<T>(c, r, 4, 1)[0]; arr<T> out = stale<T>(own); m.allgather(a, out); vector<T> w; for (int i = 0; i < n; ++i) w.push_back(data<T>(c, i, 4, 1)[0]); expect(c, "allgather", out, w); }
      break; }
    case 9: {
      vector<T> want = data<T>(c, root, 2, L);
      if (form == 0) { arr<T> x = to_arr(mine); m.bcast(x, root); expect(c, "bcast", x, want); }
      else if (form == 1) { Buf<T> x(L); for (long j = 0; j < L; ++j) x[j] = mine[j]; m.bcastRaw(x.p(), L, root); expect_raw(c, "bcastRaw", x, want); }
      else { T a = data<T>(c, r, 4, 1)[0]; m.bcast(a, root); expect<T>(c, "bcast", &a, 1, data<T>(c, root, 4, 1)); }
      break; }
    case 10: {
      long l = L % 50; vector<T> want, in = data<T>(c, r, 7, l * n); for (int i = 0; i < n; ++i) { auto d = data<T>(c, i, 7, l * n); want.insert(want.end(), d.begin() + r * l, d.begin() + (r + 1) * l); }
      if (form < 2) { arr<T> x = to_arr(in), out = stale<T>(own); m.all2all(x, out); expect(c, "all2all", out, want); expect(c, "all2all input", x, in); }
      else { Buf<T> x(l * n), y(l * n); for (long j = 0; j < l * n; ++j) x[j] = in[j]; m.all2allRaw(x.p(), y.p(), l * n); expect_raw(c, "all2allRaw", y, want); }
      if (n > 1) { arr<T> x(l * n + 1), y; x.fill(T(1)); c.S.check(throws([&] { m.all2all(x, y); }), "all2all-size", "all2all accepted a size that is no multiple of the number of ranks"); }
      break; }
    default: { // vector all-to-all: counts[i][j] from i to j
      vector<vector<int>> cnt(n, vector<int>(n)); int style = int(s.range(0, 3)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) cnt[i][j] = style == 0 ? int(s.range(0, 9)) : style == 1 ? (s.coin(0.7) ? 0 : int(s.range(1, 60))) : style == 2 ? (j == root ? int(s.range(0, 30)) : 0) : int(s.coin(0.1) ? s.range(200, 600) : 1);
      auto block = [&](int i, int j) { return data<T>(c, i, 1000 + j, cnt[i][j]); };
      vector<T> want, in; for (int i = 0; i < n; ++i) { auto d = block(i, r); want.insert(want.end(), d.begin(), d.end()); d = block(r, i); in.insert(in.end(), d.begin(), d.end()); }
      arr<int> ni(n), no; for (int i = 0; i < n; ++i) ni[i] = cnt[r][i];
      if (form == 0) {
        arr<T> x = to_arr(in), out = stale<T>(own); no = stale<int>(own); m.all2allv_easy(x, ni, out, no); expect(c, "all2allv_easy", out, want); expect(c, "all2allv_easy input", x, in);
        bool ok = int(no.size()) == n; for (int i = 0; ok && i < n; ++i) ok = no[i] == cnt[i][r]; c.S.check(ok, "wrapper-counts", "all2allv_easy returned wrong counts; " + c.what);
        arr<T> y(in.size() + 1), z; y.fill(T(1)); c.S.check(throws([&] { m.all2allv_easy(y, ni, z, no); }), "all2allv-size", "all2allv_easy accepted counts that do not add up");
      } else { // gaps between the blocks, blocks in any order
        no.alloc(n); arr<int> di(n), dz(n); vector<int> pi(n), po(n); for (int i = 0; i < n; ++i) { pi[i] = po[i] = i; no[i] = cnt[i][r]; } for (int i = n - 1; i > 0; --i) { std::swap(pi[i], pi[own.range(0, i)]); std::swap(po[i], po[own.range(0, i)]); } long ti = 0, to = 0;
        for (int i = 0; i < n; ++i) { ti += own.range(0, 3); di[pi[i]] = int(ti); ti += ni[pi[i]]; to += own.range(0, 3); dz[po[i]] = int(to); to += no[po[i]]; } ti += own.range(0, 2); to += own.range(0, 2);
        Buf<T> x(ti), y(to); vector<T> w(to, Buf<T>::mark()); for (int i = 0; i < n; ++i) { auto d = block(r, i); for (size_t j = 0; j < d.size(); ++j) x[di[i] + j] = d[j]; d = block(i, r); for (size_t j = 0; j < d.size(); ++j) w[dz[i] + j] = d[j]; }
        if (form == 1) { m.all2allvRaw((const T *)x.p(), &ni[0], &di[0], y.p(), &no[0], &dz[0]); expect_raw(c, "all2allvRaw", y, w); }
        else { arr<T> a(ti), b = stale<T>(own); for (long i = 0; i < ti; ++i) a[i] = x[i]; m.all2allv(a, ni, di, b, no, dz, tsize(to)); if (c.S.check(long(b.size()) == to, "wrapper-size", "all2allv: wrong size")) for (int i = 0; i < n; ++i) for (int j = 0; j < no[i]; ++j) if (!c.S.check(same(b[dz[i] + j], w[dz[i] + j]), "wrapper-value", strf("all2allv<%s> on rank %d of %d: element %d from rank %d; ", tname<T>(), r, n, j, i) + c.what)) return; }
      }
    }
  }
}
static void shares(Sub &S, Rng &q, const MPI_Manager &m) {
  int64 glo = q.coin() ? 0 : q.range(-1000, 1000) * (q.coin(0.2) ? 1000000000000ll : 1), nw = q.coin(0.2) ? q.range(0, 3) : q.coin(0.8) ? q.range(0, 500) : q.range(0, 1l << 60), ghi = glo + nw, ns = q.coin(0.2) ? 1 : q.range(1, 40);
  int64 at = glo; for (int64 k = 0; k < ns; ++k) { int64 lo, hi; calcShareGeneral(glo, ghi, ns, k, lo, hi); if (!S.check(lo == at && hi >= lo && (hi - lo == nw / ns || hi - lo == nw / ns + 1), "share", strf("part %ld of %ld of [%ld, %ld) is [%ld, %ld), expected to begin at %ld", long(k), long(ns), long(glo), long(ghi), long(lo), long(hi), long(at)))) return; at = hi; }
  S.check(at == ghi, "share-incomplete", strf("%ld parts of [%ld, %ld) end at %ld", long(ns), long(glo), long(ghi), long(at)));
  int64 lo, hi, lo2, hi2; m.calcShare(glo, ghi, lo, hi); calcShareGeneral(glo, ghi, m.num_ranks(), m.rank(), lo2, hi2); S.check(lo == lo2 && hi == hi2, "share-of-rank", "calcShare differs from calcShareGeneral");
  int64 alo, ahi; arr<int64> los, his; m.allgather(lo, los); m.allgather(hi, his); alo = glo; ahi = ghi; for (int i = 0; i < m.num_ranks(); ++i) { S.check(los[i] == alo && his[i] >= los[i], "share-of-rank", "the parts of the ranks are not contiguous"); alo = his[i]; } S.check(alo == ahi, "share-of-rank", "the parts of the ranks are incomplete");
  { // threads of a team
    vector<int64> tl(64, -1), th(64, -1); int team = 0;
#pragma omp parallel
    {
      int64 a, b; openmp_calc_share(glo, ghi, a, b);
#pragma omp critical
      { tl[openmp_thread_num()] = a; th[openmp_thread_num()] = b; team = openmp_num_threads(); }
    }
    int64 z = glo; for (int i = 0; i < team; ++i) { S.check(tl[i] == z && th[i] >= z, "share-of-thread", strf("thread %d of %d", i, team)); z = th[i]; } S.check(z == ghi, "share-of-thread", "incomplete");
  }
  uint64 full = uint64(q.coin(0.7) ? q.range(1, 300) : q.range(1, 1l << 50)), ch = uint64(q.coin(0.2) ? 1 + full + q.range(0, 3) - (full > 1) : full > 1000 ? full / uint64(q.range(1, 50)) + uint64(q.range(1, 5)) : uint64(q.range(1, 40)));
  chunkMaker cm(full, ch); uint64 st, sz, pos = 0, k = 0; while (cm.getNext(st, sz)) { if (!S.check(st == pos && sz > 0 && sz <= ch && (sz == ch || st + sz == full), "chunk", strf("chunk %lu of %lu items by %lu starts at %lu with %lu items", (unsigned long)k, (unsigned long)full, (unsigned long)ch, (unsigned long)st, (unsigned long)sz))) return; pos += sz; ++k; }
  S.check(pos == full && k == cm.nchunks() && !cm.getNext(st, sz), "chunk-count", strf("%lu chunks of %lu, announced %lu", (unsigned long)k, (unsigned long)full, (unsigned long)cm.nchunks()));
  S.count("ranges_shared", 3);
}
template <class T> static void unsupported(Sub &S, const MPI_Manager &m, int kind) {
  T a = T(1), b = T(0); arr<T> x(2 * m.num_ranks()), y; x.fill(T(1)); int self = m.rank();
  bool t = throws([&] { switch (kind) { case 0: m.bcast(a); break; case 1: m.allreduce(a, b, MPI_Manager::Max); break; case 2: m.allgather(x, y); break; case 3: m.sendrecv(a, self, b, self); break; case 4: m.gatherv(x, y); break; default: m.all2all(x, y); } });
  S.check(t, "unsupported-type-accepted", strf("operation %d with %s", kind, tname<T>()));
}
static void aliased(Sub &S, const MPI_Manager &m, int kind) { // one buffer given as source and as destination
  int n = m.num_ranks(); vector<double> x(2 * n, 1.); vector<int> one(n, 1), at(n); for (int i = 0; i < n; ++i) at[i] = i;
  bool t = throws([&] { switch (kind) { case 0: m.allreduceRaw(x.data(), x.data(), n, MPI_Manager::Sum); break; case 1: m.allgatherRaw(x.data(), x.data(), 1); break; case 2: m.all2allRaw(x.data(), x.data(), n); break; case 3: m.all2allvRaw(x.data(), one.data(), at.data(), x.data(), one.data(), at.data()); break; default: m.reduceRaw(x.data(), x.data(), n, MPI_Manager::Max); } });
  S.check(t, "aliased-buffers-accepted", strf("operation %d", kind)); for (double v : x) if (!S.check(v == 1, "aliased-buffer-changed", strf("operation %d", kind))) break; S.count("aliased_refused");
}
static void c16(long, Rng &g) {
  simmpi::Options o; o.nranks = int(g.coin(0.15) ? 1 : g.coin(0.8) ? g.range(2, 6) : g.range(7, 12)); o.seed = g.u64(); o.delay = int(g.range(0, 2)); o.sync_send = g.coin(); o.uninitialised = g.coin(0.25); uint64_t sd = g.u64(); int nops = int(g.range(8, opt_tier ? 80 : 30)); int layout = int(g.range(0, 4));
  string what = strf("%d ranks, %d operations, communicators of layout %d, delays %d%s, seed %llx", o.nranks, nops, layout, o.delay, (string(o.sync_send ? ", synchronous sends" : "") + (o.uninitialised ? ", not initialised" : "")).c_str(), (unsigned long long)sd);
  R.eval(what, o.nranks > 1);
  run_subs(what, o, [&](int rank, Sub &S) {
    Rng q(sd); // shared: all ranks draw the same decisions
    if (o.uninitialised) { MPI_Manager first; int f = 0; MPI_Initialized(&f); S.check(f && first.rank() == rank && first.num_ranks() == o.nranks, "manager-initialises", what); S.count("initialisations"); if (!f) return; }
    MPI_Comm dup, split; MPI_Comm_dup(MPI_COMM_WORLD, &dup); int colour = layout == 0 ? 0 : layout == 1 ? rank % 2 : layout == 2 ? rank / 2 : layout == 3 ? rank : 0, key = layout == 4 ? -rank : layout == 1 ? (rank * 7) % 5 : rank; MPI_Comm_split(MPI_COMM_WORLD, colour, key, &split);
    int srank, ssize; MPI_Comm_rank(split, &srank); MPI_Comm_size(split, &ssize);
    MPI_Manager world, d(dup), sp(split), self(MPI_COMM_SELF), copy(d); const MPI_Manager *mm[] = {&world, &d, &sp, &self, &copy};
    S.check(world.rank() == rank && world.num_ranks() == o.nranks && world.master() == (rank == 0) && sp.rank() == srank && sp.num_ranks() == ssize && self.num_ranks() == 1 && self.master() && sp.comm() == split, "manager-rank", what);
    for (int i = 0; i < nops; ++i) {
      int wh = int(q.range(0, 4)), kind = int(q.range(0, 12)), type = int(q.range(0, 9)); uint64_t os = q.u64(); const MPI_Manager &m = *mm[wh]; string w = strf("operation %d kind %d on communicator %d, ", i, kind, wh) + what;
      if (wh == 2) os += 7777 * colour; if (wh == 3) os += 7777 * rank;
      Ctx c{S, m, os, m.num_ranks(), m.rank(), w}; S.count("operations");
      if (kind == 12) { Rng u(os); if (u.coin()) m.barrier(); else { double t = world.Wtime(); shares(S, u, m); S.check(world.Wtime() >= t, "time", "time runs backwards"); } if (u.coin(0.2)) aliased(S, m, int(u.range(0, 4))); if (u.coin(0.3)) { int k = int(u.range(0, 5)); if (k == 4) k = 0; switch (u.range(0, 4)) { case 0: unsupported<short>(S, m, k); break; case 1: unsupported<unsigned short>(S, m, k); break; case 2: unsupported<unsigned char>(S, m, k); break; case 3: unsupported<signed char>(S, m, k); break; default: unsupported<bool>(S, m, k == 1 ? 0 : k); } S.count("unsupported_types"); } continue; }
      switch (type) {
        case 0: ops<char, false>(c, kind); break; case 1: ops<int, true>(c, kind); break; case 2: ops<unsigned int, true>(c, kind); break; case 3: ops<long, true>(c, kind); break; case 4: ops<unsigned long, true>(c, kind); break;
        case 5: ops<long long, true>(c, kind); break; case 6: ops<unsigned long long, true>(c, kind); break; case 7: ops<float, true>(c, kind); break; case 8: ops<double, true>(c, kind); break; default: ops<long double, true>(c, kind); }
    }
    MPI_Comm_free(&split); MPI_Comm_free(&dup);
  });
}
static AddPart p1("c16.wrappers", [] { return opt_tier ? 20000L : 2000L; }, c16);
