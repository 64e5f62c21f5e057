#include "mpi.h"
#include "simmpi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cmath>
#include <ctime>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <cxxabi.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>

using simmpi::MAXR;

struct simmpi_comm_s { int id; int size; int rank; int freed; };
struct simmpi_comm_s simmpi_world_ = {0, 1, 0, 0}, simmpi_self_ = {1, 1, 0, 0};
struct simmpi_req_s { int kind; int done; void *buf; int count; MPI_Datatype dt; int src, tag; MPI_Comm comm; long msgid; MPI_Status st; };

namespace {

// memcheck keeps state for every mapped byte, so its runs use small areas
const size_t SCALE = getenv("VERIF_SMALL") ? 64 : 1, ARENA = (size_t(512) << 20) / SCALE, OUTSZ = (size_t(256) << 20) / SCALE, MSGHEAP = (size_t(128) << 20) / SCALE;
const int FATAL_EXIT = 70, EXC_EXIT = 71, HARNESS_EXIT = 72, SAN_EXIT = 66;
enum { NCOMM = 128, NMSG = 2048 };
enum Kind { K_NONE, K_BARRIER, K_BCAST, K_REDUCE, K_ALLREDUCE, K_SCAN, K_EXSCAN, K_RSB, K_GATHER, K_GATHERV, K_SCATTER,
  K_SCATTERV, K_ALLGATHER, K_ALLGATHERV, K_ALLTOALL, K_ALLTOALLV, K_DUP, K_SPLIT, K_FREE };
const char *kname[] = {"none","Barrier","Bcast","Reduce","Allreduce","Scan","Exscan","Reduce_scatter_block","Gather","Gatherv",
  "Scatter","Scatterv","Allgather","Allgatherv","Alltoall","Alltoallv","Comm_dup","Comm_split","Comm_free"};

struct Rec {
  int kind, root, sdt, rdt, op, color, key, newid;
  long scount[MAXR], rcount[MAXR]; // elements, per peer
  size_t soff[MAXR];               // byte offset of the part for each peer in the arena
  int sall, rall;                  // participates as sender / receiver
};
struct Slot { int size; int ranks[MAXR]; int phase, arrived, departed; int order[MAXR]; long seq; Rec rec[MAXR]; int has[MAXR]; };
struct Msg { int used, comm, src, dst, tag, dt, sync, taken; long count; size_t off, bytes; long id; };
struct Shared {
  pthread_mutex_t mu;
  uint32_t gen;
  int nranks, delay, sync_send; uint64_t seed;
  int state[MAXR]; // 0 running, 1 blocked, 2 exited
  char where[MAXR][128];
  char what[MAXR][600];
  int fatal; char fatalmsg[800];
  int ncomms;
  Slot slots[NCOMM];
  Msg msgs[NMSG]; long nextmsg; size_t heaptop; int nlive;
  uint64_t ncoll, nmsg, order_hash, nonid;
  uint64_t ncalls[MAXR], thash[MAXR];
  uint64_t progress;
  size_t outlen[MAXR];
};
Shared *G = nullptr;
char *arena_[MAXR], *out_[MAXR], *heap_ = nullptr;
int me = 0;
bool in_rank = false;
int inited = 1, finalized_ = 0;
uint64_t rngs = 88172645463325252ull;
uint64_t rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

const size_t tsz[SIMMPI_NTYPES] = {0, 1,1,1,1, 2,2, 4,4, 8,8, 8,8, 4,8,16,1, 1,2,4,8, 1,2,4,8, 16, 8, 16, 8, 8, 8};
// canonical type class for matching
int tclass(int t) {
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: return 1;
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: return 2;
    case MPI_BYTE: return 3;
    case MPI_SHORT: case MPI_INT16_T: return 4;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: return 5;
    case MPI_INT: case MPI_INT32_T: return 6;
    case MPI_UNSIGNED: case MPI_UINT32_T: return 7;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: return 8;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: return 9;
    default: return 100 + t;
  }
}
bool tmatch(int a, int b) { return tclass(a) == tclass(b); }

void fwait(uint32_t *p, uint32_t v) {
  struct timespec ts = {2, 0};
  syscall(SYS_futex, p, FUTEX_WAIT, v, &ts, nullptr, 0);
}
void fwake(uint32_t *p) { syscall(SYS_futex, p, FUTEX_WAKE, 1 << 30, nullptr, nullptr, 0); }
void lock() { int e = pthread_mutex_lock(&G->mu); if (e == EOWNERDEAD) pthread_mutex_consistent(&G->mu); }
void unlock() { pthread_mutex_unlock(&G->mu); }
void wakeall() {
  for (int i = 0; i < G->nranks; ++i) if (G->state[i] == 1) G->state[i] = 0;
  ++G->progress;
  __atomic_add_fetch(&G->gen, 1, __ATOMIC_SEQ_CST);
  fwake(&G->gen);
}
[[noreturn]] void die_locked() { unlock(); _exit(FATAL_EXIT); }
void set_fatal(int kind, const char *msg) {
  if (!G->fatal) { G->fatal = kind; snprintf(G->fatalmsg, sizeof G->fatalmsg, "%s", msg); }
  wakeall();
}
bool check_stuck() { // all ranks blocked or exited, at least one blocked
  int nb = 0, nx = 0;
  for (int i = 0; i < G->nranks; ++i) { if (G->state[i] == 0) return false; if (G->state[i] == 1) ++nb; else ++nx; }
  if (!nb) return false;
  char b[780]; int n = 0; b[0] = 0;
  for (int i = 0; i < G->nranks && n < 700; ++i)
    n += snprintf(b + n, sizeof b - n, "[%d] %s; ", i, G->state[i] == 2 ? "exited" : G->where[i]);
  set_fatal(nx ? 4 : 1, b);
  return true;
}
template <class P> void wait_until(P pred) {
  while (!pred()) {
    if (G->fatal) die_locked();
    G->state[me] = 1;
    if (check_stuck()) die_locked();
    uint32_t g = __atomic_load_n(&G->gen, __ATOMIC_SEQ_CST);
    unlock();
    while (__atomic_load_n(&G->gen, __ATOMIC_SEQ_CST) == g) fwait(&G->gen, g);
    lock();
    G->state[me] = 0;
  }
  if (G->fatal) die_locked();
}
[[noreturn]] void usage(const char *fn, const char *msg) {
  char b[600]; snprintf(b, sizeof b, "rank %d %s: %s", me, fn, msg);
  lock(); set_fatal(3, b); die_locked();
}
[[noreturn]] void harness(const char *msg) {
  lock(); set_fatal(5, msg); die_locked();
}
void perturb() {
  if (!in_rank || !G->delay) return;
  if (G->delay == 1) { uint64_t r = rnd(); if ((r & 3) == 0) usleep((r >> 8) % 300); else if ((r & 3) == 1) sched_yield(); }
  else if (G->delay == 2) { if (int(G->seed % G->nranks) == me) usleep(400); }
}
void note(const char *fn, int kind, long a) {
  snprintf(G->where[me], sizeof G->where[me], "%s(%ld)", fn, a);
  ++G->ncalls[me];
  uint64_t h = G->thash[me]; h ^= uint64_t(kind) * 0x9E3779B97F4A7C15ull + uint64_t(a); h *= 0x100000001b3ull; G->thash[me] = h;
}
bool chkcomm(MPI_Comm c, const char *fn) {
  if (!c || c == (MPI_Comm)1) usage(fn, "invalid communicator");
  if (c->freed) usage(fn, "freed communicator");
  if (!inited) usage(fn, "call before initialisation");
  if (finalized_) usage(fn, "call after finalize");
  return true;
}
void chktype(int t, const char *fn) { if (t <= 0 || t >= SIMMPI_NTYPES) usage(fn, "invalid datatype"); }
void chkcount(long n, const char *fn) { if (n < 0) usage(fn, "negative count"); }
void chkbuf(const void *p, long bytes, const char *fn) { if (bytes > 0 && !p) usage(fn, "null buffer with nonzero count"); }
void chkalias(const void *a, size_t na, const void *b, size_t nb, const char *fn) {
  if (!na || !nb || !a || !b) return;
  const char *x = (const char *)a, *y = (const char *)b;
  if (x < y + nb && y < x + na) usage(fn, "send and receive buffers overlap");
}

// A collective: fill is called to stage data before arrival, done after all arrived.
Slot *enter(MPI_Comm c, Rec &my, const char *fn, long sz) {
  perturb();
  lock();
  if (G->fatal) die_locked();
  Slot &s = G->slots[c->id];
  note(fn, my.kind, sz);
  int r = c->rank;
  wait_until([&] { return s.phase == 0; });
  s.rec[r] = my; s.order[s.arrived] = r; s.has[r] = 1;
  ++s.arrived;
  if (s.arrived < s.size) {
    // early mismatch detection: compare with anyone who already arrived
    for (int i = 0; i < s.size; ++i)
      if (s.has[i] && i != r) {
        Rec &o = s.rec[i];
        if (o.kind != my.kind) { char b[300]; snprintf(b, sizeof b, "rank %d calls %s while rank %d calls %s", r, kname[my.kind], i, kname[o.kind]); set_fatal(2, b); die_locked(); }
      }
    long myseq = s.seq;
    wakeall();
    wait_until([&] { return s.phase == 1 && s.seq == myseq; });
  } else {
    char b[400]; b[0] = 0;
    for (int i = 0; i < s.size && !b[0]; ++i) {
      Rec &a = s.rec[0], &o = s.rec[i];
      if (o.kind != a.kind) { snprintf(b, sizeof b, "rank %d calls %s while rank %d calls %s", i, kname[o.kind], 0, kname[a.kind]); break; }
      if (o.root != a.root) { snprintf(b, sizeof b, "%s: root %d on rank %d, %d on rank 0", kname[a.kind], o.root, i, a.root); break; }
      if (o.op != a.op) { snprintf(b, sizeof b, "%s: different reduction operations", kname[a.kind]); break; }
      for (int j = 0; j < s.size && !b[0]; ++j) {
        Rec &p = s.rec[j];
        // what i sends to j against what j expects from i
        if (o.sall && p.rall && (o.scount[j] * (long)tsz[o.sdt] != p.rcount[i] * (long)tsz[p.rdt] || (o.scount[j] && !tmatch(o.sdt, p.rdt))))
          snprintf(b, sizeof b, "%s: rank %d sends %ld (type %d) to rank %d which expects %ld (type %d)", kname[a.kind], i, o.scount[j], o.sdt, j, p.rcount[i], p.rdt);
      }
    }
    if (b[0]) { set_fatal(2, b); die_locked(); }
    ++G->ncoll;
    uint64_t h = G->order_hash; bool id = true;
    for (int i = 0; i < s.size; ++i) { h = (h ^ (s.order[i] + 1)) * 0x100000001b3ull; if (s.order[i] != i) id = false; }
    G->order_hash = h; if (!id) ++G->nonid;
    s.phase = 1; s.departed = 0;
    wakeall();
  }
  unlock();
  return &s;
}
void leave(MPI_Comm c, Slot *s) {
  lock();
  ++s->departed;
  long q = s->seq;
  if (s->departed == s->size) { s->arrived = 0; s->phase = 0; ++s->seq; memset(s->has, 0, sizeof s->has); wakeall(); }
  else wait_until([&] { return s->seq != q; });
  unlock();
}
char *ar(Slot *s, int r) { return arena_[s->ranks[r]]; }
char *myar() { return arena_[me]; }
void fit(size_t n) { if (n > ARENA) harness("simmpi arena exhausted"); }
Rec mk(int kind) { Rec r; memset(&r, 0, sizeof r); r.kind = kind; return r; }

template <class T> void red1(T *a, const T *b, long n, int op) {
  for (long i = 0; i < n; ++i) switch (op) {
    case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
    case MPI_SUM: a[i] = T(a[i] + b[i]); break;
    case MPI_PROD: a[i] = T(a[i] * b[i]); break;
    case MPI_LAND: a[i] = a[i] && b[i]; break;
    case MPI_LOR: a[i] = a[i] || b[i]; break;
    case MPI_LXOR: a[i] = T((!a[i]) != (!b[i])); break;
    default: break; }
}
template <class T> void red2(T *a, const T *b, long n, int op) {
  switch (op) {
    case MPI_BAND: for (long i = 0; i < n; ++i) a[i] = T(a[i] & b[i]); break;
    case MPI_BOR: for (long i = 0; i < n; ++i) a[i] = T(a[i] | b[i]); break;
    case MPI_BXOR: for (long i = 0; i < n; ++i) a[i] = T(a[i] ^ b[i]); break;
    // unsigned arithmetic for sums so that the monitor itself has no overflow
    default: red1(a, b, n, op); }
}
void reduce(void *a, const void *b, long n, int dt, int op, const char *fn) {
  switch (dt) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: red2((signed char *)a, (const signed char *)b, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_BYTE: red2((unsigned char *)a, (const unsigned char *)b, n, op); break;
    case MPI_SHORT: case MPI_INT16_T: red2((short *)a, (const short *)b, n, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: red2((unsigned short *)a, (const unsigned short *)b, n, op); break;
    case MPI_INT: case MPI_INT32_T: red2((int *)a, (const int *)b, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: red2((unsigned *)a, (const unsigned *)b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: red2((long *)a, (const long *)b, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red2((unsigned long *)a, (const unsigned long *)b, n, op); break;
    case MPI_FLOAT: red1((float *)a, (const float *)b, n, op); break;
    case MPI_DOUBLE: red1((double *)a, (const double *)b, n, op); break;
    case MPI_LONG_DOUBLE: red1((long double *)a, (const long double *)b, n, op); break;
    case MPI_C_BOOL: red1((bool *)a, (const bool *)b, n, op); break;
    default: usage(fn, "reduction on an unsupported datatype");
  }
  if ((op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR) && (dt == MPI_FLOAT || dt == MPI_DOUBLE || dt == MPI_LONG_DOUBLE)) usage(fn, "bitwise reduction on floating point");
  if (op <= 0 || op > MPI_BXOR) usage(fn, "unsupported reduction operation");
}

} // namespace

extern "C" {

int MPI_Init(int *, char ***) { if (inited || finalized_) usage("MPI_Init", "called a second time"); inited = 1; return 0; }
int MPI_Init_thread(int *, char ***, int, int *p) { if (inited || finalized_) usage("MPI_Init_thread", "called a second time"); inited = 1; if (p) *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Finalize(void) { if (!inited || finalized_) usage("MPI_Finalize", "not initialised"); finalized_ = 1; return 0; }
int MPI_Initialized(int *f) { *f = inited; return 0; }
int MPI_Finalized(int *f) { *f = finalized_; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Is_thread_main(int *f) { *f = 1; return 0; }
int MPI_Abort(MPI_Comm, int code) {
  char b[100]; snprintf(b, sizeof b, "rank %d called MPI_Abort(%d)", me, code);
  lock(); set_fatal(3, b); die_locked();
}
double MPI_Wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "error %d", e); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { chkcomm(c, "MPI_Comm_size"); *n = c->size; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *n) { chkcomm(c, "MPI_Comm_rank"); *n = c->rank; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = a == b ? MPI_IDENT : (a->size == b->size ? MPI_CONGRUENT : MPI_UNEQUAL); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler) { chkcomm(c, "MPI_Comm_set_errhandler"); return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { chktype(t, "MPI_Type_size"); *s = tsz[t]; return 0; }

int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
  chkcomm(c, "MPI_Comm_split");
  Rec my = mk(K_SPLIT); my.color = color; my.key = key;
  Slot *s = enter(c, my, "MPI_Comm_split", color);
  // order members by (key, rank); every rank computes the same lists
  int members[MAXR], n = 0, myr = -1;
  for (int k = 0; k < s->size; ++k) if (s->rec[k].color == color) members[n++] = k;
  for (int i = 1; i < n; ++i) for (int j = i; j > 0 && s->rec[members[j]].key < s->rec[members[j - 1]].key; --j) std::swap(members[j], members[j - 1]);
  MPI_Comm nc = MPI_COMM_NULL;
  if (color != MPI_UNDEFINED) {
    for (int i = 0; i < n; ++i) if (members[i] == c->rank) myr = i;
    lock();
    if (myr == 0) {
      if (G->ncomms >= NCOMM) { unlock(); harness("too many communicators"); }
      int id = G->ncomms++;
      Slot &t = G->slots[id]; memset(&t, 0, sizeof t); t.size = n;
      for (int i = 0; i < n; ++i) t.ranks[i] = s->ranks[members[i]];
      s->rec[c->rank].newid = id + 1;
      wakeall();
    } else wait_until([&] { return s->rec[members[0]].newid != 0; });
    int id = s->rec[members[0]].newid - 1;
    unlock();
    nc = new simmpi_comm_s{id, n, myr, 0};
  }
  leave(c, s);
  *out = nc;
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { return MPI_Comm_split(c, 0, c->rank, out); }
int MPI_Comm_free(MPI_Comm *c) { chkcomm(*c, "MPI_Comm_free"); if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) usage("MPI_Comm_free", "predefined communicator");
  Rec my = mk(K_FREE); MPI_Comm cc = *c; Slot *s = enter(cc, my, "MPI_Comm_free", 0); leave(cc, s); cc->freed = 1; delete cc; *c = MPI_COMM_NULL; return 0; }

int MPI_Barrier(MPI_Comm c) { chkcomm(c, "MPI_Barrier"); Rec my = mk(K_BARRIER); Slot *s = enter(c, my, "MPI_Barrier", 0); leave(c, s); return 0; }

int MPI_Bcast(void *buf, int n, MPI_Datatype dt, int root, MPI_Comm c) {
  const char *fn = "MPI_Bcast"; chkcomm(c, fn); chktype(dt, fn); chkcount(n, fn); chkbuf(buf, n, fn);
  if (root < 0 || root >= c->size) usage(fn, "invalid root");
  Rec my = mk(K_BCAST); my.root = root; my.sdt = my.rdt = dt;
  my.sall = c->rank == root; my.rall = 1;
  size_t bytes = n * tsz[dt]; fit(bytes);
  if (c->rank == root) { for (int i = 0; i < c->size; ++i) my.scount[i] = n; if (bytes) memcpy(myar(), buf, bytes); }
  my.rcount[root] = n;
  Slot *s = enter(c, my, fn, n);
  if (c->rank != root && bytes) memcpy(buf, ar(s, root), bytes);
  leave(c, s); return 0;
}

static int redgen(int kind, const char *fn, const void *in, void *out, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c) {
  chkcomm(c, fn); chktype(dt, fn); chkcount(n, fn);
  if (root < 0 || root >= c->size) usage(fn, "invalid root");
  bool recv = kind != K_REDUCE || c->rank == root;
  size_t el = tsz[dt], bytes = n * el, total = kind == K_RSB ? bytes * c->size : bytes;
  const void *src = in;
  if (in == MPI_IN_PLACE) { if (!recv) usage(fn, "MPI_IN_PLACE on non-root"); src = out; }
  else if (recv) chkalias(in, total, out, bytes, fn);
  chkbuf(src, n, fn); if (recv) chkbuf(out, n, fn);
  Rec my = mk(kind); my.root = root; my.op = op; my.sdt = my.rdt = dt; my.sall = my.rall = 1;
  for (int i = 0; i < c->size; ++i) my.scount[i] = my.rcount[i] = n;
  fit(2 * total);
  if (total) memcpy(myar(), src, total);
  Slot *s = enter(c, my, fn, n);
  if (recv && n > 0) {
    size_t off = kind == K_RSB ? bytes * c->rank : 0;
    int first = 0, last = c->size;
    if (kind == K_SCAN) last = c->rank + 1;
    if (kind == K_EXSCAN) last = c->rank;
    if (last > first) {
      int cnt = last - first, rot = (kind == K_SCAN || kind == K_EXSCAN) ? 0 : int(G->seed % cnt);
      char *tmp = (char *)malloc(bytes);
      memcpy(tmp, ar(s, first + rot) + off, bytes);
      for (int k = 1; k < cnt; ++k) reduce(tmp, ar(s, first + (rot + k) % cnt) + off, n, dt, op, fn);
      memcpy(out, tmp, bytes);
      free(tmp);
    }
  }
  leave(c, s); return 0;
}
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o, int r, MPI_Comm c) { return redgen(K_REDUCE, "MPI_Reduce", a, b, n, d, o, r, c); }
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return redgen(K_ALLREDUCE, "MPI_Allreduce", a, b, n, d, o, 0, c); }
int MPI_Scan(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return redgen(K_SCAN, "MPI_Scan", a, b, n, d, o, 0, c); }
int MPI_Exscan(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return redgen(K_EXSCAN, "MPI_Exscan", a, b, n, d, o, 0, c); }
int MPI_Reduce_scatter_block(const void *a, void *b, int n, MPI_Datatype d, MPI_Op o, MPI_Comm c) { return redgen(K_RSB, "MPI_Reduce_scatter_block", a, b, n, d, o, 0, c); }

// General exchange: every rank may send scnt[j] elements at sdis[j] to j and receive rcnt[j] at rdis[j] from j.
static int xchg(int kind, const char *fn, int root, bool sends, const void *sb, const long *scnt, const long *sdis, MPI_Datatype sdt,
                bool recvs, void *rb, const long *rcnt, const long *rdis, MPI_Datatype rdt, MPI_Comm c, bool inplace_self) {
  int n = c->size;
  Rec my = mk(kind); my.root = root; my.sdt = sends ? sdt : MPI_BYTE; my.rdt = recvs ? rdt : MPI_BYTE; my.sall = sends; my.rall = recvs;
  size_t off = 0; long tot = 0;
  if (sends) {
    chktype(sdt, fn);
    for (int j = 0; j < n; ++j) {
      chkcount(scnt[j], fn); chkbuf(sb, scnt[j], fn);
      size_t b = scnt[j] * tsz[sdt]; fit(off + b);
      my.scount[j] = scnt[j]; my.soff[j] = off;
      if (b) memcpy(myar() + off, (const char *)sb + sdis[j] * (long)tsz[sdt], b);
      off += (b + 15) & ~size_t(15); tot += scnt[j];
    }
  }
  if (recvs) {
    chktype(rdt, fn);
    for (int j = 0; j < n; ++j) { chkcount(rcnt[j], fn); chkbuf(rb, rcnt[j], fn); my.rcount[j] = rcnt[j]; }
    // receive areas must not overlap each other
    for (int j = 0; j < n; ++j) for (int k = 0; k < j; ++k)
      if (rcnt[j] && rcnt[k] && rdis[j] < rdis[k] + rcnt[k] && rdis[k] < rdis[j] + rcnt[j]) usage(fn, "overlapping receive areas");
  }
  Slot *s = enter(c, my, fn, tot);
  if (recvs) for (int j = 0; j < n; ++j) if (rcnt[j]) {
    if (!s->rec[j].sall) continue;
    if (inplace_self && j == c->rank) continue;
    memcpy((char *)rb + rdis[j] * (long)tsz[rdt], ar(s, j) + s->rec[j].soff[c->rank], rcnt[j] * tsz[rdt]);
  }
  leave(c, s);
  return 0;
}
struct L { long v[MAXR]; L() { memset(v, 0, sizeof v); } };

int MPI_Gather(const void *sb, int sn, MPI_Datatype sdt, void *rb, int rn, MPI_Datatype rdt, int root, MPI_Comm c) {
  const char *fn = "MPI_Gather"; chkcomm(c, fn); if (root < 0 || root >= c->size) usage(fn, "invalid root");
  L sc, sd, rc, rd; bool isroot = c->rank == root, ip = sb == MPI_IN_PLACE;
  if (ip && !isroot) usage(fn, "MPI_IN_PLACE on non-root");
  if (ip) { sb = (char *)rb + (long)root * rn * (long)tsz[rdt]; sn = rn; sdt = rdt; }
  else if (isroot) chkalias(sb, sn * tsz[sdt], rb, (size_t)rn * c->size * tsz[rdt], fn);
  sc.v[root] = sn;
  if (isroot) for (int j = 0; j < c->size; ++j) { rc.v[j] = rn; rd.v[j] = (long)j * rn; }
  Rec dummy; (void)dummy;
  return xchg(K_GATHER, fn, root, true, sb, sc.v, sd.v, sdt, isroot, rb, rc.v, rd.v, rdt, c, ip);
}
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype sdt, void *rb, const int *rcn, const int *rdi, MPI_Datatype rdt, int root, MPI_Comm c) {
  const char *fn = "MPI_Gatherv"; chkcomm(c, fn); if (root < 0 || root >= c->size) usage(fn, "invalid root");
  L sc, sd, rc, rd; bool isroot = c->rank == root, ip = sb == MPI_IN_PLACE;
  if (isroot) for (int j = 0; j < c->size; ++j) { rc.v[j] = rcn[j]; rd.v[j] = rdi[j]; }
  if (ip) { if (!isroot) usage(fn, "MPI_IN_PLACE on non-root"); sb = (char *)rb + rdi[root] * (long)tsz[rdt]; sn = rcn[root]; sdt = rdt; }
  sc.v[root] = sn;
  return xchg(K_GATHERV, fn, root, true, sb, sc.v, sd.v, sdt, isroot, rb, rc.v, rd.v, rdt, c, ip);
}
int MPI_Scatter(const void *sb, int sn, MPI_Datatype sdt, void *rb, int rn, MPI_Datatype rdt, int root, MPI_Comm c) {
  const char *fn = "MPI_Scatter"; chkcomm(c, fn); if (root < 0 || root >= c->size) usage(fn, "invalid root");
  L sc, sd, rc, rd; bool isroot = c->rank == root, ip = rb == MPI_IN_PLACE;
  if (isroot) for (int j = 0; j < c->size; ++j) { sc.v[j] = sn; sd.v[j] = (long)j * sn; }
  if (ip) { rn = sn; rdt = sdt; rb = (char *)sb + (long)root * sn * (long)tsz[sdt]; }
  rc.v[root] = rn;
  return xchg(K_SCATTER, fn, root, isroot, sb, sc.v, sd.v, sdt, true, rb, rc.v, rd.v, rdt, c, ip);
}
int MPI_Scatterv(const void *sb, const int *scn, const int *sdi, MPI_Datatype sdt, void *rb, int rn, MPI_Datatype rdt, int root, MPI_Comm c) {
  const char *fn = "MPI_Scatterv"; chkcomm(c, fn); if (root < 0 || root >= c->size) usage(fn, "invalid root");
  L sc, sd, rc, rd; bool isroot = c->rank == root, ip = rb == MPI_IN_PLACE;
  if (isroot) for (int j = 0; j < c->size; ++j) { sc.v[j] = scn[j]; sd.v[j] = sdi[j]; }
  if (ip) { rn = scn[root]; rdt = sdt; rb = (char *)sb + sdi[root] * (long)tsz[sdt]; }
  rc.v[root] = rn;
  return xchg(K_SCATTERV, fn, root, isroot, sb, sc.v, sd.v, sdt, true, rb, rc.v, rd.v, rdt, c, ip);
}
int MPI_Allgather(const void *sb, int sn, MPI_Datatype sdt, void *rb, int rn, MPI_Datatype rdt, MPI_Comm c) {
  const char *fn = "MPI_Allgather"; chkcomm(c, fn); L sc, sd, rc, rd; bool ip = sb == MPI_IN_PLACE;
  if (ip) { sb = (char *)rb + (long)c->rank * rn * (long)tsz[rdt]; sn = rn; sdt = rdt; }
  else { chktype(sdt, fn); chktype(rdt, fn); chkalias(sb, sn * tsz[sdt], rb, (size_t)rn * c->size * tsz[rdt], fn); }
  for (int j = 0; j < c->size; ++j) { sc.v[j] = sn; rc.v[j] = rn; rd.v[j] = (long)j * rn; }
  return xchg(K_ALLGATHER, fn, 0, true, sb, sc.v, sd.v, sdt, true, rb, rc.v, rd.v, rdt, c, ip);
}
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype sdt, void *rb, const int *rcn, const int *rdi, MPI_Datatype rdt, MPI_Comm c) {
  const char *fn = "MPI_Allgatherv"; chkcomm(c, fn); L sc, sd, rc, rd; bool ip = sb == MPI_IN_PLACE;
  for (int j = 0; j < c->size; ++j) { rc.v[j] = rcn[j]; rd.v[j] = rdi[j]; }
  if (ip) { sb = (char *)rb + rdi[c->rank] * (long)tsz[rdt]; sn = rcn[c->rank]; sdt = rdt; }
  for (int j = 0; j < c->size; ++j) sc.v[j] = sn;
  return xchg(K_ALLGATHERV, fn, 0, true, sb, sc.v, sd.v, sdt, true, rb, rc.v, rd.v, rdt, c, ip);
}
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype sdt, void *rb, int rn, MPI_Datatype rdt, MPI_Comm c) {
  const char *fn = "MPI_Alltoall"; chkcomm(c, fn); L sc, sd, rc, rd; bool ip = sb == MPI_IN_PLACE;
  if (ip) { sb = rb; sn = rn; sdt = rdt; } else chkalias(sb, (size_t)sn * c->size * tsz[sdt], rb, (size_t)rn * c->size * tsz[rdt], fn);
  for (int j = 0; j < c->size; ++j) { sc.v[j] = sn; sd.v[j] = (long)j * sn; rc.v[j] = rn; rd.v[j] = (long)j * rn; }
  return xchg(K_ALLTOALL, fn, 0, true, sb, sc.v, sd.v, sdt, true, rb, rc.v, rd.v, rdt, c, false);
}
int MPI_Alltoallv(const void *sb, const int *scn, const int *sdi, MPI_Datatype sdt, void *rb, const int *rcn, const int *rdi, MPI_Datatype rdt, MPI_Comm c) {
  const char *fn = "MPI_Alltoallv"; chkcomm(c, fn); L sc, sd, rc, rd; bool ip = sb == MPI_IN_PLACE;
  if (ip) { sb = rb; scn = rcn; sdi = rdi; sdt = rdt; }
  for (int j = 0; j < c->size; ++j) { sc.v[j] = scn[j]; sd.v[j] = sdi[j]; rc.v[j] = rcn[j]; rd.v[j] = rdi[j]; }
  return xchg(K_ALLTOALLV, fn, 0, true, sb, sc.v, sd.v, sdt, true, rb, rc.v, rd.v, rdt, c, false);
}

// ---- point to point ----
static long post(const void *b, long n, int dt, int dst, int tag, MPI_Comm c, int sync, const char *fn) {
  chkcomm(c, fn); chktype(dt, fn); chkcount(n, fn); chkbuf(b, n, fn);
  if (dst == MPI_PROC_NULL) return -1;
  if (dst < 0 || dst >= c->size) usage(fn, "invalid destination rank");
  if (tag < 0) usage(fn, "invalid tag");
  perturb();
  lock();
  if (G->fatal) die_locked();
  note(fn, 50, n);
  if (G->nlive == 0) G->heaptop = 0;
  size_t bytes = n * tsz[dt], off = G->heaptop;
  int k = -1;
  for (int i = 0; i < NMSG; ++i) if (!G->msgs[i].used) { k = i; break; }
  if (k < 0 || off + bytes > MSGHEAP) { unlock(); harness("message store exhausted"); }
  if (bytes) memcpy(heap_ + off, b, bytes);
  G->heaptop += (bytes + 15) & ~size_t(15);
  Msg &m = G->msgs[k]; m.used = 1; m.comm = c->id; m.src = c->rank; m.dst = dst; m.tag = tag; m.dt = dt; m.count = n; m.off = off; m.bytes = bytes; m.sync = sync; m.taken = 0; m.id = ++G->nextmsg;
  ++G->nlive; ++G->nmsg;
  long id = m.id;
  wakeall();
  unlock();
  return id;
}
static Msg *findmsg(MPI_Comm c, int src, int tag) {
  Msg *best = nullptr;
  for (int i = 0; i < NMSG; ++i) { Msg &m = G->msgs[i];
    if (m.used && !m.taken && m.comm == c->id && m.dst == c->rank && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag))
      if (!best || m.id < best->id) best = &m; }
  return best;
}
static void wait_taken(long id) {
  if (id < 0) return;
  lock();
  wait_until([&] { for (int i = 0; i < NMSG; ++i) if (G->msgs[i].used && G->msgs[i].id == id) return G->msgs[i].taken == 1; return true; });
  for (int i = 0; i < NMSG; ++i) if (G->msgs[i].used && G->msgs[i].id == id) { G->msgs[i].used = 0; --G->nlive; }
  unlock();
}
static int take(void *b, long n, int dt, int src, int tag, MPI_Comm c, MPI_Status *st, const char *fn) {
  chkcomm(c, fn); chktype(dt, fn); chkcount(n, fn); chkbuf(b, n, fn);
  if (src == MPI_PROC_NULL) { if (st) { st->MPI_SOURCE = src; st->MPI_TAG = tag; st->nbytes_ = 0; } return 0; }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= c->size)) usage(fn, "invalid source rank");
  perturb();
  lock();
  note(fn, 51, n);
  Msg *m = nullptr;
  wait_until([&] { m = findmsg(c, src, tag); return m != nullptr; });
  if (m->bytes > n * tsz[dt] || (m->count && n && !tmatch(m->dt, dt))) {
    char e[200]; snprintf(e, sizeof e, "%s: message of %ld (type %d) from rank %d does not fit %ld (type %d)", fn, m->count, m->dt, m->src, n, dt);
    set_fatal(2, e); die_locked();
  }
  size_t off = m->off, bytes = m->bytes;
  if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->nbytes_ = bytes; st->cancelled_ = 0; }
  m->taken = 2;  // being copied
  unlock();
  if (bytes) memcpy(b, heap_ + off, bytes);
  lock();
  if (m->sync) m->taken = 1; else { m->used = 0; --G->nlive; }
  wakeall();
  unlock();
  return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) { wait_taken(post(b, n, d, dst, tag, c, 1, "MPI_Ssend")); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c) {
  int sync = G->sync_send; long id = post(b, n, d, dst, tag, c, sync, "MPI_Send"); if (sync) wait_taken(id); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Status *st) { return take(b, n, d, src, tag, c, st, "MPI_Recv"); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int st, void *rb, int rn, MPI_Datatype rd, int src, int rt, MPI_Comm c, MPI_Status *s) {
  chktype(sd, "MPI_Sendrecv"); chktype(rd, "MPI_Sendrecv"); chkalias(sb, sn * tsz[sd], rb, rn * tsz[rd], "MPI_Sendrecv");
  post(sb, sn, sd, dst, st, c, 0, "MPI_Sendrecv"); return take(rb, rn, rd, src, rt, c, s, "MPI_Sendrecv"); }
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype d, int dst, int st, int src, int rt, MPI_Comm c, MPI_Status *s) {
  post(b, n, d, dst, st, c, 0, "MPI_Sendrecv_replace"); return take(b, n, d, src, rt, c, s, "MPI_Sendrecv_replace"); }
int MPI_Isend(const void *b, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, MPI_Request *r) {
  post(b, n, d, dst, tag, c, 0, "MPI_Isend"); *r = new simmpi_req_s(); memset(*r, 0, sizeof **r); (*r)->done = 1; return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, MPI_Request *r) {
  chkcomm(c, "MPI_Irecv"); chktype(d, "MPI_Irecv"); *r = new simmpi_req_s(); memset(*r, 0, sizeof **r);
  (*r)->kind = 1; (*r)->buf = b; (*r)->count = n; (*r)->dt = d; (*r)->src = src; (*r)->tag = tag; (*r)->comm = c; return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) {
  if (!*r) return 0;
  MPI_Status t; memset(&t, 0, sizeof t);
  if ((*r)->kind == 1 && !(*r)->done) take((*r)->buf, (*r)->count, (*r)->dt, (*r)->src, (*r)->tag, (*r)->comm, &t, "MPI_Wait(recv)");
  if (st) *st = t;
  delete *r; *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { for (int i = 0; i < n; ++i) MPI_Wait(r + i, st ? st + i : nullptr); return 0; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) {
  if (*r && (*r)->kind == 1 && !(*r)->done) { lock(); Msg *m = findmsg((*r)->comm, (*r)->src, (*r)->tag); unlock(); if (!m) { *f = 0; return 0; } }
  *f = 1; return MPI_Wait(r, st);
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype d, int *n) { chktype(d, "MPI_Get_count"); *n = int(s->nbytes_ / tsz[d]); return 0; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *st) {
  chkcomm(c, "MPI_Probe"); perturb(); lock(); note("MPI_Probe", 52, tag); Msg *m = nullptr;
  wait_until([&] { m = findmsg(c, src, tag); return m != nullptr; });
  if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->nbytes_ = m->bytes; }
  unlock(); return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *f, MPI_Status *st) {
  lock(); Msg *m = findmsg(c, src, tag); *f = m != nullptr; if (m && st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->nbytes_ = m->bytes; } unlock(); return 0;
}

} // extern "C"

// ---------------------------------------------------------------- driver side
extern "C" void omp_set_num_threads(int) __attribute__((weak));
extern "C" int omp_get_max_threads() __attribute__((weak));
namespace simmpi {

static int logfd[MAXR];
static void setup() {
  if (G) return;
  auto mm = [](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(9); } return (char *)p; };
  G = (Shared *)mm(sizeof(Shared));
  for (int i = 0; i < MAXR; ++i) { arena_[i] = mm(ARENA); out_[i] = mm(OUTSZ); logfd[i] = memfd_create("simlog", MFD_CLOEXEC); }
  heap_ = mm(MSGHEAP);
}
void put(const void *p, size_t n) {
  if (!in_rank) return;
  size_t &l = G->outlen[me];
  if (l + n > OUTSZ) _exit(HARNESS_EXIT);
  memcpy(out_[me] + l, p, n); l += n;
}
void Reader::raw(void *p, size_t n) { if (pos + n > b.size()) { bad = true; memset(p, 0, n); return; } memcpy(p, b.data() + pos, n); pos += n; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

Run run(const Options &o, const std::function<void(int)> &f) {
  setup();
  // reset the shared state
  memset((void *)G, 0, sizeof(Shared));
  pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
  pthread_mutex_init(&G->mu, &a);
  G->nranks = o.nranks; G->seed = o.seed; G->delay = o.delay; G->sync_send = o.sync_send;
  G->ncomms = 2 + MAXR;
  G->slots[0].size = o.nranks; for (int i = 0; i < o.nranks; ++i) G->slots[0].ranks[i] = i;
  for (int i = 0; i < MAXR; ++i) { G->slots[2 + i].size = 1; G->slots[2 + i].ranks[0] = i; }
  std::vector<pid_t> pid(o.nranks);
  fflush(stdout); fflush(stderr);
  for (int r = 0; r < o.nranks; ++r) {
    if (ftruncate(logfd[r], 0)) {}
    lseek(logfd[r], 0, SEEK_SET);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(9); }
    if (p == 0) {
      me = r; in_rank = true; inited = o.uninitialised ? 0 : 1; rngs ^= (o.seed + 1) * 0x9E3779B97F4A7C15ull + uint64_t(r + 1) * 0xD1B54A32D192ED03ull; if (!rngs) rngs = 1;
      for (int i = 0; i < 4; ++i) rnd();
      simmpi_world_.id = 0; simmpi_world_.size = o.nranks; simmpi_world_.rank = r;
      simmpi_self_.id = 2 + r; simmpi_self_.size = 1; simmpi_self_.rank = 0;
      struct rlimit rl = {(rlim_t)o.cpu_s, (rlim_t)o.cpu_s + 5}; setrlimit(RLIMIT_CPU, &rl);
      struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
      struct rlimit rf = {(rlim_t)1 << 30, (rlim_t)1 << 30}; setrlimit(RLIMIT_FSIZE, &rf); signal(SIGXFSZ, SIG_IGN); // a runaway write must not fill the disk
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
      struct rlimit rd; getrlimit(RLIMIT_DATA, &rd); if (rd.rlim_max > (rlim_t)4 << 30) { rd.rlim_cur = rd.rlim_max = (rlim_t)4 << 30; setrlimit(RLIMIT_DATA, &rd); } // a runaway allocation fails here instead of exhausting the machine
#endif
      dup2(logfd[r], 1); dup2(logfd[r], 2);
      int nt = o.nthreads > 0 ? o.nthreads : o.seed % 5 == 3 ? 3 : 1; // libgomp reads the environment at program start only, so it is told directly
      if (omp_set_num_threads) omp_set_num_threads(nt);
      if (omp_get_max_threads && omp_get_max_threads() != nt) harness("the OpenMP runtime does not take the number of threads");
      int code = 0;
      try { f(r); }
      catch (std::exception &e) { snprintf(G->what[r], sizeof G->what[r], "std::exception: %s", e.what()); code = EXC_EXIT; }
      catch (...) { const std::type_info *t = abi::__cxa_current_exception_type(); snprintf(G->what[r], sizeof G->what[r], "exception of type %s", t ? t->name() : "?"); code = EXC_EXIT; }
      fflush(stdout); fflush(stderr);
      _exit(code);
    }
    pid[r] = p;
  }
  Run R; R.ranks.resize(o.nranks);
  int left = o.nranks; uint64_t lastprog = 0; double lastt = now(); bool killed = false;
  int spin = 0;
  while (left) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(spin < 50 ? 50 : 500); ++spin;
      lock(); uint64_t pr = G->progress; unlock();
      if (pr != lastprog) { lastprog = pr; lastt = now(); }
      if (!killed && now() - lastt > o.wall_s) { killed = true; for (int r = 0; r < o.nranks; ++r) if (pid[r]) { R.ranks[r].kind = END_WATCHDOG; kill(pid[r], SIGKILL); } }
      continue;
    }
    for (int r = 0; r < o.nranks; ++r) if (pid[r] == p) {
      pid[r] = 0; --left; lastt = now();
      RankEnd &e = R.ranks[r];
      if (e.kind != END_WATCHDOG) {
        if (WIFSIGNALED(st)) { e.code = WTERMSIG(st); e.kind = (e.code == SIGXCPU || (e.code == SIGKILL)) ? END_CPU : END_SIGNAL; }
        else { int c = WEXITSTATUS(st); e.code = c;
          e.kind = c == 0 ? END_OK : c == SAN_EXIT ? END_SANITIZER : c == FATAL_EXIT ? END_FATAL : c == EXC_EXIT ? END_EXCEPTION : c == HARNESS_EXIT ? END_HARNESS : END_EXIT; }
      }
      lock();
      G->state[r] = 2; ++G->progress;
      if (!G->fatal) check_stuck();
      unlock();
    }
  }
  for (int r = 0; r < o.nranks; ++r) {
    RankEnd &e = R.ranks[r];
    e.what = G->what[r][0] ? G->what[r] : G->where[r];
    e.ncalls = G->ncalls[r]; e.trace_hash = G->thash[r];
    e.out.assign(out_[r], out_[r] + G->outlen[r]);
    off_t len = lseek(logfd[r], 0, SEEK_END); size_t want = e.kind == END_SANITIZER ? size_t(1) << 20 : 12000;
    if (e.kind != END_OK || len < 2000) { off_t st = 0; size_t n = size_t(len) < want ? len : want; e.log.resize(n); if (n && pread(logfd[r], &e.log[0], n, st) < 0) e.log.clear(); }
  }
  R.fatal = G->fatal; R.fatalmsg = G->fatalmsg; R.ncoll = G->ncoll; R.nmsg = G->nmsg; R.order_hash = G->order_hash; R.nonidentity_orders = G->nonid;
  return R;
}

static size_t memcheck_line(const std::string &log) { // the message after the first "==pid== "
  for (size_t p = 0; p < log.size(); ++p) { if (log.compare(p, 2, "==") == 0) { size_t q = p + 2; while (q < log.size() && isdigit((unsigned char)log[q])) ++q; if (q > p + 2 && log.compare(q, 3, "== ") == 0) return q + 3; } p = log.find('\n', p); if (p == std::string::npos) break; }
  return std::string::npos;
}
static std::string sankey(const std::string &log) {
  // first sanitizer headline plus first frame inside the repository
  std::string head, fr;
  size_t p = log.find("ERROR: AddressSanitizer: "); 
  if (p != std::string::npos) { p += 25; size_t q = log.find_first_of(" \n", p); head = "asan:" + log.substr(p, q - p); }
  else if ((p = log.find("runtime error: ")) != std::string::npos) {
    size_t q = log.find('\n', p); head = "ubsan:" + log.substr(p + 15, std::min<size_t>(q - p - 15, 60));
    for (auto &c : head) if (c >= '0' && c <= '9') c = '#';
    size_t b = log.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; fr = log.substr(b, log.find(':', b) - b); fr = fr.substr(fr.rfind('/') + 1);
  }
  else if ((p = log.find("WARNING: ThreadSanitizer: ")) != std::string::npos) { p += 26; size_t q = log.find_first_of("(\n", p); head = "tsan:" + log.substr(p, q - p); }
  else if ((p = memcheck_line(log)) != std::string::npos) { size_t q = log.find('\n', p); head = "memcheck:" + log.substr(p, std::min<size_t>(q - p, 40)); for (auto &c : head) if (c >= '0' && c <= '9') c = '#'; }
  else head = "sanitizer";
  if (fr.empty()) {
    size_t s = p == std::string::npos ? 0 : p;
    while ((s = log.find("#", s)) != std::string::npos) {
      size_t e = log.find('\n', s); std::string line = log.substr(s, e - s);
      if (line.find("/src/") != std::string::npos || line.find("/levels/") != std::string::npos) {
        size_t in = line.find(" in "); std::string fnm;
        if (in != std::string::npos) { fnm = line.substr(in + 4); size_t k = fnm.find_first_of("(< "); fnm = fnm.substr(0, k); }
        else { size_t k = line.find(' '); fnm = line.substr(k + 1); k = fnm.find_first_of("(<"); fnm = fnm.substr(0, k); }
        fr = fnm; break;
      }
      s = e == std::string::npos ? log.size() : e;
    }
  }
  return head + "@" + fr;
}
std::string Run::key() const {
  for (auto &r : ranks) if (r.kind == END_SANITIZER) return sankey(r.log);
  for (auto &r : ranks) if (r.kind == END_SIGNAL) return "signal:" + std::to_string(r.code);
  if (fatal == 1) return "deadlock";
  if (fatal == 2) return "collective-mismatch";
  if (fatal == 3) return "mpi-usage";
  for (auto &r : ranks) if (r.kind == END_EXCEPTION) { std::string s = "exception:"; for (char c : r.what) { if (s.size() > 70) break; s += (c >= '0' && c <= '9') ? '#' : c; } return s; }
  if (fatal == 4) return "left-waiting";
  for (auto &r : ranks) if (r.kind == END_EXIT) return "exit:" + std::to_string(r.code);
  for (auto &r : ranks) if (r.kind == END_CPU || r.kind == END_WATCHDOG) return "hang";
  if (fatal == 5) return "harness";
  return "ok";
}
std::string Run::describe() const {
  std::string s = key();
  if (fatal) s += " | " + fatalmsg;
  static const char *nm[] = {"ok", "exception", "sanitizer", "signal", "fatal", "exit", "cpu", "watchdog", "harness"};
  for (size_t i = 0; i < ranks.size(); ++i) if (ranks[i].kind != END_OK) s += " | rank " + std::to_string(i) + ": " + nm[ranks[i].kind] + " " + std::to_string(ranks[i].code) + " " + ranks[i].what;
  for (auto &r : ranks) if (r.kind == END_SANITIZER) { size_t a = r.log.size(), b; for (const char *h : {"ERROR: AddressSanitizer: ", "runtime error: ", "WARNING: ThreadSanitizer: "}) if ((b = r.log.find(h)) != std::string::npos) a = std::min(a, b); if ((b = memcheck_line(r.log)) != std::string::npos) a = std::min(a, b); if (a == r.log.size()) a = 0; s += " | " + r.log.substr(a > 200 ? a - 200 : 0, 3000); break; }
  return s;
}
}
