// A small OpenMP runtime (GCC ABI) on pthreads, so that ThreadSanitizer sees
// every fork, join, barrier and lock, and so that thread schedules can be
// perturbed from a seed. Used only in the race-detection build.
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <vector>

namespace {
struct Work { bool init; long next, end, incr, chunk; bool guided; unsigned long long sec, nsec; int single_taken; int arrived; };
struct Team {
  int n; pthread_mutex_t mu; pthread_cond_t cv; int waiting; unsigned long phase;
  Work w[64]; // work-sharing constructs in flight, by construct number
  void *copypriv;
};
struct Tls { Team *team; int id; unsigned long wcount; int level; long lo; };
thread_local Tls tls = {nullptr, 0, 0, 0, 0};
int want = 0;
uint64_t seed = 0;
int nregions = 0;
pthread_mutex_t gcrit = PTHREAD_MUTEX_INITIALIZER, gatomic = PTHREAD_MUTEX_INITIALIZER, gname = PTHREAD_MUTEX_INITIALIZER;

int wanted() { if (want > 0) return want; const char *e = getenv("OMP_NUM_THREADS"); int n = e ? atoi(e) : 4; return n > 0 ? n : 1; }
thread_local uint64_t r = 0;
uint64_t rnd() { r ^= r << 13; r ^= r >> 7; r ^= r << 17; return r; }
void jitter() {
  if (!seed) return;
  if (!r) r = (seed + 1) * 0x9E3779B97F4A7C15ull + uint64_t(tls.id + 1) * 0xD1B54A32D192ED03ull;
  uint64_t x = rnd();
  if ((x & 7) == 0) usleep((x >> 8) % 200); else if ((x & 7) < 3) sched_yield();
}
struct Start { void (*fn)(void *); void *data; Team *t; int id; int level; };
void *tmain(void *p) { Start *s = (Start *)p; tls = {s->t, s->id, 0, s->level, 0}; jitter(); s->fn(s->data); return nullptr; }
void barrier(Team *t) {
  if (!t || t->n == 1) return;
  jitter();
  pthread_mutex_lock(&t->mu);
  unsigned long ph = t->phase;
  if (++t->waiting == t->n) { t->waiting = 0; ++t->phase; pthread_cond_broadcast(&t->cv); }
  else while (t->phase == ph) pthread_cond_wait(&t->cv, &t->mu);
  pthread_mutex_unlock(&t->mu);
}
void parallel(void (*fn)(void *), void *data, unsigned nt) {
  int n = nt ? int(nt) : wanted();
  if (tls.level > 0) n = 1;
  else if (!seed) { const char *e = getenv("MINIOMP_SEED"); if (e) seed = strtoull(e, nullptr, 10); }
  __atomic_add_fetch(&nregions, 1, __ATOMIC_RELAXED);
  Team t; memset((void *)&t, 0, sizeof t); t.n = n; pthread_mutex_init(&t.mu, nullptr); pthread_cond_init(&t.cv, nullptr);
  Tls save = tls;
  std::vector<pthread_t> th(n); std::vector<Start> st(n);
  for (int i = 1; i < n; ++i) { st[i] = {fn, data, &t, i, save.level + 1}; if (pthread_create(&th[i], nullptr, tmain, &st[i])) { perror("pthread_create"); _exit(72); } }
  tls = {&t, 0, 0, save.level + 1, 0};
  jitter();
  fn(data);
  for (int i = 1; i < n; ++i) pthread_join(th[i], nullptr);
  tls = save;
  pthread_mutex_destroy(&t.mu); pthread_cond_destroy(&t.cv);
}
Team single_team = {1, PTHREAD_MUTEX_INITIALIZER, PTHREAD_COND_INITIALIZER, 0, 0, {}, nullptr};
Team *team() { return tls.team ? tls.team : &single_team; }
// claim construct slot for this thread's next work-sharing construct
Work *enter_ws(Team *t) { return &t->w[tls.wcount++ % 64]; }
thread_local Work *cur = nullptr;
bool next(long *a, long *b) {
  Team *t = team(); Work *w = cur; bool ok = false;
  jitter();
  pthread_mutex_lock(&t->mu);
  bool more = w->incr > 0 ? w->next < w->end : w->next > w->end;
  if (more) {
    long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->guided) { long g = (left + t->n - 1) / t->n; if (g > c) c = g; }
    if (c > left) c = left;
    *a = w->next; *b = w->next + c * w->incr; w->next = *b; ok = true;
  }
  pthread_mutex_unlock(&t->mu);
  return ok;
}
bool start(long s, long e, long inc, long chunk, bool guided, long *a, long *b) {
  Team *t = team(); Work *w = enter_ws(t);
  pthread_mutex_lock(&t->mu);
  if (!w->init) { memset((void *)w, 0, sizeof *w); w->init = true; w->next = s; w->end = e; w->incr = inc; w->chunk = chunk; w->guided = guided; }
  pthread_mutex_unlock(&t->mu);
  cur = w;
  return next(a, b);
}
void ws_end() { // last thread out resets the slot
  Team *t = team(); pthread_mutex_lock(&t->mu);
  if (cur && ++cur->arrived == t->n) { cur->arrived = 0; cur->init = false; }
  pthread_mutex_unlock(&t->mu); cur = nullptr;
}
struct PL { void (*fn)(void *); void *data; };
} // namespace

extern "C" {
int miniomp_regions(void) { return __atomic_load_n(&nregions, __ATOMIC_RELAXED); }
int omp_get_thread_num(void) { return tls.id; }
int omp_get_num_threads(void) { return tls.team ? tls.team->n : 1; }
int omp_get_max_threads(void) { return tls.level ? 1 : wanted(); }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return 1024; }
int omp_in_parallel(void) { return tls.team && tls.team->n > 1; }
int omp_get_level(void) { return tls.level; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
void omp_set_num_threads(int n) { want = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
typedef struct { int v; } olock;
void omp_init_lock(olock *l) { __atomic_store_n(&l->v, 0, __ATOMIC_RELEASE); }
void omp_destroy_lock(olock *) {}
void omp_set_lock(olock *l) { while (__atomic_exchange_n(&l->v, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
int omp_test_lock(olock *l) { return !__atomic_exchange_n(&l->v, 1, __ATOMIC_ACQUIRE); }
void omp_unset_lock(olock *l) { __atomic_store_n(&l->v, 0, __ATOMIC_RELEASE); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) { parallel(fn, data, nt); return nt; }
void GOMP_barrier(void) { barrier(tls.team); }
bool GOMP_barrier_cancel(void) { barrier(tls.team); return false; }
void GOMP_critical_start(void) { jitter(); pthread_mutex_lock(&gcrit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&gcrit); }
void GOMP_critical_name_start(void **p) {
  pthread_mutex_lock(&gname);
  if (!*p) { pthread_mutex_t *m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); *p = m; }
  pthread_mutex_t *m = (pthread_mutex_t *)*p; pthread_mutex_unlock(&gname);
  jitter(); pthread_mutex_lock(m);
}
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&gatomic); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&gatomic); }
bool GOMP_single_start(void) {
  Team *t = team(); if (t->n == 1) return true;
  Work *w = enter_ws(t); bool mine = false;
  pthread_mutex_lock(&t->mu);
  if (!w->init) { memset((void *)w, 0, sizeof *w); w->init = true; mine = true; }
  if (++w->arrived == t->n) { w->arrived = 0; w->init = false; }
  pthread_mutex_unlock(&t->mu);
  return mine;
}
void *GOMP_single_copy_start(void) { if (GOMP_single_start()) return nullptr; barrier(tls.team); void *p = team()->copypriv; barrier(tls.team); return p; }
void GOMP_single_copy_end(void *d) { team()->copypriv = d; barrier(tls.team); barrier(tls.team); }
#define LOOPS(NAME, GUIDED) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return start(s, e, i, c, GUIDED, a, b); } \
  bool GOMP_loop_##NAME##_next(long *a, long *b) { return next(a, b); }
LOOPS(dynamic, false) LOOPS(guided, true) LOOPS(nonmonotonic_dynamic, false) LOOPS(nonmonotonic_guided, true)
bool GOMP_loop_static_start(long s, long e, long i, long c, long *a, long *b) { Team *t = team(); if (c <= 0) { long n = i > 0 ? (e - s + i - 1) / i : (s - e - i - 1) / -i; c = (n + t->n - 1) / t->n; } return start(s, e, i, c, false, a, b); }
bool GOMP_loop_static_next(long *a, long *b) { return next(a, b); }
#define LOOPR(NAME) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return start(s, e, i, 1, false, a, b); } \
  bool GOMP_loop_##NAME##_next(long *a, long *b) { return next(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { ws_end(); barrier(tls.team); }
void GOMP_loop_end_nowait(void) { ws_end(); }
bool GOMP_loop_end_cancel(void) { ws_end(); barrier(tls.team); return false; }
typedef unsigned long long ull;
#define LOOPU(NAME, GUIDED) \
  bool GOMP_loop_ull_##NAME##_start(bool, ull s, ull e, ull i, ull c, ull *a, ull *b) { return start((long)s, (long)e, (long)i, (long)c, GUIDED, (long *)a, (long *)b); } \
  bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return next((long *)a, (long *)b); }
LOOPU(dynamic, false) LOOPU(guided, true) LOOPU(nonmonotonic_dynamic, false) LOOPU(nonmonotonic_guided, true)
// combined parallel loops: the body calls the *_next functions itself
static thread_local int dummy_;
struct PLoop { void (*fn)(void *); void *data; long s, e, i, c; bool g; };
static void ploop(void *p) {
  PLoop *q = (PLoop *)p; Team *t = team(); Work *w = enter_ws(t);
  pthread_mutex_lock(&t->mu);
  if (!w->init) { memset((void *)w, 0, sizeof *w); w->init = true; w->next = q->s; w->end = q->e; w->incr = q->i; w->chunk = q->c; w->guided = q->g; }
  pthread_mutex_unlock(&t->mu);
  cur = w; q->fn(q->data);
}
#define PLOOPS(NAME, GUIDED) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { PLoop q = {fn, d, s, e, i, c, GUIDED}; parallel(ploop, &q, nt); }
PLOOPS(dynamic, false) PLOOPS(guided, true) PLOOPS(nonmonotonic_dynamic, false) PLOOPS(nonmonotonic_guided, true) PLOOPS(static, false)
#define PLOOPR(NAME) \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { PLoop q = {fn, d, s, e, i, 1, false}; parallel(ploop, &q, nt); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_next(void) { Team *t = team(); unsigned r = 0; pthread_mutex_lock(&t->mu); if (cur->sec < cur->nsec) r = unsigned(++cur->sec); pthread_mutex_unlock(&t->mu); return r; }
unsigned GOMP_sections_start(unsigned n) {
  Team *t = team(); Work *w = enter_ws(t); pthread_mutex_lock(&t->mu);
  if (!w->init) { memset((void *)w, 0, sizeof *w); w->init = true; w->nsec = n; }
  pthread_mutex_unlock(&t->mu); cur = w; return GOMP_sections_next();
}
void GOMP_sections_end(void) { ws_end(); barrier(tls.team); }
void GOMP_sections_end_nowait(void) { ws_end(); }
struct PSec { void (*fn)(void *); void *data; unsigned n; };
static void psec(void *p) {
  PSec *q = (PSec *)p; Team *t = team(); Work *w = enter_ws(t); pthread_mutex_lock(&t->mu);
  if (!w->init) { memset((void *)w, 0, sizeof *w); w->init = true; w->nsec = q->n; }
  pthread_mutex_unlock(&t->mu); cur = w; q->fn(q->data);
}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) { PSec q = {fn, d, n}; parallel(psec, &q, nt); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int) {
  if (cpy) { char *b = (char *)malloc(sz + al); char *p = (char *)(((uintptr_t)b + al - 1) / al * al); cpy(p, data); fn(p); free(b); } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_cancel(int, bool) { return false; }
static pthread_mutex_t ord_ = PTHREAD_MUTEX_INITIALIZER;
}
