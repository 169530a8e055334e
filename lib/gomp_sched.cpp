// OpenMP runtime for code under the controlled scheduler (gcc ABI): every parallel region starts its team as threads of
// the scheduler and joins them at its end; handing out a chunk of a loop is a scheduling point.
#include <pthread.h>
#include <mutex>
#include <vector>
#include "lib/sched.hpp"
namespace {
struct Team {
  void (*fn)(void *);
  void *data;
  unsigned n;
  // one dynamic loop at a time per team
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool started = false;
};
struct Arg {
  Team *t;
  unsigned id;
};
thread_local Team *g_team = nullptr;
thread_local unsigned g_id = 0;
int g_threads = 1;
pthread_mutex_t g_critical = PTHREAD_MUTEX_INITIALIZER;
void *entry(void *p) {
  auto *a = static_cast<Arg *>(p);
  g_team = a->t;
  g_id = a->id;
  a->t->fn(a->t->data);
  g_team = nullptr;
  return nullptr;
}
void run(Team &t) {
  Team *save = g_team;
  unsigned sid = g_id;
  if (t.n == 0) t.n = save ? 1u : unsigned(g_threads);
  std::vector<Arg> a(t.n);
  std::vector<pthread_t> th(t.n);
  for (unsigned i = 0; i < t.n; ++i) a[i] = {&t, i};
  for (unsigned i = 1; i < t.n; ++i) pthread_create(&th[i], nullptr, entry, &a[i]);
  g_team = &t;
  g_id = 0;
  t.fn(t.data);
  g_team = save;
  g_id = sid;
  for (unsigned i = 1; i < t.n; ++i) pthread_join(th[i], nullptr);
}
bool take(long *s, long *e) {
  sched::point();
  Team &t = *g_team;
  if (t.incr > 0 ? t.next >= t.end : t.next <= t.end) return false;
  *s = t.next;
  long stop = t.next + t.chunk * t.incr;
  if (t.incr > 0 ? stop > t.end : stop < t.end) stop = t.end;
  *e = stop;
  t.next = stop;
  return true;
}
}  // namespace
extern "C" {
int omp_get_num_procs() { return g_threads; }
int omp_get_thread_num() { return int(g_id); }
int omp_get_num_threads() { return g_team ? int(g_team->n) : 1; }
int omp_get_max_threads() { return g_threads; }
void omp_set_num_threads(int n) { g_threads = n; }
int omp_in_parallel() { return g_team != nullptr; }
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  Team t{fn, data, n};
  run(t);
}
void loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long incr, long chunk) {
  Team t{fn, data, n};
  t.next = s;
  t.end = e;
  t.incr = incr;
  t.chunk = chunk;
  run(t);
}
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { loop(fn, data, n, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) { loop(fn, data, n, s, e, i, c); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *ps, long *pe) {
  Team &t = *g_team;
  if (!t.started) {  // one loop per region
    t.started = true;
    t.next = s;
    t.end = e;
    t.incr = i;
    t.chunk = c;
  }
  return take(ps, pe);
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *ps, long *pe) { return GOMP_loop_nonmonotonic_dynamic_start(s, e, i, c, ps, pe); }
bool GOMP_loop_dynamic_next(long *s, long *e) { return take(s, e); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) { return take(s, e); }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() {}
void GOMP_barrier() {}
void GOMP_critical_start() { pthread_mutex_lock(&g_critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_critical); }
}
