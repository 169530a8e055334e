#include "sched.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>

namespace sched {
namespace {
constexpr int kMax = 16;  // threads per execution

struct VC {
  uint32_t c[kMax] = {0};
  void join(const VC &o) {
    for (int i = 0; i < kMax; ++i) c[i] = std::max(c[i], o.c[i]);
  }
};

enum class St : uint8_t { Ready, Mutex, Cond, Join, RdLock, WrLock, Futex, Sem, Done };

struct Thr {
  int id = -1;
  St st = St::Ready;
  const void *obj = nullptr;   // what it waits for
  uint32_t fval = 0;
  bool timed = false;          // the wait has a timeout
  bool timed_out = false;
  uint64_t deadline = 0;
  bool woken = false;
  bool spinning = false;
  int run_len = 0;             // points since it was last switched in
  int go = 0;                  // futex word
  pthread_t real{};
  bool joined = false, detached = false;
  VC vc, rel_fence, acq_pending;
  int join_target = -1;
  void *(*fn)(void *) = nullptr;
  void *arg = nullptr;
  // spin detection
  struct Seen {
    const void *pc, *addr;
    uint64_t val;
    int n;
  } seen[24];
  int nseen = 0;
  std::vector<std::pair<const void *, bool>> held;  // locks, and whether exclusively
  int quiet = 0;               // loads in a row without a scheduling point
  uint64_t last_val = 0;
  int nopreempt = 0;
};

struct Mtx {
  int owner = -1, count = 0;
  VC vc;
};
struct Rw {
  int writer = -1;
  std::vector<int> readers;
  VC vc, rvc;
};
struct Acc {
  uint32_t clk;
  uint8_t tid, mask, wr, used;
  const void *pc;
};
struct Cell {
  Acc a[8];
  int next = 0;
};

bool g_on = false;
Options g_o;
Thr *g_t[kMax];
int g_n = 0;
int g_cur = 0;
int g_pre = 0;
int g_creates = 0;
uint64_t g_pts = 0;
uint64_t g_vtime = 0;
pthread_key_t g_key;
bool g_key_made = false;
thread_local Thr *t_self __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int t_rt __attribute__((tls_model("initial-exec"))) = 0;  // inside the runtime

// runtime containers live on the private heap; they are created per process (executions are forked)
std::unordered_map<const void *, Mtx> *g_m;
std::unordered_map<const void *, Rw> *g_rw;
std::unordered_map<const void *, VC> *g_sync;   // atomics
std::unordered_map<const void *, std::vector<const void *>> *g_wlocks;  // locks held at every write
std::unordered_map<uint64_t, Cell> *g_shadow;
std::vector<std::string> *g_ignore;

struct RT {
  RT() { ++t_rt; }
  ~RT() { --t_rt; }
};
inline Thr *self() { return (g_on && t_rt == 0) ? t_self : nullptr; }

template <typename F>
F real(const char *n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
long raw_futex(int *w, int op, int v) { 
  using R_r = std::type_identity_t<long (*)(long, ...)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("syscall");
  return r(SYS_futex, w, op, v, nullptr, nullptr, 0);
}
void wait_go(Thr *t) {
  for (;;) {
    int v = __atomic_load_n(&t->go, __ATOMIC_ACQUIRE);
    if (v) break;
    raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  }
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
void set_go(Thr *t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

std::string where(const void *pc) {
  Dl_info di;
  if (!pc || !dladdr(pc, &di)) return "?";
  char b[64];
  snprintf(b, sizeof b, "+0x%lx", long((const char *)pc - (const char *)di.dli_fbase) - 1);
  std::string base = di.dli_fname ? di.dli_fname : "?";
  std::string out = base.substr(base.rfind('/') + 1) + b;
  if (mc::verbose() || true) {
    std::string cmd = "addr2line -Cfipe '" + base + "' " + (b + 1) + " 2>/dev/null | head -3 | tr '\\n' ' '";
    FILE *f = popen(cmd.c_str(), "r");
    if (f) {
      char l[700];
      size_t n = fread(l, 1, sizeof l - 1, f);
      l[n] = 0;
      pclose(f);
      if (n) out = l;
    }
  }
  return out;
}

const char *st_name(St s) {
  switch (s) {
    case St::Ready: return "ready";
    case St::Mutex: return "waiting for a mutex";
    case St::Cond: return "waiting on a condition";
    case St::Join: return "joining";
    case St::RdLock: return "waiting for a read lock";
    case St::WrLock: return "waiting for a write lock";
    case St::Futex: return "waiting for an atomic to change";
    case St::Sem: return "waiting for a semaphore";
    case St::Done: return "finished";
  }
  return "?";
}
std::string describe_all() {
  std::string s;
  for (int i = 0; i < g_n; ++i) s += mc::format("thread %d %s%s; ", i, st_name(g_t[i]->st), g_t[i]->spinning ? " (spinning)" : "");
  return s;
}

bool rw_can_rd(Rw &r) { return r.writer < 0; }
bool enabled(Thr *t) {
  switch (t->st) {
    case St::Ready: return true;
    case St::Mutex: return (*g_m)[t->obj].owner < 0;
    case St::Cond: return t->woken;
    case St::Join: return g_t[t->join_target]->st == St::Done;
    case St::RdLock: return rw_can_rd((*g_rw)[t->obj]);
    case St::WrLock: {
      Rw &r = (*g_rw)[t->obj];
      return r.writer < 0 && r.readers.empty();
    }
    case St::Futex: return t->woken;
    case St::Sem: return t->woken;
    case St::Done: return false;
  }
  return false;
}

void switch_to(Thr *me, int next) {
  if (next == me->id) return;
  g_cur = next;
  g_t[next]->run_len = 0;
  if (mc::verbose()) mc::note("[%llu] switch %d -> %d", (unsigned long long)g_pts, me->id, next);
  set_go(g_t[next]);
  if (me->st != St::Done) wait_go(me);
}

// picks who runs next; called with the runtime guard held
void schedule(Thr *me) {
  ++g_pts;
  if (g_pts > uint64_t(g_o.max_points)) mc::fail("livelock", mc::format("no end after %llu scheduling points: ", (unsigned long long)g_pts) + describe_all());
  int opts[kMax], n = 0;
  bool cur_ok = enabled(me) && !me->spinning;
  if (cur_ok && ++me->run_len > g_o.fair && me->nopreempt == 0) {  // fairness: somebody else first
    bool other = false;
    for (int i = 0; i < g_n; ++i) other |= i != me->id && enabled(g_t[i]) && !g_t[i]->spinning;
    if (other) cur_ok = false;
    me->run_len = 0;
  }
  if (cur_ok && me->nopreempt > 0) return;
  if (cur_ok) opts[n++] = me->id;
  if (!cur_ok || g_pre < g_o.preemptions)
    for (int i = 0; i < g_n; ++i)
      if (i != me->id && enabled(g_t[i]) && !g_t[i]->spinning) opts[n++] = i;
  if (n == 0) {
    // only spinning threads (and waits that may time out) are left
    for (int k = 1; k <= g_n; ++k) {
      int i = (me->id + k) % g_n;
      if (enabled(g_t[i])) {
        opts[n++] = i;
        break;
      }
    }
  }
  if (n == 0 && g_o.time_out_waits) {
    int best = -1;
    for (int i = 0; i < g_n; ++i)
      if (g_t[i]->timed && (g_t[i]->st == St::Cond || g_t[i]->st == St::Futex || g_t[i]->st == St::Sem) && (best < 0 || g_t[i]->deadline < g_t[best]->deadline)) best = i;
    if (best >= 0) {
      g_t[best]->timed_out = true;
      g_t[best]->woken = true;
      g_vtime = std::max(g_vtime, g_t[best]->deadline);
      opts[n++] = best;
    }
  }
  if (n == 0) {
    bool all_done = true;
    for (int i = 0; i < g_n; ++i) all_done &= g_t[i]->st == St::Done;
    if (all_done) return;
    mc::fail("deadlock", describe_all());
  }
  int pick = n == 1 ? 0 : mc::choose_raw(n);
  if (cur_ok && opts[pick] != me->id) ++g_pre;
  switch_to(me, opts[pick]);
}

void clear_seen(Thr *t) { t->nseen = 0; }
void progress(Thr *t) {  // t changed shared state
  clear_seen(t);
  for (int i = 0; i < g_n; ++i)
    if (i != t->id && g_t[i]->spinning) {
      g_t[i]->spinning = false;
      clear_seen(g_t[i]);
    }
}
void no_progress(Thr *t, const void *pc, const void *addr, uint64_t val) {
  for (int i = 0; i < t->nseen; ++i)
    if (t->seen[i].pc == pc && t->seen[i].addr == addr) {
      if (t->seen[i].val == val) {
        if (++t->seen[i].n >= 3) t->spinning = true;
      } else {
        t->seen[i].val = val;
        t->seen[i].n = 1;
      }
      return;
    }
  // something not looked at before: not waiting in a circle (yet)
  for (int i = 0; i < t->nseen; ++i) t->seen[i].n = 1;
  if (t->nseen == int(std::size(t->seen))) t->nseen = 0;
  t->seen[t->nseen++] = {pc, addr, val, 1};
}

void tick(Thr *t) { ++t->vc.c[t->id]; }
void acquire(Thr *t, const VC &v) { t->vc.join(v); }
void release(Thr *t, VC &v) {
  v.join(t->vc);
  tick(t);
}

bool ignored(const std::string &a) {
  if (g_ignore)
    for (auto &s : *g_ignore)
      if (a.find(s) != std::string::npos) return true;
  return false;
}

void access_cell(Thr *t, uint64_t key, uint8_t mask, bool wr, const void *pc) {
  Cell &c = (*g_shadow)[key];
  Acc *slot = nullptr;
  for (auto &a : c.a) {
    if (!a.used) {
      if (!slot) slot = &a;
      continue;
    }
    if (a.tid == t->id) {
      if (a.mask == mask && a.wr == uint8_t(wr)) slot = &a;
      continue;
    }
    if ((a.mask & mask) && (wr || a.wr) && a.clk > t->vc.c[a.tid]) {
      RT rt;
      std::string x = where(a.pc), y = where(pc);
      if (ignored(x) || ignored(y)) return;
      mc::fail("data-race", mc::format("thread %d %s at %s and thread %d %s at %s are not ordered", int(a.tid), a.wr ? "writes" : "reads", x.c_str(), t->id, wr ? "writes" : "reads", y.c_str()));
    }
  }
  if (!slot) {
    slot = &c.a[c.next];
    c.next = (c.next + 1) % 8;
  }
  *slot = Acc{t->vc.c[t->id], uint8_t(t->id), mask, uint8_t(wr), 1, pc};
}
void access(const void *p, size_t n, bool wr, const void *pc) {
  Thr *t = self();
  if (!t || !g_o.races || n == 0 || t->nopreempt > 0) return;
  RT rt;
  uint64_t a = reinterpret_cast<uint64_t>(p), e = a + n;
  while (a < e) {
    uint64_t key = a >> 3;
    unsigned off = unsigned(a & 7);
    unsigned len = unsigned(std::min<uint64_t>(8 - off, e - a));
    uint8_t mask = uint8_t(((1u << len) - 1) << off);
    access_cell(t, key, mask, wr, pc);
    a += len;
  }
}
void forget(const void *p, size_t n) {  // memory changes hands
  if (!g_shadow || n == 0) return;
  uint64_t a = reinterpret_cast<uint64_t>(p) >> 3, e = (reinterpret_cast<uint64_t>(p) + n + 7) >> 3;
  if (e - a > g_shadow->size() * 2 + 16) {
    for (auto it = g_shadow->begin(); it != g_shadow->end();)
      if (it->first >= a && it->first < e)
        it = g_shadow->erase(it);
      else
        ++it;
  } else
    for (; a < e; ++a) g_shadow->erase(a);
  auto in = [&](const void *q) { return q >= p && q < static_cast<const char *>(p) + n; };
  if (g_sync && n < (1u << 20)) {
    if (g_sync->size() > n) {
      for (size_t i = 0; i < n; ++i) g_sync->erase(static_cast<const char *>(p) + i);
    } else
      for (auto it = g_sync->begin(); it != g_sync->end();) it = in(it->first) ? g_sync->erase(it) : std::next(it);
    for (auto it = g_m->begin(); it != g_m->end();) it = in(it->first) ? g_m->erase(it) : std::next(it);
    for (auto it = g_rw->begin(); it != g_rw->end();) it = in(it->first) ? g_rw->erase(it) : std::next(it);
  }
}

// ---- atomics ----
inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void hb_load(Thr *t, const volatile void *p, int mo) {
  auto it = g_sync->find(const_cast<const void *>(p));
  if (it == g_sync->end()) return;
  if (acq(mo))
    acquire(t, it->second);
  else
    t->acq_pending.join(it->second);
}
void hb_store(Thr *t, const volatile void *p, int mo) {
  VC &v = (*g_sync)[const_cast<const void *>(p)];
  if (rel(mo)) {
    v = t->vc;
    tick(t);
  } else {
    v = t->rel_fence;  // a relaxed store publishes only what an earlier release fence covered
  }
}
void hb_rmw(Thr *t, const volatile void *p, int mo) {
  VC &v = (*g_sync)[const_cast<const void *>(p)];
  if (acq(mo))
    acquire(t, v);
  else
    t->acq_pending.join(v);
  if (rel(mo)) {
    v.join(t->vc);
    tick(t);
  } else
    v.join(t->rel_fence);
}

void drop_lock(Thr *t, const void *l) {
  for (size_t i = t->held.size(); i-- > 0;)
    if (t->held[i].first == l) {
      t->held.erase(t->held.begin() + long(i));
      return;
    }
}
// A location that has only been written under locks, one of which the reader holds, cannot change under it.
bool protected_load(Thr *t, const void *p) {
  if (!g_o.quiet_loads || t->held.empty() || t->spinning || t->quiet > 20000) return false;
  auto it = g_wlocks->find(p);
  if (it == g_wlocks->end()) return true;
  for (auto &h : t->held)
    if (std::find(it->second.begin(), it->second.end(), h.first) != it->second.end()) return true;
  return false;
}
void note_write(Thr *t, const void *p) {
  if (!g_o.quiet_loads) return;
  auto mine = [&](const void *l) { return std::find(t->held.begin(), t->held.end(), std::make_pair(l, true)) != t->held.end(); };
  auto [it, fresh] = g_wlocks->try_emplace(p);
  if (fresh) {
    for (auto &h : t->held)
      if (h.second) it->second.push_back(h.first);
  } else
    std::erase_if(it->second, [&](const void *l) { return !mine(l); });
}
struct At {  // guard of one atomic operation
  Thr *t;
  const void *pc, *p;
  At(const volatile void *addr, const void *pc_, bool load = false) : t(self()), pc(pc_), p(const_cast<const void *>(addr)) {
    if (!t) return;
    ++t_rt;
    if (load && protected_load(t, p)) {
      ++t->quiet;
      return;
    }
    t->quiet = 0;
    schedule(t);
    if (!load) note_write(t, p);
  }
  ~At() {
    if (t) --t_rt;
  }
  void load(uint64_t v, int mo) {
    if (!t) return;
    hb_load(t, p, mo);
    no_progress(t, pc, p, v);
  }
  void store(bool changed, int mo) {
    if (!t) return;
    hb_store(t, p, mo);
    progress(t);
    (void)changed;
  }
  void rmw(bool changed, uint64_t old, int mo) {
    if (!t) return;
    hb_rmw(t, p, mo);
    if (changed)
      progress(t);
    else
      no_progress(t, pc, p, old);
  }
  // a plain access by another thread without ordering would be a race with this atomic one, too; not tracked
};

void block(Thr *t, St st, const void *obj) {
  t->st = st;
  t->obj = obj;
  t->woken = false;
  t->timed_out = false;
  schedule(t);
  t->st = St::Ready;
  t->timed = false;
}

void finish_thread(void *p) {
  Thr *t = static_cast<Thr *>(p);
  // run after the C++ thread_local destructors; give them a second round like pthread does
  RT rt;
  t->st = St::Done;
  tick(t);
  progress(t);
  t_self = nullptr;
  schedule(t);
}

void *trampoline(void *p) {
  Thr *t = static_cast<Thr *>(p);
  ++t_rt;
  wait_go(t);
  {
    pthread_attr_t a;
    void *base;
    size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
      pthread_attr_getstack(&a, &base, &sz);
      forget(base, sz);
      pthread_attr_destroy(&a);
    }
  }
  pthread_setspecific(g_key, t);
  t_self = t;
  --t_rt;
  return t->fn(t->arg);
}
}  // namespace

void run(const Options &o, const std::function<void()> &body) {
  g_o = o;
  g_m = new std::unordered_map<const void *, Mtx>;
  g_rw = new std::unordered_map<const void *, Rw>;
  g_sync = new std::unordered_map<const void *, VC>;
  g_wlocks = new std::unordered_map<const void *, std::vector<const void *>>;
  g_shadow = new std::unordered_map<uint64_t, Cell>;
  g_shadow->reserve(1 << 12);
  if (!g_key_made) {
    pthread_key_create(&g_key, finish_thread);
    g_key_made = true;
  }
  g_n = 0;
  g_pre = 0;
  g_creates = 0;
  g_pts = 0;
  g_vtime = 1000000000ull;
  Thr *m = new Thr;
  m->id = 0;
  m->vc.c[0] = 1;
  g_t[g_n++] = m;
  g_cur = 0;
  t_self = m;
  g_on = true;
  body();
  g_on = false;
  t_self = nullptr;
  for (int i = 1; i < g_n; ++i)
    if (g_t[i]->st != St::Done) mc::fail("thread-left-running", mc::format("thread %d is %s after the scenario ended", i, st_name(g_t[i]->st)));
  mc::step(g_pts);
  if (g_pre > 0) mc::nontrivial();
}
bool active() { return g_on; }
int tid() { return t_self ? t_self->id : -1; }
void point() {
  if (Thr *t = self()) {
    RT rt;
    schedule(t);
  }
}
uint64_t points() { return g_pts; }
uint64_t now() { return g_pts; }
void ignore_races_in(const std::string &s) {
  if (!g_ignore) g_ignore = new std::vector<std::string>;
  g_ignore->push_back(s);
}
void no_preempt(bool on) {
  if (Thr *t = self()) t->nopreempt += on ? 1 : -1;
}

}  // namespace sched

using namespace sched;

#define PC __builtin_return_address(0)

extern "C" {
void __tsan_init() {}
void __tsan_acquire(void *a) {  // annotations in the code under test
  if (Thr *t = self()) {
    RT rt;
    auto it = g_sync->find(a);
    if (it != g_sync->end()) acquire(t, it->second);
  }
}
void __tsan_release(void *a) {
  if (Thr *t = self()) {
    RT rt;
    release(t, (*g_sync)[a]);
  }
}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                \
  void __tsan_read##n(void *p) { access(p, n, false, PC); }                  \
  void __tsan_write##n(void *p) { access(p, n, true, PC); }                  \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }        \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }        \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }         \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { access(p, size_t(n), false, PC); }
void __tsan_write_range(void *p, long n) { access(p, size_t(n), true, PC); }
void __tsan_vptr_update(void **p, void *nv) {
  if (*p != nv) access(p, 8, true, PC);
}
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }

#define ATOMICS(N, T)                                                                                                                   \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) {                                                                              \
    At a(p, PC, true);                                                                                                                  \
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                                         \
    a.load(uint64_t(v), mo);                                                                                                            \
    return v;                                                                                                                           \
  }                                                                                                                                     \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) {                                                                           \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                                \
    a.store(old != v, mo);                                                                                                              \
  }                                                                                                                                     \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) {                                                                           \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                                \
    a.rmw(old != v, uint64_t(old), mo);                                                                                                 \
    return old;                                                                                                                         \
  }                                                                                                                                     \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) {                                                                          \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    a.rmw(v != 0, uint64_t(old), mo);                                                                                                   \
    return old;                                                                                                                         \
  }                                                                                                                                     \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) {                                                                          \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    a.rmw(v != 0, uint64_t(old), mo);                                                                                                   \
    return old;                                                                                                                         \
  }                                                                                                                                     \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) {                                                                          \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    a.rmw((old & v) != old, uint64_t(old), mo);                                                                                         \
    return old;                                                                                                                         \
  }                                                                                                                                     \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) {                                                                           \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                                  \
    a.rmw((old | v) != old, uint64_t(old), mo);                                                                                         \
    return old;                                                                                                                         \
  }                                                                                                                                     \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) {                                                                          \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                                                 \
    a.rmw(v != 0, uint64_t(old), mo);                                                                                                   \
    return old;                                                                                                                         \
  }                                                                                                                                     \
  T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) {                                                                         \
    At a(p, PC);                                                                                                                        \
    T old = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                                                \
    a.rmw(true, uint64_t(old), mo);                                                                                                     \
    return old;                                                                                                                         \
  }                                                                                                                                     \
  static inline bool cas##N(volatile T *p, T *c, T v, int mo, int fmo, const void *pc) {                                                \
    At a(p, pc);                                                                                                                        \
    T exp = *c;                                                                                                                         \
    bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                          \
    if (ok)                                                                                                                             \
      a.rmw(exp != v, uint64_t(exp), mo);                                                                                               \
    else                                                                                                                                \
      a.load(uint64_t(*c), fmo);                                                                                                        \
    return ok;                                                                                                                          \
  }                                                                                                                                     \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) { return cas##N(p, c, v, mo, fmo, PC); }    \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { return cas##N(p, c, v, mo, fmo, PC); }      \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) {                                                 \
    cas##N(p, &c, v, mo, fmo, PC);                                                                                                      \
    return c;                                                                                                                           \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
  Thr *t = self();
  if (!t) return;
  RT rt;
  schedule(t);
  if (acq(mo)) t->vc.join(t->acq_pending);
  if (rel(mo)) {
    t->rel_fence = t->vc;
    tick(t);
  }
}
void __tsan_atomic_signal_fence(int) {}

// ---- memory -------------------------------------------------------------------------------------
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_realloc(void *, size_t);
void free(void *p) {
  if (p && g_on && t_rt == 0) {
    RT rt;
    forget(p, malloc_usable_size(p));
  }
  __libc_free(p);
}
void *memcpy(void *d, const void *s, size_t n) {
  if (self()) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  char *dd = (char *)d;
  asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory");
  return d;
}
void *memmove(void *d, const void *s, size_t n) {
  if (self()) {
    access(s, n, false, PC);
    access(d, n, true, PC);
  }
  char *dd = (char *)d;
  const char *ss = (const char *)s;
  if (dd <= ss || dd >= ss + n)
    asm volatile("rep movsb" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  else {
    dd += n - 1;
    ss += n - 1;
    asm volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return d;
}
void *memset(void *d, int c, size_t n) {
  if (self()) access(d, n, true, PC);
  char *dd = (char *)d;
  asm volatile("rep stosb" : "+D"(dd), "+c"(n) : "a"(c) : "memory");
  return d;
}

// ---- threads ------------------------------------------------------------------------------------
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  using R_r = std::type_identity_t<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_create");
  Thr *t = self();
  if (!t) return r(out, at, fn, arg);
  RT rt;
  if (g_n >= kMax) mc::fail("too-many-threads", "the controlled scheduler supports 16 threads");
  schedule(t);
  if (g_o.fail_create >= 0 && g_creates++ == g_o.fail_create) return EAGAIN;
  Thr *c = new Thr;
  c->id = g_n;
  c->fn = fn;
  c->arg = arg;
  c->vc = t->vc;
  c->vc.c[c->id] = 1;
  tick(t);
  int k = r(&c->real, at, trampoline, c);
  if (k != 0) {
    delete c;
    return k;
  }
  g_t[g_n++] = c;
  *out = c->real;
  progress(t);
  return 0;
}
static Thr *by_handle(pthread_t h) {
  for (int i = g_n - 1; i >= 0; --i)
    if (g_t[i]->real == h && !g_t[i]->joined) return g_t[i];
  return nullptr;
}
int pthread_join(pthread_t h, void **ret) {
  using R_r = std::type_identity_t<int (*)(pthread_t, void **)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_join");
  Thr *t = self();
  if (!t) return r(h, ret);
  RT rt;
  Thr *c = by_handle(h);
  if (!c) return r(h, ret);
  t->join_target = c->id;
  block(t, St::Join, c);
  acquire(t, c->vc);
  c->joined = true;
  return r(h, ret);
}
int pthread_detach(pthread_t h) {
  using R_r = std::type_identity_t<int (*)(pthread_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_detach");
  if (Thr *t = self()) {
    RT rt;
    (void)t;
    if (Thr *c = by_handle(h)) c->detached = true;
  }
  return r(h);
}
int sched_yield() noexcept {
  Thr *t = self();
  if (!t) return int(syscall(SYS_sched_yield));
  RT rt;
  t->spinning = true;
  schedule(t);
  return 0;
}
static int sleep_common(Thr *t, const timespec *ts) {
  RT rt;
  g_vtime += uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
  t->spinning = true;
  schedule(t);
  return 0;
}
int nanosleep(const timespec *a, timespec *b) {
  if (Thr *t = self()) return sleep_common(t, a);
  using R_r = std::type_identity_t<int (*)(const timespec *, timespec *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("nanosleep");
  return r(a, b);
}
int clock_nanosleep(clockid_t c, int fl, const timespec *a, timespec *b) {
  if (Thr *t = self()) return sleep_common(t, a);
  using R_r = std::type_identity_t<int (*)(clockid_t, int, const timespec *, timespec *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("clock_nanosleep");
  return r(c, fl, a, b);
}
int usleep(useconds_t u) {
  timespec ts{long(u / 1000000), long(u % 1000000) * 1000};
  if (Thr *t = self()) return sleep_common(t, &ts);
  using R_r = std::type_identity_t<int (*)(const timespec *, timespec *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("nanosleep");
  return r(&ts, nullptr);
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (g_on && t_self) {
    g_vtime += 1000;
    ts->tv_sec = long(g_vtime / 1000000000ull);
    ts->tv_nsec = long(g_vtime % 1000000000ull);
    return 0;
  }
  using R_r = std::type_identity_t<int (*)(clockid_t, struct timespec *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("clock_gettime");
  return r(c, ts);
}

// ---- mutexes --------------------------------------------------------------------------------------
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void take(Thr *t, pthread_mutex_t *m) {
  Mtx &x = (*g_m)[m];
  x.owner = t->id;
  x.count = 1;
  t->held.push_back({m, true});
  acquire(t, x.vc);
  progress(t);
}
static int mlock(Thr *t, pthread_mutex_t *m) {
  schedule(t);
  Mtx &x = (*g_m)[m];
  if (x.owner == t->id) {
    if (recursive(m)) {
      ++x.count;
      return 0;
    }
    mc::fail("self-deadlock", mc::format("thread %d locks a mutex it already holds", t->id));
  }
  if (x.owner >= 0) block(t, St::Mutex, m);
  take(t, m);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_mutex_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_mutex_lock");
    return r(m);
  }
  RT rt;
  return mlock(t, m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_mutex_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_mutex_trylock");
    return r(m);
  }
  RT rt;
  schedule(t);
  Mtx &x = (*g_m)[m];
  if (x.owner == t->id && recursive(m)) {
    ++x.count;
    return 0;
  }
  if (x.owner >= 0) {
    no_progress(t, PC, m, uint64_t(x.owner));
    return EBUSY;
  }
  take(t, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_mutex_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_mutex_unlock");
    return r(m);
  }
  RT rt;
  Mtx &x = (*g_m)[m];
  if (x.owner != t->id) mc::fail("unlock-not-owned", mc::format("thread %d unlocks a mutex owned by %d", t->id, x.owner));
  if (--x.count > 0) return 0;
  x.owner = -1;
  drop_lock(t, m);
  release(t, x.vc);
  progress(t);
  return 0;
}
static uint64_t abs_ns(const timespec *ts) { return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *) noexcept(false) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const timespec *) noexcept(false) { return pthread_mutex_lock(m); }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept(false) {
  if (self()) {
    RT rt;
    g_m->erase(m);
    return 0;
  }
  using R_r = std::type_identity_t<int (*)(pthread_mutex_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_mutex_destroy");
  return r(m);
}

// ---- condition variables ---------------------------------------------------------------------------
static int cwait(Thr *t, pthread_cond_t *c, pthread_mutex_t *m, const timespec *dl) {
  RT rt;
  schedule(t);
  Mtx &x = (*g_m)[m];
  int cnt = x.count;
  x.owner = -1;
  drop_lock(t, m);
  x.count = 0;
  release(t, x.vc);
  progress(t);
  t->timed = dl != nullptr;
  t->deadline = dl ? abs_ns(dl) : 0;
  block(t, St::Cond, c);
  bool to = t->timed_out;
  Mtx &y = (*g_m)[m];
  if (y.owner >= 0) block(t, St::Mutex, m);
  take(t, m);
  (*g_m)[m].count = cnt;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (Thr *t = self()) return cwait(t, c, m, nullptr);
  using R_r = std::type_identity_t<int (*)(pthread_cond_t *, pthread_mutex_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_cond_wait");
  return r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  if (Thr *t = self()) return cwait(t, c, m, ts);
  using R_r = std::type_identity_t<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_cond_timedwait");
  return r(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
  if (Thr *t = self()) return cwait(t, c, m, ts);
  using R_r = std::type_identity_t<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_cond_clockwait");
  return r(c, m, k, ts);
}
static void wake(Thr *t, St st, const void *obj, int max, uint32_t) {
  int w[kMax], n = 0;
  for (int i = 0; i < g_n; ++i)
    if (g_t[i]->st == st && g_t[i]->obj == obj && !g_t[i]->woken) w[n++] = i;
  while (n > 0 && max > 0) {
    int k = (n == 1 || max >= n || !g_o.wake_choice) ? 0 : mc::choose_raw(n);
    g_t[w[k]]->woken = true;
    w[k] = w[--n];
    std::sort(w, w + n);
    --max;
  }
  progress(t);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_cond_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_cond_signal");
    return r(c);
  }
  RT rt;
  schedule(t);
  wake(t, St::Cond, c, 1, 0);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_cond_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_cond_broadcast");
    return r(c);
  }
  RT rt;
  schedule(t);
  wake(t, St::Cond, c, kMax, 0);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) noexcept(false) {
  if (self()) return 0;
  using R_r = std::type_identity_t<int (*)(pthread_cond_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_cond_destroy");
  return r(c);
}

// ---- reader/writer locks ----------------------------------------------------------------------------
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_rwlock_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_rwlock_rdlock");
    return r(l);
  }
  RT rt;
  schedule(t);
  if ((*g_rw)[l].writer == t->id) return EDEADLK;
  if ((*g_rw)[l].writer >= 0) block(t, St::RdLock, l);
  Rw &x = (*g_rw)[l];
  x.readers.push_back(t->id);
  t->held.push_back({l, false});
  acquire(t, x.vc);
  progress(t);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_rwlock_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_rwlock_tryrdlock");
    return r(l);
  }
  RT rt;
  schedule(t);
  Rw &x = (*g_rw)[l];
  if (x.writer >= 0) {
    no_progress(t, PC, l, 1);
    return EBUSY;
  }
  x.readers.push_back(t->id);
  t->held.push_back({l, false});
  acquire(t, x.vc);
  progress(t);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_rwlock_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_rwlock_wrlock");
    return r(l);
  }
  RT rt;
  schedule(t);
  {
    Rw &x = (*g_rw)[l];
    if (x.writer == t->id || std::count(x.readers.begin(), x.readers.end(), t->id)) return EDEADLK;
    if (x.writer >= 0 || !x.readers.empty()) block(t, St::WrLock, l);
  }
  Rw &x = (*g_rw)[l];
  x.writer = t->id;
  t->held.push_back({l, true});
  acquire(t, x.vc);
  acquire(t, x.rvc);
  progress(t);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_rwlock_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_rwlock_trywrlock");
    return r(l);
  }
  RT rt;
  schedule(t);
  Rw &x = (*g_rw)[l];
  if (x.writer >= 0 || !x.readers.empty()) {
    no_progress(t, PC, l, 2);
    return EBUSY;
  }
  x.writer = t->id;
  t->held.push_back({l, true});
  acquire(t, x.vc);
  acquire(t, x.rvc);
  progress(t);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(pthread_rwlock_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_rwlock_unlock");
    return r(l);
  }
  RT rt;
  drop_lock(t, l);
  Rw &x = (*g_rw)[l];
  if (x.writer == t->id) {
    x.writer = -1;
    release(t, x.vc);
  } else {
    auto it = std::find(x.readers.begin(), x.readers.end(), t->id);
    if (it == x.readers.end()) mc::fail("unlock-not-owned", mc::format("thread %d releases a shared lock it does not hold", t->id));
    x.readers.erase(it);
    release(t, x.rvc);
  }
  progress(t);
  return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *l) noexcept(false) {
  if (self()) {
    RT rt;
    g_rw->erase(l);
    return 0;
  }
  using R_r = std::type_identity_t<int (*)(pthread_rwlock_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pthread_rwlock_destroy");
  return r(l);
}

// ---- function-local statics ---------------------------------------------------------------------------
int mc_guard_acquire(void *g) asm("__cxa_guard_acquire");
void mc_guard_release(void *g) noexcept asm("__cxa_guard_release");
int mc_guard_acquire(void *g) {
  static void *rp = nullptr;
  if (!rp) rp = dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  auto r = reinterpret_cast<int (*)(void *)>(rp);//("__cxa_guard_acquire");
  int k = r(g);
  if (Thr *t = self()) {
    RT rt;
    if (k == 0) {
      auto it = g_sync->find(g);
      if (it != g_sync->end()) acquire(t, it->second);
    }
  }
  return k;
}
void mc_guard_release(void *g) noexcept {
  static void *rp = nullptr;
  if (!rp) rp = dlsym(RTLD_NEXT, "__cxa_guard_release");
  auto r = reinterpret_cast<void (*)(void *)>(rp);//("__cxa_guard_release");
  if (Thr *t = self()) {
    RT rt;
    release(t, (*g_sync)[g]);
    progress(t);
  }
  r(g);
}

// ---- futexes (std::atomic wait/notify, semaphores, latches) ---------------------------------------------
static long futex_model(Thr *t, uint32_t *w, int op, uint32_t val, const timespec *ts) {
  RT rt;
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    schedule(t);
    if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    t->timed = ts != nullptr;
    t->deadline = ts ? abs_ns(ts) : 0;
    block(t, St::Futex, w);
    if (t->timed_out) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    schedule(t);
    wake(t, St::Futex, w, int(val) < 0 ? kMax : int(std::min<uint32_t>(val, kMax)), 0);
    return 1;
  }
  errno = ENOSYS;
  return -1;
}
#ifndef SCHED_WITH_FSX
long syscall(long nr, ...) noexcept {
  va_list ap;
  va_start(ap, nr);
  long a[6];
  for (long &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex)
    if (Thr *t = self()) return futex_model(t, (uint32_t *)a[0], int(a[1]), uint32_t(a[2]), (const timespec *)a[3]);
  using R_r = std::type_identity_t<long (*)(long, ...)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("syscall");
  return r(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
#endif

// ---- POSIX semaphores ------------------------------------------------------------------------------------
static std::map<const void *, std::pair<int, VC>> *g_sems;
static std::pair<int, VC> &semof(sem_t *s) {
  if (!g_sems) g_sems = new std::map<const void *, std::pair<int, VC>>;
  auto it = g_sems->find(s);
  if (it == g_sems->end()) {
    int v = 0;
    sem_getvalue(s, &v);
    it = g_sems->emplace(s, std::make_pair(v, VC{})).first;
  }
  return it->second;
}
int sem_post(sem_t *s) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(sem_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("sem_post");
    return r(s);
  }
  RT rt;
  schedule(t);
  auto &x = semof(s);
  ++x.first;
  release(t, x.second);
  wake(t, St::Sem, s, kMax, 0);
  return 0;
}
int sem_wait(sem_t *s) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(sem_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("sem_wait");
    return r(s);
  }
  RT rt;
  schedule(t);
  while (semof(s).first == 0) block(t, St::Sem, s);
  auto &x = semof(s);
  --x.first;
  acquire(t, x.second);
  progress(t);
  return 0;
}
int sem_trywait(sem_t *s) noexcept(false) {
  Thr *t = self();
  if (!t) {
    using R_r = std::type_identity_t<int (*)(sem_t *)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("sem_trywait");
    return r(s);
  }
  RT rt;
  schedule(t);
  auto &x = semof(s);
  if (x.first == 0) {
    no_progress(t, PC, s, 0);
    errno = EAGAIN;
    return -1;
  }
  --x.first;
  acquire(t, x.second);
  progress(t);
  return 0;
}

// ---- file access -------------------------------------------------------------------------------------------
#ifndef SCHED_WITH_FSX
#define IOPOINT(t)                    \
  Thr *t = self();                    \
  if (t && g_o.io_points) {           \
    RT rt;                            \
    schedule(t);                      \
  }
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  IOPOINT(t)
  using R_r = std::type_identity_t<ssize_t (*)(int, void *, size_t, off_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pread");
  ssize_t k;
  if (t && g_o.split_io && n >= 1024) {
    size_t h = n / 2 / 512 * 512;
    k = r(fd, b, h, o);
    if (k == ssize_t(h)) {
      {
        RT rt;
        schedule(t);
      }
      ssize_t k2 = r(fd, static_cast<char *>(b) + h, n - h, o + off_t(h));
      k = k2 < 0 ? k2 : k + k2;
    }
  } else {
    k = r(fd, b, n, o);
  }
  if (t && k > 0) access(b, size_t(k), true, PC);
  return k;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  IOPOINT(t)
  using R_r = std::type_identity_t<ssize_t (*)(int, const void *, size_t, off_t)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("pwrite");
  if (t) {
    access(b, n, false, PC);
    RT rt;
    progress(t);
    if (g_o.split_io && n >= 1024) {
      size_t h = n / 2 / 512 * 512;
      ssize_t k = r(fd, b, h, o);
      if (k != ssize_t(h)) return k;
      schedule(t);
      ssize_t k2 = r(fd, static_cast<const char *>(b) + h, n - h, o + off_t(h));
      return k2 < 0 ? k2 : k + k2;
    }
  }
  return r(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
int fsync(int fd) {
  IOPOINT(t)
  using R_r = std::type_identity_t<int (*)(int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("fsync");
  return r(fd);
}
int fdatasync(int fd) {
  IOPOINT(t)
  using R_r = std::type_identity_t<int (*)(int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("fdatasync");
  return r(fd);
}
#endif
// one-time initialisation (std::call_once): runs without preemption and orders its users
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  using R = int (*)(pthread_once_t *, void (*)(void));
  static R p = nullptr;
  if (!p) p = real<R>("pthread_once");
  Thr *t = self();
  if (!t) return p(o, f);
  {
    RT rt;
    schedule(t);
    acquire(t, (*g_sync)[o]);
  }
  ++t->nopreempt;
  int k = p(o, f);
  --t->nopreempt;
  RT rt;
  release(t, (*g_sync)[o]);
  return k;
}
// advisory locks: a holder is always another descriptor of this process (or a process that never moves)
int flock(int fd, int op) {
  using R_r = std::type_identity_t<int (*)(int, int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("flock");
  Thr *t = self();
  if (!t) return r(fd, op);
  RT rt;
  schedule(t);
  for (;;) {
    int k = r(fd, op | LOCK_NB);
    if (k == 0 || (op & LOCK_NB) || errno != EWOULDBLOCK) {
      if (k == 0) progress(t);
      return k;
    }
    t->spinning = true;
    schedule(t);
    t->spinning = false;
  }
}
int close(int fd) {
  using R_r = std::type_identity_t<int (*)(int)>; static R_r p_r = nullptr; R_r r = p_r; if (!r) p_r = r = real<R_r>("close");
  Thr *t = self();
  if (t) {
    RT rt;
    progress(t);
  }
  return r(fd);
}
}  // extern "C"
