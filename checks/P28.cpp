// P28: locks exclude, shared holders coexist, pooled scratch objects have one user, under every schedule.
// mc-sched
#include <atomic>
#include <mutex>
#include <optional>
#include <set>
#include <thread>
#include <vector>
#include "index/graph/hnsw/visited_list_pool.hpp"
#include "index/graph/laser/utils/concurrent_queue.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"
#include "utils/locks.hpp"
#include "utils/rabitq_utils/search_utils/visited_pool.hpp"

namespace {
using Threads = std::vector<std::thread>;
void join(Threads &t) {
  for (auto &x : t) x.join();
}
sched::Options opt(int quick, int deep) {
  sched::Options o;
  o.preemptions = mc::thorough() ? deep : quick;
  return o;
}

// plain data: any two unordered accesses are reported by the race monitor
struct Pair {
  long a = 0, b = 0;
};

void spin(int nthreads, int rounds, bool use_try, bool guard, int pb) {
  sched::run(opt(pb, pb + 2), [&] {
    alaya::SpinLock l;
    Pair p;
    int inside = 0;
    std::vector<long> got(nthreads, 0);
    Threads t;
    for (int i = 0; i < nthreads; ++i)
      t.emplace_back([&, i] {
        for (int r = 0; r < rounds; ++r) {
          auto section = [&] {
            MC_REQUIRE(inside == 0, "two-holders", "thread %d entered while another holds the spin lock", i);
            inside = 1;
            long v = p.a;
            sched::point();
            p.a = v + 1;
            sched::point();
            p.b = v + 1;
            inside = 0;
            ++got[i];
          };
          if (use_try && i == 0) {
            if (!l.try_lock()) continue;
            section();
            l.unlock();
          } else if (guard) {
            alaya::SpinLockGuard g(l);
            section();
          } else {
            l.lock();
            section();
            l.unlock();
          }
        }
      });
    join(t);
    long sum = 0;
    for (long g : got) sum += g;
    MC_REQUIRE(p.a == sum && p.b == sum, "lost-update", "%ld increments but the counters are %ld/%ld", sum, p.a, p.b);
    MC_REQUIRE(l.try_lock(), "not-free", "the spin lock is held although everybody released it");
    MC_REQUIRE(!l.try_lock(), "try-lock-twice", "try_lock succeeded on a held spin lock");
    l.unlock();
    mc::state(mc::mix(p.a, sched::points()));
  });
}

void shared(int readers, int writers, int rounds, bool updown, int pb) {
  sched::run(opt(pb, pb + 2), [&] {
    alaya::SharedLock l;
    Pair p;
    std::atomic<int> in_r{0}, in_w{0};
    int max_r = 0;
    Threads t;
    long expect = long(writers) * rounds;
    for (int i = 0; i < writers; ++i)
      t.emplace_back([&, i] {
        for (int r = 0; r < rounds; ++r) {
          l.lock();
          {
            sched::NoPreempt np;
            MC_REQUIRE(in_w == 0 && in_r == 0, "writer-not-alone", "writer entered with %d writers and %d readers inside", in_w.load(), in_r.load());
            MC_REQUIRE(l.get_state() == -1, "state", "exclusive holder sees state %d", l.get_state());
            ++in_w;
          }
          long v = p.a + 1;
          sched::point();
          p.a = v;
          sched::point();
          p.b = v;
          {
            sched::NoPreempt np;
            --in_w;
          }
          if (updown && i == 0) {
            // still protected as a reader after degrading
            { sched::NoPreempt np; ++in_r; l.degrade_lock(); }
            sched::point();
            MC_REQUIRE(p.a == v && p.b == v, "degraded-not-shared", "a writer entered while a degraded holder was inside");
            { sched::NoPreempt np; --in_r; }
            l.unlock_shared();
          } else {
            l.unlock();
          }
        }
      });
    for (int i = 0; i < readers; ++i)
      t.emplace_back([&] {
        for (int r = 0; r < rounds; ++r) {
          l.lock_shared();
          {
            sched::NoPreempt np;
            MC_REQUIRE(in_w == 0, "reader-with-writer", "reader entered while a writer is inside");
            ++in_r;
          }
          long a = p.a;
          sched::point();
          long b = p.b;
          MC_REQUIRE(a == b, "torn-read", "reader saw %ld/%ld", a, b);
          {
            sched::NoPreempt np;
            --in_r;
          }
          l.unlock_shared();
        }
      });
    join(t);
    MC_REQUIRE(p.a == expect && p.b == expect, "lost-update", "%ld writes but the counters are %ld/%ld", expect, p.a, p.b);
    MC_REQUIRE(l.no_lock() && l.get_state() == 0, "not-free", "state %d after everybody released", l.get_state());
    mc::state(mc::mix(max_r, sched::points()));
  });
}

// two shared holders must be able to be inside together; if they exclude each other this never ends
void coexist(bool) {
  sched::run(opt(3, 5), [&] {
    alaya::SharedLock l;
    std::atomic<int> in{0};
    Threads t;
    for (int i = 0; i < 2; ++i)
      t.emplace_back([&] {
        l.lock_shared();
        in.fetch_add(1);
        while (in.load() < 2) {
        }
        l.unlock_shared();
      });
    join(t);
    l.lock();
    l.degrade_lock();
    MC_REQUIRE(l.get_state() == 1, "degrade", "state %d after degrading", l.get_state());
    std::thread r([&] {
      l.lock_shared();
      l.unlock_shared();
    });
    r.join();  // a reader gets in beside a degraded holder
    l.upgrade_lock();
    MC_REQUIRE(l.get_state() == -1, "upgrade", "state %d after the only reader upgraded", l.get_state());
    l.unlock();
    MC_REQUIRE(l.no_lock(), "not-free", "state %d", l.get_state());
  });
}

template <typename Pool, typename Get, typename Put, typename Test, typename Mark>
void pool(int nthreads, int rounds, Pool &p, Get get, Put put, Test test, Mark mark) {
  std::vector<const void *> held(nthreads, nullptr);
  Threads t;
  for (int i = 0; i < nthreads; ++i)
    t.emplace_back([&, i] {
      for (int r = 0; r < rounds; ++r) {
        auto *o = get(p);
        {
          sched::NoPreempt np;
          for (int j = 0; j < nthreads; ++j) MC_REQUIRE(held[j] != o, "shared-scratch", "threads %d and %d hold the same pooled object", i, j);
          held[i] = o;
        }
        for (int id = 0; id < 4; ++id) MC_REQUIRE(!test(o, id), "dirty-scratch", "thread %d got a pooled object that already contains %d", i, id);
        mark(o, i);
        sched::point();
        for (int id = 0; id < 4; ++id) MC_REQUIRE(test(o, id) == (id == i), "scratch-changed", "the pooled object of thread %d changed under it at %d", i, id);
        {
          sched::NoPreempt np;
          held[i] = nullptr;
        }
        put(p, o);
      }
    });
  join(t);
}
void visited_pool(int n, int rounds, int pb) {
  int init = mc::choose(3, "initial pool size");
  sched::run(opt(pb, pb + 1), [&] {
    alaya::VisitedListPool p(init, 8);
    pool(
        n, rounds, p, [](auto &q) { return q.get_free_visited_list(); }, [](auto &q, auto *o) { q.release_visited_list(o); },
        [](auto *o, int id) { return o->mass_[id] == o->cur_v_; }, [](auto *o, int id) { o->mass_[id] = o->cur_v_; });
  });
}
void hash_pool(int n, int rounds, int pb) {
  int init = mc::choose(3, "initial pool size");
  sched::run(opt(pb, pb + 1), [&] {
    alaya::HashSetPool p(init, 80);
    pool(
        n, rounds, p, [](auto &q) { return q.acquire(); }, [](auto &q, auto *o) { q.release(o); }, [](auto *o, int id) { return o->get(id); },
        [](auto *o, int id) { o->set(id); });
  });
}
template <typename Tag>
void epoch_pool(int n, int rounds, int pb) {
  int init = mc::choose(3, "initial pool size");
  sched::run(opt(pb, pb + 1), [&] {
    alaya::EpochVisitedPool<Tag> p(init, 8);
    pool(
        n, rounds, p, [](auto &q) { return q.acquire(); }, [](auto &q, auto *o) { q.release(o); }, [](auto *o, int id) { return o->get(id); },
        [](auto *o, int id) { o->set(id); });
  });
}
// epochs wrap: a scratch object that has been reused more often than its tag has values is still clean
template <typename Get, typename Put, typename Test, typename Mark, typename Pool>
void wrap(Pool &p, long rounds, Get get, Put put, Test test, Mark mark) {
  for (long r = 0; r < rounds; ++r) {
    auto *o = get(p);
    for (int id = 0; id < 4; ++id) MC_REQUIRE(!test(o, id), "dirty-scratch", "after %ld uses the pooled object already contains %d", r, id);
    if (r % 3 == 0) mark(o, int((r / 3) % 4));  // every epoch value is left behind in some position
    if (r == 0) mark(o, 3);
    put(p, o);
  }
  mc::nontrivial();
  mc::step(rounds);
}
void wrap_body() {
  int kind = mc::choose(4, "pool kind");
  if (kind == 0) {
    alaya::VisitedListPool p(1, 8);
    wrap(
        p, 200000, [](auto &q) { return q.get_free_visited_list(); }, [](auto &q, auto *o) { q.release_visited_list(o); },
        [](auto *o, int id) { return o->mass_[id] == o->cur_v_; }, [](auto *o, int id) { o->mass_[id] = o->cur_v_; });
  } else if (kind == 1) {
    alaya::EpochVisitedPool<uint8_t> p(1, 8);
    wrap(
        p, 2000, [](auto &q) { return q.acquire(); }, [](auto &q, auto *o) { q.release(o); }, [](auto *o, int id) { return o->get(id); },
        [](auto *o, int id) { o->set(id); });
  } else if (kind == 2) {
    alaya::EpochVisitedPool<uint16_t> p(1, 8);
    wrap(
        p, 200000, [](auto &q) { return q.acquire(); }, [](auto &q, auto *o) { q.release(o); }, [](auto *o, int id) { return o->get(id); },
        [](auto *o, int id) { o->set(id); });
  } else {
    alaya::HashSetPool p(1, 80);
    wrap(
        p, 500, [](auto &q) { return q.acquire(); }, [](auto &q, auto *o) { q.release(o); }, [](auto *o, int id) { return o->get(id); },
        [](auto *o, int id) { o->set(id); });
  }
}

void queue(int producers, int consumers, int items, int pb) {
  bool bulk = mc::choose(2, "push one by one or insert") == 1;
  sched::run(opt(pb, pb + 1), [&] {
    ConcurrentQueue<int> q(-1);
    std::vector<std::vector<int>> got(consumers);
    std::atomic<int> left{producers * items};
    Threads t;
    for (int i = 0; i < producers; ++i)
      t.emplace_back([&, i] {
        std::vector<int> v;
        for (int k = 0; k < items; ++k) v.push_back(i * 10 + k);
        if (bulk)
          q.insert(v.begin(), v.end());
        else
          for (int &x : v) q.push(x);
        q.push_notify_all();
      });
    for (int c = 0; c < consumers; ++c)
      t.emplace_back([&, c] {
        while (left.load() > 0) {
          int x = q.pop();
          if (x == -1) {
            q.wait_for_push_notify();
            continue;
          }
          got[c].push_back(x);
          left.fetch_sub(1);
        }
        q.push_notify_all();
      });
    join(t);
    std::set<int> all;
    for (auto &g : got) {
      std::vector<int> last(producers, -1);
      for (int x : g) {
        MC_REQUIRE(x >= 0 && x / 10 < producers && x % 10 < items, "invented-item", "item %d was never pushed", x);
        MC_REQUIRE(all.insert(x).second, "item-twice", "item %d was delivered twice", x);
        MC_REQUIRE(x % 10 > last[x / 10], "order", "item %d overtook an earlier one", x);
        last[x / 10] = x % 10;
      }
    }
    MC_REQUIRE(int(all.size()) == producers * items && q.empty() && q.size() == 0, "item-lost", "%zu of %d items were delivered", all.size(), producers * items);
  });
}

void file_lock(int n) {
  std::string path = mc::fresh_dir() + "/l.lock";
  sched::run(opt(3, 5), [&] {
    int inside = 0;
    Pair p;
    Threads t;
    for (int i = 0; i < n; ++i)
      t.emplace_back([&, i] {
        alaya::FileLock l(path);
        {
          sched::NoPreempt np;  // flock orders the holders; it is outside the C++ memory model
          MC_REQUIRE(inside == 0, "two-holders", "thread %d got the file lock while another holds it", i);
          inside = 1;
          ++p.a;
        }
        sched::point();
        {
          sched::NoPreempt np;
          inside = 0;
        }
      });
    join(t);
    MC_REQUIRE(p.a == n, "lost-update", "%ld of %d", p.a, n);
  });
}
}  // namespace

int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P28";
  sp.level = "model_checking";
  sp.rule = "an execution is non-trivial when the schedule contains at least one preemption";
  sp.assumptions = {"sequentially consistent executions, plus a happens-before race monitor that honours the memory orders used",
                    "compare_exchange_weak does not fail spuriously (true on x86-64)"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b, bool deep = false) {
    mc::Scenario s{n, b, deep};
    s.isolate = true;
    sc.push_back(s);
  };
  add("spin-2x2", [] { spin(2, 2, false, false, 4); });
  add("spin-guard-2x2", [] { spin(2, 2, false, true, 4); });
  add("spin-3x1", [] { spin(3, 1, false, false, 3); });
  add("spin-try-2x2", [] { spin(2, 2, true, false, 4); });
  add("shared-1r1w", [] { shared(1, 1, 2, false, 3); });
  add("shared-2r1w", [] { shared(2, 1, 1, false, 3); });
  add("shared-0r2w", [] { shared(0, 2, 2, false, 3); });
  add("shared-1r2w", [] { shared(1, 2, 1, false, 3); });
  add("shared-updown", [] { shared(1, 2, 1, true, 3); });
  add("shared-coexist", [] { coexist(true); });
  add("visited-pool-2x2", [] { visited_pool(2, 2, 3); });
  add("visited-pool-3x1", [] { visited_pool(3, 1, 2); });
  add("hashset-pool-2x2", [] { hash_pool(2, 2, 3); });
  add("hashset-pool-3x1", [] { hash_pool(3, 1, 2); });
  add("epoch-pool-2x2", [] { epoch_pool<uint32_t>(2, 2, 3); });
  add("epoch-pool-3x1", [] { epoch_pool<uint8_t>(3, 1, 2); });
  add("queue-1p1c", [] { queue(1, 1, 2, 3); });
  add("queue-2p1c", [] { queue(2, 1, 1, 2); });
  add("queue-1p2c", [] { queue(1, 2, 2, 2); });
  add("file-lock-2", [] { file_lock(2); });
  add("file-lock-3", [] { file_lock(3); }, true);
  add("scratch-reuse-wraps", [] { wrap_body(); });
  return mc::run_main(argc, argv, sp, sc);
}
