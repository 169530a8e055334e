// P26: the admission gate hands every permit to exactly one waiter, under every schedule.
// mc-sched
#include <atomic>
#include <thread>
#include <vector>
#include "coro/coro.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"
#include "utils/coro_gate.hpp"

namespace {
struct Item {
  int holder = -1;   // plain: unordered hand-overs are reported by the race monitor
  int uses = 0;
};
thread_local bool t_releasing = false;

struct Shared {
  alaya::AsyncGate<Item> gate;
  int holders = 0, max_holders = 0, resumed = 0;
  std::vector<int> grants;
};

coro::task<void> worker(Shared &s, coro::thread_pool &pool, std::vector<Item> &items, int id, int rounds, bool yield_inside) {
  co_await pool.schedule();
  for (int r = 0; r < rounds; ++r) {
    Item *it = co_await s.gate.acquire(pool);
    MC_REQUIRE(!t_releasing, "resumed-inline", "a waiter ran on the releasing thread's stack");
    MC_REQUIRE(it >= items.data() && it < items.data() + items.size(), "no-permit", "coroutine %d was resumed without a permit", id);
    MC_REQUIRE(it->holder == -1, "two-holders", "coroutine %d got a permit that coroutine %d holds", id, it->holder);
    it->holder = id;
    {
      sched::NoPreempt np;
      ++s.holders;
      s.grants.push_back(id);
      MC_REQUIRE(s.holders <= int(items.size()), "too-many-holders", "%d holders for %zu permits", s.holders, items.size());
    }
    if (yield_inside)
      co_await pool.yield();
    else
      sched::point();
    MC_REQUIRE(it->holder == id, "stolen", "the permit of coroutine %d went to %d while held", id, it->holder);
    it->holder = -1;
    ++it->uses;
    {
      sched::NoPreempt np;
      --s.holders;
      ++s.resumed;
    }
    t_releasing = true;
    s.gate.release(it);
    t_releasing = false;
  }
}

void body(int coros, int permits, int threads, int rounds, bool yield_inside, int pb, int maxp = 30000) {
  sched::Options o;
  o.preemptions = mc::thorough() ? pb + 1 : pb;
  o.max_points = maxp;
  sched::run(o, [&] {
    std::vector<Item> items(permits);
    Shared s;
    for (auto &i : items) s.gate.add(&i);
    MC_REQUIRE(s.gate.free_count() == size_t(permits), "add", "%zu free after adding %d", s.gate.free_count(), permits);
    {
      coro::thread_pool pool(coro::thread_pool::options{.thread_count = uint32_t(threads)});
      std::vector<coro::task<void>> ts;
      for (int i = 0; i < coros; ++i) ts.push_back(worker(s, pool, items, i, rounds, yield_inside));
      coro::sync_wait(coro::when_all(std::move(ts)));
    }
    MC_REQUIRE(s.resumed == coros * rounds, "not-resumed", "%d of %d acquisitions ran to their end", s.resumed, coros * rounds);
    MC_REQUIRE(s.gate.free_count() == size_t(permits), "permit-lost", "%zu of %d permits are free at the end", s.gate.free_count(), permits);
    int uses = 0;
    for (auto &i : items) uses += i.uses;
    MC_REQUIRE(uses == coros * rounds, "uses", "%d", uses);
    s.gate.clear();
    MC_REQUIRE(s.gate.free_count() == 0, "clear", "%zu", s.gate.free_count());
    uint64_t h = 1;
    for (int g : s.grants) h = mc::mix(h, g);
    mc::state(h);
  });
}

// waiters parked in a known order are served in that order; releases and acquisitions in every order
coro::task<void> parked(Shared &s, coro::thread_pool &pool, int id, std::vector<Item *> &got) {
  Item *it = co_await s.gate.acquire(pool);
  got[id] = it;
  s.grants.push_back(id);
}
void fifo(int depth) {
  int permits = 1 + mc::choose(2, "permits");
  sched::Options o;
  o.preemptions = 0;
  sched::run(o, [&] {
    std::vector<Item> items(permits);
    Shared s;
    for (auto &i : items) s.gate.add(&i);
    coro::thread_pool pool(coro::thread_pool::options{.thread_count = 1});
    std::vector<coro::task<void>> ts;
    std::vector<Item *> got(depth + 1, nullptr);
    ts.reserve(depth + 1);
    std::vector<int> held;
    int next = 0, granted = 0;
    auto settle = [&] {  // let the pool run everything it has
      coro::sync_wait([](coro::thread_pool &p) -> coro::task<void> { co_await p.schedule(); }(pool));
    };
    for (int d = 0; d < depth; ++d) {
      if (held.empty() || mc::choose(2, "acquire or release") == 0) {
        ts.push_back(parked(s, pool, next++, got));
        ts.back().resume();
        mc::note("acquire %d", next - 1);
      } else {
        int k = held.size() > 1 ? mc::choose(2, "which") : 0;
        Item *it = got[held[k]];
        mc::note("release by %d", held[k]);
        held.erase(held.begin() + k);
        s.gate.release(it);
      }
      settle();
      int out = int(s.grants.size()) - 0;
      while (granted < out) {
        MC_REQUIRE(s.grants[granted] == granted, "order", "waiter %d was served before waiter %d", s.grants[granted], granted);
        held.push_back(granted);
        ++granted;
      }
      MC_REQUIRE(int(held.size()) == std::min(permits, next - (granted - int(held.size()))), "not-served", "%zu holders, %d waiting, %d permits", held.size(), next - granted, permits);
      for (size_t i = 0; i < held.size(); ++i)
        for (size_t j = 0; j < i; ++j) MC_REQUIRE(got[held[i]] != got[held[j]], "two-holders", "waiters %d and %d hold one permit", held[i], held[j]);
      MC_REQUIRE(s.gate.free_count() == size_t(permits) - held.size(), "free-count", "%zu free with %zu holders", s.gate.free_count(), held.size());
      mc::step();
    }
    while (!held.empty()) {
      s.gate.release(got[held.back()]);
      held.pop_back();
      settle();
      while (granted < int(s.grants.size())) held.push_back(granted++);
    }
    MC_REQUIRE(granted == next && s.gate.free_count() == size_t(permits), "permit-lost", "%d of %d served, %zu free", granted, next, s.gate.free_count());
  });
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P26";
  sp.level = "model_checking";
  sp.rule = "a schedule is non-trivial when it contains a preemption; every order of acquisitions and releases is";
  sp.assumptions = {"the coroutine library (libcoro, absent here) is replaced by a stand-in with the same interface; its thread pool is under the scheduler's control"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b, bool deep = false) {
    mc::Scenario s{n, b, deep};
    s.isolate = true;
    sc.push_back(s);
  };
  add("2-coros-1-permit", [] { body(2, 1, 2, 1, false, 3); });
  add("2-coros-1-permit-2-rounds", [] { body(2, 1, 2, 2, false, 2); });
  add("3-coros-1-permit", [] { body(3, 1, 2, 1, false, 2); });
  add("3-coros-2-permits", [] { body(3, 2, 2, 1, false, 2); });
  add("3-coros-2-permits-3-threads", [] { body(3, 2, 3, 1, false, 1); });
  add("3-coros-1-permit-yield", [] { body(3, 1, 2, 1, true, 2); });
  add("2-coros-1-permit-deep", [] { body(2, 1, 2, 1, false, 4); }, true);
  add("orders", [] { fifo(mc::thorough() ? 14 : 12); });
  return mc::run_main(argc, argv, sp, sc);
}
