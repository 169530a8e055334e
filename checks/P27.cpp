// P27: every task given to the scheduler or the thread pool runs to completion exactly once.
// mc-sched
#include <atomic>
#include <coroutine>
#include <future>
#include <stdexcept>
#include <thread>
#include <vector>
#include "executor/scheduler.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"
#include "utils/thread_pool.hpp"

namespace {
struct Job {  // a lazily started coroutine owned by the scenario
  struct promise_type {
    Job get_return_object() { return Job{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { mc::fail("job-exception", "an exception left a job"); }
  };
  std::coroutine_handle<promise_type> h;
};
struct Jobs {
  std::vector<Job> v;
  ~Jobs() {
    for (auto &j : v) j.h.destroy();
  }
};
sched::Options opt(int pb) {
  sched::Options o;
  o.preemptions = mc::thorough() ? pb + 1 : pb;
  o.max_points = 6000;
  return o;
}
struct Log {
  std::vector<int> steps;  // per job: how many steps ran; plain accesses, so a job on two threads is a race
};
Job job(Log &l, int id, int steps) {
  for (int s = 0; s < steps; ++s) {
    MC_REQUIRE(l.steps[id] == s, "step-order", "job %d ran step %d after %d steps", id, s, l.steps[id]);
    ++l.steps[id];
    if (s + 1 < steps) co_await std::suspend_always{};
  }
}
Job yielding(Log &l, alaya::Scheduler &sc, int id, int steps) {
  for (int s = 0; s < steps; ++s) {
    MC_REQUIRE(l.steps[id] == s, "step-order", "job %d ran step %d after %d steps", id, s, l.steps[id]);
    ++l.steps[id];
    if (s + 1 < steps) co_await sc.schedule();
  }
}
Job spawner(Log &l, alaya::Scheduler &sc, int id, std::coroutine_handle<> child) {
  ++l.steps[id];
  sc.schedule(child);
  co_return;
}
Job entering(Log &l, alaya::Scheduler &sc, int id) {  // starts on the submitting thread and moves to the workers
  ++l.steps[id];
  co_await sc.schedule();
  MC_REQUIRE(sched::tid() != 0, "still-outside", "job %d resumed on the submitting thread", id);
  ++l.steps[id];
}
void from_outside(int workers, int jobs, int pb) {
  sched::run(opt(pb), [&] {
    Log l;
    l.steps.assign(jobs, 0);
    Jobs js;
    std::vector<CpuID> cpus;
    for (int i = 0; i < workers; ++i) cpus.push_back(i);
    alaya::Scheduler sc(cpus);
    sc.begin();
    for (int i = 0; i < jobs; ++i) {
      js.v.push_back(entering(l, sc, i));
      js.v.back().h.resume();
    }
    sc.join();
    for (int i = 0; i < jobs; ++i) MC_REQUIRE(js.v[i].h.done() && l.steps[i] == 2, "not-finished", "job %d ran %d of 2 steps", i, l.steps[i]);
    mc::state(sched::points());
  });
}
enum class When { Before, After, Both, Running };
void scheduler(int workers, int jobs, int steps, When when, bool yields, bool explicit_join, int pb) {
  sched::run(opt(pb), [&] {
    Log l;
    l.steps.assign(jobs, 0);
    Jobs js;
    std::vector<CpuID> cpus;
    for (int i = 0; i < workers; ++i) cpus.push_back(i);
    {
      alaya::Scheduler sc(cpus);
      if (when == When::Running) {
        js.v.push_back(job(l, 1, steps));
        js.v.push_back(spawner(l, sc, 0, js.v[0].h));
        sc.schedule(js.v[1].h);
        sc.begin();
      } else {
        for (int i = 0; i < jobs; ++i) js.v.push_back(yields ? yielding(l, sc, i, steps) : job(l, i, steps));
        int before = when == When::Before ? jobs : when == When::After ? 0 : jobs / 2;
        for (int i = 0; i < before; ++i) sc.schedule(js.v[i].h);
        sc.begin();
        for (int i = before; i < jobs; ++i) sc.schedule(js.v[i].h);
      }
      if (explicit_join) {
        sc.join();
        for (int i = 0; i < jobs; ++i) MC_REQUIRE(js.v[i].h.done(), "not-finished", "join returned although job %d is unfinished", i);
      }
    }
    for (int i = 0; i < int(js.v.size()); ++i) MC_REQUIRE(js.v[i].h.done(), "not-finished", "the scheduler ended although job %d is unfinished", i);
    for (int i = 0; i < jobs; ++i) {
      int want = when == When::Running && i == 0 ? 1 : steps;
      MC_REQUIRE(l.steps[i] == want, "steps", "job %d ran %d of %d steps", i, l.steps[i], want);
    }
    mc::state(sched::points());
  });
}

// ---- thread pool -------------------------------------------------------------------------------------------
void pool_futures(int threads, int submitters, int per, int pb) {
  int throwing = mc::choose(2, "one task throws") ? 1 : -1;
  sched::run(opt(pb), [&] {
    int n = submitters * per;
    std::vector<int> runs(n, 0);
    {
      alaya::ThreadPool p(threads);
      std::vector<std::thread> t;
      for (int s = 0; s < submitters; ++s)
        t.emplace_back([&, s] {
          std::vector<std::future<int>> f;
          for (int k = 0; k < per; ++k) {
            int id = s * per + k;
            f.push_back(p.enqueue(
                [&runs, throwing](int x) {
                  ++runs[x];
                  if (x == throwing) throw std::runtime_error("task " + std::to_string(x));
                  return x * 3;
                },
                id));
          }
          for (int k = 0; k < per; ++k) {
            int id = s * per + k;
            try {
              int v = f[k].get();
              MC_REQUIRE(id != throwing, "exception-lost", "task %d threw but its submitter got a value", id);
              MC_REQUIRE(v == id * 3, "wrong-result", "task %d returned %d", id, v);
            } catch (const std::runtime_error &e) {
              MC_REQUIRE(id == throwing && std::string(e.what()) == "task " + std::to_string(id), "wrong-exception", "task %d: %s", id, e.what());
            }
          }
        });
      for (auto &x : t) x.join();
    }
    for (int i = 0; i < n; ++i) MC_REQUIRE(runs[i] == 1, "run-count", "task %d ran %d times", i, runs[i]);
  });
}
void pool_shutdown(int threads, int tasks, int pb) {
  sched::run(opt(pb), [&] {
    std::vector<int> runs(tasks, 0);
    std::vector<std::future<void>> f;
    {
      alaya::ThreadPool p(threads);
      for (int i = 0; i < tasks; ++i) f.push_back(p.enqueue([&runs, i] { ++runs[i]; }));
    }
    for (int i = 0; i < tasks; ++i) {
      MC_REQUIRE(runs[i] == 1, "run-count", "task %d ran %d times before the pool was gone", i, runs[i]);
      f[i].get();
    }
  });
}
void pool_wait(int threads, int tasks, int waiters, int rounds, int pb) {
  sched::run(opt(pb), [&] {
    alaya::ThreadPool p(threads);
    for (int r = 0; r < rounds; ++r) {
      std::vector<int> runs(tasks, 0);
      for (int i = 0; i < tasks; ++i) p.enqueue([&runs, i] { ++runs[i]; });
      std::vector<std::thread> t;
      auto wait = [&] {
        p.wait_until_all_tasks_completed(tasks);
        for (int i = 0; i < tasks; ++i) MC_REQUIRE(runs[i] == 1, "waited-too-little", "waiting ended although task %d ran %d times", i, runs[i]);
      };
      for (int w = 1; w < waiters; ++w) t.emplace_back(wait);
      wait();
      for (auto &x : t) x.join();
      p.reset_task();
    }
  });
}
void queue(int producers, int consumers, int per, int pb) {
  sched::run(opt(pb), [&] {
    alaya::TaskQueue q;
    Log l;
    int n = producers * per;
    l.steps.assign(n, 0);
    Jobs js;
    for (int i = 0; i < n; ++i) js.v.push_back(job(l, i, 1));
    std::atomic<int> left{n};
    std::vector<std::thread> t;
    for (int p = 0; p < producers; ++p)
      t.emplace_back([&, p] {
        for (int k = 0; k < per; ++k) q.push(js.v[p * per + k].h);
      });
    for (int c = 0; c < consumers; ++c)
      t.emplace_back([&] {
        std::coroutine_handle<> h;
        while (left.load() > 0)
          if (q.pop(h)) {
            MC_REQUIRE(h && !h.done(), "popped-twice", "a handle came out of the queue twice or empty");
            h.resume();
            left.fetch_sub(1);
          }
      });
    for (auto &x : t) x.join();
    for (int i = 0; i < n; ++i) MC_REQUIRE(l.steps[i] == 1, "run-count", "entry %d came out %d times", i, l.steps[i]);
    std::coroutine_handle<> h;
    MC_REQUIRE(!q.pop(h), "not-empty", "an entry is left");
  });
}
}  // namespace

int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P27";
  sp.level = "model_checking";
  sp.rule = "a schedule is non-trivial when it contains a preemption";
  sp.assumptions = {"sequentially consistent executions, plus a happens-before race monitor that honours the memory orders used"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b, bool deep = false) {
    mc::Scenario s{n, b, deep};
    s.isolate = true;
    sc.push_back(s);
  };
  add("sched-2w-2j", [] { scheduler(2, 2, 1, When::Before, false, true, 2); });
  add("sched-2w-2j-steps", [] { scheduler(2, 2, 2, When::Before, false, true, 2); });
  add("sched-1w-5j", [] { scheduler(1, 5, 2, When::Before, false, false, 3); });
  add("sched-2w-3j", [] { scheduler(2, 3, 1, When::Before, false, true, 2); });
  add("sched-begin-then-schedule", [] { scheduler(1, 1, 1, When::After, false, true, 2); });
  add("sched-begin-between", [] { scheduler(2, 2, 1, When::Both, false, true, 2); });
  add("sched-begin-destructor", [] { scheduler(1, 2, 1, When::Both, false, false, 2); });
  add("sched-yield-1w", [] { scheduler(1, 6, 3, When::Before, true, true, 2); });
  add("sched-yield-2w", [] { scheduler(2, 2, 2, When::Before, true, true, 2); });
  add("sched-spawn", [] { scheduler(2, 2, 1, When::Running, false, true, 2); });
  add("sched-from-outside", [] { from_outside(2, 2, 1); });
  add("queue-1p1c", [] { queue(1, 1, 2, 2); });
  add("queue-2p1c", [] { queue(2, 1, 1, 1); });
  add("queue-1p2c", [] { queue(1, 2, 2, 1); });
  add("pool-2t-1s", [] { pool_futures(2, 1, 2, 1); });
  add("pool-1t-2s", [] { pool_futures(1, 2, 1, 1); });
  add("pool-2t-2s", [] { pool_futures(2, 2, 1, 0); });
  add("pool-shutdown", [] { pool_shutdown(2, 3, 1); });
  add("pool-shutdown-1t", [] { pool_shutdown(1, 3, 2); });
  add("pool-wait", [] { pool_wait(2, 2, 1, 2, 1); });
  add("pool-wait-2-waiters", [] { pool_wait(1, 2, 2, 1, 2); });
  return mc::run_main(argc, argv, sp, sc);
}
