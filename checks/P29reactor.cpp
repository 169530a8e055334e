// P29: waves of reads through the shared io_uring reactor, under every schedule, completion order and fault.
// mc-sched
// mc-src: lib/uring_stub.cpp
#include <fcntl.h>
#include <unistd.h>
#include <map>
#include <memory>
#include <vector>
#include <spdlog/spdlog.h>
#include "coro/coro.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"
#include "lib/uring_stub.hpp"
#include "storage/io/uring_reactor.hpp"

namespace {
constexpr uint32_t kLen = 64, kBlocks = 16;
uint8_t content(uint64_t off) { return uint8_t(1 + off / kLen * 13 + off % kLen * 7); }
std::string data_file() {
  std::string p = mc::fresh_dir() + "/data";
  std::vector<uint8_t> d(kLen * kBlocks);
  for (size_t i = 0; i < d.size(); ++i) d[i] = content(i);
  int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  MC_REQUIRE(::write(f, d.data(), d.size()) == ssize_t(d.size()), "setup", "cannot write the data file");
  ::close(f);
  return p;
}
struct Buf {
  int wave;
  uint64_t off;
  int done = 0;      // times the kernel carried the read out
  int32_t result = 0;
};
struct World {
  std::map<void *, Buf> live;   // buffers of waves that are in progress
};
World *g_w;
void hook(uint64_t, void *buf, uint32_t len, uint64_t off, int32_t result) {
  auto i = g_w->live.find(buf);
  MC_REQUIRE(i != g_w->live.end(), "late-read", "a read was carried out into a buffer whose wave had already returned");
  MC_REQUIRE(i->second.off == off && len == kLen, "wrong-place", "a read of %u bytes at %llu was asked for as %u bytes at %llu", len, (unsigned long long)off, kLen,
             (unsigned long long)i->second.off);
  MC_REQUIRE(++i->second.done == 1, "read-twice", "a read was carried out twice");
  i->second.result = result;
  mc::step();
}
struct Tally {
  int waves = 0, poisoned = 0;
};
coro::task<void> wave(alaya::UringReactor &r, coro::thread_pool &pool, int fd, int id, int n, bool single, Tally &t) {
  co_await pool.schedule();
  std::vector<std::vector<uint8_t>> bufs(size_t(n), std::vector<uint8_t>(kLen, 0xEE));
  std::vector<alaya::IORequest> reqs;
  {
    sched::NoPreempt np;
    for (int i = 0; i < n; ++i) {
      uint64_t off = kLen * uint64_t((id * 5 + i) % int(kBlocks));
      reqs.emplace_back(bufs[size_t(i)].data(), kLen, off);
      g_w->live[bufs[size_t(i)].data()] = Buf{id, off};
    }
  }
  bool threw = false;
  uint32_t failures = 0;
  int32_t one = 0;
  try {
    if (single)
      one = co_await r.read(pool, fd, reqs[0].buffer_, kLen, reqs[0].offset_);
    else
      failures = co_await r.read_batch(pool, fd, reqs.data(), uint32_t(n));
  } catch (const std::exception &) {
    threw = true;
  }
  {
    sched::NoPreempt np;
    uint32_t bad = 0;
    for (int i = 0; i < n; ++i) {
      Buf b = g_w->live[bufs[size_t(i)].data()];
      int32_t got = single ? one : reqs[size_t(i)].result_;
      if (!threw) {
        MC_REQUIRE(b.done == 1, "lost-read", "wave %d returned although its read %d was never carried out", id, i);
        MC_REQUIRE(got == b.result, "wrong-result", "read %d of wave %d reports %d, the kernel said %d", i, id, got, b.result);
        bad += b.result != int32_t(kLen);
      }
      for (int32_t k = 0; k < b.result; ++k)
        MC_REQUIRE(bufs[size_t(i)][size_t(k)] == content(b.off + uint64_t(k)), "wrong-bytes", "read %d of wave %d delivered wrong bytes", i, id);
      g_w->live.erase(bufs[size_t(i)].data());
    }
    if (!threw && !single) MC_REQUIRE(failures == bad, "failure-count", "wave %d reports %u failed reads, %u failed", id, failures, bad);
    ++t.waves;
    t.poisoned += threw;
    mc::note("wave %d: %s, %u failures", id, threw ? "error" : "ok", bad);
  }
}
coro::task<void> chain(alaya::UringReactor &r, coro::thread_pool &pool, int fd, int id, int n, int rounds, Tally &t) {
  for (int k = 0; k < rounds; ++k) co_await wave(r, pool, fd, id * 4 + k, n, n == 0, t);
}
struct Shape {
  const char *name;
  std::vector<int> waves;   // reads per wave, 0: a single read()
  int threads, rounds, depth, faults, polls, preempt;
  bool thorough_only = false;
};
void body(const Shape &s) {
  uring::Options o;
  o.faults = s.faults;
  o.short_reads = o.errors = o.submit_faults = s.faults > 0;
  o.idle_polls = s.polls;
  uring::options(o);
  uring::on_complete(hook);
  World w;
  g_w = &w;
  std::string path = data_file();
  int fd = ::open(path.c_str(), O_RDONLY);
  Tally t;
  sched::Options so;
  so.preemptions = mc::thorough() ? s.preempt + 1 : s.preempt;
  so.io_points = false;
  so.fair = 3000;
  sched::run(so, [&] {
    alaya::UringReactor r(unsigned(s.depth));
    coro::thread_pool pool({.thread_count = uint32_t(s.threads)});
    std::vector<coro::task<void>> ts;
    for (size_t i = 0; i < s.waves.size(); ++i) {
      if (s.waves[i] == 0) {
        ts.push_back(wave(r, pool, fd, int(i) * 4, 1, true, t));
      } else {
        ts.push_back(chain(r, pool, fd, int(i), s.waves[i], s.rounds, t));
      }
    }
    auto res = coro::sync_wait(coro::when_all(std::move(ts)));
    for (auto &x : res) x.return_value();
    pool.shutdown();
    MC_REQUIRE(uring::outstanding() == 0, "left-in-flight", "%llu reads are in flight after every wave returned", (unsigned long long)uring::outstanding());
  });
  MC_REQUIRE(uring::rings() == 0, "ring-left", "a ring was left behind");
  MC_REQUIRE(uring::hard_faults() || !t.poisoned, "failed", "a wave failed although every failed submission was worth retrying");
  ::close(fd);
  mc::state(mc::mix(uint64_t(t.waves) * 16 + uint64_t(t.poisoned), uring::submitted()));
  mc::nontrivial();
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P29";
  sp.level = "model_checking";
  sp.rule = "every execution carries out at least one wave";
  sp.assumptions = {"a stand-in ring carries out the reads; it delivers completions in every order, and fails or cuts short calls and reads as the kernel may",
                    "/verif/shim stands in for libcoro"};
  static const std::vector<Shape> shapes{
      {"wave-3-depth-2", {3}, 1, 1, 2, 0, 2, 0},
      {"wave-3-faults-2", {3}, 1, 1, 2, 2, 1, 0},
      {"waves-after-failure", {2}, 1, 2, 8, 2, 0, 0},
      {"single-read", {0}, 1, 1, 2, 2, 1, 0},
      {"two-waves", {2, 1}, 2, 1, 2, 0, 1, 1},
      {"two-waves-fault", {2, 1}, 2, 1, 2, 1, 0, 1},
      {"two-waves-depth-1", {2, 2}, 2, 1, 1, 0, 0, 1},
      {"three-waves", {1, 1, 0}, 2, 1, 2, 0, 0, 1},
  };
  std::vector<mc::Scenario> sc;
  for (auto &s : shapes) {
    mc::Scenario x;
    x.name = s.name;
    x.body = [&s] { body(s); };
    x.isolate = true;
    x.thorough_only = s.thorough_only;
    sc.push_back(x);
  }
  return mc::run_main(argc, argv, sp, sc);
}
