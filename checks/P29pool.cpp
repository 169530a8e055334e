// P29: the thread-pool file reader completes every read exactly once, under every schedule.
// mc-sched
// mc-flags: -UALAYA_LASER_USE_LIBAIO -DALAYA_LASER_USE_THREADPOOL=1
#include <fcntl.h>
#include <unistd.h>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <thread>
#include <vector>
#include "index/graph/laser/utils/threadpool_file_reader.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"

namespace {
constexpr size_t kLen = 512, kBlocks = 4;
uint8_t content(uint64_t off) { return uint8_t(1 + off / kLen * 13 + off % kLen * 7); }
std::string data_file() {
  std::string p = mc::fresh_dir() + "/data";
  std::vector<uint8_t> d(kLen * kBlocks);
  for (size_t i = 0; i < d.size(); ++i) d[i] = content(i);
  int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  MC_REQUIRE(::write(f, d.data(), d.size()) == ssize_t(d.size()), "setup", "cannot write the data file");
  ::close(f);
  return p;
}
struct Bufs {
  std::vector<uint8_t *> p;
  explicit Bufs(size_t n) {
    for (size_t i = 0; i < n; ++i) {
      p.push_back(static_cast<uint8_t *>(aligned_alloc(512, kLen)));
      memset(p.back(), 0xEE, kLen);
    }
  }
  ~Bufs() {
    for (auto x : p) free(x);
  }
};
// one user thread: what it does is chosen per scenario
enum Kind { Read, ReadPastEnd, SubmitGet, SubmitPoll, Abandon, Leave };
void user(ThreadPoolFileReader &r, Kind k, int n, int me) {
  Bufs b{size_t(n)};
  r.register_thread();
  IOContext &ctx = r.get_ctx();
  std::vector<AlignedRead> v;
  std::map<uint64_t, int64_t> want;
  for (int i = 0; i < n; ++i) {
    uint64_t off = kLen * uint64_t((me + i) % int(kBlocks));
    if (k == ReadPastEnd && i == n - 1) off = kLen * kBlocks;
    v.emplace_back(off, kLen, uint64_t(me * 10 + i), b.p[size_t(i)]);
    want[uint64_t(me * 10 + i)] = off >= kLen * kBlocks ? 0 : int64_t(kLen);
  }
  auto bytes = [&](size_t i) {
    if (v[i].offset >= kLen * kBlocks) return;
    for (size_t x = 0; x < kLen; ++x) MC_REQUIRE(b.p[i][x] == content(v[i].offset + x), "wrong-bytes", "read %zu of thread %d delivered wrong bytes", i, me);
  };
  auto take = [&](std::vector<AlignedReadEvent> &ev) {
    for (auto &e : ev) {
      auto w = want.find(e.id);
      MC_REQUIRE(w != want.end(), "foreign-event", "thread %d was told of read %llu, which is %s", me, (unsigned long long)e.id, e.id / 10 == uint64_t(me) ? "already reported" : "not its own");
      MC_REQUIRE(e.result == w->second, "wrong-result", "read %llu reports %lld", (unsigned long long)e.id, (long long)e.result);
      bytes(size_t(e.id % 10));
      want.erase(w);
    }
    ev.clear();
  };
  std::vector<AlignedReadEvent> ev;
  switch (k) {
    case Read:
    case ReadPastEnd: {
      bool threw = false;
      try {
        r.read(v, ctx);
      } catch (const std::runtime_error &) {
        threw = true;
      }
      MC_REQUIRE(threw == (k == ReadPastEnd), "outcome", "a blocking read %s", threw ? "failed" : "hid a failed read");
      for (size_t i = 0; i < v.size(); ++i) bytes(i);
      want.clear();
      // nothing of it may be left over
      MC_REQUIRE(r.poll_events(ctx, 4, ev) == 0, "left-over", "events of a finished read are still delivered");
      break;
    }
    case SubmitGet:
      MC_REQUIRE(r.submit_reqs(v, ctx) == n, "count", "submit_reqs() took another number of reads");
      MC_REQUIRE(r.get_events(ctx, 1, ev) == 1 && ev.size() == 1, "count", "get_events(1) delivered %zu", ev.size());
      take(ev);
      if (n > 1) {
        MC_REQUIRE(r.get_events(ctx, n - 1, ev) == n - 1, "count", "get_events(%d) delivered %zu", n - 1, ev.size());
        take(ev);
      }
      break;
    case SubmitPoll: {
      MC_REQUIRE(r.submit_reqs(v, ctx) == n, "count", "submit_reqs() took another number of reads");
      for (int i = 0; i < 2 && !want.empty(); ++i) {
        int c = r.poll_events(ctx, n, ev);
        MC_REQUIRE(c == int(ev.size()), "count", "poll_events() returned %d with %zu events", c, ev.size());
        take(ev);
      }
      if (!want.empty()) {
        int c = int(want.size());
        MC_REQUIRE(r.get_events(ctx, c, ev) == c, "count", "get_events(%d) delivered %zu", c, ev.size());
        take(ev);
      }
      break;
    }
    case Abandon: {
      MC_REQUIRE(r.submit_reqs(v, ctx) == n, "count", "submit_reqs() took another number of reads");
      r.abandon_reads(ctx);
      for (auto p : b.p) memset(p, 0x77, kLen);
      sched::point();
      // the next read sees only its own completion, and the abandoned ones write nowhere any more
      uint8_t *own = static_cast<uint8_t *>(aligned_alloc(512, kLen));
      std::vector<AlignedRead> v2{AlignedRead(0, kLen, 7, own)};
      MC_REQUIRE(r.submit_reqs(v2, ctx) == 1, "count", "submit_reqs() took another number of reads");
      MC_REQUIRE(r.get_events(ctx, 1, ev) == 1 && ev[0].id == 7 && ev[0].result == int64_t(kLen), "foreign-event", "a completion of an abandoned read is delivered later");
      for (size_t x = 0; x < kLen; ++x) MC_REQUIRE(own[x] == content(x), "wrong-bytes", "the read after abandon_reads() delivered wrong bytes");
      for (auto p : b.p)
        for (size_t x = 0; x < kLen; ++x) MC_REQUIRE(p[x] == 0x77, "late-write", "an abandoned read wrote to its buffer");
      free(own);
      break;
    }
    case Leave: {  // gives up its registration with reads outstanding
      MC_REQUIRE(r.submit_reqs(v, ctx) == n, "count", "submit_reqs() took another number of reads");
      r.deregister_thread();
      for (auto p : b.p) memset(p, 0x77, kLen);
      sched::point();
      for (auto p : b.p)
        for (size_t x = 0; x < kLen; ++x) MC_REQUIRE(p[x] == 0x77, "late-write", "a read of a deregistered thread wrote to its buffer");
      return;
    }
  }
  r.deregister_thread();
}
struct Shape {
  const char *name;
  std::vector<std::pair<Kind, int>> users;
  int workers, preempt;
  bool reopen = false;
};
void body(const Shape &s) {
  std::string path = data_file();
  setenv("ALAYA_LASER_IO_THREADS", std::to_string(s.workers).c_str(), 1);
  sched::Options o;
  o.preemptions = mc::thorough() ? s.preempt + 1 : s.preempt;
  sched::ignore_races_in("moodycamel");
  sched::run(o, [&] {
    ThreadPoolFileReader r;
    r.open(path);
    if (s.reopen) r.open(path);
    std::vector<std::thread> t;
    for (size_t i = 1; i < s.users.size(); ++i) t.emplace_back([&, i] { user(r, s.users[i].first, s.users[i].second, int(i) + 1); });
    user(r, s.users[0].first, s.users[0].second, 1);
    for (auto &x : t) x.join();
    r.close();
  });
  mc::nontrivial();
}
}  // namespace
int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  mc::Spec sp;
  sp.property = "P29";
  sp.level = "model_checking";
  sp.rule = "every execution carries out at least one read";
  sp.assumptions = {"the internals of the vendored lock-free queue are executed but not checked for data races"};
  static const std::vector<Shape> shapes{
      {"pool-read-2", {{Read, 2}}, 2, 1},
      {"pool-read-past-end", {{ReadPastEnd, 2}}, 1, 1},
      {"pool-submit-get", {{SubmitGet, 2}}, 1, 2},
      {"pool-submit-poll", {{SubmitPoll, 2}}, 1, 2},
      {"pool-abandon", {{Abandon, 2}}, 1, 2},
      {"pool-abandon-2-workers", {{Abandon, 1}}, 2, 1},
      {"pool-leave", {{Leave, 2}}, 1, 2},
      {"pool-two-users", {{Read, 1}, {SubmitGet, 1}}, 1, 1},
      {"pool-reopen", {{Read, 1}}, 1, 1, true},
  };
  std::vector<mc::Scenario> sc;
  for (auto &s : shapes) {
    mc::Scenario x;
    x.name = s.name;
    x.body = [&s] { body(s); };
    x.isolate = true;
    sc.push_back(x);
  }
  return mc::run_main(argc, argv, sp, sc);
}
