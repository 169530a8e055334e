// P29: the batch and callback I/O engines and the aligned file reader complete every request exactly once.
// mc-src: lib/aio_stub.cpp lib/uring_stub.cpp
// mc-flags: -DALAYA_LASER_USE_LIBAIO=1 -fsanitize=address
// mc-libs: -fsanitize=address
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include "index/graph/laser/utils/aligned_file_reader.hpp"
#include "lib/aio_stub.hpp"
#include "lib/mc.hpp"
#include "lib/uring_stub.hpp"
#include "storage/io/io_engine.hpp"
#include "storage/io/io_uring_engine.hpp"

namespace {
constexpr size_t kLen = 512, kBlocks = 16;
uint8_t content(uint64_t off) { return uint8_t(1 + off / kLen * 13 + off % kLen * 7); }
std::string data_file() {
  std::string p = mc::fresh_dir() + "/data";
  std::vector<uint8_t> d(kLen * kBlocks);
  for (size_t i = 0; i < d.size(); ++i) d[i] = content(i);
  int f = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  MC_REQUIRE(::write(f, d.data(), d.size()) == ssize_t(d.size()), "setup", "cannot write the data file");
  ::close(f);
  return p;
}
// one buffer that may be lent to a request; what the kernel does to it is compared with what it was lent for
struct Buffer {
  uint8_t *p = nullptr;
  enum St { Idle, Lent, Done } st = Idle;
  uint64_t off = 0;
  int64_t result = 0;
  bool write = false;
};
struct World {
  std::vector<Buffer> bufs;
  std::map<void *, size_t> by_ptr;
  bool submitting = false;   // completions can not happen before the submission returned
  explicit World(size_t n) {
    bufs.resize(n);
    for (size_t i = 0; i < n; ++i) {
      bufs[i].p = static_cast<uint8_t *>(aligned_alloc(512, kLen));
      memset(bufs[i].p, 0xEE, kLen);
      by_ptr[bufs[i].p] = i;
    }
  }
  ~World() {
    for (auto &b : bufs) free(b.p);
  }
  size_t lent() const {
    size_t n = 0;
    for (auto &b : bufs) n += b.st == Buffer::Lent;
    return n;
  }
  size_t take(uint64_t off) {
    for (size_t i = 0; i < bufs.size(); ++i)
      if (bufs[i].st == Buffer::Idle) {
        memset(bufs[i].p, 0xEE, kLen);
        bufs[i].off = off;
        bufs[i].result = 0;
        return i;
      }
    return SIZE_MAX;
  }
  // the state the explorer has reached: who holds which buffer
  void visit() const {
    uint64_t h = 29;
    for (auto &b : bufs) h = mc::mix(h, uint64_t(b.st) * 1000003 + b.off * 7 + uint64_t(b.result + 4096));
    mc::state(h);
    mc::step();
  }
  size_t idle() const {
    size_t n = 0;
    for (auto &b : bufs) n += b.st == Buffer::Idle;
    return n;
  }
  void kernel(void *p, uint64_t off, int64_t result) {
    auto i = by_ptr.find(p);
    MC_REQUIRE(i != by_ptr.end(), "unknown-buffer", "the kernel was given a buffer nobody lent");
    Buffer &b = bufs[i->second];
    MC_REQUIRE(b.st == Buffer::Lent, "stray-request", "a request on buffer %zu was carried out although it is %s", i->second,
               b.st == Buffer::Idle ? "not lent (its submission was reported as failed)" : "already complete");
    MC_REQUIRE(b.off == off, "wrong-place", "buffer %zu was filled from offset %llu instead of %llu", i->second, (unsigned long long)off, (unsigned long long)b.off);
    b.st = Buffer::Done;
    b.result = result;
    visit();
  }
  // the owner learns of a completion
  void learn(size_t i, int64_t result, const char *who) {
    Buffer &b = bufs[i];
    MC_REQUIRE(b.st == Buffer::Done, "early-or-twice", "%s reports buffer %zu, which is %s", who, i, b.st == Buffer::Idle ? "not in use" : "still in flight");
    MC_REQUIRE(b.result == result, "wrong-result", "%s reports %lld for buffer %zu, the kernel said %lld", who, (long long)result, i, (long long)b.result);
    if (result > 0 && !b.write)
      for (int64_t k = 0; k < result; ++k)
        MC_REQUIRE(b.p[k] == content(b.off + uint64_t(k)), "wrong-bytes", "byte %lld of buffer %zu is wrong", (long long)k, i);
    b.st = Buffer::Idle;
    visit();
  }
};
World *g_w;
// runs f in a thread of its own (its ring ends with it)
template <class F>
void in_thread(F f) {
  std::exception_ptr e;
  std::thread t([&] {
    try {
      f();
    } catch (...) {
      e = std::current_exception();
    }
  });
  t.join();
  if (e) std::rethrow_exception(e);
}
void uring_hook(uint64_t, void *buf, uint32_t, uint64_t off, int32_t result) { g_w->kernel(buf, off, result); }
void aio_hook(void *buf, uint64_t, int64_t off, int64_t result) { g_w->kernel(buf, uint64_t(off), result); }

// ---- io_uring engine, batches -------------------------------------------------------------------------------------
void engine_batch(int ops, int faults, size_t depth) {
  std::string path = data_file();
  int fd = ::open(path.c_str(), O_RDWR);
  uring::Options o;
  o.faults = faults;
  o.short_reads = o.errors = o.submit_faults = o.wait_faults = faults > 0;
  o.timeouts = true;
  uring::options(o);
  uring::on_complete(uring_hook);
  World w(4);
  g_w = &w;
  in_thread([&] {
    alaya::IOUringEngine e(depth);
    // heap requests, freed as soon as their owner knows that they are done
    struct Batch {
      std::vector<alaya::IORequest> reqs;
      std::vector<size_t> buf;
      size_t in = 0;
    };
    std::vector<std::unique_ptr<Batch>> live;
    auto settle = [&](const char *who) {
      for (auto &b : live) {
        bool all = true;
        for (size_t i = 0; i < b->in; ++i) {
          size_t k = b->buf[i];
          if (k == SIZE_MAX) continue;
          if (w.bufs[k].st == Buffer::Done) {
            w.learn(k, b->reqs[i].result_, who);
            MC_REQUIRE(b->reqs[i].is_success() == (b->reqs[i].result_ == int32_t(kLen)), "is-success", "is_success() is wrong for %d", b->reqs[i].result_);
            b->buf[i] = SIZE_MAX;
          } else {
            all = false;
          }
        }
        if (all) b.reset();
      }
      std::erase_if(live, [](auto &b) { return !b; });
    };
    for (int s = 0; s < ops; ++s) {
      int op = mc::choose(6, "op");
      if (op < 3) {
        size_t n = size_t(op) + 1;
        if (w.idle() < n) mc::assume(false);
        auto b = std::make_unique<Batch>();
        for (size_t i = 0; i < n; ++i) {
          size_t k = w.take(kLen * ((size_t(s) * 3 + i) % kBlocks));
          w.bufs[k].st = Buffer::Lent;   // reserved while the call runs
          b->buf.push_back(k);
          b->reqs.emplace_back(w.bufs[k].p, kLen, w.bufs[k].off);
        }
        size_t done = e.submit_reads(fd, b->reqs);
        mc::note("submit %zu -> %zu", n, done);
        MC_REQUIRE(done <= n, "too-many", "%zu of %zu requests submitted", done, n);
        for (size_t i = 0; i < n; ++i) {
          bool refused = b->reqs[i].result_ == alaya::IOUringEngine::kRequestNotSubmitted;
          MC_REQUIRE(refused == (i >= done), "refused-mark", "request %zu of %zu is %smarked as not submitted, %zu were submitted", i, n, refused ? "" : "not ", done);
          if (i >= done) w.bufs[b->buf[i]].st = Buffer::Idle;
        }
        b->in = done;
        if (done) {
          live.push_back(std::move(b));
        }
        MC_REQUIRE(faults > 0 || done == n, "not-submitted", "only %zu of %zu requests were submitted", done, n);
      } else {
        size_t out = w.lent();
        if (!out) mc::assume(false);
        size_t min = op == 3 ? 1 : out;
        int timeout = op == 5 ? 10 : -1;
        size_t n = e.wait(min, timeout);
        mc::note("wait(%zu, %d) -> %zu", min, timeout, n);
        size_t done = 0;
        for (auto &b : w.bufs) done += b.st == Buffer::Done;
        MC_REQUIRE(n == done, "count", "wait() reports %zu completions, there were %zu", n, done);
        if (timeout < 0) MC_REQUIRE(n >= min, "returned-early", "wait(%zu) without a timeout returned after %zu completions", min, n);
        settle("wait()");
      }
    }
    while (w.lent()) {
      e.wait(w.lent(), -1);
      settle("wait()");
    }
    MC_REQUIRE(live.empty(), "left-over", "a batch is unfinished although nothing is in flight");
  });
  uring::on_complete(nullptr);
  MC_REQUIRE(uring::rings() == 0 && uring::lost_rings() == 0, "ring-left", "a ring was left behind or torn down with requests in flight");
  ::close(fd);
  mc::nontrivial();
}
// ---- io_uring engine, callbacks -----------------------------------------------------------------------------------
struct Cb {
  World *w;
  size_t buf;
  int *fired;
  alaya::IOUringEngine *e;
  int then;   // 0 nothing, 1 polls again, 2 submits another read
  int fd;
};
std::vector<std::unique_ptr<Cb>> *g_cbs;
void on_read(void *arg, int32_t result);
bool submit_async(World &w, alaya::IOUringEngine &e, int fd, uint64_t off, int *fired, int then) {
  size_t k = w.take(off);
  if (k == SIZE_MAX) return false;
  auto c = std::make_unique<Cb>(Cb{&w, k, fired, &e, then, fd});
  w.bufs[k].st = Buffer::Lent;
  if (!e.submit_async_read(fd, w.bufs[k].p, kLen, off, on_read, c.get())) {
    w.bufs[k].st = Buffer::Idle;
    return false;   // c is gone: no callback may come
  }
  g_cbs->push_back(std::move(c));
  return true;
}
void on_read(void *arg, int32_t result) {
  auto *c = static_cast<Cb *>(arg);
  c->w->learn(c->buf, result, "the callback");
  ++*c->fired;
  Cb copy = *c;
  std::erase_if(*g_cbs, [&](auto &x) { return x.get() == c; });
  if (copy.then == 1) copy.e->check_completion();
  if (copy.then == 2) submit_async(*copy.w, *copy.e, copy.fd, kLen * 9, copy.fired, 0);
}
void engine_async(int ops, int faults, size_t depth) {
  std::string path = data_file();
  int fd = ::open(path.c_str(), O_RDONLY);
  uring::Options o;
  o.faults = faults;
  o.short_reads = o.errors = o.submit_faults = o.wait_faults = faults > 0;
  o.idle_polls = 1;
  o.burst = mc::choose(2, "burst");
  uring::options(o);
  uring::on_complete(uring_hook);
  World w(5);
  g_w = &w;
  std::vector<std::unique_ptr<Cb>> cbs;
  g_cbs = &cbs;
  int fired = 0, reported = 0;
  bool drained = false;
  alaya::IOUringEngine e(depth);  // outlives the thread, whose end drains its ring
  in_thread([&] {
    for (int s = 0; s < ops; ++s) {
      int op = mc::choose(5, "op");
      if (op < 3) {
        if (!w.idle()) mc::assume(false);
        bool ok = submit_async(w, e, fd, kLen * (size_t(s) % kBlocks), &fired, op);
        mc::note("async read (then %d) -> %d", op, int(ok));
        MC_REQUIRE(ok || faults, "not-submitted", "a read could not be submitted");
        MC_REQUIRE(w.lent() == uring::outstanding(), "in-flight", "%zu reads in flight, the kernel has %llu", w.lent(), (unsigned long long)uring::outstanding());
      } else if (op == 3) {
        int before = fired;
        reported = int(e.check_completion());
        mc::note("check_completion -> %d", reported);
        (void)before;
      } else {
        e.drain_pending();
        mc::note("drain_pending");
        MC_REQUIRE(w.lent() == 0 && cbs.empty(), "not-drained", "%zu reads still wait for their callback after drain_pending()", cbs.size());
        drained = true;
      }
    }
  });
  uring::on_complete(nullptr);
  MC_REQUIRE(cbs.empty() && w.lent() == 0, "callback-lost", "%zu callbacks never came (thread exit drains)", cbs.size());
  MC_REQUIRE(uring::rings() == 0 && uring::lost_rings() == 0, "ring-left", "a ring was left behind or torn down with reads in flight");
  ::close(fd);
  mc::nontrivial();
}
// ---- write batches and the synchronous engine -----------------------------------------------------------------------
void engine_write(bool sync) {
  std::string path = data_file();
  int fd = ::open(path.c_str(), O_RDWR);
  uring::Options o;
  uring::options(o);
  uring::on_complete(uring_hook);
  World w(3);
  g_w = &w;
  in_thread([&] {
    std::unique_ptr<alaya::IOEngine> e;
    if (sync) e = std::make_unique<alaya::SyncEngine>();
    else e = std::make_unique<alaya::IOUringEngine>(2);
    size_t n = 1 + size_t(mc::choose(3, "requests"));
    std::vector<alaya::IORequest> reqs;
    std::vector<uint64_t> at;
    for (size_t i = 0; i < n; ++i) {
      size_t blk = size_t(mc::choose(4, "block"));
      for (auto a : at)
        if (a == blk) mc::assume(false);
      at.push_back(blk);
      size_t k = w.take(kLen * blk);
      memset(w.bufs[k].p, int(0x40 + i), kLen);
      w.bufs[k].st = Buffer::Lent;
      w.bufs[k].write = true;
      reqs.emplace_back(w.bufs[k].p, kLen, w.bufs[k].off);
    }
    MC_REQUIRE(e->submit_writes(fd, reqs) == n, "write-submit", "not all writes were submitted");
    size_t done = 0;
    if (!sync)
      while (done < n) done += e->wait(n - done, -1);
    for (size_t i = 0; i < n; ++i) {
      MC_REQUIRE(reqs[i].is_success(), "write-result", "write %zu reports %d", i, reqs[i].result_);
      std::vector<uint8_t> back(kLen);
      MC_REQUIRE(e->pread(fd, back.data(), kLen, at[i] * kLen) == ssize_t(kLen), "read-back", "read failed");
      for (auto b : back) MC_REQUIRE(b == 0x40 + i, "write-bytes", "block %llu does not hold what was written", (unsigned long long)at[i]);
      if (!sync) w.learn(i, reqs[i].result_, "wait()");
    }
    for (uint64_t b = 0; b < kBlocks; ++b) {
      bool touched = false;
      for (auto a : at) touched |= a == b;
      if (touched) continue;
      std::vector<uint8_t> back(kLen);
      MC_REQUIRE(e->pread(fd, back.data(), kLen, b * kLen) == ssize_t(kLen), "read-back", "read failed");
      for (size_t k = 0; k < kLen; ++k) MC_REQUIRE(back[k] == content(b * kLen + k), "stray-write", "block %llu changed", (unsigned long long)b);
    }
  });
  uring::on_complete(nullptr);
  ::close(fd);
  mc::nontrivial();
}
// ---- aligned file reader --------------------------------------------------------------------------------------------
void reader(int ops, int faults) {
  std::string path = data_file();
  aio::Options o;
  o.order = aio::Order::Choose;
  o.choose_portions = true;
  o.faults = faults;
  o.bad_results = o.bad_submits = o.bad_waits = faults > 0;
  aio::reset();
  aio::options(o);
  aio::on_complete(aio_hook);
  World w(4);
  g_w = &w;
  LinuxAlignedFileReader r;
  r.open(path);
  r.register_thread();
  auto outstanding = [&] { return w.lent(); };
  auto make = [&](size_t n, int s, std::vector<AlignedRead> &v, std::vector<size_t> &ks) {
    if (w.idle() < n) return false;
    for (size_t i = 0; i < n; ++i) {
      size_t k = w.take(kLen * ((size_t(s) * 3 + i) % kBlocks));
      w.bufs[k].st = Buffer::Lent;
      ks.push_back(k);
      v.emplace_back(w.bufs[k].off, kLen, k + 100, w.bufs[k].p);
    }
    return true;
  };
  auto events = [&](std::vector<AlignedReadEvent> &ev, const char *who) {
    for (auto &e : ev) {
      MC_REQUIRE(e.id >= 100 && e.id < 100 + w.bufs.size(), "unknown-id", "%s reports a read with id %llu", who, (unsigned long long)e.id);
      w.learn(size_t(e.id - 100), e.result, who);
    }
  };
  for (int s = 0; s < ops; ++s) {
    int op = mc::choose(7, "op");
    IOContext &ctx = r.get_ctx();
    std::vector<AlignedReadEvent> ev;
    if (op < 2) {  // blocking read of 1 or 3
      if (outstanding()) mc::assume(false);
      std::vector<AlignedRead> v;
      std::vector<size_t> ks;
      make(op ? 3 : 1, s, v, ks);
      bool threw = false;
      try {
        r.read(v, ctx);
      } catch (const std::exception &) {
        threw = true;
      }
      mc::note("read %zu -> %s", v.size(), threw ? "error" : "ok");
      bool good = true;
      for (size_t k : ks) good &= w.bufs[k].st == Buffer::Done && w.bufs[k].result == int64_t(kLen);
      MC_REQUIRE(threw || good, "silent-failure", "a read whose kernel read failed or never happened was reported as done");
      MC_REQUIRE(!threw || faults, "failed", "a read failed although nothing went wrong");
      MC_REQUIRE(aio::in_flight() == 0, "left-in-flight", "%llu reads are in flight after a blocking read", (unsigned long long)aio::in_flight());
      if (!threw)
        for (size_t k : ks) w.learn(k, int64_t(kLen), "read()");
      else
        for (size_t k : ks) w.bufs[k].st = Buffer::Idle;
    } else if (op < 4) {  // submission of 1 or 2
      std::vector<AlignedRead> v;
      std::vector<size_t> ks;
      if (!make(op == 2 ? 1 : 2, s, v, ks)) mc::assume(false);
      bool threw = false;
      try {
        MC_REQUIRE(r.submit_reqs(v, ctx) == int(v.size()), "count", "submit_reqs() took another number of reads");
      } catch (const std::exception &) {
        threw = true;
      }
      mc::note("submit %zu -> %s", v.size(), threw ? "error" : "ok");
      MC_REQUIRE(!threw || faults, "failed", "a submission failed although nothing went wrong");
      if (threw) {  // as the searches do: everything outstanding is given up
        r.abandon_reads(ctx);
        MC_REQUIRE(aio::in_flight() == 0, "left-in-flight", "reads are in flight after abandon_reads()");
        for (auto &b : w.bufs) b.st = Buffer::Idle;
      }
    } else if (op == 4) {  // wait for some
      size_t out = outstanding();
      if (!out) mc::assume(false);
      int n = 1 + mc::choose(int(out), "wait for");
      MC_REQUIRE(r.get_events(ctx, n, ev) == n && int(ev.size()) == n, "count", "get_events(%d) delivered %zu", n, ev.size());
      events(ev, "get_events()");
    } else if (op == 5) {  // poll
      int n = r.poll_events(ctx, 1 + mc::choose(2, "at most"), ev);
      MC_REQUIRE(n == int(ev.size()), "count", "poll_events() returned %d with %zu events", n, ev.size());
      events(ev, "poll_events()");
    } else {
      if (!outstanding()) mc::assume(false);
      r.abandon_reads(ctx);
      MC_REQUIRE(aio::in_flight() == 0, "left-in-flight", "reads are in flight after abandon_reads()");
      for (auto &b : w.bufs) b.st = Buffer::Idle;
      mc::note("abandon");
    }
    MC_REQUIRE(aio::in_flight() == outstanding(), "in-flight", "%zu reads outstanding, the kernel has %llu", outstanding(), (unsigned long long)aio::in_flight());
  }
  if (outstanding()) {
    std::vector<AlignedReadEvent> ev;
    int n = int(outstanding());
    MC_REQUIRE(r.get_events(r.get_ctx(), n, ev) == n, "count", "the last reads did not arrive");
    events(ev, "get_events()");
  }
  r.deregister_all_threads();
  MC_REQUIRE(aio::contexts() == 0, "context-left", "a kernel context was left behind");
  aio::on_complete(nullptr);
  r.close();
  mc::nontrivial();
}
// a blocking read of more requests than one kernel batch takes
void reader_big() {
  std::string path = data_file();
  size_t n = 1023 + size_t(mc::choose(4, "requests"));
  int bad = mc::choose(4, "failing read");
  size_t at = bad == 0 ? SIZE_MAX : bad == 1 ? 0 : bad == 2 ? n - 1 : 1023;
  if (at != SIZE_MAX && at >= n) mc::assume(false);
  aio::Options o;
  o.order = mc::choose(2, "order") ? aio::Order::Lifo : aio::Order::Fifo;
  o.fail_read = at == SIZE_MAX ? -1 : int(at);
  o.fail_result = mc::choose(2, "kind") ? 100 : -5;
  if (at == SIZE_MAX && o.fail_result == 100) mc::assume(false);
  aio::options(o);
  aio::on_complete(nullptr);
  uint8_t *p = static_cast<uint8_t *>(aligned_alloc(512, 2 * kLen * n));
  memset(p, 0, 2 * kLen * n);
  std::vector<AlignedRead> v;
  for (size_t i = 0; i < n; ++i) v.emplace_back(kLen * (i % (kBlocks - 1)), kLen * (1 + i % 2), 7, p + i * 2 * kLen);
  LinuxAlignedFileReader r;
  r.open(path);
  r.register_thread();
  bool threw = false;
  try {
    r.read(v, r.get_ctx());
  } catch (const std::exception &) {
    threw = true;
  }
  MC_REQUIRE(threw == (at != SIZE_MAX), "big-outcome", "a batch of %zu reads with%s failing read %s", n, at == SIZE_MAX ? "out" : "", threw ? "failed" : "succeeded");
  if (!threw)
    for (size_t i = 0; i < n; ++i)
      for (size_t k = 0; k < kLen * (1 + i % 2); k += 37) MC_REQUIRE(p[i * 2 * kLen + k] == content(kLen * (i % (kBlocks - 1)) + k), "wrong-bytes", "read %zu delivered wrong bytes", i);
  MC_REQUIRE(aio::in_flight() == 0, "left-in-flight", "reads are in flight after a blocking read");
  r.deregister_all_threads();
  r.close();
  free(p);
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  std::cerr.setstate(std::ios::failbit);
  mc::Spec sp;
  sp.property = "P29";
  sp.level = "model_checking";
  sp.rule = "every execution carries out at least one request";
  sp.assumptions = {"a stand-in carries out the requests; it delivers completions in every order, and fails or cuts short calls and requests as the kernel may"};
  std::vector<mc::Scenario> sc;
  sc.push_back({"engine-batch", [] { engine_batch(mc::thorough() ? 5 : 4, 0, 2); }});
  sc.push_back({"engine-batch-faults", [] { engine_batch(mc::thorough() ? 4 : 3, mc::thorough() ? 2 : 1, 2); }});
  sc.push_back({"engine-batch-two-faults", [] { engine_batch(2, 2, 4); }});
  sc.push_back({"engine-async", [] { engine_async(mc::thorough() ? 5 : 4, 0, 4); }});
  sc.push_back({"engine-async-faults", [] { engine_async(mc::thorough() ? 4 : 3, 1, 4); }});
  sc.push_back({"engine-async-two-faults", [] { engine_async(mc::thorough() ? 3 : 2, 2, 4); }});
  sc.push_back({"engine-write", [] { engine_write(false); }});
  sc.push_back({"engine-sync-write", [] { engine_write(true); }});
  sc.push_back({"reader", [] { reader(mc::thorough() ? 5 : 4, 0); }});
  sc.push_back({"reader-faults", [] { reader(mc::thorough() ? 4 : 3, 1); }});
  sc.push_back({"reader-two-faults", [] { reader(2, 2); }});
  sc.push_back({"reader-big", [] { reader_big(); }});
  return mc::run_main(argc, argv, sp, sc);
}
