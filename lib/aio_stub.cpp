#include "lib/aio_stub.hpp"
#include <libaio.h>
#include <cerrno>
#include <map>
#include <mutex>
#include <unistd.h>
#include <vector>
#include "lib/mc.hpp"
#include "lib/sched.hpp"
namespace {
struct Req {
  int fd;
  void *buf;
  size_t n;
  long long off;
  void *data;
  iocb *cb;
};
struct Ctx {
  std::vector<Req> q;
};
std::mutex g_mu;
std::map<io_context_t, Ctx *> g_ctx;
uintptr_t g_next = 16;
aio::Options g_o;
uint64_t g_reads, g_submits;
int g_faults;
aio::Hook g_hook;
}  // namespace
__attribute__((weak)) bool sched::active() { return false; }
__attribute__((weak)) void sched::point() {}
namespace aio {
void options(const Options &o) {
  g_o = o;
  g_faults = o.faults;
  g_reads = g_submits = 0;
}
void reset() {
  for (auto &[c, x] : g_ctx) delete x;
  g_ctx.clear();
}
uint64_t reads() { return g_reads; }
void on_complete(Hook h) { g_hook = h; }
uint64_t contexts() { return g_ctx.size(); }
uint64_t in_flight() {
  uint64_t n = 0;
  for (auto &[c, x] : g_ctx) n += x->q.size();
  return n;
}
}  // namespace aio
static Ctx *find(io_context_t c) {
  auto i = g_ctx.find(c);
  return i == g_ctx.end() ? nullptr : i->second;
}
extern "C" {
int io_setup(int, io_context_t *out) {
  std::lock_guard l(g_mu);
  *out = reinterpret_cast<io_context_t>(g_next += 16);
  g_ctx[*out] = new Ctx;
  return 0;
}
int io_destroy(io_context_t c) {
  std::lock_guard l(g_mu);
  Ctx *x = find(c);
  if (!x) return -EINVAL;
  for (auto &r : x->q) {  // the kernel waits for the reads in flight: their buffers may still be written to
    int64_t res = pread(r.fd, r.buf, r.n, r.off);
    if (g_hook) g_hook(r.buf, r.n, r.off, res);
  }
  delete x;
  g_ctx.erase(c);
  return 0;
}
int io_submit(io_context_t c, long n, iocb **v) {
  std::lock_guard l(g_mu);
  Ctx *x = find(c);
  if (!x) return -EINVAL;
  if (g_o.fail_submit >= 0 && g_submits++ == uint64_t(g_o.fail_submit)) return -EAGAIN;
  if (g_faults > 0 && g_o.bad_submits) {
    int c = mc::choose(int(3 + n - 1), "submission");
    if (c) --g_faults;
    if (c == 1) return -EAGAIN;
    if (c == 2) return -EINTR;
    if (c >= 3) n = c - 2;
  }
  for (long i = 0; i < n; ++i) x->q.push_back({int(v[i]->aio_fildes), v[i]->u.c.buf, v[i]->u.c.nbytes, v[i]->u.c.offset, v[i]->data, v[i]});
  return int(n);
}
int io_getevents(io_context_t c, long min_nr, long nr, io_event *ev, timespec *) {
  std::lock_guard l(g_mu);
  Ctx *x = find(c);
  if (!x) return -EINVAL;
  long have = long(x->q.size());
  if (have < min_nr) mc::fail("lost-completion", "a wait for more completions than there are reads in flight never ends");
  long want = std::min(nr, have);
  if (g_o.choose_portions && want > min_nr) want = min_nr + mc::choose(int(want - min_nr) + 1, "completions delivered");
  if (g_o.interrupts && min_nr > 0) {
    int k = mc::choose(3, "interrupted wait");
    if (k == 1) {
      g_o.interrupts = false;
      return -EINTR;
    }
    if (k == 2 && want > 1) {
      g_o.interrupts = false;
      want = 1;
    }
  }
  if (g_faults > 0 && g_o.bad_waits) {  // interrupted: before anything arrived, or after a part of it
    int c = mc::choose(want > 0 ? int(want) + 1 : 2, "interrupted");
    if (c) --g_faults;
    if (c == 1) return -EINTR;
    if (c > 1) want = c - 1;
  }
  for (long i = 0; i < want; ++i) {
    size_t k = g_o.order == aio::Order::Fifo ? 0 : g_o.order == aio::Order::Lifo ? x->q.size() - 1 : x->q.size() > 1 ? size_t(mc::choose(int(x->q.size()), "next completion")) : 0;
    Req r = x->q[k];
    x->q.erase(x->q.begin() + long(k));
    int64_t res;
    int kind = 0;
    if (g_faults > 0 && g_o.bad_results) kind = mc::choose(4, "result");
    if (kind) --g_faults;
    if (kind) {
      res = kind == 1 ? pread(r.fd, r.buf, r.n / 2, r.off) : kind == 2 ? 0 : -EIO;
    } else if (g_o.fail_read >= 0 && g_reads == uint64_t(g_o.fail_read)) {
      res = g_o.fail_result;
      if (res > 0) res = pread(r.fd, r.buf, std::min(r.n, size_t(res)), r.off);
    } else {
      res = pread(r.fd, r.buf, r.n, r.off);
      if (res < 0) res = -errno;
    }
    ++g_reads;
    if (g_hook) g_hook(r.buf, r.n, r.off, res);
    ev[i].data = r.data;
    ev[i].obj = r.cb;
    ev[i].res = static_cast<unsigned long>(res);
    ev[i].res2 = 0;
  }
  return int(want);
}
}
