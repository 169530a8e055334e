#include "lib/uring_stub.hpp"
#include <liburing.h>
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sys/syscall.h>
#include <unistd.h>  // the kernel's own accesses are made by plain system calls: no monitor sees them
#include <vector>
#include "lib/mc.hpp"
#include "lib/sched.hpp"
__attribute__((weak)) bool sched::active() { return false; }
__attribute__((weak)) void sched::point() {}
#define KERNEL __attribute__((no_sanitize("thread")))
namespace {
struct Rings {
  unsigned sq_head = 0, sq_tail = 0, cq_head = 0, cq_tail = 0, zero = 0;
  unsigned sq_mask = 0, sq_n = 0, cq_mask = 0, cq_n = 0;
  std::vector<io_uring_sqe> sqes;
  std::vector<io_uring_cqe> cqes;
  std::vector<unsigned> array;
  io_uring_sqe *sqp = nullptr;
  io_uring_cqe *cqp = nullptr;
  struct Pending {   // plain array: what the kernel does is not to be seen by the race monitor
    io_uring_sqe v[8192];
    size_t n = 0;
  } pending;
};
std::map<io_uring *, Rings *> g_rings;
uring::Options g_o;
int g_faults, g_idle;
uint64_t g_submitted, g_completed, g_lost, g_hard;
uring::Hook g_hook;
unsigned pow2(unsigned n) {
  unsigned p = 1;
  while (p < n) p *= 2;
  return p;
}
Rings *find(io_uring *r) {
  auto i = g_rings.find(r);
  if (i == g_rings.end()) mc::fail("dead-ring", "a ring that was not set up (or was torn down) is used");
  return i->second;
}
KERNEL void deliver(Rings *x, size_t k) {
  io_uring_sqe e = x->pending.v[k];
  for (size_t i = k + 1; i < x->pending.n; ++i) x->pending.v[i - 1] = x->pending.v[i];
  --x->pending.n;
  int32_t res = 0;
  size_t want = e.len;
  int kind = 0;
  if (g_faults > 0 && (g_o.short_reads || g_o.errors) && (e.opcode == IORING_OP_READ || e.opcode == IORING_OP_WRITE)) {
    int n = 1 + (g_o.short_reads ? 2 : 0) + (g_o.errors ? 1 : 0);
    kind = mc::choose(n, "result");
    if (kind && !g_o.short_reads) kind = 3;
    if (kind) --g_faults;
  }
  if (kind == 1) want = e.len / 2;
  if (kind == 2) want = 0;
  if (e.opcode == IORING_OP_NOP) {
    res = 0;
  } else if (kind == 3) {
    res = -EIO;
  } else if (e.opcode == IORING_OP_READ) {
    res = want ? int32_t(syscall(SYS_pread64, e.fd, reinterpret_cast<void *>(e.addr), want, off_t(e.off))) : 0;
    if (res < 0) res = -errno;
  } else if (e.opcode == IORING_OP_WRITE) {
    res = want ? int32_t(syscall(SYS_pwrite64, e.fd, reinterpret_cast<void *>(e.addr), want, off_t(e.off))) : 0;
    if (res < 0) res = -errno;
  } else {
    mc::fail("unknown-opcode", mc::format("a request with opcode %d was submitted", int(e.opcode)));
  }
  if (g_hook) g_hook(e.user_data, reinterpret_cast<void *>(e.addr), e.len, e.off, res);
  if (x->cq_tail - x->cq_head >= x->cq_n) mc::fail("cq-overflow", "more completions than the completion queue holds");
  io_uring_cqe &c = x->cqp[x->cq_tail & x->cq_mask];
  c.user_data = e.user_data;
  c.res = res;
  c.flags = 0;
  ++g_completed;
  __atomic_store_n(&x->cq_tail, x->cq_tail + 1, __ATOMIC_RELEASE);
}
// makes at least one completion available; at most one choice of what comes first
KERNEL void complete_some(Rings *x, bool may_idle) {
  size_t n = x->pending.n;
  bool idle = may_idle && g_idle > 0;
  size_t k = 0;
  if (g_o.choose_order || idle) {
    int c = mc::choose(int(g_o.choose_order ? n : 1) + (idle ? 1 : 0), "next completion");
    if (idle && c == int(g_o.choose_order ? n : 1)) {
      --g_idle;
      return;
    }
    k = size_t(c);
  }
  deliver(x, k);
  if (g_o.burst)
    while (x->pending.n) deliver(x, g_o.choose_order ? size_t(mc::choose(int(x->pending.n), "next completion")) : 0);
}
}  // namespace
namespace uring {
void options(const Options &o) {
  g_o = o;
  g_faults = o.faults;
  g_idle = o.idle_polls;
  g_submitted = g_completed = g_lost = g_hard = 0;
}
uint64_t submitted() { return g_submitted; }
uint64_t hard_faults() { return g_hard; }
uint64_t completed() { return g_completed; }
uint64_t outstanding() {
  uint64_t n = 0;
  for (auto &[r, x] : g_rings) n += x->pending.n;
  return n;
}
uint64_t rings() { return g_rings.size(); }
uint64_t lost_rings() { return g_lost; }
void on_complete(Hook h) { g_hook = h; }
}  // namespace uring
extern "C" {
io_uring_probe *io_uring_get_probe() {
  if (g_o.probe_fails) return nullptr;
  size_t sz = sizeof(io_uring_probe) + 256 * sizeof(io_uring_probe_op);
  auto *p = static_cast<io_uring_probe *>(calloc(1, sz));
  p->last_op = 255;
  p->ops_len = 255;
  for (int i = 0; i < 256; ++i) p->ops[i].op = __u8(i), p->ops[i].flags = IO_URING_OP_SUPPORTED;
  return p;
}
void io_uring_free_probe(io_uring_probe *p) { free(p); }
int io_uring_queue_init(unsigned n, io_uring *r, unsigned) {
  if (g_o.init_fails) return -ENOMEM;
  if (g_rings.count(r)) mc::fail("ring-twice", "a ring is set up twice");
  memset(r, 0, sizeof *r);
  auto *x = new Rings;
  x->sq_n = pow2(n);
  x->sq_mask = x->sq_n - 1;
  x->cq_n = 2 * x->sq_n + 64;  // the kernel buffers completions beyond the queue (NODROP): room for all in these tests
  x->cq_n = pow2(x->cq_n);
  x->cq_mask = x->cq_n - 1;
  x->sqes.resize(x->sq_n);
  x->cqes.resize(x->cq_n);
  x->sqp = x->sqes.data();
  x->cqp = x->cqes.data();
  x->array.resize(x->sq_n);
  for (unsigned i = 0; i < x->sq_n; ++i) x->array[i] = i;
  r->sq.khead = &x->sq_head;
  r->sq.ktail = &x->sq_tail;
  r->sq.kring_mask = &x->sq_mask;
  r->sq.kring_entries = &x->sq_n;
  r->sq.kflags = &x->zero;
  r->sq.kdropped = &x->zero;
  r->sq.array = x->array.data();
  r->sq.sqes = x->sqes.data();
  r->sq.ring_mask = x->sq_mask;
  r->sq.ring_entries = x->sq_n;
  r->cq.khead = &x->cq_head;
  r->cq.ktail = &x->cq_tail;
  r->cq.kring_mask = &x->cq_mask;
  r->cq.kring_entries = &x->cq_n;
  r->cq.kflags = &x->zero;
  r->cq.koverflow = &x->zero;
  r->cq.cqes = x->cqes.data();
  r->cq.ring_mask = x->cq_mask;
  r->cq.ring_entries = x->cq_n;
  r->features = IORING_FEAT_NODROP | IORING_FEAT_EXT_ARG;
  r->ring_fd = r->enter_ring_fd = -1;
  g_rings[r] = x;
  return 0;
}
void io_uring_queue_exit(io_uring *r) {
  auto i = g_rings.find(r);
  if (i == g_rings.end()) mc::fail("dead-ring", "a ring is torn down twice");
  if (i->second->pending.n) ++g_lost;
  delete i->second;
  g_rings.erase(i);
}
KERNEL int io_uring_submit(io_uring *r) {
  sched::point();
  Rings *x = find(r);
  // as liburing: publish the prepared entries, enter the kernel if there are any
  if (r->sq.sqe_head != r->sq.sqe_tail) {
    r->sq.sqe_head = r->sq.sqe_tail;
    x->sq_tail = r->sq.sqe_tail;
  }
  unsigned n = x->sq_tail - x->sq_head;
  if (n == 0) return 0;
  unsigned take = n;
  if (g_faults > 0 && g_o.submit_faults) {
    // 0: all; 1..3: error; 4..: fewer entries (1 .. n-1)
    int c = mc::choose(int(4 + n - 1), "submission");
    if (c) --g_faults;
    if (c == 1) return -EAGAIN;
    if (c == 2) return -EINTR;
    if (c == 3) {
      ++g_hard;
      return -EIO;
    }
    if (c >= 4) take = unsigned(c - 3);
  }
  for (unsigned i = 0; i < take; ++i) {
    x->pending.v[x->pending.n++] = x->sqp[x->sq_head & x->sq_mask];
    ++x->sq_head;
    ++g_submitted;
  }
  return int(take);
}
int io_uring_submit_and_wait(io_uring *r, unsigned) { return io_uring_submit(r); }
KERNEL int __io_uring_get_cqe(io_uring *r, io_uring_cqe **out, unsigned, unsigned wait_nr, sigset_t *) {
  sched::point();
  Rings *x = find(r);
  *out = nullptr;
  if (x->cq_head == x->cq_tail) {
    if (!x->pending.n) {
      if (wait_nr) mc::fail("waits-forever", "a wait for a completion while no request is outstanding");
      return -EAGAIN;
    }
    if (wait_nr && g_faults > 0 && g_o.wait_faults && mc::choose(2, "wait interrupted")) {
      --g_faults;
      return -EINTR;
    }
    complete_some(x, wait_nr == 0);
    if (x->cq_head == x->cq_tail) return -EAGAIN;
  }
  *out = &x->cqp[x->cq_head & x->cq_mask];
  return 0;
}
KERNEL int io_uring_wait_cqe_timeout(io_uring *r, io_uring_cqe **out, __kernel_timespec *ts) {
  sched::point();
  Rings *x = find(r);
  *out = nullptr;
  if (x->cq_head == x->cq_tail) {
    if (!x->pending.n) return -ETIME;
    if (g_o.timeouts && (mc::choose(2, "wait timed out") == 1)) return -ETIME;
    return __io_uring_get_cqe(r, out, 0, 1, nullptr);
  }
  (void)ts;
  *out = &x->cqp[x->cq_head & x->cq_mask];
  return 0;
}
}
