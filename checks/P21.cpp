// P21: disk page cache and node writes - every bounded sequence of writes, reads, prefetches, late fills and flushes.
// mc-src: lib/uring_stub.cpp
// mc-fsx
// mc-flags: -fsanitize=address
// mc-libs: -fsanitize=address
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <vector>
#include <spdlog/spdlog.h>
#include "coro/coro.hpp"
#include "index/graph/diskann/disk_page_io.hpp"
#include "lib/fsx.hpp"
#include "lib/mc.hpp"
#include "lib/uring_stub.hpp"

namespace {
using alaya::diskann::DiskLayoutGeometry;
using alaya::diskann::DiskPageIO;
struct Cfg {
  const char *name;
  uint32_t dim, degree;
  size_t cache;
  int depth, deep;
  bool reactor;
};
struct Node {
  std::vector<float> coords;
  std::vector<uint32_t> nbrs;
  bool operator==(const Node &) const = default;
};
struct Sut {
  const Cfg &c;
  DiskLayoutGeometry g;
  std::string dir, path;
  std::vector<uint32_t> ids;      // nodes the operations touch: two on one page, one on each of the next, one appended
  std::vector<Node> m;            // model of every node of the file, by id
  std::unique_ptr<alaya::UringReactor> reactor;
  std::unique_ptr<coro::thread_pool> pool;
  std::unique_ptr<DiskPageIO> io;
  uint32_t next = 1;
  uint64_t pages = 0;             // pages the file has
  struct Pending {
    bool valid = false;
    uint64_t off = 0, version = 0;
    char *buf = nullptr;
    uint32_t id = 0;
  } peek;
  explicit Sut(const Cfg &cfg) : c(cfg), g(DiskLayoutGeometry::compute(cfg.dim, cfg.degree)) {
    dir = mc::fresh_dir();
    path = dir + "/index";
    uint32_t per = uint32_t(g.nodes_per_sector);
    ids = {0, per > 1 ? 1u : 0u, per, 2 * per, 4 * per};  // the last is two pages beyond the end: an append that skips a page
    pages = 3;
    m.resize(5 * per);
    for (uint32_t i = 0; i < 3 * per; ++i) m[i] = make(i, 0, i % (c.degree + 1));
    for (uint32_t i = 3 * per; i < 5 * per; ++i) m[i].coords.assign(c.dim, 0);
    std::string d = file();
    std::ofstream(path, std::ios::binary).write(d.data(), long(d.size()));
    void *p = nullptr;
    if (posix_memalign(&p, 4096, g.page_size)) throw std::bad_alloc();
    peek.buf = static_cast<char *>(p);
    open();
  }
  ~Sut() {
    io.reset();
    pool.reset();
    reactor.reset();
    free(peek.buf);
  }
  void open() {
    io.reset();
    io = std::make_unique<DiskPageIO>(path, g, c.cache);
    if (c.reactor) {
      uring::Options o;
      uring::options(o);
      if (!reactor) reactor = std::make_unique<alaya::UringReactor>(2);
      io->set_reactor(reactor.get());
    }
    if (!pool) pool = std::make_unique<coro::thread_pool>(coro::thread_pool::options{.thread_count = 1});
  }
  Node make(uint32_t id, uint32_t version, uint32_t n) const {
    Node x;
    for (uint32_t k = 0; k < c.dim; ++k) x.coords.push_back(float(id * 100 + version + 1) + float(k) / 4096);
    for (uint32_t k = 0; k < n; ++k) x.nbrs.push_back(id * 1000 + version * 10 + k + 1);
    return x;
  }
  std::string file() const {
    std::string d(4096 + pages * g.page_size, '\0');
    for (uint32_t i = 0; i < m.size() && i < pages * g.nodes_per_sector; ++i) {
      char *rec = d.data() + g.file_offset(i);
      memcpy(rec, m[i].coords.data(), 4 * c.dim);
      uint32_t n = uint32_t(m[i].nbrs.size());
      memcpy(rec + 4 * c.dim, &n, 4);
      memcpy(rec + 4 * c.dim + 4, m[i].nbrs.data(), 4 * n);
    }
    return d;
  }
  bool exists(uint32_t id) const { return id / g.nodes_per_sector < pages; }
  void check_file(const char *when) {
    std::ifstream f(path, std::ios::binary);
    std::string d((std::istreambuf_iterator<char>(f)), {});
    std::string w = file();
    MC_REQUIRE(d.size() == w.size(), "file-size", "the file has %zu bytes %s, expected %zu", d.size(), when, w.size());
    for (size_t i = 0; i < d.size(); ++i)
      MC_REQUIRE(d[i] == w[i], "file-content", "byte %zu of the file (page %zu) is not what was written last, %s", i, i < 4096 ? 0 : (i - 4096) / size_t(g.page_size), when);
    MC_REQUIRE(io->file_size() == w.size(), "file-size", "file_size() is wrong");
  }
  void expect(uint32_t id, const std::vector<float> *coords, const std::vector<uint32_t> *nbrs, const char *who) {
    if (coords) MC_REQUIRE(*coords == m[id].coords, "stale-coords", "%s returns other coordinates of node %u than were written last (%g, %g)", who, id, double((*coords)[0]), double(m[id].coords[0]));
    if (nbrs) MC_REQUIRE(*nbrs == m[id].nbrs, "stale-neighbours", "%s returns other neighbours of node %u than were written last", who, id);
  }
  Node decode(const char *page, uint32_t id) const {
    const char *r = page + g.offset_to_node(id);
    Node x;
    x.coords.resize(c.dim);
    memcpy(x.coords.data(), r, 4 * c.dim);
    uint32_t n;
    memcpy(&n, r + 4 * c.dim, 4);
    if (n > c.degree) n = 0;
    x.nbrs.resize(n);
    memcpy(x.nbrs.data(), r + 4 * c.dim + 4, 4 * n);
    return x;
  }
  std::vector<uint32_t> existing() const {
    std::vector<uint32_t> v;
    for (uint32_t i : ids)
      if (exists(i)) v.push_back(i);
    return v;
  }
  void write(uint32_t id, bool nbrs_only, uint32_t n) {
    uint32_t v = next++;
    Node x = make(id, v, n);
    if (nbrs_only) io->write_node_neighbors(id, n, x.nbrs.data());
    else io->write_node(id, x.coords.data(), n, x.nbrs.data());
    if (!nbrs_only) m[id].coords = x.coords;
    m[id].nbrs = x.nbrs;
    pages = std::max<uint64_t>(pages, id / g.nodes_per_sector + 1);
  }
  template <class T>
  T wait(coro::task<T> t) {
    return coro::sync_wait(std::move(t));
  }
  void fill(uint32_t id) {
    io->search_fill_page(peek.off, peek.buf, peek.version);
    Node x = decode(peek.buf, id);
    expect(id, &x.coords, &x.nbrs, "a page read earlier and folded in now");
  }
};
enum Op { W0, W1, W2, W3, WA, N0, N2, R0, R2, C0, C2, Batch, BatchPar, Async, Peek0, Peek2, Fill, Flush, Clear, Cached, PrefC, PrefP, NbrAsync, NodeAsync, kOps };
const char *kNames[] = {"write 0", "write same page", "write next page", "write last page", "append", "links 0", "links next page", "read 0", "read next page", "coords 0", "coords next page", "neighbours",
                        "neighbours in parallel", "async reads", "peek 0", "peek next page", "fill", "flush", "forget coords", "cached page", "prefetch coords", "prefetch pages", "neighbours by ring", "node by ring"};
void apply(Sut &s, int op) {
  auto &io = *s.io;
  auto &ids = s.ids;
  auto read = [&](uint32_t id) {
    auto d = io.read_node(id);
    s.expect(id, &d.coords, &d.nbrs, "read_node()");
  };
  switch (op) {
    case W0: s.write(ids[0], false, s.c.degree); break;
    case W1:
      mc::assume(ids[1] != ids[0]);
      s.write(ids[1], false, 1);
      break;
    case W2: s.write(ids[2], false, 0); break;
    case W3: s.write(ids[3], false, 1); break;
    case WA: s.write(ids[4], false, 1); break;
    case N0: s.write(ids[0], true, 1); break;
    case N2: s.write(ids[2], true, s.c.degree); break;
    case R0: read(ids[0]); break;
    case R2: read(ids[2]); break;
    case C0:
    case C2: {
      uint32_t id = ids[op == C0 ? 0 : 2];
      auto c = io.read_coords_cached(id);
      s.expect(id, &c, nullptr, "read_coords_cached()");
      break;
    }
    case Batch:
    case BatchPar:
    case NbrAsync: {
      auto v = s.existing();
      std::swap(v[0], v.back());
      v.push_back(v[0]);  // asked for twice
      auto r = op == Batch ? io.read_neighbors_batch(v.data(), uint32_t(v.size()))
               : op == BatchPar ? io.read_neighbors_batch_parallel(v.data(), uint32_t(v.size()), 2)
                                : s.wait(io.read_neighbors_batch_async(v.data(), uint32_t(v.size()), *s.pool));
      MC_REQUIRE(r.size() == v.size(), "count", "%zu neighbour lists for %zu nodes", r.size(), v.size());
      for (size_t i = 0; i < v.size(); ++i) s.expect(v[i], nullptr, &r[i], kNames[op]);
      break;
    }
    case Async: {
      auto v = s.existing();
      v.push_back(v[0]);
      auto r = io.read_nodes_async(v, *s.pool);
      MC_REQUIRE(r.size() == v.size(), "count", "%zu nodes for %zu ids", r.size(), v.size());
      for (size_t i = 0; i < v.size(); ++i) s.expect(v[i], &r[i].coords, &r[i].nbrs, "read_nodes_async()");
      break;
    }
    case Peek0:
    case Peek2: {
      mc::assume(!s.peek.valid);
      uint32_t id = ids[op == Peek0 ? 0 : 2];
      auto &p = s.peek;
      p.off = s.g.get_page_offset(id);
      p.id = id;
      if (io.search_peek_page(p.off, p.buf, &p.version)) {
        Node x = s.decode(p.buf, id);
        s.expect(id, &x.coords, &x.nbrs, "search_peek_page()");
      } else {
        int f = ::open(s.path.c_str(), O_RDONLY);
        MC_REQUIRE(::pread(f, p.buf, s.g.page_size, long(p.off)) == long(s.g.page_size), "setup", "cannot read the file");
        ::close(f);
        p.valid = true;
      }
      break;
    }
    case Fill:
      mc::assume(s.peek.valid);
      s.fill(s.peek.id);
      s.peek.valid = false;
      break;
    case Flush:
      io.flush_dirty_pages();
      s.check_file("after a flush");
      break;
    case Clear: io.clear_cache(); break;
    case Cached: {
      for (uint32_t id : s.existing())
        if (io.try_read_cached_page(s.g.get_page_offset(id), s.peek.valid ? nullptr : s.peek.buf)) {
          Node x = s.decode(s.peek.buf, id);
          s.expect(id, &x.coords, &x.nbrs, "try_read_cached_page()");
        }
      break;
    }
    case PrefC:
    case PrefP: {
      auto v = op == PrefC ? s.existing() : s.ids;  // pages beyond the end are skipped
      if (op == PrefC) coro::sync_wait(io.prefetch_coords(v.data(), v.size(), *s.pool));
      else coro::sync_wait(io.prefetch_pages(v.data(), v.size(), *s.pool));
      break;
    }
    case NodeAsync: {
      auto d = s.wait(io.read_node_async(ids[0], *s.pool));
      s.expect(ids[0], &d.coords, &d.nbrs, "read_node_async()");
      break;
    }
  }
}
void finish(Sut &s) {
  for (uint32_t id : s.existing()) {
    auto c = s.io->read_coords_cached(id);
    s.expect(id, &c, nullptr, "read_coords_cached() at the end");
    auto d = s.io->read_node(id);
    s.expect(id, &d.coords, &d.nbrs, "read_node() at the end");
  }
  s.io->flush_dirty_pages();
  s.check_file("after the last flush");
  s.open();
  for (uint32_t id = 0; id < s.pages * s.g.nodes_per_sector && id < s.m.size(); ++id) {
    auto d = s.io->read_node(id);
    s.expect(id, &d.coords, &d.nbrs, "read_node() after reopening");
  }
}
bool applies(const Sut &s, int op) {
  if (op >= PrefC && !s.c.reactor) return op == NodeAsync || op == NbrAsync;
  if (op == Cached && s.peek.valid) return false;
  if (op == W1 && s.ids[0] == s.ids[1]) return false;
  return true;
}
void body(const Cfg &c) {
  Sut s(c);
  int depth = mc::thorough() ? c.deep : c.depth;
  uint64_t h = 21;
  bool wrote = false;
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(kOps, "operation");
    mc::assume(applies(s, op));
    mc::note("%s", kNames[op]);
    apply(s, op);
    mc::step();
    wrote |= op <= N2;
    for (auto &x : s.m) h = mc::mix(h, uint64_t(x.coords[0]) * 31 + x.nbrs.size());
    mc::state(h);
  }
  finish(s);
  if (wrote) mc::nontrivial();
}
// ---- one failing or half-done call --------------------------------------------------------------------------------
using fsx::Kind;
constexpr uint32_t kKinds = fsx::bit(Kind::Read) | fsx::bit(Kind::Write) | fsx::bit(Kind::Trunc) | fsx::bit(Kind::Sync);
void fault(const Cfg &c) {
  static const int kBefore[] = {W0, W2, N0, R0, Flush, kOps};
  static const int kFail[] = {W0, W1, W2, W3, WA, N0, N2, R0, R2, C2, Batch, Async, Flush};
  int b = kBefore[mc::choose(6, "operation before")], op = kFail[mc::choose(13, "failing operation")];
  int mode = mc::choose(2, "failing or half-done write");
  Sut s(c);
  mc::assume(applies(s, op) && (b == kOps || applies(s, b)));
  if (b != kOps) apply(s, b);
  int at = mc::choose(8, "failing call");
  auto before = s.m;
  auto pages = s.pages;
  uint32_t target = op == W0 || op == N0 ? s.ids[0] : op == W1 ? s.ids[1] : op == W2 || op == N2 ? s.ids[2] : op == W3 ? s.ids[3] : op == WA ? s.ids[4] : UINT32_MAX;
  fsx::fault_arm(s.dir, at, EIO, mode, mode ? fsx::bit(Kind::Write) : kKinds);
  bool failed = false;
  try {
    apply(s, op);
  } catch (const mc::Violation &) {
    throw;
  } catch (const mc::Prune &) {
    throw;
  } catch (const std::exception &) {
    failed = true;
  }
  bool fired = false;
  fsx::fault_disarm(&fired);
  MC_REQUIRE(failed == fired, fired ? "silent-failure" : "spurious-failure", "%s %s although %s", kNames[op], failed ? "failed" : "succeeded", fired ? "a call failed" : "no call failed");
  mc::assume(fired);
  mc::nontrivial();
  if (target != UINT32_MAX) {
    // the node that was being written may be old or new (half-done: either half); every other node is as it was
    uint64_t page = target / s.g.nodes_per_sector;
    if (s.io->file_size() > 4096 + pages * s.g.page_size) s.pages = std::max(pages, page + 1);
    if (s.exists(target)) {
      uint32_t v = s.next++;   // writing it again settles it
      Node x = s.make(target, v, 1);
      s.io->write_node(target, x.coords.data(), 1, x.nbrs.data());
      s.m = before;
      s.m[target] = x;
    } else {
      s.m = before;
    }
  }
  finish(s);
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P21";
  sp.level = "model_checking";
  sp.rule = "a sequence is non-trivial when it contains a write; a fault when it was reached";
  sp.assumptions = {"coordinates of a node are only re-read after clear_cache() or write_node(), as the interface says",
                    "a stand-in ring carries out the reactor's reads"};
  static const std::vector<Cfg> cfg{
      {"three-per-page-nocache", 300, 3, 0, 3, 4, false}, {"three-per-page-onepage", 300, 3, 1, 4, 4, false},  {"three-per-page-twopages", 300, 3, 2, 3, 4, false},
      {"three-per-page-all", 300, 3, 64, 3, 4, false},    {"many-per-page-onepage", 2, 3, 1, 3, 3, false},     {"large-node-nocache", 1100, 3, 0, 3, 3, false},
      {"large-node-onepage", 1100, 3, 1, 3, 3, false},    {"ring-three-per-page-nocache", 300, 3, 0, 3, 3, true}, {"ring-three-per-page-onepage", 300, 3, 1, 3, 4, true},
      {"ring-large-node-twopages", 1100, 3, 2, 3, 3, true},
  };
  std::vector<mc::Scenario> sc;
  for (auto &c : cfg) {
    mc::Scenario s;
    s.name = c.name;
    s.body = [&c] { body(c); };
    sc.push_back(s);
  }
  for (size_t i : {0u, 1u, 2u, 4u, 6u}) {
    mc::Scenario s;
    s.name = std::string("fault-") + cfg[i].name;
    s.body = [&c = cfg[i]] { fault(c); };
    sc.push_back(s);
  }
  return mc::run_main(argc, argv, sp, sc);
}
