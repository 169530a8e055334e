// P21: disk page cache and node writes - concurrent writers and readers of the same and of neighbouring nodes.
// mc-sched
// mc-src: lib/uring_stub.cpp
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <thread>
#include <vector>
#include <spdlog/spdlog.h>
#include "coro/coro.hpp"
#include "index/graph/diskann/disk_page_io.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"
#include "lib/uring_stub.hpp"

namespace {
using alaya::diskann::DiskLayoutGeometry;
using alaya::diskann::DiskPageIO;
constexpr uint32_t kDim = 300, kDeg = 3;   // three nodes per page; a node's record crosses the middle of its page
enum Act { Write, Links, Read, Snapshot, Coords, PeekFill, Flush, Batch, RingRead, RingPages, Clear };
struct Step {
  Act a;
  uint32_t id;
};
struct Shape {
  const char *name;
  size_t cache;
  std::vector<std::vector<Step>> threads;
  int preempt;
  bool reactor = false;
  bool thorough_only = false;
};
struct World {
  DiskLayoutGeometry g = DiskLayoutGeometry::compute(kDim, kDeg);
  // per node: versions of coordinates and links whose write has begun / has ended (every node has one writer)
  struct V {
    uint32_t begun = 0, ended = 0;
  };
  std::map<uint32_t, V> coords, links;
  void fill_coords(uint32_t id, uint32_t v, float *out) const {
    for (uint32_t k = 0; k < kDim; ++k) out[k] = float(id * 1000 + v) + float(k) / 1024;
  }
  std::vector<uint32_t> make_links(uint32_t id, uint32_t v) const {
    std::vector<uint32_t> x;
    for (uint32_t k = 0; k <= v % kDeg; ++k) x.push_back(id * 100000 + v * 10 + k);
    return x;
  }
  uint32_t parse_coords(uint32_t id, const std::vector<float> &c, const char *who) const {
    uint32_t v = uint32_t(c[0]) - id * 1000;
    for (uint32_t k = 0; k < kDim; ++k)
      MC_REQUIRE(c[k] == float(id * 1000 + v) + float(k) / 1024, "torn-coords", "%s: coordinates of node %u mix versions", who, id);
    return v;
  }
  uint32_t parse_links(uint32_t id, const std::vector<uint32_t> &n, const char *who) const {
    MC_REQUIRE(!n.empty() && n[0] / 100000 == id, "torn-links", "%s: foreign or empty links in node %u", who, id);
    uint32_t v = n[0] % 100000 / 10;
    MC_REQUIRE(n == make_links(id, v), "torn-links", "%s: links of node %u mix versions", who, id);
    return v;
  }
};
std::string file(const World &w) {
  uint32_t nodes = 9;
  std::string d(4096 + 3 * w.g.page_size, '\0');
  for (uint32_t i = 0; i < nodes; ++i) {
    std::vector<float> c(kDim);
    w.fill_coords(i, 0, c.data());
    auto l = w.make_links(i, 0);
    alaya::diskann::pack_node_record(d.data() + w.g.file_offset(i), c.data(), l.data(), uint32_t(l.size()), kDim);
  }
  return d;
}
struct Window {
  uint32_t c0, l0;
};
void body(const Shape &s) {
  World w;
  std::string path = mc::fresh_dir() + "/index";
  {
    auto d = file(w);
    std::ofstream(path, std::ios::binary).write(d.data(), long(d.size()));
  }
  uring::Options uo;
  uring::options(uo);
  sched::Options o;
  o.preemptions = mc::thorough() ? s.preempt + 2 : s.preempt + 1;
  o.split_io = true;
  o.quiet_loads = true;
  o.fair = 3000;
  sched::run(o, [&] {
    std::unique_ptr<alaya::UringReactor> ring;
    std::unique_ptr<coro::thread_pool> pool;
    DiskPageIO io(path, w.g, s.cache);
    if (s.reactor) {
      ring = std::make_unique<alaya::UringReactor>(4);
      pool = std::make_unique<coro::thread_pool>(coro::thread_pool::options{.thread_count = 1});
      io.set_reactor(ring.get());
    }
    auto begin = [&](uint32_t id) {
      sched::NoPreempt np;
      return Window{w.coords[id].ended, w.links[id].ended};
    };
    auto check = [&](uint32_t id, Window b, const std::vector<float> *c, const std::vector<uint32_t> *n, const char *who) {
      sched::NoPreempt np;
      if (c) {
        uint32_t v = w.parse_coords(id, *c, who);
        MC_REQUIRE(v >= b.c0, "stale-coords", "%s returned version %u of the coordinates of node %u, version %u was complete before", who, v, id, b.c0);
        MC_REQUIRE(v <= w.coords[id].begun, "future-coords", "%s returned coordinates nobody wrote", who);
      }
      if (n) {
        uint32_t v = w.parse_links(id, *n, who);
        MC_REQUIRE(v >= b.l0, "stale-links", "%s returned version %u of the links of node %u, version %u was complete before", who, v, id, b.l0);
        MC_REQUIRE(v <= w.links[id].begun, "future-links", "%s returned links nobody wrote", who);
      }
    };
    auto run = [&](const std::vector<Step> &steps) {
      for (auto &st : steps) {
        uint32_t id = st.id;
        switch (st.a) {
          case Write:
          case Links: {
            uint32_t vc = 0, vl;
            {
              sched::NoPreempt np;
              if (st.a == Write) vc = ++w.coords[id].begun;
              vl = ++w.links[id].begun;
            }
            auto l = w.make_links(id, vl);
            if (st.a == Write) {
              std::vector<float> c(kDim);
              w.fill_coords(id, vc, c.data());
              io.write_node(id, c.data(), uint32_t(l.size()), l.data());
            } else {
              io.write_node_neighbors(id, uint32_t(l.size()), l.data());
            }
            sched::NoPreempt np;
            if (st.a == Write) w.coords[id].ended = vc;
            w.links[id].ended = vl;
            break;
          }
          case Read: {
            auto b = begin(id);
            auto d = io.read_node(id);
            check(id, b, &d.coords, &d.nbrs, "read_node()");
            break;
          }
          case Snapshot: {
            auto b = begin(id);
            coro::thread_pool *p = pool.get();
            std::unique_ptr<coro::thread_pool> own;
            if (!p) own = std::make_unique<coro::thread_pool>(coro::thread_pool::options{.thread_count = 1}), p = own.get();
            auto d = coro::sync_wait(io.read_node_async(id, *p));
            check(id, b, &d.coords, &d.nbrs, "read_node_async()");
            break;
          }
          case Coords: {
            auto b = begin(id);
            auto c = io.read_coords_cached(id);
            check(id, b, &c, nullptr, "read_coords_cached()");
            break;
          }
          case PeekFill: {
            auto b = begin(id);
            void *p = nullptr;
            if (posix_memalign(&p, 4096, w.g.page_size)) throw std::bad_alloc();
            char *buf = static_cast<char *>(p);
            uint64_t off = w.g.get_page_offset(id), ver = 0;
            if (!io.search_peek_page(off, buf, &ver)) {
              int f = ::open(path.c_str(), O_RDONLY | O_DIRECT);
              MC_REQUIRE(::pread(f, buf, w.g.page_size, long(off)) == long(w.g.page_size), "setup", "cannot read the file");
              ::close(f);
              io.search_fill_page(off, buf, ver);
            }
            alaya::diskann::NodeRecordView v{buf + w.g.offset_to_node(id), kDim};
            std::vector<float> c(v.coords(), v.coords() + kDim);
            std::vector<uint32_t> n(v.nbrs(), v.nbrs() + std::min(v.n_nbrs(), kDeg));
            check(id, b, &c, &n, "search_fill_page()");
            free(p);
            break;
          }
          case Flush: io.flush_dirty_pages(); break;
          case Batch: {
            uint32_t ids[2] = {id, 8};
            auto b = begin(id);
            auto r = io.read_neighbors_batch(ids, 2);
            check(id, b, nullptr, &r[0], "read_neighbors_batch()");
            break;
          }
          case RingRead: {
            uint32_t ids[2] = {id, 8};
            auto b = begin(id);
            auto r = coro::sync_wait(io.read_neighbors_batch_async(ids, 2, *pool));
            check(id, b, nullptr, &r[0], "read_neighbors_batch_async()");
            break;
          }
          case RingPages: {
            uint32_t ids[2] = {id, 8};
            coro::sync_wait(io.prefetch_pages(ids, 2, *pool));
            break;
          }
          case Clear: io.clear_cache(); break;
        }
      }
    };
    std::vector<std::thread> t;
    for (size_t i = 1; i < s.threads.size(); ++i) t.emplace_back([&, i] { run(s.threads[i]); });
    run(s.threads[0]);
    for (auto &x : t) x.join();
    // afterwards every node holds its last version, in memory and (flushed) in the file
    auto last = [&](DiskPageIO &x, const char *when) {
      for (uint32_t id = 0; id < 15; ++id) {
        if (id >= 9 && !w.coords[id].ended) continue;
        auto d = x.read_node(id);
        uint32_t vc = w.parse_coords(id, d.coords, when), vl = w.parse_links(id, d.nbrs, when);
        MC_REQUIRE(vc == w.coords[id].ended && vl == w.links[id].ended, "lost-write", "%s node %u has version %u/%u, written last were %u/%u", when, id, vc, vl, w.coords[id].ended, w.links[id].ended);
        mc::state(mc::mix(mc::mix(vc, vl), id));
      }
    };
    sched::NoPreempt np;
    io.flush_dirty_pages();
    last(io, "at the end");
    DiskPageIO again(path, w.g, 0);
    last(again, "after reopening");
    if (pool) pool->shutdown();
  });
  mc::nontrivial();
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P21";
  sp.level = "model_checking";
  sp.rule = "every execution writes and reads concurrently";
  sp.assumptions = {"two threads do not write the same node at once (the index holds that node's lock)", "pages are read and written in two halves"};
  static const std::vector<Shape> shapes{
      {"writers-one-page-nocache", 0, {{{Write, 0}, {Read, 1}}, {{Write, 1}, {Read, 0}}}, 2},
      {"writers-one-page-onepage", 1, {{{Write, 0}, {Write, 3}}, {{Links, 1}, {Read, 3}}}, 2},
      {"snapshot-nocache", 0, {{{Write, 0}, {Links, 0}}, {{Snapshot, 0}}}, 2},
      {"snapshot-onepage", 1, {{{Write, 0}, {Read, 3}}, {{Snapshot, 0}}}, 2},
      {"fill-nocache", 0, {{{Write, 1}, {Write, 1}}, {{PeekFill, 1}}}, 2},
      {"fill-onepage", 1, {{{Write, 1}, {Read, 3}}, {{PeekFill, 1}, {PeekFill, 1}}}, 2},
      {"fill-twopages-evict", 2, {{{Write, 1}, {Read, 6}, {Write, 1}}, {{PeekFill, 1}}}, 2},
      {"coords", 1, {{{Write, 0}}, {{Coords, 0}, {Coords, 0}}}, 3},
      {"flush-onepage", 1, {{{Write, 0}, {Flush, 0}}, {{Write, 1}, {Read, 3}, {Snapshot, 1}}}, 1},
      {"batch-onepage", 1, {{{Write, 0}, {Write, 6}}, {{Batch, 0}, {PeekFill, 6}}}, 2},
      {"append", 1, {{{Write, 9}, {Read, 0}}, {{Write, 10}, {Write, 13}}}, 2},
      {"append-nocache", 0, {{{Write, 12}, {Read, 12}}, {{Write, 9}, {Read, 9}}}, 2},
      {"three-threads", 1, {{{Write, 0}}, {{Write, 1}}, {{PeekFill, 1}, {Read, 0}}}, 1},
      {"ring-onepage", 1, {{{Write, 0}, {Read, 3}}, {{RingRead, 0}}}, 1, true},
      {"ring-nocache", 0, {{{Write, 0}, {Write, 0}}, {{Snapshot, 0}}}, 1, true},
      {"ring-prefetch", 1, {{{Write, 0}, {Write, 0}}, {{RingPages, 0}, {Read, 0}}}, 1, true},
  };
  std::vector<mc::Scenario> sc;
  for (auto &s : shapes) {
    mc::Scenario x;
    x.name = s.name;
    x.body = [&s] { body(s); };
    x.isolate = true;
    x.thorough_only = s.thorough_only;
    sc.push_back(x);
  }
  return mc::run_main(argc, argv, sp, sc);
}
