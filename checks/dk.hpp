// updatable disk index under test, with a table of live labels
#pragma once
#include <spdlog/spdlog.h>
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <map>
#include <memory>
#include <set>
#include "index/graph/diskann/diskann_index.hpp"
#include "lib/mc.hpp"
using namespace alaya::diskann;
namespace {
namespace fs = std::filesystem;
struct Config {
  const char *name;
  uint64_t dim;
  int n;           // rows it is built with
  bool pq, uring;
  double cache;    // pinned share
  size_t pages;    // page cache
  bool sparse = false;
  int threads = 1;
  bool direct = false;  // searches do not look at the page cache
  bool rerank = true;
  bool net = false;  // the safety net acts on every removal
};
using Vec = std::vector<float>;
Vec vec(const Config &c, int id) {
  Vec v(c.dim);
  for (uint64_t k = 0; k < c.dim; ++k) v[k] = float((id * (5 + int(k) * 3) + id * id) % 31) + (k == 0 ? float(id) / 16 : 0);
  return v;
}
float l2(const Vec &a, const Vec &b) {
  float s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
  return s;
}
std::string built(const Config &c) {  // one built directory per worker and configuration
  static std::map<std::string, std::string> made;
  auto &d = made[c.name];
  if (d.empty()) {
    d = mc::scratch() + "/built-" + c.name;
    fs::remove_all(d);
    std::vector<float> v;
    std::vector<uint64_t> l;
    for (int i = 0; i < c.n; ++i) {
      auto r = vec(c, i);
      v.insert(v.end(), r.begin(), r.end());
      l.push_back(uint64_t(i));
    }
    DiskANNBuildParams b;
    b.R = c.sparse ? 1 : 16;
    b.L = 20;
    b.alpha = c.sparse ? 1.2f : 1000;  // no pruning: every node links to every other
    b.record_capacity = 16;
    b.num_threads = 1;
    b.cache_ratio = c.cache;
    b.pq_n_chunks = c.pq ? 2 : 0;
    b.pq_train_iters = 2;
    DiskANNIndex::build(d, v.data(), l.data(), uint64_t(c.n), c.dim, b);
  }
  return d;
}
struct Sut {
  const Config &c;
  std::string dir;
  std::unique_ptr<DiskANNIndex> x;
  std::map<uint64_t, int> live;  // label -> vector id
  std::vector<uint64_t> order;   // live labels, oldest first
  std::vector<uint64_t> gone;
  int next = 0;
  explicit Sut(const Config &cc) : c(cc), dir(mc::fresh_dir() + "/i") {
    fs::copy(built(c), dir);
    for (int i = 0; i < c.n; ++i) add(uint64_t(i), i);
    next = c.n;
    load();
  }
  void load() {
    x = std::make_unique<DiskANNIndex>();
    load_into();
  }
  void load_into() {
    DiskANNLoadParams p;
    p.num_threads = 2;
    p.updatable = true;
    p.update_insert_threads = uint32_t(c.threads);
    p.update_reconnect_threads = uint32_t(c.threads);
    p.update_search_concurrency = 2;
    p.page_cache_capacity = c.pages;
    p.search_page_cache = !c.direct;
    p.update_rerank = c.rerank;
    if (c.net) p.safety_net_ops = 1, p.safety_net_ratio = 0;
    p.update_io = c.uring ? DiskANNUpdateIO::kUring : DiskANNUpdateIO::kBlocking;
    x->load(dir, p);
  }
  void add(uint64_t l, int v) {
    live[l] = v;
    order.push_back(l);
    std::erase(gone, l);
  }
  void drop(uint64_t l) {
    live.erase(l);
    std::erase(order, l);
    gone.push_back(l);
  }
  void results(const Vec &q, uint32_t k, uint32_t got, const uint64_t *lab, const float *d, const char *how) {
    std::vector<std::pair<float, uint64_t>> want;
    for (auto &[l, v] : live) want.push_back({l2(q, vec(c, v)), l});
    std::sort(want.begin(), want.end());
    uint32_t n = uint32_t(std::min<size_t>(k, want.size()));
    std::set<uint64_t> seen;
    for (uint32_t i = 0; i < got; ++i) {
      MC_REQUIRE(live.count(lab[i]), "dead-label", "%s returned label %llu, which is not live", how, (unsigned long long)lab[i]);
      MC_REQUIRE(seen.insert(lab[i]).second, "repeated-label", "%s returned label %llu twice", how, (unsigned long long)lab[i]);
      float w = l2(q, vec(c, live[lab[i]]));
      MC_REQUIRE(std::abs(d[i] - w) <= 1e-3f * (1 + w), "wrong-distance", "%s: label %llu at distance %g, really %g", how, (unsigned long long)lab[i], d[i], w);
      MC_REQUIRE(i == 0 || d[i - 1] <= d[i], "unordered", "%s: results are not in distance order", how);
    }
    MC_REQUIRE(got == n, "missing-label", "%s found %u of %u rows (k=%u, %zu live)", how, got, n, k, live.size());
    for (uint32_t i = 0; i < n; ++i) MC_REQUIRE(std::abs(d[i] - want[i].first) <= 1e-3f * (1 + want[i].first), "not-nearest", "%s: result %u is at %g, the true one at %g", how, i, d[i], want[i].first);
    for (uint32_t i = got; i < k; ++i) MC_REQUIRE(lab[i] == DiskANNIndex::kNoLabel && d[i] == std::numeric_limits<float>::max(), "padding", "%s: unused result slot %u is not marked", how, i);
  }
  void check() {
    MC_REQUIRE(x->live_count() == live.size() && x->size() == live.size(), "live-count", "%llu reported, %zu live", (unsigned long long)x->live_count(), live.size());
    for (uint64_t l : order) mc::require(x->contains_label(l), "contains", "a live label is not known");
    for (uint64_t l : gone) mc::require(!x->contains_label(l), "contains", "a removed label is still known");
    uint32_t big = uint32_t(live.size()) + 2;
    std::vector<uint64_t> lab(64);
    std::vector<float> d(64);
    for (int qi : {0, next - 1}) {
      Vec q = vec(c, qi);
      for (uint32_t k : {1u, big})
        for (int mode = 0; mode < 3; ++mode) {
          DiskANNSearchParams p;
          p.deterministic = mode == 1;
          if (mode == 2 && !c.pq) continue;
          p.use_pq = mode != 2;
          p.rerank_count = 32;
          std::fill(lab.begin(), lab.end(), 77);
          uint32_t n = x->search(q.data(), k, lab.data(), d.data(), p);
          results(q, k, n, lab.data(), d.data(), mode == 0 ? "search" : mode == 1 ? "deterministic search" : "search without codes");
        }
    }
    Vec qs = vec(c, 0), q2 = vec(c, next - 1);
    qs.insert(qs.end(), q2.begin(), q2.end());
    DiskANNSearchParams p;
    p.rerank_count = 32;
    auto both = [&](const char *how) {
      for (int i = 0; i < 2; ++i) {
        uint32_t n = 0;
        while (n < big && lab[size_t(i) * big + n] != DiskANNIndex::kNoLabel) ++n;
        results(i ? q2 : vec(c, 0), big, n, &lab[size_t(i) * big], &d[size_t(i) * big], how);
      }
    };
    x->batch_search(qs.data(), 2, big, lab.data(), d.data(), 1, p);
    both("batch search");
    if (c.uring) {
      p.rerank = false;
      x->search_pipelined(qs.data(), 2, big, lab.data(), d.data(), 1, 2, p);
      both("pipelined search");
    }
    uint64_t h = 17;
    for (auto &[l, v] : live) h = mc::mix(h, l * 131 + uint64_t(v));
    h = mc::mix(h, x->tombstone_count() * 1000 + x->max_slot_id());
    mc::state(h);
    mc::step();
  }
};
template <class F>
bool refused(F f) {
  try {
    f();
    return false;
  } catch (const std::exception &) {
    return true;
  }
}
}  // namespace
