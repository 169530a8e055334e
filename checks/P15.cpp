// P15: in-memory graph index - every bounded sequence of inserts, removals, searches, saves and reloads against a table of
// live ids, for the plain, the 8-bit and the 4-bit space and the three metrics.
// mc-cpu: avx2 fma
// mc-libs: -lrocksdb -fsanitize=address
// mc-flags: -fsanitize=address
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <map>
#include <memory>
#include <set>
#include <spdlog/spdlog.h>
#include "executor/jobs/graph_search_job.hpp"
#include "executor/jobs/graph_update_job.hpp"
#include "index/graph/graph.hpp"
#include "index/graph/hnsw/hnsw_builder.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include "lib/mc.hpp"
using namespace alaya;
namespace {
constexpr uint32_t kDim = 4, kNone = uint32_t(-1);
const float kVec[][kDim] = {{0, 0, 0, 1}, {3, 0, 0, 1}, {0, 7, 0, 2}, {1, 1, 9, 4}, {12, 5, 0, 3}, {2, 2, 2, 8}, {-4, 1, 0, 6}, {5, -5, 5, 1}, {0, 0, 11, 1}, {6, 6, 6, 7}, {3, 0, 0, 1}};
const float kQuery[][kDim] = {{0, 0, 0, 0.5f}, {4, 4, 1, 1}, {-3, 9, 4, 0}};
template <class V>
struct Cfg {
  MetricType metric = MetricType::L2;
  uint32_t R = 32, capacity = 12, fit = 2;
  bool exact = true;  // with room for every link the answer is exact; otherwise only sound
};
template <class S, class B>
struct Sut {
  Cfg<S> c;
  std::shared_ptr<S> space;
  std::shared_ptr<B> build;
  std::shared_ptr<Graph<>> graph;
  std::shared_ptr<GraphSearchJob<S, B>> search;
  std::shared_ptr<GraphUpdateJob<S, B>> update;
  std::map<uint32_t, int> live;  // id -> vector
  uint32_t used = 0;
  int next = 0;
  bool refused = false;
  static constexpr bool kSame = std::is_same_v<S, B>;
  std::vector<float> vec(const float *p) const {
    std::vector<float> v(p, p + kDim);
    if (c.metric == MetricType::COS) {
      float n = 0;
      for (float x : v) n += x * x;
      for (float &x : v) x /= std::sqrt(n);
    }
    return v;
  }
  explicit Sut(const Cfg<S> &cfg) : c(cfg) {
    std::vector<float> data;
    for (uint32_t i = 0; i < c.fit; ++i) {
      auto v = vec(kVec[next]);
      data.insert(data.end(), v.begin(), v.end());
      live[i] = next++;
    }
    used = c.fit;
    build = std::make_shared<B>(c.capacity, kDim, c.metric);
    build->fit(data.data(), c.fit);
    if constexpr (kSame) {
      space = build;
    } else {
      space = std::make_shared<S>(c.capacity, kDim, c.metric);
      space->fit(data.data(), c.fit);
    }
    HNSWBuilder<B> b(build, c.R, 50);
    graph = std::shared_ptr<Graph<>>(b.build_graph(1));
    jobs();
  }
  void jobs() {
    search = std::make_shared<GraphSearchJob<S, B>>(space, graph, nullptr, build);
    update = std::make_shared<GraphUpdateJob<S, B>>(search);
  }
  double dist(const std::vector<float> &q, int k) const {
    auto v = vec(kVec[k]);
    double d = 0;
    for (uint32_t i = 0; i < kDim; ++i) d += c.metric == MetricType::L2 ? double(q[i] - v[i]) * (q[i] - v[i]) : -double(q[i]) * v[i];
    return d;
  }
  void check() {
    mc::add_eval();
    std::string st;
    for (auto &[i, k] : live) st += std::to_string(i) + ":" + std::to_string(k) + " ";
    mc::state(mc::hash_str(st + std::to_string(used)));
    for (auto &qq : kQuery) {
      auto q = vec(qq);
      std::vector<uint32_t> order;
      for (auto &[i, k] : live) order.push_back(i);
      std::sort(order.begin(), order.end(), [&](uint32_t a, uint32_t b) { return dist(q, live[a]) < dist(q, live[b]); });
      for (uint32_t k : {1u, uint32_t(live.size()), used, used + 2}) {
        if (!k) continue;
        std::vector<uint32_t> ids(k, 777), ids2(k, 777);
        std::vector<float> ds(k, -777.f);
        uint32_t ef = std::max(k, used + 2);
        search->search_solo(q.data(), ids.data(), ds.data(), k, ef);
        search->search_solo(q.data(), ids2.data(), k, ef);
        mc::require(ids == ids2, "variants-differ", "search with and without distances differ");
        size_t n = 0;
        while (n < k && ids[n] != kNone) ++n;
        std::string what;
        for (size_t i = 0; i < k; ++i) what += std::to_string(ids[i]) + "(" + std::to_string(ds[i]) + ") ";
        what += "live:";
        for (auto &[i, v] : live) what += " " + std::to_string(i);
        for (size_t i = n; i < k; ++i) mc::require(ids[i] == kNone, "padding", "results after padding: " + what);
        std::set<uint32_t> seen;
        for (size_t i = 0; i < n; ++i) {
          mc::require(live.count(ids[i]), "dead-id", "a search returned an id that is not live: " + what);
          mc::require(seen.insert(ids[i]).second, "duplicate-id", "a search returned an id twice: " + what);
          double d = dist(q, live[ids[i]]);
          mc::require(std::abs(d - ds[i]) <= 1e-3 * (1 + std::abs(d)), "distance", "distance is wrong, should be " + std::to_string(d) + ": " + what);
          mc::require(i == 0 || ds[i - 1] <= ds[i], "order", "results are not in order: " + what);
        }
        if (c.exact) {
          mc::require(n == std::min<size_t>(k, live.size()), "missing", "k=" + std::to_string(k) + ": live vectors are missing: " + what);
          for (size_t i = 0; i < n; ++i) {
            double d = dist(q, live[order[i]]);
            mc::require(std::abs(d - ds[i]) <= 1e-3 * (1 + std::abs(d)), "nearest", "not the nearest: " + what);
          }
        }
        if (n) mc::nontrivial();
      }
    }
    mc::require(build->get_avl_data_num() == live.size(), "count", "the space counts " + std::to_string(build->get_avl_data_num()) + " vectors, " + std::to_string(live.size()) + " are live");
  }
  void insert() {
    auto v = vec(kVec[next % 11]);
    uint32_t id = update->insert_and_update(v.data(), 50);
    if (used == c.capacity) {
      mc::require(id == kNone, "over-capacity", "an insert into a full index reports id " + std::to_string(id));
      refused = true;
      return;
    }
    mc::require(id != kNone && !live.count(id), "insert-id", "an insert reports id " + std::to_string(id));
    live[id] = next++ % 11;
    ++used;
    auto back = build->get_data_by_id(id);
    mc::require(std::equal(v.begin(), v.end(), back), "stored-vector", "another vector is stored");
  }
  void remove(uint32_t id) {
    update->remove(id);
    live.erase(id);
  }
  void reload(const std::string &dir) {
    graph->save(dir + "/g");
    build->save(dir + "/b");
    if constexpr (!kSame) space->save(dir + "/s");
    search.reset();
    update.reset();
    graph = std::make_shared<Graph<>>();
    graph->load(dir + "/g");
    build = std::make_shared<B>();
    build->load(dir + "/b");
    build->set_metric_function();
    if constexpr (kSame) {
      space = build;
    } else {
      space = std::make_shared<S>();
      space->load(dir + "/s");
      space->set_metric_function();
    }
    jobs();
  }
};
template <class S, class B>
void sequences(Cfg<S> c, int depth) {
  Sut<S, B> s(c);
  s.check();
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(5, "operation");
    mc::step();
    if (op == 0) {
      s.insert();
    } else if (op <= 3) {
      mc::assume(!s.live.empty());
      mc::assume(op == 1 || s.live.size() > size_t(op - 1));
      auto it = s.live.begin();
      if (op == 2) it = std::prev(s.live.end());
      if (op == 3) std::advance(it, s.live.size() / 2);
      s.remove(it->first);
    } else {
      s.reload(mc::fresh_dir());
    }
    s.check();
  }
}
// removing an id a second time, or one that was never given out, changes nothing
template <class S, class B>
void absent(Cfg<S> c) {
  Sut<S, B> s(c);
  int n = mc::choose(3, "inserted before");
  for (int i = 0; i < n; ++i) s.insert();
  if (mc::choose(2, "removed before")) s.remove(0);
  uint32_t ids[] = {0, s.used, c.capacity - 1, c.capacity, c.capacity + 1000, kNone - 1, kNone};
  uint32_t id = ids[mc::choose(7, "id")];
  mc::assume(!s.live.count(id));
  mc::step();
  try {
    s.update->remove(id);
  } catch (const std::exception &) {
  }
  s.check();
  if (s.used < c.capacity) s.insert();
  s.check();
}
template <class S, class B>
void add(std::vector<mc::Scenario> &sc, const std::string &n, int quick, int deep, bool all) {
  for (auto m : {MetricType::L2, MetricType::IP, MetricType::COS}) {
    if (!all && m != MetricType::L2) continue;
    std::string mn = m == MetricType::L2 ? "l2" : m == MetricType::IP ? "ip" : "cos";
    Cfg<S> c;
    c.metric = m;
    for (uint32_t fit : {1u, 3u}) {
      c.fit = fit;
      sc.push_back({n + "-" + mn + "-fit" + std::to_string(fit), [=] { sequences<S, B>(c, quick); }, false});
      sc.push_back({n + "-" + mn + "-fit" + std::to_string(fit) + "-deep", [=] { sequences<S, B>(c, deep); }, true});
    }
    Cfg<S> d = c;
    d.fit = 3;
    d.capacity = 5;
    sc.push_back({n + "-" + mn + "-capacity5", [=] { sequences<S, B>(d, quick); }, false});
    Cfg<S> e = c;
    e.fit = 5;
    e.R = 4;
    e.exact = false;
    sc.push_back({n + "-" + mn + "-degree4", [=] { sequences<S, B>(e, quick); }, false});
    sc.push_back({n + "-" + mn + "-absent", [=] { absent<S, B>(c); }, false});
  }
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P15";
  sp.level = "model_checking";
  sp.rule = "a reload, insert or removal sequence after which searches with results were compared with the table of live ids";
  std::vector<mc::Scenario> sc;
  add<RawSpace<>, RawSpace<>>(sc, "raw", 5, 7, true);
  add<SQ8Space<>, RawSpace<>>(sc, "sq8", 5, 6, false);
  add<SQ4Space<>, RawSpace<>>(sc, "sq4", 5, 6, false);
  return mc::run_main(argc, argv, sp, sc);
}
