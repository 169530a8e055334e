// P15: the 1-bit (RaBitQ) graph - every size around the fixed degree, padded and unpadded dimensions, every width, with and
// without blocked rows, before and after a save and reload, by the plain and by the coroutine search.
// mc-cpu: avx2 fma
// mc-libs: -lrocksdb -fsanitize=address
// mc-flags: -fsanitize=address
#include <algorithm>
#include <cmath>
#include <memory>
#include <set>
#include <spdlog/spdlog.h>
#include "executor/jobs/graph_search_job.hpp"
#include "index/graph/qg/qg_builder.hpp"
#include "space/rabitq_space.hpp"
#include "lib/mc.hpp"
using namespace alaya;
namespace {
using Sp = RaBitQSpace<>;
using Job = GraphSearchJob<Sp>;
constexpr uint32_t kNone = uint32_t(-1), kDeg = Sp::kDegreeBound;
struct Sut {
  uint32_t n, dim;
  MetricType metric;
  std::vector<float> rows;
  std::shared_ptr<Sp> space;
  std::unique_ptr<Job> job;
  std::vector<uint32_t> edges;  // as built
  float value(uint32_t i, uint32_t d) const {
    uint32_t h = i * 2654435761u + d * 40503u + 17;
    h ^= h >> 15, h *= 2246822519u, h ^= h >> 13;
    return float(int(h % 2001) - 1000) / 100.f;
  }
  Sut(uint32_t n_, uint32_t dim_, MetricType m) : n(n_), dim(dim_), metric(m), rows(size_t(n_) * dim_) {
    for (uint32_t i = 0; i < n; ++i)
      for (uint32_t d = 0; d < dim; ++d) rows[size_t(i) * dim + d] = value(i, d);
    if (n > 6)  // a repeated row: two ids, one vector
      std::copy_n(rows.begin() + 2 * dim, dim, rows.begin() + 5 * dim);
    space = std::make_shared<Sp>(n + 3, dim, metric);
    space->fit(rows.data(), n);
    QGBuilder<Sp> b(space);
    b.build_graph();
    job = std::make_unique<Job>(space, nullptr);
    for (uint32_t i = 0; i < n; ++i) edges.insert(edges.end(), space->get_edges(i), space->get_edges(i) + kDeg);
  }
  std::vector<float> query(int q) const {
    std::vector<float> v(dim);
    for (uint32_t d = 0; d < dim; ++d) v[d] = q == 0 ? 0.5f : q == 1 ? value(n / 2, d) : value(5000 + q, d);
    return v;
  }
  double dist(const std::vector<float> &q, uint32_t id) const {
    double s = 0;
    for (uint32_t d = 0; d < dim; ++d) {
      double a = q[d], b = rows[size_t(id) * dim + d];
      s += metric == MetricType::L2 ? (a - b) * (a - b) : -a * b;
    }
    return s;
  }
  void shape(const char *when) {
    MC_REQUIRE(space->get_data_num() == n && space->get_dim() == dim, "shape of the reloaded space", "%s: %u rows of %u", when, space->get_data_num(), space->get_dim());
    MC_REQUIRE(space->get_ep() < n, "entry point out of range", "%s: %u of %u", when, space->get_ep(), n);
    for (uint32_t i = 0; i < n; ++i) {
      const float *v = static_cast<const Sp &>(*space).get_data_by_id(i);
      MC_REQUIRE(!memcmp(v, &rows[size_t(i) * dim], dim * 4), "stored row differs from the row given", "%s: row %u", when, i);
      std::set<uint32_t> to;
      const uint32_t *e = space->get_edges(i);
      for (uint32_t j = 0; j < kDeg; ++j) {
        MC_REQUIRE(e[j] < n, "link to a row that does not exist", "%s: %u -> %u of %u", when, i, e[j], n);
        MC_REQUIRE(e[j] == edges[size_t(i) * kDeg + j], "links changed by a reload", "%s: %u slot %u", when, i, j);
        if (e[j] != i) to.insert(e[j]);
      }
      MC_REQUIRE(to.size() == std::min(kDeg, n - 1), "a row has fewer distinct links than the degree allows", "%s: row %u has %zu of %u", when, i, to.size(), std::min(kDeg, n - 1));
    }
  }
  std::set<uint32_t> reachable() const {
    std::set<uint32_t> seen{space->get_ep()};
    std::vector<uint32_t> todo{space->get_ep()};
    while (!todo.empty()) {
      uint32_t c = todo.back();
      todo.pop_back();
      for (uint32_t j = 0; j < kDeg; ++j)
        if (seen.insert(edges[size_t(c) * kDeg + j]).second) todo.push_back(edges[size_t(c) * kDeg + j]);
    }
    return seen;
  }
  double scale(const std::vector<float> &q, uint32_t id) const {
    double s = 0;
    for (uint32_t d = 0; d < dim; ++d) s += q[d] * q[d] + rows[size_t(id) * dim + d] * rows[size_t(id) * dim + d];
    return s;
  }
  // how far the estimates lie from the distances they stand for, on average and relative to the lengths of the vectors
  double estimate_error() {
    double err = 0, all = 0;
    for (int qi : {1, 2, 3}) {
      auto q = query(qi);
      auto comp = static_cast<const Sp &>(*space).get_query_computer(q.data());
      for (uint32_t i = 0; i < n; ++i) {
        comp.load_centroid(i);
        MC_REQUIRE(std::fabs(comp.get_exact_qr_c_dist() - dist(q, i)) <= 1e-3 * (1 + std::fabs(dist(q, i))), "exact distance of an expanded row", "row %u: %g for %g", i, comp.get_exact_qr_c_dist(), dist(q, i));
        for (uint32_t j = 0; j < std::min(kDeg, n - 1); ++j) {
          uint32_t to = edges[size_t(i) * kDeg + j];
          err += std::fabs(comp(j) - dist(q, to)), all += scale(q, to);
        }
      }
    }
    return all > 0 ? err / all : 0;
  }
  std::vector<uint32_t> search(const std::vector<float> &q, uint32_t k, uint32_t ef, bool coroutine) {
    std::vector<uint32_t> ids(k, 0);
    if (coroutine) {
      auto t = job->rabitq_search(q.data(), k, ids.data(), ef);
      while (!t.is_ready()) t.resume();
      t.promise().result();
    } else {
      job->rabitq_search_solo(q.data(), k, ids.data(), ef);
    }
    return ids;
  }
  // `best` ascending distances the answer must show; fewer than asked for only when there are fewer rows
  void judge(const char *what, const std::vector<float> &q, const std::vector<uint32_t> &ids, uint32_t k, size_t want, const std::vector<double> *best) {
    std::set<uint32_t> seen;
    double last = -1e300;
    for (uint32_t i = 0; i < k; ++i) {
      if (i >= want) {
        MC_REQUIRE(ids[i] == kNone, "more results than rows", "%s: slot %u of %u holds %u, %u rows", what, i, k, ids[i], n);
        continue;
      }
      MC_REQUIRE(ids[i] < n, "result is not a row", "%s: slot %u of %u holds %u, %u rows", what, i, k, ids[i], n);
      MC_REQUIRE(seen.insert(ids[i]).second, "a row is returned twice", "%s: %u in slot %u of %u", what, ids[i], i, k);
      double d = dist(q, ids[i]), eps = 1e-3 * (1 + std::fabs(d));
      MC_REQUIRE(d >= last - eps, "results out of order", "%s: slot %u of %u", what, i, k);
      last = d;
      if (best) MC_REQUIRE(std::fabs(d - (*best)[i]) <= eps, "exhaustive search missed a nearer row", "%s: slot %u of %u is at %g, nearest is %g", what, i, k, d, (*best)[i]);
    }
  }
};
void run(uint32_t n, uint32_t dim, MetricType metric, double tolerance) {
  Sut s(n, dim, metric);
  mc::step();
  mc::nontrivial();
  s.shape("built");
  auto reach = s.reachable();
  MC_REQUIRE(n > kDeg + 1 || reach.size() == n, "rows no search can reach", "%zu of %u", reach.size(), n);
  std::vector<std::vector<uint32_t>> narrow;  // what each narrow search found before the reload
  for (int pass = 0; pass < 2; ++pass) {
    const char *when = pass ? "reloaded" : "built";
    if (n >= 8) {
      double e = s.estimate_error();
      if (FILE *f = getenv("VP_P15Q") ? fopen(getenv("VP_P15Q"), "a") : nullptr) fprintf(f, "n %u dim %u metric %d error %g\n", n, dim, int(metric), e), fclose(f);
      MC_REQUIRE(e <= tolerance, "estimated distances do not follow the exact ones", "mean error %.3f of the mean squared lengths over every link", e);
    }
    size_t nth = 0;
    for (int qi = 0; qi < 4; ++qi) {
      auto q = s.query(qi);
      std::vector<double> best;
      for (uint32_t id : reach) best.push_back(s.dist(q, id));
      std::sort(best.begin(), best.end());
      for (uint32_t k : {1u, 2u, 5u, 10u, 33u, n, n + 2}) {
        std::vector<uint32_t> wide;
        for (bool co : {false, true}) {
          mc::step();
          wide = s.search(q, k, kDeg * n + k, co);
          s.judge(when, q, wide, k, std::min<size_t>(k, reach.size()), &best);
          for (uint32_t ef : {k, k + 1, 3 * k}) {
            auto slim = s.search(q, k, ef, co);
            size_t found = std::find(slim.begin(), slim.end(), kNone) - slim.begin();
            MC_REQUIRE(found >= std::min({k, n, kDeg + 1}), "a narrow search stops short of the rows next to its start", "%s: %zu of %u with width %u", when, found, k, ef);
            s.judge(when, q, slim, k, found, nullptr);
            if (!pass) {
              narrow.push_back(slim);
            } else {
              MC_REQUIRE(slim == narrow[nth++], "a reload changed the answer", "query %d, k %u, width %u", qi, k, ef);
            }
          }
        }
        if (k > 10) continue;
        for (int mask = 0; mask < 3; ++mask) {  // every third row, all but one, all
          DynamicBitset blocked(n);
          std::vector<double> open;
          std::set<uint32_t> shut;
          for (uint32_t i = 0; i < n; ++i) {
            if (mask == 0 ? i % 3 == 1 : mask == 1 ? i != n - 1 : true) blocked.set(i), shut.insert(i);
          }
          for (uint32_t id : reach)
            if (!shut.count(id)) open.push_back(s.dist(q, id));
          std::sort(open.begin(), open.end());
          std::vector<uint32_t> ids(k, kNone - 1);
          SearchInfo info;
          info.topk_ = k, info.ef_ = kDeg * n + k;
          s.job->rabitq_search_solo(q.data(), k, ids.data(), info, &blocked);
          mc::step();
          for (uint32_t id : ids) MC_REQUIRE(!shut.count(id), "a blocked row is returned", "%s: %u", when, id);
          s.judge(when, q, ids, k, std::min<size_t>(k, open.size()), &open);
        }
      }
    }
    if (pass) break;
    std::string file = mc::fresh_dir() + "/space";
    s.space->save(file);
    s.job.reset();
    s.space = std::make_shared<Sp>();
    s.space->load(file);
    s.job = std::make_unique<Job>(s.space, nullptr);
    s.shape("reloaded");
  }
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P15";
  sp.level = "model_checking";
  sp.rule = "every size, dimension, metric, width, query and blocked set of the 1-bit graph, against the distances computed from the rows";
  std::vector<mc::Scenario> sc;
  for (auto m : {MetricType::L2, MetricType::IP})
    for (uint32_t dim : {64u, 100u, 128u, 200u}) {
      std::vector<uint32_t> quick{1, 2, 7, 32, 33, 34, 90}, deep{3, 9, 12, 31, 35, 48, 64, 65, 127, 200, 500};
      for (bool d : {false, true})
        for (uint32_t n : d ? deep : quick)
          sc.push_back({std::string("rabitq-") + (m == MetricType::L2 ? "l2" : "ip") + "-" + std::to_string(dim) + "d-" + std::to_string(n) + "rows", [=] { run(n, dim, m, m == MetricType::L2 ? 0.25 : 0.12); }, d});
    }
  return mc::run_main(argc, argv, sp, sc);
}
