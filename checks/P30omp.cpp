// P30: the parallel graph builder under the controlled scheduler. The loop's chunk size (2048 rows) is reduced to one
// row by a macro, so that few rows are already shared between the threads; nothing else of the code is changed.
// mc-sched
// mc-omp
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstring>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <vector>
#include <omp.h>
#include <spdlog/spdlog.h>
#include "index/graph/vamana/robust_prune.hpp"
#include "simd/distance_l2.hpp"
#include "utils/log.hpp"
#include "utils/timer.hpp"
#define schedule(kind, chunk) schedule(kind, 1)
#include "index/graph/vamana/vamana_builder.hpp"
#undef schedule
#include "lib/sched.hpp"

using namespace alaya::vamana;
namespace {
void race(std::vector<float> d, int threads, uint32_t R, uint32_t L, int preemptions) {
  uint32_t n = uint32_t(d.size() / 2);
  sched::Options o;
  o.preemptions = preemptions;
  std::vector<std::vector<uint32_t>> g;
  uint32_t medoid = ~0u;
  sched::run(o, [&] {
    VamanaBuildParams p;
    p.R = R;
    p.L = L;
    p.num_threads = uint32_t(threads);
    VamanaBuilder b(d.data(), n, 2, p);
    b.build();
    g = b.graph();
    medoid = b.medoid();
  });
  mc::nontrivial();
  uint64_t h = medoid;
  MC_REQUIRE(g.size() == n && medoid < n, "node-count", "%zu nodes, entry %u", g.size(), medoid);
  float cx = 0, cy = 0;
  for (uint32_t i = 0; i < n; ++i) cx += d[2 * i] / float(n), cy += d[2 * i + 1] / float(n);
  auto dc = [&](uint32_t i) { return std::hypot(d[2 * i] - cx, d[2 * i + 1] - cy); };
  for (uint32_t i = 0; i < n; ++i) MC_REQUIRE(dc(medoid) <= dc(i) + 1e-4, "medoid", "entry point %u is not nearest to the centroid", medoid);
  for (uint32_t i = 0; i < n; ++i) {
    std::set<uint32_t> u(g[i].begin(), g[i].end());
    MC_REQUIRE(g[i].size() <= R, "degree", "node %u has %zu neighbours, R=%u", i, g[i].size(), R);
    MC_REQUIRE(u.size() == g[i].size() && !u.count(i) && (u.empty() || *u.rbegin() < n), "bad-neighbours", "node %u: repeated, own or out-of-range neighbours", i);
    MC_REQUIRE(!u.empty(), "no-neighbours", "node %u has no neighbours", i);
    for (auto x : g[i]) h = mc::mix(h, x);
    h = mc::mix(h, 99);
  }
  mc::state(h);
}
const std::vector<float> kSquare{0, 0, 2, 0, 0, 2, 2, 2};
const std::vector<float> kLine{1, 0, 0, 0, 2, 0};
const std::vector<float> kStar{0, 0, 3, 0, -3, 0, 0, 3, 0, -3};
const std::vector<float> kSame{1, 1, 1, 1, 1, 1};
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P30";
  sp.level = "model_checking";
  sp.rule = "a schedule counts as nontrivial when the parallel build ran to its end and the graph was checked";
  sp.assumptions = {"the loop's chunk size is 1 instead of 2048 rows, so that small graphs are built by several threads"};
  std::vector<mc::Scenario> sc;
  auto add = [&](const char *name, std::vector<float> d, int t, uint32_t R, uint32_t L, int pre, bool th) {
    mc::Scenario s{name, [=] { race(d, t, R, L, pre); }, th};
    s.isolate = true;
    sc.push_back(s);
  };
  add("parallel-line", kLine, 2, 2, 4, 2, false);
  add("parallel-line-narrow", kLine, 2, 1, 1, 2, false);
  add("parallel-same", kSame, 2, 2, 2, 2, false);
  add("parallel-square", kSquare, 2, 2, 4, 2, false);
  add("parallel-star", kStar, 2, 1, 2, 2, false);
  add("parallel-3-threads", kLine, 3, 2, 4, 2, true);
  add("parallel-square-3", kSquare, 2, 2, 4, 3, true);
  return mc::run_main(argc, argv, sp, sc);
}
