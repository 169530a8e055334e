// P06: multi-threaded batch search over a disk collection, every schedule of its workers.
// mc-sched
#include <spdlog/spdlog.h>
#include <cstdlib>
#include <limits>
#include <thread>
#include "checks/dc.hpp"
#include "lib/sched.hpp"
using namespace dc;

namespace {
constexpr uint32_t kDim = 3;
constexpr uint64_t kPadL = 0xfeedfacecafebeefull;
constexpr float kPadD = -12345.f;
struct Col {
  std::unique_ptr<DiskCollection> c;
  std::vector<Row> rows;
  MetricType m;
};
std::vector<Col> g_cols;   // built before the executions fork
fs::path g_root;

void make(const char *name, DiskIndexType type, MetricType m, std::vector<int> flushes) {
  VamanaSegmentBuildParams vp;
  vp.R = 8;
  vp.L = 16;
  vp.num_threads = 1;
  Col col;
  col.m = m;
  {
    DiskCollection c(g_root / name, kDim, m, type, 1 << 20, vp);
    uint64_t label = 100;
    int salt = 1;
    for (int n : flushes) {
      std::vector<float> f;
      std::vector<uint64_t> l;
      for (int i = 0; i < n; ++i) {
        std::vector<float> v{float(salt % 5) - 1.5f, float((salt * 3) % 7) + 0.25f, float((salt * 5) % 11) - 4};
        ++salt;
        col.rows.push_back({label, v});
        f.insert(f.end(), v.begin(), v.end());
        l.push_back(label);
        label = label * 7 % 1009 + 1;
      }
      c.add_batch(f.data(), l.data(), n);
      c.flush();
    }
  }
  col.c = std::make_unique<DiskCollection>(DiskCollection::open(g_root / name));
  g_cols.push_back(std::move(col));
}

void body(int col, int queries, int threads, int top_k, int bad_query, bool fail_thread, bool distances, int pb) {
  Col &C = g_cols[col];
  DiskSearchOptions o;
  o.top_k = uint32_t(top_k);
  o.ef = 32;
  std::vector<float> q;
  for (int i = 0; i < queries; ++i)
    for (uint32_t d = 0; d < kDim; ++d) q.push_back(i == bad_query && d == 1 ? std::numeric_limits<float>::quiet_NaN() : float((i * 3 + int(d) * 2) % 5) - 0.75f);
  std::vector<uint64_t> wl(queries * top_k, kPadL), gl = wl;
  std::vector<float> wd(queries * top_k, kPadD), gd = wd;
  for (int i = 0; i < queries; ++i) {
    if (i == bad_query) continue;
    auto h = C.c->search(&q[i * kDim], o);
    for (size_t j = 0; j < h.size(); ++j) wl[i * top_k + j] = h[j].label, wd[i * top_k + j] = h[j].distance;
  }
  sched::Options so;
  so.preemptions = mc::thorough() ? pb + 1 : pb;
  if (fail_thread) so.fail_create = mc::choose(threads, "thread that cannot be created");
  bool threw = false;
  std::string what;
  sched::run(so, [&] {
    try {
      C.c->batch_search(q.data(), queries, o, threads, gl.data(), distances ? gd.data() : nullptr);
    } catch (const std::exception &e) {
      threw = true;
      what = e.what();
    }
  });
  if (fail_thread && !threw) fail_thread = false;  // it may have coped
  MC_REQUIRE(threw == (bad_query >= 0 || fail_thread), "error-report", threw ? "batch search failed: %s" : "a query failed but the batch reported success%s", what.c_str());
  if (!distances) wd.assign(wd.size(), kPadD);
  for (int i = 0; i < queries; ++i)
    for (int j = 0; j < top_k; ++j) {
      size_t x = size_t(i) * top_k + j;
      bool same = gl[x] == wl[x] && std::memcmp(&gd[x], &wd[x], 4) == 0;
      bool untouched = gl[x] == kPadL && gd[x] == kPadD;
      MC_REQUIRE(same || (threw && untouched), "wrong-result", "query %d hit %d: (%llu,%g), single search gives (%llu,%g)", i, j, (unsigned long long)gl[x], double(gd[x]), (unsigned long long)wl[x], double(wd[x]));
    }
  if (threw && bad_query >= 0)
    for (int j = 0; j < top_k; ++j) MC_REQUIRE(gl[size_t(bad_query) * top_k + j] == kPadL, "failed-query-result", "the failing query has results");
  mc::state(mc::hash_bytes(gl.data(), gl.size() * 8, sched::points()));
}
// two batch searches and single searches at once on one collection
void overlapping(int col, int pb) {
  Col &C = g_cols[col];
  DiskSearchOptions o;
  o.top_k = 2;
  o.ef = 32;
  float qs[3][kDim] = {{1, 2, 3}, {-1, 0.5f, 2}, {0, 4, -3}};
  std::vector<std::vector<DiskSearchHit>> want;
  for (auto &q : qs) want.push_back(C.c->search(q, o));
  sched::Options so;
  so.preemptions = mc::thorough() ? pb + 1 : pb;
  sched::run(so, [&] {
    std::vector<std::thread> t;
    for (int i = 0; i < 2; ++i)
      t.emplace_back([&, i] {
        std::vector<uint64_t> l(4, kPadL);
        std::vector<float> d(4, kPadD);
        C.c->batch_search(qs[i], 2, o, 2, l.data(), d.data());
        for (int k = 0; k < 2; ++k)
          for (size_t j = 0; j < want[i + k].size(); ++j) MC_REQUIRE(l[k * 2 + j] == want[i + k][j].label && d[k * 2 + j] == want[i + k][j].distance, "wrong-result", "batch %d query %d hit %zu", i, k, j);
      });
    auto h = C.c->search(qs[2], o);
    for (size_t j = 0; j < h.size(); ++j) MC_REQUIRE(h[j].label == want[2][j].label && h[j].distance == want[2][j].distance, "wrong-result", "single search hit %zu", j);
    for (auto &x : t) x.join();
  });
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  char tmpl[] = "/tmp/p06-XXXXXX";
  g_root = mkdtemp(tmpl);
  make("flat1", DiskIndexType::Flat, MetricType::L2, {4});
  make("flat3", DiskIndexType::Flat, MetricType::COS, {2, 1, 2});
  make("vamana", DiskIndexType::Vamana, MetricType::L2, {6, 3});
  make("empty", DiskIndexType::Flat, MetricType::L2, {});
  mc::Spec sp;
  sp.property = "P06";
  sp.level = "model_checking";
  sp.rule = "a schedule is non-trivial when it contains a preemption";
  sp.assumptions = {"sequentially consistent executions, plus a happens-before race monitor that honours the memory orders used", "the collection is not modified during the batch (documented contract)"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b, bool deep = false) {
    mc::Scenario s{n, b, deep};
    s.isolate = true;
    sc.push_back(s);
  };
  add("flat-3q-2t", [] { body(0, 3, 2, 2, -1, false, true, 4); });
  add("flat-4q-3t", [] { body(0, 4, 3, 6, -1, false, true, 2); });
  add("flat-2q-4t", [] { body(0, 2, 4, 1, -1, false, true, 3); });
  add("flat-1q-2t", [] { body(0, 1, 2, 2, -1, false, true, 3); });
  add("flat-3q-1t", [] { body(0, 3, 1, 3, -1, false, true, 1); });
  add("flat-labels-only", [] { body(0, 3, 2, 2, -1, false, false, 3); });
  add("segments-3q-2t", [] { body(1, 3, 2, 7, -1, false, true, 3); });
  add("vamana-3q-2t", [] { body(2, 3, 2, 4, -1, false, true, 3); });
  add("vamana-3q-3t", [] { body(2, 3, 3, 12, -1, false, true, 2); });
  add("empty", [] { body(3, 3, 2, 2, -1, false, true, 1); });
  add("bad-query-first", [] { body(0, 4, 2, 2, 0, false, true, 3); });
  add("bad-query-middle", [] { body(1, 4, 2, 2, 2, false, true, 3); });
  add("bad-query-last", [] { body(2, 4, 3, 2, 3, false, true, 2); });
  add("bad-query-1t", [] { body(0, 3, 1, 2, 1, false, true, 0); });
  add("thread-creation-fails", [] { body(0, 4, 3, 2, -1, true, true, 2); });
  add("overlapping-flat", [] { overlapping(0, 1); });
  add("overlapping-vamana", [] { overlapping(2, 0); });
  int rc = mc::run_main(argc, argv, sp, sc);
  g_cols.clear();
  std::error_code ec;
  fs::remove_all(g_root, ec);
  return rc;
}
