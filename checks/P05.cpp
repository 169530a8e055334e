// P05 disk collection: bounded operation sequences against an exact table.
#include "checks/dc.hpp"
using namespace dc;
using mc::choose;

namespace {
constexpr float kCoords[][3] = {{1, 2, 3}, {1, 2, 3}, {-1, 0, 2}, {3, -2, 1}, {2, 2, 2}, {-3, 1, -1}, {1, 3, 2}, {0.5f, -4, 1}, {2, 1, 3}, {-1, -1, -1}, {4, 0, 0}, {0, 4, 0}};

std::vector<float> vec(uint32_t dim, int salt) {
  std::vector<float> v(dim);
  for (uint32_t i = 0; i < dim; ++i) v[i] = kCoords[size_t(salt) % 12][i % 3] + float((i / 3) * 2 % 5);
  return v;
}

// labels are given out in an order that is neither ascending nor the insertion order
const uint64_t kLabels[] = {50, 3, 77, 1, 0, 1000000007ull, 12, 5, 99, 42, 8, 64, 7, 21, 33, 2, 19, 18446744073709551614ull, 90, 91, 92, 93, 94, 95};

void seq_body(MetricType metric, DiskIndexType type, int depth, uint32_t dim, bool exact) {
  fs::path p = fs::path(mc::fresh_dir()) / "col";
  size_t per_row = dim * sizeof(float) + 8;
  size_t cap = per_row * 2 * 4;  // at most four pending rows
  VamanaSegmentBuildParams vp;
  vp.R = 8;
  vp.L = 16;
  vp.num_threads = 1;
  auto c = std::make_unique<DiskCollection>(p, dim, metric, type, cap, vp);
  std::vector<Row> flushed, pending;
  int nrow = 0;
  std::string hist;
  bool dup = false;
  auto verify = [&] { check_search(*c, flushed, metric, dim, hist, exact, type == DiskIndexType::Flat); };
  verify();
  for (int s = 0; s < depth; ++s) {
    int a = choose(6, "op");
    mc::step();
    auto add = [&](const std::vector<Row> &rs) {
      std::vector<float> f;
      std::vector<uint64_t> l;
      for (auto &r : rs) {
        f.insert(f.end(), r.v.begin(), r.v.end());
        l.push_back(r.label);
      }
      bool fits = (pending.size() + rs.size()) * per_row * 2 <= cap;
      bool threw = false;
      try {
        c->add_batch(f.data(), l.data(), rs.size());
      } catch (const std::exception &) {
        threw = true;
      }
      MC_REQUIRE(threw == !fits, "pending-limit", "adding %zu rows to %zu pending: %s; %s", rs.size(), pending.size(), threw ? "refused" : "accepted", hist.c_str());
      if (!threw) pending.insert(pending.end(), rs.begin(), rs.end());
    };
    if (a == 0 || a == 1) {
      hist += a == 0 ? " add1" : " add2";
      std::vector<Row> rs;
      for (int i = 0; i <= a; ++i, ++nrow) rs.push_back({kLabels[nrow], vec(dim, nrow)});
      add(rs);
    } else if (a == 2) {  // a label that is already used
      if (flushed.empty() && pending.empty()) mc::assume(false);
      uint64_t l = !flushed.empty() ? flushed[flushed.size() / 2].label : pending[0].label;
      hist += " adddup";
      add({{l, vec(dim, 5)}});
    } else if (a == 3) {
      hist += " flush";
      std::set<uint64_t> ls;
      bool bad = false;
      for (auto &r : flushed) ls.insert(r.label);
      for (auto &r : pending) bad |= !ls.insert(r.label).second;
      if (type == DiskIndexType::Vamana && pending.size() == 1) bad = true;
      bool threw = false;
      try {
        c->flush();
      } catch (const std::exception &e) {
        threw = true;
        mc::note("flush: %s", e.what());
      }
      MC_REQUIRE(threw == bad, "flush-result", "flush %s; %s", threw ? "failed" : "accepted duplicates", hist.c_str());
      if (!threw) {
        flushed.insert(flushed.end(), pending.begin(), pending.end());
        pending.clear();
        if (!flushed.empty()) mc::nontrivial();
      } else
        dup = true;
    } else if (a == 4) {
      hist += " reopen";
      c.reset();
      c = std::make_unique<DiskCollection>(DiskCollection::open(p));
      pending.clear();
    } else {
      hist += " bad";
      // invalid requests leave everything as it was
      auto expect_throw = [&](auto &&f, const char *what) {
        try {
          f();
        } catch (const std::exception &) {
          return;
        }
        mc::fail("invalid-accepted", std::string(what) + hist);
      };
      float one[8] = {1, 1, 1, 1, 1, 1, 1, 1};
      uint64_t lab = 424242;
      expect_throw([&] { c->add_batch(nullptr, &lab, 1); }, "null vectors");
      expect_throw([&] { c->add_batch(one, nullptr, 1); }, "null labels");
      expect_throw([&] { c->add_batch(one, &lab, UINT64_MAX / 4); }, "absurd row count");
      expect_throw([&] { c->add_batch(one, &lab, (UINT64_MAX / (2 * per_row)) + 2); }, "overflowing row count");
      expect_throw([&] { c->add_batch(one, &lab, 5); }, "over the pending limit");
      DiskSearchOptions o;
      o.top_k = 0;
      expect_throw([&] { (void)c->search(one, o); }, "top_k = 0");
      expect_throw([&] { DiskCollection again(p, dim, metric, type); }, "creating over an existing collection");
      expect_throw([&] { auto again = DiskCollection::open(p); }, "opening twice");
      c->add_batch(nullptr, nullptr, 0);
    }
    verify();
    mc::state(mc::mix(mc::hash_str(hist), flushed.size() * 16 + pending.size()));
  }
  // everything flushed is there after reopening, nothing else
  c.reset();
  {
    auto d = DiskCollection::open(p);
    hist += " [final reopen]";
    check_search(d, flushed, metric, dim, hist, exact, type == DiskIndexType::Flat);
  }
  (void)dup;
}

// how rows are split into flushes does not matter: all compositions of n rows, all k
void split_body(MetricType metric, uint32_t dim, int n) {
  fs::path p = fs::path(mc::fresh_dir()) / "col";
  DiskCollection c(p, dim, metric, DiskIndexType::Flat);
  std::vector<Row> rows;
  int base = choose(3, "base");
  for (int i = 0; i < n; ++i) {
    Row r{kLabels[(i * 5 + base) % 23], vec(dim, i * (base + 1) + base)};
    c.add_batch(r.v.data(), &r.label, 1);
    rows.push_back(r);
    mc::step();
    if (i + 1 == n || choose(2, "cut")) c.flush();
  }
  for (size_t k = 1; k <= rows.size() + 1; ++k)
    for (int s = 0; s < 8; ++s) {
      auto q = vec(dim, s + 3);
      DiskSearchOptions o;
      o.top_k = uint32_t(k);
      check_hits(c.search(q.data(), o), rows, q, metric, k, "split");
    }
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  spdlog::set_default_logger(spdlog::default_logger());
  mc::Spec sp;
  sp.property = "P05";
  sp.level = "model_checking";
  sp.rule = "an execution is non-trivial when at least one flush published rows that were then searched with every query and k";
  sp.assumptions = {"distances are compared in double precision with relative tolerance 1e-6 (1e-5 for COS); coordinates are small so that ties are exact for L2/IP"};
  std::vector<mc::Scenario> sc;
  bool th = argc > 1 && false;
  (void)th;
  sc.push_back({"flat-l2", [] { seq_body(MetricType::L2, DiskIndexType::Flat, 6, 3, true); }});
  sc.push_back({"flat-ip", [] { seq_body(MetricType::IP, DiskIndexType::Flat, 5, 3, true); }});
  sc.push_back({"flat-cos", [] { seq_body(MetricType::COS, DiskIndexType::Flat, 5, 5, true); }});
  sc.push_back({"vamana-l2", [] { seq_body(MetricType::L2, DiskIndexType::Vamana, 6, 3, true); }});
  sc.push_back({"split-l2", [] { split_body(MetricType::L2, 4, 9); }});
  sc.push_back({"split-ip", [] { split_body(MetricType::IP, 17, 7); }});
  sc.push_back({"split-cos", [] { split_body(MetricType::COS, 9, 7); }});
  sc.push_back({"flat-l2-deep", [] { seq_body(MetricType::L2, DiskIndexType::Flat, 7, 2, true); }, true});
  sc.push_back({"flat-cos-deep", [] { seq_body(MetricType::COS, DiskIndexType::Flat, 6, 19, true); }, true});
  sc.push_back({"vamana-l2-deep", [] { seq_body(MetricType::L2, DiskIndexType::Vamana, 6, 3, true); }, true});
  return mc::run_main(argc, argv, sp, sc);
}
