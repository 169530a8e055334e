// Shared by the disk-collection checks: row generator, reference model, hit oracle.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>
#include "lib/mc.hpp"
#include "index/disk/disk_collection.hpp"

namespace dc {
using namespace alaya;
using namespace alaya::disk;
namespace fs = std::filesystem;

struct Row {
  uint64_t label;
  std::vector<float> v;
};

inline double norm(const std::vector<float> &v) {
  double s = 0;
  for (float x : v) s += double(x) * x;
  return std::sqrt(s);
}
// the documented distance, in double
inline double dist(MetricType m, const std::vector<float> &q, const std::vector<float> &v) {
  double s = 0;
  if (m == MetricType::L2)
    for (size_t i = 0; i < q.size(); ++i) s += (double(q[i]) - v[i]) * (double(q[i]) - v[i]);
  else {
    for (size_t i = 0; i < q.size(); ++i) s -= double(q[i]) * v[i];
    if (m == MetricType::COS) s /= norm(q) * norm(v);
  }
  return s;
}

// every hit list must be the exact k nearest of rows, in (distance, label) order
inline void check_hits(const std::vector<DiskSearchHit> &hits, const std::vector<Row> &rows, const std::vector<float> &q, MetricType m, size_t k, const std::string &where,
                       bool exact = true, bool ties = true) {
  size_t n = std::min(k, rows.size());
  const double eps = m == MetricType::COS ? 1e-5 : 1e-6;
  MC_REQUIRE(hits.size() <= k, "too-many-hits", "%zu hits for k=%zu; %s", hits.size(), k, where.c_str());
  std::vector<double> all;
  for (auto &r : rows) all.push_back(dist(m, q, r.v));
  std::vector<double> sorted = all;
  std::sort(sorted.begin(), sorted.end());
  std::set<uint64_t> seen;
  for (size_t i = 0; i < hits.size(); ++i) {
    int idx = -1;
    for (size_t j = 0; j < rows.size(); ++j)
      if (rows[j].label == hits[i].label) idx = int(j);
    MC_REQUIRE(idx >= 0, "foreign-label", "hit %zu has label %llu which is not a flushed row; %s", i, (unsigned long long)hits[i].label, where.c_str());
    MC_REQUIRE(seen.insert(hits[i].label).second, "duplicate-hit", "label %llu twice; %s", (unsigned long long)hits[i].label, where.c_str());
    double d = all[size_t(idx)];
    MC_REQUIRE(std::fabs(d - hits[i].distance) <= eps * (1 + std::fabs(d)), "wrong-distance", "label %llu distance %g expected %g; %s", (unsigned long long)hits[i].label,
               double(hits[i].distance), d, where.c_str());
    if (i) {
      bool ord = hits[i - 1].distance < hits[i].distance || (hits[i - 1].distance == hits[i].distance && hits[i - 1].label < hits[i].label);
      MC_REQUIRE(ord, "wrong-order", "hits %zu,%zu out of order (%g,%llu) (%g,%llu); %s", i - 1, i, double(hits[i - 1].distance), (unsigned long long)hits[i - 1].label,
                 double(hits[i].distance), (unsigned long long)hits[i].label, where.c_str());
    }
    if (exact)
      MC_REQUIRE(std::fabs(sorted[i] - hits[i].distance) <= eps * (1 + std::fabs(sorted[i])), "not-nearest", "hit %zu has distance %g but the %zu-th nearest is at %g; %s", i,
                 double(hits[i].distance), i, sorted[i], where.c_str());
  }
  if (exact) {
    MC_REQUIRE(hits.size() == n, "missing-hits", "%zu hits, expected %zu; %s", hits.size(), n, where.c_str());
    // ties at the end must be resolved by the smaller label
    if (ties && m != MetricType::COS && !hits.empty()) {
      std::vector<std::pair<double, uint64_t>> o;
      for (size_t j = 0; j < rows.size(); ++j) o.emplace_back(all[j], rows[j].label);
      std::sort(o.begin(), o.end());
      for (size_t i = 0; i < n; ++i)
        MC_REQUIRE(o[i].second == hits[i].label, "tie-order", "hit %zu is label %llu, expected %llu; %s", i, (unsigned long long)hits[i].label, (unsigned long long)o[i].second, where.c_str());
    }
  }
}

inline void check_search(const DiskCollection &c, const std::vector<Row> &rows, MetricType m, uint32_t dim, const std::string &where, bool exact = true, bool ties = true) {
  MC_REQUIRE(c.size() == rows.size(), "size", "size() = %llu, expected %zu; %s", (unsigned long long)c.size(), rows.size(), where.c_str());
  MC_REQUIRE(c.dim() == dim, "dim", "%s", where.c_str());
  std::vector<std::vector<float>> qs;
  {
    std::vector<float> q(dim, 0.f);
    for (uint32_t i = 0; i < dim; ++i) q[i] = float(i + 1);
    qs.push_back(q);
    for (uint32_t i = 0; i < dim; ++i) q[i] = i == 0 ? -2.f : 1.f;
    qs.push_back(q);
    if (!rows.empty()) qs.push_back(rows.back().v);
  }
  for (auto &q : qs) {
    if (m == MetricType::COS && norm(q) == 0) continue;
    std::set<size_t> ks = {1, 2, rows.size() ? rows.size() : 1, rows.size() + 3};
    for (size_t k : ks) {
      DiskSearchOptions o;
      o.top_k = uint32_t(k);
      o.ef = 64;
      check_hits(c.search(q.data(), o), rows, q, m, k, where, exact, ties);
    }
  }
}
}  // namespace dc
