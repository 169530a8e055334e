// P30: graph building - every small data set over a lattice, every small shard set, every damage of the files
// in between, against definitions evaluated by brute force.
// mc-fsx
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <spdlog/spdlog.h>
#include "index/graph/vamana/build_dispatch.hpp"
#include "index/graph/vamana/vamana_greedy_search.hpp"
#include "index/graph/vamana/vamana_reader.hpp"
#include "lib/fsx.hpp"
#include "lib/mc.hpp"

using namespace alaya::vamana;
namespace fs = std::filesystem;
namespace {
using Graph = std::vector<std::vector<uint32_t>>;
constexpr uint32_t kDim = 2;
const float kLattice[6][2] = {{0, 0}, {1, 0}, {0, 1}, {3, 1}, {1, 3}, {-2, -2}};

std::string slurp(const std::string &p) {
  std::ifstream in(p, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}
void spit(const std::string &p, const std::string &s) {
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(s.data(), std::streamsize(s.size()));
}
template <class T>
void put(std::string &s, T v) {
  s.append(reinterpret_cast<const char *>(&v), sizeof(v));
}
std::string fbin(const std::vector<float> &d, uint32_t dim) {
  std::string s;
  put<uint32_t>(s, uint32_t(d.size() / dim));
  put<uint32_t>(s, dim);
  s.append(reinterpret_cast<const char *>(d.data()), d.size() * 4);
  return s;
}
std::string graph_bytes(const Graph &g, uint32_t R, uint32_t start) {
  std::string s;
  uint64_t size = 24;
  for (auto &a : g) size += 4 + 4 * a.size();
  put<uint64_t>(s, size);
  put<uint32_t>(s, R);
  put<uint32_t>(s, start);
  put<uint64_t>(s, 0);
  for (auto &a : g) {
    put<uint32_t>(s, uint32_t(a.size()));
    for (auto x : a) put<uint32_t>(s, x);
  }
  return s;
}
double l2(const float *a, const float *b, uint32_t dim) {
  double s = 0;
  for (uint32_t i = 0; i < dim; ++i) s += (double(a[i]) - b[i]) * (double(a[i]) - b[i]);
  return s;
}
std::string show(const std::vector<float> &d) {
  std::string s;
  for (size_t i = 0; i + 1 < d.size(); i += 2) s += mc::format("(%g,%g)", d[i], d[i + 1]);
  return s;
}
std::vector<float> choose_data(int n, int positions) {
  std::vector<float> d;
  for (int i = 0; i < n; ++i) {
    int p = mc::choose(positions, "position");
    d.insert(d.end(), kLattice[p], kLattice[p] + 2);
  }
  return d;
}
void well_formed(const Graph &g, size_t n, uint32_t R, const char *what, const std::vector<float> &d) {
  MC_REQUIRE(g.size() == n, "node-count", "%s: %zu nodes for %zu points", what, g.size(), n);
  for (size_t i = 0; i < n; ++i) {
    std::set<uint32_t> u(g[i].begin(), g[i].end());
    MC_REQUIRE(g[i].size() <= R, "degree", "%s: node %zu has %zu neighbours, R=%u; %s", what, i, g[i].size(), R, show(d).c_str());
    MC_REQUIRE(u.size() == g[i].size(), "duplicate-neighbour", "%s: node %zu repeats a neighbour; %s", what, i, show(d).c_str());
    MC_REQUIRE(!u.count(uint32_t(i)), "self-loop", "%s: node %zu is its own neighbour; %s", what, i, show(d).c_str());
    MC_REQUIRE(u.empty() || *u.rbegin() < n, "out-of-range", "%s: node %zu has neighbour %u of %zu", what, i, *u.rbegin(), n);
    MC_REQUIRE(n < 2 || !u.empty(), "no-neighbours", "%s: node %zu has no neighbours; %s", what, i, show(d).c_str());
  }
}
std::vector<bool> reach(const Graph &g, uint32_t start) {
  std::vector<bool> r(g.size());
  std::vector<uint32_t> st{start};
  r[start] = true;
  while (!st.empty()) {
    uint32_t v = st.back();
    st.pop_back();
    for (auto m : g[v])
      if (!r[m]) r[m] = true, st.push_back(m);
  }
  return r;
}
void check_medoid(const std::vector<float> &d, uint32_t dim, uint32_t medoid, const char *what) {
  size_t n = d.size() / dim;
  MC_REQUIRE(medoid < n, "medoid-range", "%s: entry point %u of %zu", what, medoid, n);
  std::vector<float> c(dim);
  for (uint32_t j = 0; j < dim; ++j) {
    double s = 0;
    for (size_t i = 0; i < n; ++i) s += d[i * dim + j];
    c[j] = float(s / double(n));
  }
  double best = 1e300;
  for (size_t i = 0; i < n; ++i) best = std::min(best, l2(c.data(), &d[i * dim], dim));
  double got = l2(c.data(), &d[medoid * dim], dim);
  MC_REQUIRE(got <= best + 1e-4 * (1 + best), "medoid", "%s: entry point %u is %g from the centroid, the nearest row %g; %s", what, medoid, got, best, show(d).c_str());
}
// every query over the lattice: well-formed answers, exact over what the entry point reaches when the width covers it
void check_search(VamanaReader &r, const std::vector<float> &d, const char *what) {
  size_t n = r.num_nodes();
  auto re = reach(r.graph(), r.start());
  VamanaGreedySearch s(r, d.data(), kDim);
  static const float Q[3][2] = {{0.3f, 0.1f}, {2, 2}, {-1, 1}};
  for (auto &q : Q) {
    std::vector<double> want;
    for (size_t i = 0; i < n; ++i)
      if (re[i]) want.push_back(l2(q, &d[i * 2], 2));
    std::sort(want.begin(), want.end());
    for (uint32_t k = 1; k <= n + 1; ++k)
      for (uint32_t L : {k, uint32_t(n + 1)}) {
        if (L < k) continue;
        auto h = s.search(q, k, L);
        mc::add_eval();
        std::set<uint32_t> u;
        for (size_t i = 0; i < h.size(); ++i) {
          MC_REQUIRE(h[i].id < n && re[h[i].id] && u.insert(h[i].id).second, "hit-id", "%s: hit %u repeated or not a row", what, h[i].id);
          MC_REQUIRE(std::fabs(h[i].distance - l2(q, &d[h[i].id * 2], 2)) < 1e-4, "hit-distance", "%s: row %u reported at %g", what, h[i].id, h[i].distance);
          MC_REQUIRE(i == 0 || h[i - 1].distance <= h[i].distance, "hit-order", "%s: hits out of order", what);
        }
        if (L >= n) {
          MC_REQUIRE(h.size() == std::min<size_t>(k, want.size()), "hit-count", "%s: %zu hits for k=%u of %zu reachable rows", what, h.size(), k, want.size());
          for (size_t i = 0; i < h.size(); ++i) MC_REQUIRE(std::fabs(h[i].distance - want[i]) < 1e-4, "not-nearest", "%s: hit %zu at %g, nearest at %g; %s", what, i, h[i].distance, want[i], show(d).c_str());
        }
        const auto &v = s.last_visited_order();
        MC_REQUIRE(!v.empty() && v[0] == r.start() && std::set<uint32_t>(v.begin(), v.end()).size() == v.size(), "visited-order", "%s: visit order does not start at the entry point or repeats a row", what);
      }
  }
}

constexpr uint32_t kMask = fsx::bit(fsx::Kind::Open) | fsx::bit(fsx::Kind::Write) | fsx::bit(fsx::Kind::Close) | fsx::bit(fsx::Kind::Mkdir) | fsx::bit(fsx::Kind::Trunc) | fsx::bit(fsx::Kind::Read);
template <class F>
size_t count_calls(const std::string &root, F &&f) {
  fsx::fault_arm(root, -1, EIO, 0, kMask);
  f();
  return fsx::fault_disarm().size();
}
// true when f reported the fault
template <class F>
bool with_fault(const std::string &root, int at, int err, bool partial, F &&f) {
  fsx::fault_arm(root, at, err, partial, kMask);
  bool threw = false;
  try {
    f();
  } catch (const std::exception &) {
    threw = true;
  }
  bool fired = false;
  fsx::fault_disarm(&fired);
  mc::assume(fired);
  return threw;
}

// ---- builder
void builder(int nmax, int positions) {
  int n = 1 + mc::choose(nmax, "points");
  auto d = choose_data(n, positions);
  std::string path = mc::fresh_dir() + "/g.index";
  for (uint32_t R : {1u, 2u, 3u, 8u})
    for (uint32_t L : {R, R + 1, 9u})
      for (float al : {1.0f, 1.2f, 1.5f}) {
        if (L < R) continue;
        VamanaBuildParams p;
        p.R = R;
        p.L = L;
        p.alpha = al;
        p.num_threads = 1;
        VamanaBuilder b(d.data(), size_t(n), kDim, p);
        b.build();
        mc::add_eval();
        mc::step();
        std::string what = mc::format("R=%u L=%u alpha=%g", R, L, al);
        well_formed(b.graph(), size_t(n), R, what.c_str(), d);
        check_medoid(d, kDim, b.medoid(), what.c_str());
        auto re = reach(b.graph(), b.medoid());
        if (n <= int(R) + 1 && L >= uint32_t(n))
          MC_REQUIRE(std::count(re.begin(), re.end(), true) == n, "unreachable", "%s: %ld of %d rows are reachable; %s", what.c_str(), long(std::count(re.begin(), re.end(), true)), n, show(d).c_str());
        // each row's neighbours obey the pruning rule: no neighbour hidden behind a nearer one (identical rows aside)
        if (L == 9u) {
          save_graph(b.graph(), path, R, b.medoid());
          MC_REQUIRE(slurp(path) == graph_bytes(b.graph(), R, b.medoid()), "file-bytes", "%s: the saved file is not the graph", what.c_str());
          if (n == 1) {
            bool refused = false;
            try {
              VamanaReader r(path);
            } catch (const std::exception &) {
              refused = true;
            }
            MC_REQUIRE(refused, "single-node", "a graph of one node without neighbours was loaded");
            continue;
          }
          VamanaReader r(path);
          MC_REQUIRE(r.graph() == b.graph() && r.start() == b.medoid() && r.max_degree() == R && r.frozen_pts() == 0, "reload", "%s: the reloaded graph differs", what.c_str());
          if (al == 1.2f) check_search(r, d, what.c_str());
          mc::add_nontrivial();
        }
      }
  uint64_t h = uint64_t(n);
  for (float f : d) h = mc::mix(h, uint64_t(int64_t(f)));
  mc::state(h);
}
// ---- pruning rule: occlude_list against a direct transcription of its definition (alpha-RNG with rising alpha)
void prune(int nmax) {
  int n = 1 + mc::choose(nmax, "candidates");
  int pos = mc::choose(6, "location");
  std::vector<std::array<float, 2>> pt{{kLattice[pos][0], kLattice[pos][1]}};
  for (int i = 0; i < n; ++i) {
    int p = mc::choose(6, "position");
    pt.push_back({kLattice[p][0], kLattice[p][1]});
  }
  bool with_self = mc::choose(2, "self among candidates");
  auto dist = [&](uint32_t a, uint32_t b) { return float(l2(pt[a].data(), pt[b].data(), 2)); };
  for (uint32_t range : {1u, 2u, 3u, 9u})
    for (uint32_t maxc : {1u, 3u, 750u})
      for (float alpha : {1.0f, 1.2f, 1.44f}) {
        std::vector<Neighbor> pool;
        for (int i = n; i >= 1; --i) pool.emplace_back(uint32_t(i), dist(0, uint32_t(i)));
        if (with_self) pool.emplace_back(0u, 0.0f);
        auto in = pool;
        std::vector<uint32_t> out{77};
        std::vector<float> scratch{5, 5, 5};
        prune_neighbors(0, pool, alpha, range, maxc, out, scratch, dist);
        mc::add_eval();
        mc::step();
        // reference
        std::sort(in.begin(), in.end());
        if (in.size() > maxc) in.resize(maxc);
        std::vector<uint32_t> want;
        std::vector<bool> taken(in.size());
        std::vector<double> occl(in.size(), 0);  // how strongly an already chosen candidate hides it
        for (float a = 1.0f; a <= alpha && want.size() < range; a *= 1.2f)
          for (size_t i = 0; i < in.size() && want.size() < range; ++i) {
            if (taken[i] || occl[i] > a) continue;
            taken[i] = true;
            if (in[i].id != 0) want.push_back(in[i].id);
            for (size_t j = i + 1; j < in.size(); ++j) {
              if (taken[j]) continue;
              float dj = dist(in[j].id, in[i].id);
              double f = dj == 0 ? 1e300 : double(in[j].distance / dj);
              occl[j] = std::max(occl[j], f);
            }
          }
        MC_REQUIRE(out == want, "pruning", "range=%u maxc=%u alpha=%g self=%d: %zu neighbours chosen, %zu by the rule", range, maxc, alpha, int(with_self), out.size(), want.size());
      }
  mc::nontrivial();
}
// ---- the builder's candidate queue: all insert/expand sequences
void queue(int depth) {
  uint32_t cap = uint32_t(mc::choose(4, "capacity"));
  NeighborPriorityQueue q;
  q.reserve(3);
  if (mc::choose(2, "used before")) {
    q.insert({9, 0.5f});
    q.insert({8, 1.5f});
    q.closest_unexpanded();
  }
  q.clear();
  q.reserve(cap);
  struct E {
    float d;
    uint32_t id;
    bool x;
  };
  std::vector<E> m;
  const float D[] = {0, 1, 1, 2, 3};  // distance of id: fixed, ids 1 and 2 tie
  uint64_t h = cap;
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(6, "operation");
    h = mc::mix(h, uint64_t(op));
    mc::step();
    if (op < 5) {
      auto r = q.insert_with_result(Neighbor(uint32_t(op), D[op]));
      bool in = false, ev = false;
      uint32_t evid = 0;
      bool have = std::any_of(m.begin(), m.end(), [&](const E &e) { return e.id == uint32_t(op); });
      if (!have && cap > 0) {
        auto less = [](const E &a, const E &b) { return a.d < b.d || (a.d == b.d && a.id < b.id); };
        E e{D[op], uint32_t(op), false};
        if (m.size() < cap || less(e, m.back())) {
          in = true;
          if (m.size() == cap) {
            ev = true;
            evid = m.back().id;
            m.pop_back();
          }
          m.insert(std::lower_bound(m.begin(), m.end(), e, less), e);
        }
      }
      MC_REQUIRE(r.inserted == in && r.evicted == ev && (!ev || r.evicted_id == evid), "queue-result", "insert of %d into a queue of %zu: inserted %d evicted %d(%u), expected %d %d(%u)", op, m.size(), r.inserted, r.evicted, r.evicted_id, in, ev, evid);
    } else {
      auto it = std::find_if(m.begin(), m.end(), [](const E &e) { return !e.x; });
      MC_REQUIRE(q.has_unexpanded_node() == (it != m.end()), "queue-unexpanded", "queue of %zu: unexpanded %d", m.size(), q.has_unexpanded_node());
      if (it == m.end()) continue;
      auto n = q.closest_unexpanded();
      MC_REQUIRE(n.id == it->id && n.distance == it->d, "queue-next", "expanded %u, expected %u", n.id, it->id);
      it->x = true;
    }
    MC_REQUIRE(q.size() == m.size(), "queue-size", "%zu entries, expected %zu", q.size(), m.size());
    for (size_t j = 0; j < m.size(); ++j) MC_REQUIRE(q[j].id == m[j].id && q[j].distance == m[j].d && q[j].expanded == m[j].x, "queue-entry", "entry %zu is %u, expected %u", j, q[j].id, m[j].id);
    MC_REQUIRE(q.has_unexpanded_node() == std::any_of(m.begin(), m.end(), [](const E &e) { return !e.x; }), "queue-unexpanded", "unexpanded wrong");
  }
  mc::state(h);
}
// ---- writing: every failing or partial call is reported, or the file is complete
void save_faults() {
  Graph g{{1, 2}, {0}, {1, 0}};
  for (int i = 3; i < 3000; ++i) g.push_back({uint32_t(i - 1), uint32_t(i - 2), 0});  // beyond one stream buffer
  std::string want = graph_bytes(g, 3, 1);
  std::string dir = mc::fresh_dir();
  static const int kErr[] = {ENOSPC, EIO, EINTR};
  int e = mc::choose(3, "error");
  bool partial = mc::choose(2, "half written");
  // count calls
  size_t calls = count_calls(dir, [&] { save_graph(g, dir + "/g", 3, 1); });
  MC_REQUIRE(slurp(dir + "/g") == want, "file-bytes", "saved graph differs");
  int at = mc::choose(int(calls), "failing call");
  fs::remove(dir + "/g");
  bool threw = with_fault(dir, at, kErr[e], partial, [&] { save_graph(g, dir + "/g", 3, 1); });
  mc::nontrivial();
  if (!threw) MC_REQUIRE(slurp(dir + "/g") == want, "lost-write", "call %d failed, saving reported success and the file is wrong", at);
}
// ---- reading: every truncation, extension and word/byte damage
void reader_damage(bool words) {
  static const Graph kG[] = {{{1}, {0}}, {{1, 2}, {2}, {0, 1}}, {{3}, {0, 2, 3}, {1}, {2, 0}}};
  int gi = mc::choose(3, "graph");
  const Graph &g = kG[gi];
  std::string b = graph_bytes(g, 3, 1);
  std::string path = mc::fresh_dir() + "/g";
  auto judge = [&](const std::string &bytes, const std::string &what) {
    spit(path, bytes);
    mc::add_eval();
    std::unique_ptr<VamanaReader> r;
    try {
      r = std::make_unique<VamanaReader>(path);
    } catch (const std::exception &) {
      return;
    }
    // accepted: exactly what the bytes say, and structurally sound
    MC_REQUIRE(graph_bytes(r->graph(), r->max_degree(), r->start()) == bytes, "misread", "%s: loaded as something the file does not say", what.c_str());
    MC_REQUIRE(r->num_nodes() == r->graph().size() && r->start() < r->num_nodes(), "bad-accepted", "%s: entry point %u of %zu", what.c_str(), r->start(), r->num_nodes());
    for (size_t i = 0; i < r->graph().size(); ++i) {
      auto &a = r->graph()[i];
      MC_REQUIRE(!a.empty() && a.size() <= r->max_degree(), "bad-accepted", "%s: node %zu has %zu neighbours", what.c_str(), i, a.size());
      for (auto x : a) MC_REQUIRE(x < r->num_nodes() && x != i, "bad-accepted", "%s: node %zu links to %u", what.c_str(), i, x);
    }
  };
  if (!words) {
    for (size_t c = 0; c < b.size(); ++c) {
      judge(b.substr(0, c), mc::format("cut at %zu", c));
      std::string ext = b + b.substr(0, c + 1);
      judge(ext, mc::format("%zu bytes appended", c + 1));
    }
    int at = mc::choose(int(b.size()), "byte");
    for (int v = 0; v < 256; ++v) {
      auto x = b;
      x[size_t(at)] = char(v);
      judge(x, mc::format("byte %d = %d", at, v));
    }
  } else {
    // pairs of words
    static const uint32_t V[] = {0, 1, 2, 3, 4, 5, 0x7fffffff, 0x80000000u, 0xffffffffu};
    size_t nw = b.size() / 4;
    int i = mc::choose(int(nw), "word");
    for (size_t j = size_t(i) + 1; j < nw; ++j)
      for (uint32_t v : V)
        for (uint32_t w : V) {
          auto x = b;
          std::memcpy(&x[size_t(i) * 4], &v, 4);
          std::memcpy(&x[j * 4], &w, 4);
          judge(x, mc::format("words %d,%zu = %u,%u", i, j, v, w));
        }
  }
  mc::nontrivial();
}
// ---- assignment of rows to overlapping shards
void assign(int nmax) {
  int n = 1 + mc::choose(nmax, "points");
  auto d = choose_data(n, 4);
  static const float C[4][2] = {{0, 0}, {1, 0.5f}, {0, 1}, {0, 0}};
  int nc = 1 + mc::choose(4, "centres");
  std::string dir = mc::fresh_dir();
  spit(dir + "/in.fbin", fbin(d, 2));
  for (int k = 1; k <= nc; ++k)
    for (size_t block : {size_t(1), size_t(2), size_t(1000000)}) {
      auto r = shard_data_by_centroids(dir + "/in.fbin", &C[0][0], size_t(nc), size_t(k), dir + "/w/s", block);
      mc::add_eval();
      mc::step();
      std::vector<std::multiset<int>> in(static_cast<size_t>(n));
      MC_REQUIRE(r.counts.size() == size_t(nc) && r.dim == 2, "shard-count", "%zu shards", r.counts.size());
      for (int s = 0; s < nc; ++s) {
        auto ids = detail::read_idmap(r.idmap_paths[size_t(s)]);
        std::string data = slurp(r.data_paths[size_t(s)]);
        MC_REQUIRE(ids.size() == r.counts[size_t(s)], "shard-size", "shard %d lists %zu rows, %u counted", s, ids.size(), r.counts[size_t(s)]);
        std::vector<float> rows;
        for (size_t i = 0; i < ids.size(); ++i) {
          MC_REQUIRE(ids[i] < uint32_t(n) && (i == 0 || ids[i - 1] < ids[i]), "shard-ids", "shard %d: ids not ascending or out of range", s);
          in[ids[i]].insert(s);
          rows.insert(rows.end(), &d[ids[i] * 2], &d[ids[i] * 2] + 2);
        }
        MC_REQUIRE(data == fbin(rows, 2), "shard-rows", "shard %d: the rows are not those its ids name (n=%d k=%d block=%zu)", s, n, k, block);
      }
      for (int i = 0; i < n; ++i) {
        MC_REQUIRE(in[size_t(i)].size() == size_t(k) && std::set<int>(in[size_t(i)].begin(), in[size_t(i)].end()).size() == size_t(k), "row-shards", "row %d is in %zu shards, expected %d distinct ones", i, in[size_t(i)].size(), k);
        // the k nearest centres (ties either way)
        std::vector<double> all, got;
        for (int c = 0; c < nc; ++c) all.push_back(l2(&d[size_t(i) * 2], C[c], 2));
        for (int c : in[size_t(i)]) got.push_back(l2(&d[size_t(i) * 2], C[c], 2));
        std::sort(all.begin(), all.end());
        std::sort(got.begin(), got.end());
        for (int c = 0; c < k; ++c) MC_REQUIRE(std::fabs(all[size_t(c)] - got[size_t(c)]) < 1e-4, "row-nearest", "row %d was not put into the shards of its %d nearest centres", i, k);
      }
    }
  mc::nontrivial();
}
void assign_faults() {
  std::vector<float> d;
  for (int i = 0; i < 5; ++i) d.insert(d.end(), kLattice[i], kLattice[i] + 2);
  static const float C[3][2] = {{0, 0}, {1, 0.5f}, {0, 1}};
  std::string dir = mc::fresh_dir(), in = fbin(d, 2);
  spit(dir + "/in.fbin", in);
  auto run = [&] { shard_data_by_centroids(dir + "/in.fbin", &C[0][0], 3, 2, dir + "/w/s", 2); };
  auto outcome = [&] {
    std::string s;
    for (size_t i = 0; i < 3; ++i) s += slurp(shard_data_path(dir + "/w/s", i)) + "|" + slurp(shard_idmap_path(dir + "/w/s", i)) + "|";
    return s;
  };
  size_t calls = count_calls(dir, run);
  std::string want = outcome();
  int kind = mc::choose(2, "fault kind");
  mc::nontrivial();
  bool threw = false;
  if (kind == 0) {
    int at = mc::choose(int(calls), "failing call");
    bool partial = mc::choose(2, "half done");
    threw = with_fault(dir, at, ENOSPC, partial, run);
    if (!threw) MC_REQUIRE(outcome() == want, "lost-write", "call %d failed, success reported, shard files wrong", at);
  } else {
    int cut = mc::choose(int(in.size()), "cut");
    spit(dir + "/in.fbin", in.substr(0, size_t(cut)));
    try {
      run();
    } catch (const std::exception &) {
      threw = true;
    }
    MC_REQUIRE(threw, "truncated-input", "input cut at byte %d of %zu accepted", cut, in.size());
    threw = false;
    try {
      compute_medoid_streaming(dir + "/in.fbin", 2);
    } catch (const std::exception &) {
      threw = true;
    }
    MC_REQUIRE(threw, "truncated-medoid", "the entry point was computed from input cut at byte %d of %zu", cut, in.size());
  }
}
void streaming_medoid(int nmax) {
  int n = 1 + mc::choose(nmax, "points");
  auto d = choose_data(n, 5);
  std::string dir = mc::fresh_dir();
  spit(dir + "/in.fbin", fbin(d, 2));
  for (size_t block : {size_t(1), size_t(2), size_t(3), size_t(1000)}) {
    uint32_t m = compute_medoid_streaming(dir + "/in.fbin", block);
    mc::add_eval();
    check_medoid(d, 2, m, mc::format("block %zu", block).c_str());
  }
  mc::nontrivial();
}
// ---- merging shard graphs
struct Shards {
  std::vector<std::vector<uint32_t>> ids;
  std::vector<Graph> g;
  std::vector<uint32_t> start;
  std::vector<fs::path> gp, ip;
  uint32_t n = 0;
  void write(const std::string &dir) {
    gp.clear();
    ip.clear();
    for (size_t s = 0; s < ids.size(); ++s) {
      gp.push_back(dir + mc::format("/s%zu.index", s));
      ip.push_back(dir + mc::format("/s%zu.ids", s));
      spit(gp.back(), graph_bytes(g[s], 3, start[s]));
      std::string b;
      put<uint32_t>(b, uint32_t(ids[s].size()));
      put<uint32_t>(b, 1);
      for (auto x : ids[s]) put<uint32_t>(b, x);
      spit(ip.back(), b);
    }
  }
};
void check_merged(const Shards &sh, const std::string &out, uint32_t R, uint32_t medoid, const char *what) {
  std::vector<std::set<uint32_t>> want(sh.n);
  for (size_t s = 0; s < sh.ids.size(); ++s)
    for (size_t i = 0; i < sh.ids[s].size(); ++i)
      for (auto l : sh.g[s][i])
        if (sh.ids[s][l] != sh.ids[s][i]) want[sh.ids[s][i]].insert(sh.ids[s][l]);
  std::string b = slurp(out);
  MC_REQUIRE(b.size() >= 24, "merged-file", "%s: %zu bytes", what, b.size());
  uint64_t size, fz;
  uint32_t md, st;
  std::memcpy(&size, &b[0], 8);
  std::memcpy(&md, &b[8], 4);
  std::memcpy(&st, &b[12], 4);
  std::memcpy(&fz, &b[16], 8);
  MC_REQUIRE(size == b.size() && md == R && st == medoid && fz == 0, "merged-header", "%s: header says size %llu degree %u start %u", what, (unsigned long long)size, md, st);
  size_t p = 24;
  for (uint32_t v = 0; v < sh.n; ++v) {
    MC_REQUIRE(p + 4 <= b.size(), "merged-file", "%s: only %u records", what, v);
    uint32_t k;
    std::memcpy(&k, &b[p], 4);
    p += 4;
    MC_REQUIRE(k == std::min<size_t>(R, want[v].size()), "merged-degree", "%s: row %u has %u neighbours, its shards give %zu (R=%u)", what, v, k, want[v].size(), R);
    std::set<uint32_t> got;
    for (uint32_t i = 0; i < k; ++i, p += 4) {
      uint32_t x;
      std::memcpy(&x, &b[p], 4);
      MC_REQUIRE(want[v].count(x) && got.insert(x).second, "merged-neighbour", "%s: row %u has neighbour %u, which no shard gives it or which repeats", what, v, x);
    }
  }
  MC_REQUIRE(p == b.size(), "merged-file", "%s: trailing bytes", what);
  std::string mb = slurp(out + "_medoids.bin"), mw;
  put<uint32_t>(mw, uint32_t(sh.ids.size()));
  put<uint32_t>(mw, 1);
  for (size_t s = 0; s < sh.ids.size(); ++s) put<uint32_t>(mw, sh.ids[s][sh.start[s]]);
  MC_REQUIRE(mb == mw, "merged-medoids", "%s: the shards' entry points are wrong", what);
}
Shards choose_shards(int n, int nsh) {
  Shards sh;
  sh.n = uint32_t(n);
  sh.ids.resize(size_t(nsh));
  sh.g.resize(size_t(nsh));
  for (int v = 0; v < n; ++v) {
    int m = 1 + mc::choose((1 << nsh) - 1, "shards of row");
    for (int s = 0; s < nsh; ++s)
      if (m >> s & 1) sh.ids[size_t(s)].push_back(uint32_t(v));
  }
  for (int s = 0; s < nsh; ++s) mc::assume(!sh.ids[size_t(s)].empty());
  for (int s = 0; s < nsh; ++s) {
    uint32_t c = uint32_t(sh.ids[size_t(s)].size());
    sh.start.push_back(c - 1);
    for (uint32_t i = 0; i < c; ++i) {
      // out-neighbours: one of a few patterns
      std::vector<uint32_t> a;
      int pat = mc::choose(3, "neighbour pattern");
      if (pat == 0)
        a = {(i + 1) % c};
      else if (pat == 1)
        for (uint32_t j = 0; j < c; ++j) a.push_back((i + j) % c);  // all, itself included
      else
        a = {};
      sh.g[size_t(s)].push_back(a);
    }
  }
  return sh;
}
void merge(int nmax, int nsh) {
  int n = 1 + mc::choose(nmax, "rows");
  Shards sh = choose_shards(n, nsh);
  std::string dir = mc::fresh_dir();
  sh.write(dir);
  for (uint32_t R : {1u, 2u, 64u}) {
    uint64_t sz = merge_shards(sh.gp, sh.ip, dir + "/out/merged.index", R, uint32_t(n - 1), 7);
    mc::add_eval();
    mc::step();
    MC_REQUIRE(sz == fs::file_size(dir + "/out/merged.index"), "merged-size", "reported %llu bytes", (unsigned long long)sz);
    check_merged(sh, dir + "/out/merged.index", R, uint32_t(n - 1), mc::format("n=%d R=%u", n, R).c_str());
  }
  mc::nontrivial();
}
void merge_damage() {
  Shards sh;
  sh.n = 4;
  sh.ids = {{0, 1, 3}, {1, 2, 3}};
  sh.g = {{{1, 2}, {0, 2}, {1, 0}}, {{2, 1}, {0}, {1, 0}}};
  sh.start = {1, 0};
  std::string dir = mc::fresh_dir();
  sh.write(dir);
  const std::string out = dir + "/merged";
  int f = mc::choose(4, "file");
  fs::path victim = f < 2 ? sh.gp[size_t(f)] : sh.ip[size_t(f - 2)];
  std::string b = slurp(victim);
  int cut = mc::choose(int(b.size()), "cut");
  spit(victim, b.substr(0, size_t(cut)));
  bool threw = false;
  try {
    merge_shards(sh.gp, sh.ip, out, 8, 1, 7);
  } catch (const std::exception &) {
    threw = true;
  }
  mc::nontrivial();
  MC_REQUIRE(threw, "truncated-shard", "%s cut at byte %d of %zu: merged as if complete", f < 2 ? "shard graph" : "shard id list", cut, b.size());
}
void merge_faults() {
  Shards sh;
  sh.n = 4;
  sh.ids = {{0, 1, 3}, {1, 2, 3}};
  sh.g = {{{1, 2}, {0, 2}, {1, 0}}, {{2, 1}, {0}, {1, 0}}};
  sh.start = {1, 0};
  std::string dir = mc::fresh_dir(), out = dir + "/out/merged";
  sh.write(dir);
  auto run = [&] { merge_shards(sh.gp, sh.ip, out, 8, 1, 7); };
  size_t calls = count_calls(dir, run);
  fs::remove_all(dir + "/out");
  int at = mc::choose(int(calls), "failing call");
  bool partial = mc::choose(2, "half done");
  bool threw = with_fault(dir, at, EIO, partial, run);
  mc::nontrivial();
  if (!threw) check_merged(sh, out, 8, 1, mc::format("after failing call %d", at).c_str());
}
// ---- end to end
void whole(int nmax, bool partition) {
  int n = (partition ? 4 : 2) + mc::choose(nmax, "points");
  int base = partition ? 3 : 4;
  std::vector<float> d;
  static const float P[4][2] = {{0, 0}, {5, 0}, {0, 7}, {5, 5}};
  int last = 0;
  for (int i = 0; i < n; ++i) {
    // rows of a cluster differ slightly; multisets up to order of first appearance
    int p = mc::choose(std::min(base, last + 2), "cluster");
    last = std::max(last, p);
    bool same = mc::choose(2, "identical to the cluster's centre");
    d.push_back(P[p][0] + (same ? 0.0f : 0.125f * float(i)));
    d.push_back(P[p][1]);
  }
  std::string dir = mc::fresh_dir();
  spit(dir + "/in.fbin", fbin(d, 2));
  std::string out = dir + "/o/g.index";
  fs::create_directories(dir + "/o");
  BuildVamanaParams p;
  std::string in = dir + "/in.fbin";
  p.data_path = in;
  p.output_path = out;
  p.R = 12;
  p.L = 12;
  p.num_threads = 1;
  p.sampling_rate = 1.0f;
  // just too small for one shard, large enough for shards of n rows
  double one = estimate_ram_usage_gib(size_t(n), 2, 4, 12);
  if (partition) p.build_dram_budget_gb = float(one * 0.97);
  try {
    build_vamana(p);
  } catch (const std::exception &e) {
    mc::fail("build-failed", mc::format("n=%d: %s; %s", n, e.what(), show(d).c_str()));
  }
  mc::add_eval();
  MC_REQUIRE(fs::exists(out + "_medoids.bin") == partition, "path-taken", "partitioned: %d", int(fs::exists(out + "_medoids.bin")));
  VamanaReader r(out);
  well_formed(r.graph(), size_t(n), 12, partition ? "partitioned" : "single", d);
  check_medoid(d, 2, r.start(), "entry point");
  check_search(r, d, partition ? "partitioned" : "single");
  auto re = reach(r.graph(), r.start());
  if (!partition) MC_REQUIRE(std::count(re.begin(), re.end(), true) == n, "unreachable", "%ld of %d rows reachable; %s", long(std::count(re.begin(), re.end(), true)), n, show(d).c_str());
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P30";
  sp.level = "model_checking";
  sp.rule = "a data set (or shard set, operation sequence, damage, failing call) counts as nontrivial when a graph was built, stored or merged from it and compared with the definition";
  sp.assumptions = {"coordinates are finite", "rows that are all reachable and exactly found: guaranteed only where no row has more than R candidates (n <= R+1); beyond it the pruning rule may drop links, e.g. of many identical rows"};
  std::vector<mc::Scenario> sc;
  sc.push_back({"builder-5-points", [] { builder(5, 6); }, false});
  sc.push_back({"builder-6-points", [] { builder(6, 6); }, true});
  sc.push_back({"pruning-rule", [] { prune(4); }, false});
  sc.push_back({"pruning-rule-5", [] { prune(5); }, true});
  sc.push_back({"candidate-queue", [] { queue(7); }, false});
  sc.push_back({"candidate-queue-8", [] { queue(8); }, true});
  sc.push_back({"save-faults", [] { save_faults(); }, false});
  sc.push_back({"reader-damage", [] { reader_damage(false); }, false});
  sc.push_back({"reader-word-pairs", [] { reader_damage(true); }, false});
  sc.push_back({"shard-assignment", [] { assign(4); }, false});
  sc.push_back({"shard-assignment-5", [] { assign(5); }, true});
  sc.push_back({"shard-assignment-faults", [] { assign_faults(); }, false});
  sc.push_back({"streaming-medoid", [] { streaming_medoid(4); }, false});
  sc.push_back({"merge-two-shards", [] { merge(3, 2); }, false});
  sc.push_back({"merge-three-shards", [] { merge(2, 3); }, false});
  sc.push_back({"merge-two-shards-4", [] { merge(4, 2); }, true});
  sc.push_back({"merge-damage", [] { merge_damage(); }, false});
  sc.push_back({"merge-faults", [] { merge_faults(); }, false});
  sc.push_back({"build-single", [] { whole(4, false); }, false});
  sc.push_back({"build-partitioned", [] { whole(3, true); }, false});
  sc.push_back({"build-partitioned-8", [] { whole(5, true); }, true});
  return mc::run_main(argc, argv, sp, sc);
}
