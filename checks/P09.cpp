// P09 damaged segment files: every truncation, byte and word damage of flat and graph segments, and every small graph file.
// mc-flags: -fsanitize=address
// mc-libs: -fsanitize=address
#include <spdlog/spdlog.h>
#include <cstring>
#include "checks/dc.hpp"
#include "index/disk/segment_factory.hpp"
using namespace dc;
using mc::choose;

namespace {
void spew(const fs::path &p, const std::string &t) {
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(t.data(), long(t.size()));
  o.close();
  MC_REQUIRE(o.good(), "setup", "cannot write %s", p.c_str());
}
std::string slurp(const fs::path &p) {
  std::ifstream i(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), {});
}
template <class T>
T at(const std::string &s, size_t off) {
  T v;
  memcpy(&v, s.data() + off, sizeof v);
  return v;
}
bool finite(float f) {
  uint32_t b;
  memcpy(&b, &f, 4);
  return (b & 0x7f800000u) != 0x7f800000u;
}
// ---- reference reader of a graph file: which nodes are reachable, or nothing if the file is unusable --
struct Graph {
  uint32_t start = 0;
  std::vector<std::vector<uint32_t>> adj;
  std::vector<bool> reach() const {
    std::vector<bool> r(adj.size());
    std::vector<uint32_t> todo{start};
    r[start] = true;
    while (!todo.empty()) {
      auto u = todo.back();
      todo.pop_back();
      for (auto v : adj[u])
        if (!r[v]) r[v] = true, todo.push_back(v);
    }
    return r;
  }
};
std::optional<Graph> parse(const std::string &f, std::string &why) {
  Graph g;
  why = "short header";
  if (f.size() < 24) return {};
  why = "declared size";
  if (at<uint64_t>(f, 0) != f.size()) return {};
  uint32_t deg = at<uint32_t>(f, 8);
  g.start = at<uint32_t>(f, 12);
  why = "degree 0";
  if (!deg) return {};
  why = "frozen points";
  if (at<uint64_t>(f, 16)) return {};
  for (size_t o = 24; o < f.size();) {
    why = "truncated record";
    if (f.size() - o < 4) return {};
    uint32_t k = at<uint32_t>(f, o);
    o += 4;
    why = "node degree";
    if (!k || k > deg) return {};
    why = "truncated record";
    if ((f.size() - o) / 4 < k) return {};
    g.adj.emplace_back();
    for (uint32_t i = 0; i < k; ++i, o += 4) g.adj.back().push_back(at<uint32_t>(f, o));
  }
  why = "empty";
  if (g.adj.empty()) return {};
  for (size_t i = 0; i < g.adj.size(); ++i)
    for (auto v : g.adj[i]) {
      why = "neighbour out of range or self";
      if (v >= g.adj.size() || v == i) return {};
    }
  why = "start out of range";
  if (g.start >= g.adj.size()) return {};
  why = "";
  return g;
}
// ---- segments ----------------------------------------------------------------------------------------
struct Shape {
  const char *name;
  MetricType metric;
  DiskIndexType type;
  uint32_t dim;
  int n;
};
const std::vector<Shape> kShapes{{"flat-l2", MetricType::L2, DiskIndexType::Flat, 3, 5},     {"flat-ip", MetricType::IP, DiskIndexType::Flat, 4, 3}, {"flat-cos", MetricType::COS, DiskIndexType::Flat, 2, 4},
                                 {"flat-many", MetricType::L2, DiskIndexType::Flat, 1, 40}, {"graph", MetricType::L2, DiskIndexType::Vamana, 3, 6}, {"graph-small", MetricType::L2, DiskIndexType::Vamana, 1, 2},
                                 {"graph-many", MetricType::L2, DiskIndexType::Vamana, 2, 24}};
void make(const fs::path &p, const Shape &s) {
  VamanaSegmentBuildParams vp;
  vp.R = 3, vp.L = 8, vp.num_threads = 1;
  DiskCollection c(p, s.dim, s.metric, s.type, 1 << 20, vp);
  for (int seg = 0; seg < 2; ++seg) {
    std::vector<float> f;
    std::vector<uint64_t> l;
    for (int i = 0; i < s.n; ++i) {
      for (uint32_t k = 0; k < s.dim; ++k) f.push_back(float((i * 7 + int(k) * 3 + seg * 5) % 17) - 7.25f);
      l.push_back(uint64_t(seg * 1000 + (i * 5) % 97));
    }
    c.add_batch(f.data(), l.data(), uint64_t(s.n));
    c.flush();
  }
}
struct Data {
  std::string ids, vec, graph;
};
Data load(const fs::path &seg, bool vam) { return {slurp(seg / "ids.u64.bin"), slurp(seg / "vectors.f32.bin"), vam ? slurp(seg / "graph.index") : ""}; }
double true_dist(const Shape &s, const std::vector<float> &q, const float *v, bool &fin) {
  std::vector<float> x(v, v + s.dim);
  fin = true;
  for (auto f : x) fin &= finite(f);
  if (!fin) return 0;
  // stored COS rows are already normalised: the distance is the inner product with the normalised query
  double d = 0;
  double qn = s.metric == MetricType::COS ? norm(q) : 1;
  for (uint32_t k = 0; k < s.dim; ++k) d += s.metric == MetricType::L2 ? (double(q[k]) - x[k]) * (double(q[k]) - x[k]) : -double(q[k]) / qn * x[k];
  fin = std::fabs(d) < 1e37;
  for (auto f : x) fin &= std::fabs(f) < 1e18f;
  return d;
}
// hits must be distinct rows of the files as they are now, nearest first, and with a full-width search the
// nearest of all rows that can be reached
void judge(const Shape &s, const std::vector<Data> &segs, const std::vector<DiskSearchHit> &hits, const std::vector<float> &q, uint32_t k, uint32_t ef, const std::string &ctx) {
  struct Row2 {
    uint64_t label;
    double d;
    bool fin, used = false, reach = true;
  };
  std::vector<Row2> rows;
  bool allfin = true;
  for (auto &g : segs) {
    std::vector<bool> reach(size_t(s.n), true);
    if (s.type == DiskIndexType::Vamana) {
      std::string why;
      auto gr = parse(g.graph, why);
      MC_REQUIRE(gr && gr->adj.size() == size_t(s.n), "opened-bad-graph", "a segment with an unusable graph (%s) was opened; %s", why.c_str(), ctx.c_str());
      reach = gr->reach();
    }
    for (int i = 0; i < s.n; ++i) {
      std::vector<float> v(s.dim);
      memcpy(v.data(), g.vec.data() + size_t(i) * s.dim * 4, s.dim * 4);
      Row2 r;
      r.label = at<uint64_t>(g.ids, size_t(i) * 8);
      r.d = true_dist(s, q, v.data(), r.fin);
      r.reach = reach[size_t(i)];
      allfin &= r.fin;
      rows.push_back(r);
    }
  }
  size_t reachable = 0;
  for (auto &r : rows) reachable += r.reach;
  MC_REQUIRE(hits.size() <= k && hits.size() <= rows.size(), "too-many-hits", "%zu hits for k=%u and %zu rows; %s", hits.size(), k, rows.size(), ctx.c_str());
  bool full = s.type == DiskIndexType::Flat || ef >= uint32_t(s.n);
  if (full) MC_REQUIRE(hits.size() == std::min<size_t>(k, reachable), "too-few-hits", "%zu hits for k=%u and %zu reachable rows; %s", hits.size(), k, reachable, ctx.c_str());
  std::vector<double> got;
  for (auto &h : hits) {
    Row2 *best = nullptr;
    bool hf = finite(h.distance);
    for (auto &r : rows)
      if (r.label == h.label && !r.used && r.reach && (!r.fin || (hf && std::fabs(r.d - h.distance) <= 1e-4 * (1 + std::fabs(r.d))))) {
        if (!best || (r.fin && !best->fin)) best = &r;
      }
    MC_REQUIRE(best, "foreign-hit", "hit (label %llu, distance %g) is no unused row of the segment; %s", (unsigned long long)h.label, double(h.distance), ctx.c_str());
    best->used = true;
    if (best->fin) got.push_back(best->d);
  }
  if (allfin) {
    for (size_t i = 1; i < got.size(); ++i) MC_REQUIRE(got[i - 1] <= got[i] + 1e-4 * (1 + std::fabs(got[i])), "unordered", "hit %zu is nearer than the one before; %s", i, ctx.c_str());
    if (full) {
      std::vector<double> want;
      for (auto &r : rows)
        if (r.reach) want.push_back(r.d);
      std::sort(want.begin(), want.end());
      for (size_t i = 0; i < got.size(); ++i) MC_REQUIRE(std::fabs(got[i] - want[i]) <= 1e-4 * (1 + std::fabs(want[i])), "not-nearest", "hit %zu has distance %g, the nearest rows have %g; %s", i, got[i], want[i], ctx.c_str());
    }
  }
}
void use(const Shape &s, const fs::path &p, const std::string &ctx) {
  mc::add_eval();
  mc::step();
  std::vector<Data> segs;
  std::unique_ptr<DiskCollection> c;
  try {
    c = std::make_unique<DiskCollection>(DiskCollection::open(p));
  } catch (const std::exception &) {
    mc::add_nontrivial();
    return;
  }
  bool vam = s.type == DiskIndexType::Vamana;
  for (auto d : {"seg_00000001", "seg_00000002"}) {
    segs.push_back(load(p / "segments" / d, vam));
    MC_REQUIRE(segs.back().ids.size() == size_t(s.n) * 8 && segs.back().vec.size() == size_t(s.n) * s.dim * 4, "opened-bad-size", "a segment whose files have the wrong size was opened; %s", ctx.c_str());
  }
  auto seg = alaya::disk::load_segment_from_manifest(p / "segments/seg_00000001");
  std::vector<std::vector<float>> qs(2, std::vector<float>(s.dim, 1.5f));
  for (uint32_t k = 0; k < s.dim; ++k) qs[1][k] = float(int(k) * 2) - 3.25f;
  const uint32_t n = uint32_t(s.n);
  for (auto &q : qs)
    for (uint32_t k : {1u, 2u, n, 2 * n + 3})
      for (uint32_t ef : {1u, n - 1, n, 100u}) {
        DiskSearchOptions o;
        o.top_k = k;
        o.ef = std::max(ef, 1u);
        std::string w = mc::format("%s; k=%u ef=%u", ctx.c_str(), k, o.ef);
        try {
          judge(s, segs, c->search(q.data(), o), q, k, std::max(o.ef, std::min(k, n)), w + " collection");
          judge(s, {segs[0]}, seg->search(q.data(), o), q, k, std::max(o.ef, std::min(k, n)), w + " segment");
        } catch (const std::exception &) {
          // an error is a legitimate answer to a damaged file
        }
      }
}
void damage(bool words) {
  const Shape &s = kShapes[size_t(choose(int(kShapes.size()), "shape"))];
  bool vam = s.type == DiskIndexType::Vamana;
  static const char *files[] = {"ids.u64.bin", "vectors.f32.bin", "graph.index"};
  int fi = choose(vam ? 3 : 2, "file");
  fs::path p = fs::path(mc::fresh_dir()) / "col";
  make(p, s);
  use(s, p, "undamaged");
  fs::path f = p / "segments/seg_00000001" / files[fi];
  const std::string t = slurp(f);
  if (!words) {
    size_t i = size_t(choose(int(t.size()) + 1, "position"));
    auto put = [&](const std::string &x, const char *what) {
      if (x == t) return;
      spew(f, x);
      use(s, p, mc::format("%s %s: %s at %zu of %zu", s.name, files[fi], what, i, t.size()));
    };
    put(t.substr(0, i), "truncated");
    put(t + std::string(i + 1, '\1'), "extended");
    if (i < t.size()) {
      for (int v : {0x00, 0xff, 0x7f, int(uint8_t(t[i])) ^ 1, int(uint8_t(t[i])) ^ 0x80, int(uint8_t(t[i])) + 1}) {
        std::string x = t;
        x[i] = char(v);
        put(x, mc::format("byte 0x%02x", v & 255).c_str());
      }
      put(t.substr(0, i) + t.substr(i + 1), "byte dropped");
      put(t.substr(0, i) + "\1" + t.substr(i), "byte inserted");
      put(std::string(t.size(), '\0').replace(0, i, t, 0, i), "zeroed from");
    }
  } else {
    size_t w = t.size() / 4;
    size_t i = size_t(choose(int(w), "word"));
    static const uint32_t vals[] = {0, 1, 2, 3, 5, 6, 7, 23, 24, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fc00000, 0x7f800000, 0xff800000, 0x7f7fffff, 0x3f800000, 0xfffffff8, 0x40000000};
    for (auto v : vals) {
      std::string x = t;
      memcpy(&x[i * 4], &v, 4);
      if (x == t) continue;
      spew(f, x);
      use(s, p, mc::format("%s %s: word %zu = 0x%x", s.name, files[fi], i, v));
      // a second damaged word of the graph
      if (fi == 2 && s.n <= 6)
        for (size_t j = i + 1; j < w; ++j)
          for (uint32_t v2 : {0u, 1u, 2u, uint32_t(s.n - 1), uint32_t(s.n), 0xffffffffu}) {
            if (!mc::thorough() && s.n > 2 && (i > 5 || (j % 3 != i % 3))) continue;
            std::string y = x;
            memcpy(&y[j * 4], &v2, 4);
            spew(f, y);
            use(s, p, mc::format("%s %s: word %zu = 0x%x, word %zu = 0x%x", s.name, files[fi], i, v, j, v2));
          }
    }
  }
  mc::nontrivial();
}
// missing and foreign files
void swaps() {
  const Shape &s = kShapes[size_t(choose(int(kShapes.size()), "shape"))];
  static const std::vector<std::string> names{"ids.u64.bin", "vectors.f32.bin", "graph.index", "manifest.txt"};
  fs::path p = fs::path(mc::fresh_dir()) / "col";
  make(p, s);
  size_t a = size_t(choose(4, "file"));
  int k = choose(6, "what");
  fs::path f = p / "segments/seg_00000001" / names[a], g = p / "segments/seg_00000002" / names[a], o = p / "segments/seg_00000001" / names[size_t(choose(4, "other"))];
  if (!fs::exists(f) || !fs::exists(o) || f == o) mc::assume(false);
  mc::nontrivial();
  bool must_refuse = false;
  switch (k) {
    case 0: fs::remove(f), must_refuse = true; break;
    case 1: fs::remove(f), fs::create_directory(f), must_refuse = true; break;
    case 2: fs::rename(f, p / "moved"), fs::create_symlink(p / "moved", f), must_refuse = true; break;
    case 3: {
      std::string t = slurp(o);
      spew(f, t);
      break;
    }
    case 4: fs::rename(f, p / "t"), fs::rename(o, f), fs::rename(p / "t", o); break;
    case 5: spew(f, slurp(g)); break;  // the file of the other segment
  }
  if (must_refuse) {
    bool opened = true;
    try {
      DiskCollection::open(p);
    } catch (const std::exception &) {
      opened = false;
    }
    MC_REQUIRE(!opened, "opened-bad-file", "%s: opened although %s is %s", s.name, names[a].c_str(), k == 0 ? "missing" : k == 1 ? "a directory" : "a symbolic link");
    return;
  }
  use(s, p, mc::format("%s %s replaced (%d)", s.name, names[a].c_str(), k));
}
// ---- every graph file of up to a few words ------------------------------------------------------------
void small_graphs() {
  fs::path f = fs::path(mc::fresh_dir()) / "g";
  int words = choose(mc::thorough() ? 8 : 7, "words");
  int tail = choose(3, "extra bytes");
  uint32_t deg = uint32_t(choose(4, "degree")), start = uint32_t(choose(4, "start"));
  if (start == 3) start = 0xffffffff;
  std::vector<float> vec{0, 2, 5, 9, 11, 12, 14};
  int total = 1;
  for (int i = 0; i < words; ++i) total *= 4;
  for (int code = 0; code < total; ++code) {
    std::string t(24 + size_t(words) * 4 + size_t(tail), '\0');
    uint64_t size = t.size(), frozen = 0;
    memcpy(&t[0], &size, 8);
    memcpy(&t[8], &deg, 4);
    memcpy(&t[12], &start, 4);
    memcpy(&t[16], &frozen, 8);
    for (int i = 0, c = code; i < words; ++i, c /= 4) {
      uint32_t v = uint32_t(c % 4);
      if (v == 3 && i == words - 1) v = 0xffffffff;
      memcpy(&t[24 + size_t(i) * 4], &v, 4);
    }
    spew(f, t);
    std::string why;
    auto g = parse(t, why);
    mc::step();
    std::unique_ptr<alaya::vamana::VamanaReader> r;
    std::string what;
    try {
      r = std::make_unique<alaya::vamana::VamanaReader>(f);
    } catch (const std::exception &e) {
      what = e.what();
    }
    std::string ctx = mc::format("words=%d code=%d degree=%u start=%u tail=%d", words, code, deg, start, tail);
    MC_REQUIRE(bool(r) == bool(g), r ? "accepted-bad-graph" : "refused-good-graph", "%s (%s); %s", r ? "accepted" : "refused", r ? why.c_str() : what.c_str(), ctx.c_str());
    if (!r) {
      mc::add_nontrivial();
      continue;
    }
    MC_REQUIRE(r->graph() == g->adj && r->start() == g->start && r->num_nodes() == g->adj.size(), "misread-graph", "the graph read differs from the file; %s", ctx.c_str());
    alaya::vamana::VamanaGreedySearch gs(*r, vec.data(), 1);
    float q = 6;
    uint32_t n = uint32_t(g->adj.size());
    auto h = gs.search(&q, n, n);
    auto reach = g->reach();
    std::vector<std::pair<float, uint32_t>> want;
    for (uint32_t i = 0; i < n; ++i)
      if (reach[i]) want.push_back({(vec[i] - q) * (vec[i] - q), i});
    std::sort(want.begin(), want.end());
    bool ok = want.size() == h.size();
    for (size_t i = 0; ok && i < h.size(); ++i) ok = h[i].id == want[i].second && h[i].distance == want[i].first;
    MC_REQUIRE(ok, "wrong-search", "a full-width search does not return the reachable nodes in order; %s", ctx.c_str());
    mc::state(mc::mix(mc::hash_str(t), 3));
  }
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P09";
  sp.level = "fault_enumeration";
  sp.rule = "every execution damages a file; evaluations counted as non-trivial were refused";
  sp.assumptions = {"files are not changed while they are open", "laser segments are not covered"};
  std::vector<mc::Scenario> sc;
  sc.push_back({"bytes", [] { damage(false); }});
  sc.push_back({"words", [] { damage(true); }});
  sc.push_back({"files", [] { swaps(); }});
  sc.push_back({"small-graphs", [] { small_graphs(); }});
  return mc::run_main(argc, argv, sp, sc);
}
