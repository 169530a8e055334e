// P24: pinned-node cache - every bounded sequence of operations against a map, damaged files, failing saves.
// mc-fsx
#include <sys/resource.h>
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "index/graph/diskann/node_cache.hpp"
#include "lib/fsx.hpp"
#include "lib/mc.hpp"

using alaya::diskann::NodeCache;
namespace {
namespace fs = std::filesystem;
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const std::string &p, const std::string &s) { std::ofstream(p, std::ios::binary | std::ios::trunc) << s; }

using Rec = std::pair<std::vector<float>, std::vector<uint32_t>>;
struct Model {
  uint64_t dim;
  uint32_t deg;
  std::vector<uint32_t> order;  // pinned ids
  std::map<uint32_t, Rec> pinned, extra;
  const Rec *find(uint32_t id) const {
    if (auto i = pinned.find(id); i != pinned.end()) return &i->second;
    auto i = extra.find(id);
    return i == extra.end() ? nullptr : &i->second;
  }
  std::string bytes(const Rec &r) const {
    std::string s(size_t(dim) * 4 + 4 + size_t(deg) * 4, '\0');
    memcpy(s.data(), r.first.data(), dim * 4);
    uint32_t n = uint32_t(r.second.size());
    memcpy(s.data() + dim * 4, &n, 4);
    if (n) memcpy(s.data() + dim * 4 + 4, r.second.data(), n * 4);
    return s;
  }
};
struct Setup {
  uint64_t n, dim;
  uint32_t deg, medoid;
  std::vector<std::vector<uint32_t>> graph;
};
std::vector<float> rows(const Setup &s, int salt) {
  std::vector<float> v(s.n * s.dim);
  for (size_t i = 0; i < v.size(); ++i) v[i] = float(int(i * 5 + 1 + salt * 100));
  return v;
}
const Setup &setup(int i) {
  static const std::vector<Setup> all = [] {
    std::vector<Setup> v;
    v.push_back({4, 2, 2, 1, {{1, 2}, {0, 3}, {0}, {2, 1}}});
    v.push_back({70, 1, 3, 0, {}});  // two ids in each lock shard
    v[1].graph.resize(70);
    v[1].graph[0] = {64, 1, 69};
    v[1].graph[64] = {5, 0};
    v[1].graph[1] = {65};
    v.push_back({3, 3, 1, 2, {{1, 2}, {0}, {}}});  // unreachable nodes; a node with more edges than the record holds
    return v;
  }();
  return all[size_t(i)];
}
// breadth first from the entry point
Model generated(const Setup &s, const std::vector<float> &v, double ratio) {
  Model m{s.dim, s.deg, {}, {}, {}};
  uint64_t target = ratio <= 0 ? 0 : std::min<uint64_t>(s.n, uint64_t(std::ceil(ratio * double(s.n))));
  std::vector<uint32_t> q{s.medoid};
  std::set<uint32_t> seen{s.medoid};
  for (size_t i = 0; i < q.size() && m.order.size() < target; ++i) {
    uint32_t u = q[i];
    m.order.push_back(u);
    auto nb = s.graph[u];
    if (nb.size() > s.deg) nb.resize(s.deg);
    m.pinned[u] = {{v.begin() + long(u * s.dim), v.begin() + long((u + 1) * s.dim)}, nb};
    for (uint32_t x : s.graph[u])
      if (seen.insert(x).second) q.push_back(x);
  }
  return m;
}
void compare(const NodeCache &c, const Model &m, const std::vector<uint32_t> &probe, const char *when) {
  for (uint32_t id : probe) {
    auto l = c.lookup_record(id);
    const Rec *r = m.find(id);
    MC_REQUIRE(bool(l) == (r != nullptr), "presence", "%s: node %u is %s", when, id, r ? "missing from the cache" : "in the cache although it was not put there or was dropped");
    if (!r) continue;
    MC_REQUIRE(m.bytes(*r) == std::string(l.get(), c.node_len()), "content", "%s: node %u has outdated or wrong contents", when, id);
    const char *p = c.lookup(id);
    MC_REQUIRE(p && m.bytes(*r) == std::string(p, c.node_len()), "content", "%s: node %u: lookup() differs", when, id);
  }
  MC_REQUIRE(c.size() == m.pinned.size() + m.extra.size(), "size", "%s: %llu nodes reported, %zu held", when, (unsigned long long)c.size(), m.pinned.size() + m.extra.size());
  MC_REQUIRE(std::set<uint32_t>(c.ids().begin(), c.ids().end()) == std::set<uint32_t>(m.order.begin(), m.order.end()) && c.ids().size() == m.order.size(), "ids", "%s: the pinned ids are wrong", when);
}
void sequences(int depth) {
  const Setup &s = setup(mc::choose(3, "graph"));
  static const double kRatio[] = {0, 0.4, 1};
  double ratio = kRatio[mc::choose(3, "ratio")];
  std::vector<uint32_t> probe{0, 1, 2, 3, 5, 64, 65, 69, 100, 164};
  auto v = rows(s, 0);
  auto c = std::make_unique<NodeCache>();
  c->generate(s.graph, v.data(), s.medoid, s.n, s.dim, s.deg, ratio);
  Model m = generated(s, v, ratio);
  compare(*c, m, probe, "generated");
  std::string dir = mc::fresh_dir();
  std::vector<uint32_t> ids{s.medoid, 64, 1, 100};
  struct Held {
    NodeCache::Lookup l;
    std::string want;
  };
  std::vector<Held> held;
  std::optional<Model> saved;
  uint64_t h = 1;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(6, "operation");
    if (op <= 1) {  // upsert / update
      uint32_t id = ids[size_t(mc::choose(int(ids.size()), "node"))];
      uint32_t n = uint32_t(mc::choose(int(std::min<uint32_t>(s.deg, 2)) + 1, "neighbours"));
      std::vector<uint32_t> nb;
      for (uint32_t i = 0; i < n; ++i) nb.push_back(uint32_t(7 + 10 * d) + i);
      if (auto l = c->lookup_record(id); l && l.owned) held.push_back({l, std::string(l.get(), c->node_len())});
      if (op == 0) {
        std::vector<float> x;
        for (uint64_t k = 0; k < s.dim; ++k) x.push_back(float(1000 * (d + 1)) + float(id) + float(k) / 4);
        c->upsert_node(id, x.data(), n, nb.data());
        (m.pinned.count(id) ? m.pinned[id] : m.extra[id]) = {x, nb};
      } else {
        c->update_neighbors(id, n, nb.data());
        if (m.pinned.count(id)) m.pinned[id].second = nb;
        if (m.extra.count(id)) m.extra[id].second = nb;
      }
    } else if (op == 2) {
      c->drop_disk_backed_overrides();
      m.extra.clear();
    } else if (op == 3 || op == 4) {  // save and load, save only, or load what was saved last (possibly over later changes)
      int how = op == 4 ? 3 : mc::choose(3, "save: and load into a new object, into the same object, or not");
      if (how < 3) {
        c->save(dir + "/i", dir + "/n");
        compare(*c, m, probe, "after saving");
        saved = m;
        for (auto &[id, r] : m.extra) {
          saved->order.push_back(id);
          saved->pinned[id] = r;
        }
        saved->extra.clear();
      }
      mc::assume(saved.has_value());
      if (how == 0 || (how == 3 && mc::choose(2, "load into the same object") == 0)) c = std::make_unique<NodeCache>();
      if (how != 2) {
        held.clear();
        c->load(dir + "/i", dir + "/n");
        c->configure_geometry(s.dim, s.deg);
        m = *saved;
      }
    } else {  // built again from new vectors
      auto w = rows(s, d + 1);
      held.clear();
      c->generate(s.graph, w.data(), s.medoid, s.n, s.dim, s.deg, ratio);
      m = generated(s, w, ratio);
    }
    compare(*c, m, probe, "after an operation");
    for (auto &x : held) mc::require(x.want == std::string(x.l.get(), x.want.size()), "held-lookup", "a record in use changed or vanished under its reader");
    for (auto &[id, r] : m.pinned) h = mc::mix(h, id + mc::hash_str(m.bytes(r)));
    for (auto &[id, r] : m.extra) h = mc::mix(h, id * 3 + mc::hash_str(m.bytes(r)));
    mc::state(h);
    mc::step();
  }
  if (m.pinned.size() && m.extra.size()) mc::nontrivial();
}
struct Saved {
  std::string i, n;
};
Saved sample(const std::string &dir, const Setup &s, int kind, Model *mo = nullptr) {
  auto v = rows(s, 0);
  NodeCache c;
  c.generate(s.graph, v.data(), s.medoid, s.n, s.dim, s.deg, kind == 0 ? 0 : 0.6);
  Model m = generated(s, v, kind == 0 ? 0 : 0.6);
  if (kind == 2) {
    std::vector<float> x(s.dim, 9);
    c.upsert_node(200, x.data(), 0, nullptr);
    m.extra[200] = {x, {}};
  }
  c.save(dir + "/i", dir + "/n");
  if (mo) *mo = m;
  return {slurp(dir + "/i"), slurp(dir + "/n")};
}
bool loads(const std::string &dir, const Saved &f, const Setup &s, NodeCache &c) {
  spit(dir + "/i", f.i);
  spit(dir + "/n", f.n);
  try {
    c.load(dir + "/i", dir + "/n");
    c.configure_geometry(s.dim, s.deg);
    return true;
  } catch (const std::exception &) {
    return false;
  }
}
// every truncation, extension and changed count or length field of either file
void damage() {
  const Setup &s = setup(mc::choose(3, "graph"));
  int kind = mc::choose(3, "contents");
  std::string dir = mc::fresh_dir();
  Saved ok = sample(dir, s, kind);
  mc::nontrivial();
  {
    NodeCache c;
    mc::require(loads(dir, ok, s, c), "a saved cache cannot be loaded");
  }
  auto refuse = [&](const Saved &f, const char *what, size_t at) {
    NodeCache c;
    MC_REQUIRE(!loads(dir, f, s, c), "damaged cache loaded", "%s (%zu)", what, at);
    mc::add_eval();
  };
  for (size_t k = 0; k < ok.i.size(); ++k) refuse({ok.i.substr(0, k), ok.n}, "id file cut", k);
  for (size_t k = 0; k < ok.n.size(); ++k) refuse({ok.i, ok.n.substr(0, k)}, "record file cut", k);
  for (size_t k : {1, 4, 64}) {
    refuse({ok.i + std::string(k, 'x'), ok.n}, "id file extended", k);
    refuse({ok.i, ok.n + std::string(k, 'x')}, "record file extended", k);
  }
  for (size_t b = 0; b < 8; ++b)
    for (int x = 1; x < 256; ++x) {
      Saved f = ok;
      f.i[b] = char(f.i[b] ^ x);
      refuse(f, "id count", b);
    }
  for (size_t b = 0; b < 16; ++b)
    for (int x = 1; x < 256; ++x) {
      Saved f = ok;
      f.n[b] = char(f.n[b] ^ x);
      if (uint64_t cl[2]; memcpy(cl, f.n.data(), 16), cl[0] == 0 && cl[1] == 0) continue;  // an empty cache of any geometry
      refuse(f, b < 8 ? "record count" : "record length", b);
      if (b < 8) {  // the same change in both counts
        f.i[b] = char(f.i[b] ^ x);
        refuse(f, "both counts", b);
      }
    }
  for (int which = 0; which < 2; ++which) {
    sample(dir, s, kind);
    fs::remove(dir + (which ? "/n" : "/i"));
    NodeCache c;
    bool got = true;
    try {
      c.load(dir + "/i", dir + "/n");
    } catch (const std::exception &) {
      got = false;
    }
    mc::require(!got, "missing file accepted");
  }
}
// every refused load leaves the cache it was loaded into usable for the contents of a following good load
void reload_after_damage() {
  const Setup &s = setup(mc::choose(3, "graph"));
  std::string dir = mc::fresh_dir();
  Model m;
  Saved ok = sample(dir, s, 2, &m);
  NodeCache c;
  size_t k = size_t(mc::choose(int(ok.n.size()), "cut"));
  mc::require(!loads(dir, {ok.i, ok.n.substr(0, k)}, s, c), "damaged cache loaded");
  NodeCache d;
  mc::require(loads(dir, ok, s, d), "a saved cache cannot be loaded");
  for (auto &[id, r] : m.extra) {
    m.order.push_back(id);
    m.pinned[id] = r;
  }
  m.extra.clear();
  compare(d, m, {0, 1, 2, 3, 64, 200}, "reloaded");
  mc::nontrivial();
}
void faults() {
  const Setup &s = setup(mc::choose(3, "graph"));
  std::string dir = mc::fresh_dir(), sub = dir + "/s";
  fs::create_directory(sub);
  auto v = rows(s, 0);
  NodeCache c;
  c.generate(s.graph, v.data(), s.medoid, s.n, s.dim, s.deg, 1);
  c.save(dir + "/i", dir + "/n");
  int mode = mc::choose(2, "short write"), at = mc::choose(12, "failing call");
  fsx::fault_arm(sub, at, ENOSPC, mode, fsx::bit(fsx::Kind::Write) | fsx::bit(fsx::Kind::Open) | fsx::bit(fsx::Kind::Close));
  bool ok = true, fired = false;
  try {
    c.save(sub + "/i", sub + "/n");
  } catch (const std::exception &) {
    ok = false;
  }
  fsx::fault_disarm(&fired);
  mc::assume(fired);
  mc::nontrivial();
  MC_REQUIRE(!ok || (slurp(sub + "/i") == slurp(dir + "/i") && slurp(sub + "/n") == slurp(dir + "/n")), "a save failed without an error", "call %d", at);
}
// rejected arguments change nothing
void arguments() {
  const Setup &s = setup(0);
  auto v = rows(s, 0);
  NodeCache c;
  c.generate(s.graph, v.data(), s.medoid, s.n, s.dim, s.deg, 0.5);
  Model m = generated(s, v, 0.5);
  std::vector<uint32_t> nb{1, 2, 3};
  std::vector<float> x{1, 2};
  int k = mc::choose(7, "call");
  bool threw = false;
  try {
    if (k == 0) c.upsert_node(1, x.data(), 3, nb.data());
    if (k == 1) c.upsert_node(9, nullptr, 0, nullptr);
    if (k == 2) c.upsert_node(9, x.data(), 1, nullptr);
    if (k == 3) c.update_neighbors(1, 3, nb.data());
    if (k == 4) c.update_neighbors(1, 1, nullptr);
    if (k == 5) c.configure_geometry(3, 2);
    if (k == 6) c.generate(s.graph, v.data(), 4, 4, 2, 2, 1);
  } catch (const std::invalid_argument &) {
    threw = true;
  }
  mc::require(threw, "bad argument accepted");
  compare(c, m, {0, 1, 2, 3, 9}, "after a refused call");
  mc::nontrivial();
}
}  // namespace
int main(int argc, char **argv) {
  rlimit rl{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  mc::Spec sp;
  sp.property = "P24";
  sp.level = "model_checking";
  sp.rule = "a sequence is non-trivial when pinned and unpinned nodes are cached at its end; every damaged file and failing save is";
  sp.assumptions = {"changes inside a record or an id are not detectable: the files carry no checksums"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b, bool deep = false) { sc.push_back({n, b, deep}); };
  add("sequences-3", [] { sequences(3); });
  add("sequences-4", [] { sequences(4); }, true);
  add("damaged-files", damage);
  add("reload-after-damage", reload_after_damage);
  add("failing-save", faults);
  add("arguments", arguments);
  return mc::run_main(argc, argv, sp, sc);
}
