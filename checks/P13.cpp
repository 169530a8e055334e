// P13 vector storage: bounded operation sequences on the raw storage and on the spaces built on it.
// mc-libs: -lrocksdb
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include "lib/mc.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
#include "storage/sequential_storage.hpp"
using namespace alaya;
namespace fs = std::filesystem;
namespace {
constexpr uint32_t kNone = uint32_t(-1);
constexpr uint32_t kDim = 3;
using Vec = std::vector<float>;
Vec vec(int k) { return {float(k), float((k * 7) % 5) - 2.0f, 0.5f * float(k % 3)}; }

// ---- the storage itself -----------------------------------------------------------------------
struct Model {
  size_t cap = 0, next = 0;
  std::map<uint32_t, Vec> live;
};
template <class S>
void compare(const S &s, const Model &m, const char *when) {
  for (uint32_t id = 0; id < m.cap; ++id) {
    auto it = m.live.find(id);
    MC_REQUIRE(s.is_valid(id) == (it != m.live.end()), "validity", "%s: id %u is reported %s", when, id, it == m.live.end() ? "valid" : "invalid");
    if (it != m.live.end()) MC_REQUIRE(!std::memcmp(s[id], it->second.data(), it->second.size() * sizeof(float)), "content", "%s: id %u does not hold the vector stored for it", when, id);
  }
}
uint64_t hash(const Model &m) {
  uint64_t h = mc::mix(m.cap, m.next);
  for (auto &[id, v] : m.live) h = mc::hash_bytes(v.data(), v.size() * 4, mc::mix(h, id));
  return h;
}
uint32_t pick_id(const Model &m) {  // first, last handed out, last slot, one in the middle
  uint32_t c[] = {0, uint32_t(m.next ? m.next - 1 : 0), uint32_t(m.cap - 1), uint32_t(m.next / 2)};
  int k = mc::choose(4, "id");
  for (int i = 0; i < k; ++i)
    if (c[i] == c[k]) mc::assume(false);
  return c[k];
}
void storage_body(int depth, uint32_t dim) {
  static const size_t caps[] = {1, 3, 9, 17};
  static const size_t pre[] = {0, 2, 7, 15};
  int shape = mc::choose(4, "capacity");
  using S = SequentialStorage<float, uint32_t>;
  auto s = std::make_unique<S>();
  Model m;
  m.cap = caps[shape];
  s->init(dim * 4, m.cap, char(mc::choose(2, "fill") * 0x5a));
  int salt = 1;
  auto next_vec = [&] {
    Vec v(dim);
    for (uint32_t i = 0; i < dim; ++i) v[i] = float(salt) + 0.25f * float(i);
    ++salt;
    return v;
  };
  auto insert = [&](bool reserve) {
    Vec v = next_vec();
    uint32_t id;
    if (reserve) {
      id = s->reserve();
      if (id != kNone) std::memcpy((*s)[id], v.data(), dim * 4);
    } else {
      id = s->insert(v.data());
    }
    mc::note("%s -> %d", reserve ? "reserve" : "insert", int(id));
    if (m.next == m.cap) {
      MC_REQUIRE(id == kNone, "full", "a full store handed out id %u", id);
    } else {
      MC_REQUIRE(id == m.next, "id", "id %u handed out, expected %zu", id, m.next);
      m.live[uint32_t(m.next++)] = v;
    }
  };
  for (size_t i = 0; i < pre[shape]; ++i) insert(false);
  std::string dir = mc::fresh_dir();
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(6, "operation");
    if (op <= 1) {
      insert(op == 1);
    } else if (op == 2) {
      uint32_t id = pick_id(m);
      mc::note("remove(%u)", id);
      bool live = m.live.erase(id) > 0;
      MC_REQUIRE(s->remove(id) == (live ? id : kNone), "remove", "remove(%u) of a %s id", id, live ? "live" : "dead");
    } else if (op == 3) {
      uint32_t id = pick_id(m);
      Vec v = next_vec();
      mc::note("update(%u)", id);
      bool live = m.live.count(id);
      MC_REQUIRE(s->update(id, v.data()) == (live ? id : kNone), "update", "update(%u) of a %s id", id, live ? "live" : "dead");
      if (live) m.live[id] = v;
    } else {
      mc::note(op == 4 ? "save, load into a new store" : "save, load into a used store");
      {
        std::ofstream o(dir + "/f", std::ios::binary | std::ios::trunc);
        s->save(o);
        MC_REQUIRE(o.good(), "save", "writing failed");
      }
      compare(*s, m, "after saving");
      auto n = std::make_unique<S>();
      if (op == 5) {
        n->init(dim * 4, 5, 0x11);
        Vec v = next_vec();
        for (int i = 0; i < 5; ++i) n->insert(v.data());
      }
      std::ifstream in(dir + "/f", std::ios::binary);
      n->load(in);
      MC_REQUIRE(in.good() && in.peek() == EOF, "load", "loading did not consume exactly what was saved");
      s = std::move(n);
    }
    mc::step();
    compare(*s, m, "after the operation");
    mc::state(mc::mix(hash(m), uint64_t(shape)));
    if (d) mc::nontrivial();
  }
}
// ---- spaces -----------------------------------------------------------------------------------
double ref_dist(MetricType mt, const Vec &a, const Vec &b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += mt == MetricType::L2 ? double(a[i] - b[i]) * double(a[i] - b[i]) : -double(a[i]) * double(b[i]);
  return s;
}
template <class Sp>
constexpr bool kRaw = std::is_same_v<Sp, RawSpace<float>> || std::is_same_v<Sp, RawSpace<float, float, uint32_t, SequentialStorage<float, uint32_t>, ScalarData>>;

template <class Sp>
struct World {
  std::unique_ptr<Sp> s;
  Model m;
  std::map<uint32_t, std::string> items;  // external ids of live rows
  MetricType mt;
  Vec lo, hi;  // range the quantizer saw
  std::vector<std::vector<uint8_t>> code;
  double slack = 0;
};
template <class Sp>
void compare_space(World<Sp> &w, const char *when) {
  Model &m = w.m;
  MC_REQUIRE(w.s->get_data_num() == m.next, "data-num", "%s: get_data_num() = %u, %zu slots are in use", when, unsigned(w.s->get_data_num()), m.next);
  MC_REQUIRE(w.s->get_capacity() == m.cap && w.s->get_dim() == kDim, "shape", "%s: capacity or dimension changed", when);
  if constexpr (requires { w.s->get_avl_data_num(); }) MC_REQUIRE(w.s->get_avl_data_num() == m.live.size(), "available", "%s: %u rows available, %zu are live", when, unsigned(w.s->get_avl_data_num()), m.live.size());
  Vec q = {1.5f, -0.5f, 0.25f};
  auto qc = w.s->get_query_computer(q.data());
  for (auto &[id, v] : m.live) {
    if constexpr (kRaw<Sp>) {
      MC_REQUIRE(!std::memcmp(w.s->get_data_by_id(id), v.data(), sizeof(float) * kDim), "content", "%s: row %u does not hold its vector", when, id);
    }
    double got = qc(id), want = ref_dist(w.mt, q, v);
    MC_REQUIRE(std::abs(got - want) <= w.slack + 1e-4, "distance", "%s: distance to row %u is %g, expected %g", when, id, got, want);
    auto qi = w.s->get_query_computer(id);
    for (auto &[jd, u] : m.live) {
      MC_REQUIRE(std::abs(double(w.s->get_distance(id, jd)) - ref_dist(w.mt, v, u)) <= w.slack + 1e-4, "distance", "%s: distance between rows %u and %u is %g, expected %g", when, id, jd, double(w.s->get_distance(id, jd)), ref_dist(w.mt, v, u));
      MC_REQUIRE(std::abs(double(qi(jd)) - ref_dist(w.mt, v, u)) <= w.slack + 1e-4, "distance", "%s: distance from stored row %u to row %u", when, id, jd);
    }
  }
  if constexpr (kRaw<Sp>) {
    for (uint32_t id = 0; id < m.next; ++id)
      if (!m.live.count(id)) MC_REQUIRE(qc(id) == std::numeric_limits<float>::max(), "removed-distance", "%s: removed row %u has an ordinary distance", when, id);
  }
  if constexpr (Sp::has_scalar_data) {
    for (auto k : {"a", "b", "c"}) {
      std::optional<uint32_t> owner;
      for (auto &[id, it] : w.items)
        if (it == k) owner = id;
      bool found = true;
      uint32_t got = kNone;
      try {
        auto [i, sd] = w.s->get_scalar_data(std::string(k));
        got = i;
        MC_REQUIRE(sd.item_id == k, "scalar", "%s: looking up '%s' gives '%s'", when, k, sd.item_id.c_str());
      } catch (const std::runtime_error &) {
        found = false;
      }
      MC_REQUIRE(found == owner.has_value() && (!found || got == *owner), "scalar", "%s: external id '%s' maps to %d, expected %d", when, k, int(got), owner ? int(*owner) : -1);
    }
    MC_REQUIRE(w.s->get_scalar_storage()->count() == w.items.size(), "scalar-count", "%s: %zu scalar records, %zu rows", when, w.s->get_scalar_storage()->count(), w.items.size());
  }
}
template <class Sp>
void space_body(MetricType mt, int depth) {
  constexpr bool kScalar = Sp::has_scalar_data;
  World<Sp> w;
  w.mt = mt;
  w.m.cap = 4;
  std::string dir = mc::fresh_dir();
  auto cfg = [&] {
    RocksDBConfig c;
    c.db_path_ = dir + "/db";
    c.write_buffer_size_ = 1 << 20;
    c.block_cache_size_mb_ = 1;
    return c;
  };
  w.s = std::make_unique<Sp>(w.m.cap, kDim, mt, cfg());
  int n0 = kRaw<Sp> ? mc::choose(3, "rows at the start") : 2;
  if (kScalar) n0 = 1;
  std::vector<float> rows;
  std::vector<ScalarData> sds;
  // the quantized spaces are fitted on rows that span the range of every later vector
  std::vector<Vec> first = {{-4, -4, -4}, {12, 12, 12}};
  if (kRaw<Sp>) first = {vec(1), vec(2)};
  for (int i = 0; i < n0; ++i) {
    rows.insert(rows.end(), first[size_t(i)].begin(), first[size_t(i)].end());
    sds.emplace_back(i ? "b" : "a", "doc", MetadataMap{});
    w.m.live[uint32_t(i)] = first[size_t(i)];
    if (kScalar) w.items[uint32_t(i)] = sds.back().item_id;
  }
  w.m.next = size_t(n0);
  if constexpr (kScalar) w.s->fit(rows.data(), uint32_t(n0), sds.data());
  else if (n0) w.s->fit(rows.data(), uint32_t(n0));
  if (!kRaw<Sp>) {  // quantization error of one coordinate, carried through the metric
    double step = 16.0 / (std::is_same_v<Sp, SQ8Space<float>> ? 255 : 15);
    w.slack = mt == MetricType::L2 ? kDim * (2 * 17 * 2 * step + 4 * step * step) : kDim * (2 * 13 * step + step * step);
  }
  compare_space(w, "start");
  int salt = 3;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(kScalar ? 4 : 3, "operation");
    if (op == 0) {
      Vec v = vec(salt++ % 11);
      uint32_t id = kNone;
      bool threw = false, dup = false;
      if constexpr (kScalar) {
        ScalarData sd(std::string(1, char('a' + mc::choose(3, "external id"))), "d", {});
        mc::note("insert %s", sd.item_id.c_str());
        for (auto &[i, k] : w.items) dup = dup || k == sd.item_id;
        bool full = w.m.next == w.m.cap;
        try {
          id = w.s->insert(v.data(), &sd);
        } catch (const std::runtime_error &) {
          threw = true;
        }
        MC_REQUIRE(threw == (dup && !full), "duplicate", "inserting the %s external id %s was %s", dup ? "duplicate" : "new", sd.item_id.c_str(), threw ? "refused" : "accepted");
        if (dup && !full) ++w.m.next;  // the slot is spent
        else if (!full) w.items[uint32_t(w.m.next)] = sd.item_id;
      } else {
        id = w.s->insert(v.data());
        mc::note("insert -> %d", int(id));
      }
      if (!threw) {
        if (w.m.next == w.m.cap) {
          MC_REQUIRE(id == kNone, "full", "a full space handed out id %u", id);
        } else {
          MC_REQUIRE(id == w.m.next, "id", "id %u handed out, expected %zu", id, w.m.next);
          w.m.live[uint32_t(w.m.next++)] = v;
        }
      }
    } else if (op == 1) {
      uint32_t id = pick_id(w.m);
      mc::note("remove(%u)", id);
      bool live = w.m.live.erase(id) > 0;
      w.items.erase(id);
      MC_REQUIRE(w.s->remove(id) == (live ? id : kNone), "remove", "remove(%u) of a %s row", id, live ? "live" : "dead");
    } else if (op == 2) {
      mc::note("save and load");
      w.s->save(dir + "/space");
      if constexpr (kScalar) w.s->close_db();
      auto n = std::make_unique<Sp>();
      n->load(dir + "/space");
      w.s = std::move(n);
    } else {
      if constexpr (kScalar) {
        std::string k(1, char('a' + mc::choose(3, "external id")));
        mc::note("remove %s", k.c_str());
        std::optional<uint32_t> owner;
        for (auto &[i, it] : w.items)
          if (it == k) owner = i;
        std::optional<uint32_t> got;
        try {
          got = w.s->remove(k);
        } catch (const std::runtime_error &) {
        }
        MC_REQUIRE(got == owner, "remove-by-name", "remove(%s) removed %d, expected %d", k.c_str(), int(got.value_or(kNone)), int(owner.value_or(kNone)));
        if (owner) w.m.live.erase(*owner), w.items.erase(*owner);
      }
    }
    mc::step();
    compare_space(w, "after the operation");
    mc::state(hash(w.m));
    if (d) mc::nontrivial();
  }
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P13";
  sp.level = "model_checking";
  sp.rule = "every sequence of insert, reserve, remove, update, save/load (into a fresh and a used object) on stores of capacity 1, 3, 9 and 17 from several fill levels, and of insert, remove (by id and by name), save/load on raw, SQ8, SQ4 and scalar-carrying spaces of capacity 4; contents, validity, counts and distances compared with a map after every operation";
  sp.assumptions = {"ids passed to the storage lie below its capacity", "quantized distances are compared up to the quantization step"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> f) {
    mc::Scenario s;
    s.name = n;
    s.body = std::move(f);
    sc.push_back(s);
  };
  auto dp = [](int q, int t) { return mc::thorough() ? t : q; };
  add("storage-3", [=] { storage_body(dp(4, 5), 3); });
  add("storage-17", [=] { storage_body(dp(3, 4), 17); });
  add("raw-l2", [=] { space_body<RawSpace<float>>(MetricType::L2, dp(5, 7)); });
  add("raw-ip", [=] { space_body<RawSpace<float>>(MetricType::IP, dp(4, 6)); });
  add("sq8-l2", [=] { space_body<SQ8Space<float>>(MetricType::L2, dp(5, 7)); });
  add("sq8-ip", [=] { space_body<SQ8Space<float>>(MetricType::IP, dp(4, 6)); });
  add("sq4-l2", [=] { space_body<SQ4Space<float>>(MetricType::L2, dp(5, 7)); });
  add("sq4-ip", [=] { space_body<SQ4Space<float>>(MetricType::IP, dp(4, 6)); });
  add("raw-scalar", [=] { space_body<RawSpace<float, float, uint32_t, SequentialStorage<float, uint32_t>, ScalarData>>(MetricType::L2, dp(4, 5)); });
  add("sq8-scalar", [=] { space_body<SQ8Space<float, float, uint32_t, SequentialStorage<uint8_t, uint32_t>, ScalarData>>(MetricType::L2, dp(3, 4)); });
  return mc::run_main(argc, argv, sp, sc);
}
