// P10 scalar store: bounded operation sequences against a map.
// mc-libs: -lrocksdb
#include <cmath>
#include <filesystem>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <rocksdb/db.h>
#include "lib/mc.hpp"
#include "storage/rocksdb_storage.hpp"
using namespace alaya;
namespace fs = std::filesystem;
namespace {
using Store = RocksDBStorage<uint32_t>;
constexpr double kInf = std::numeric_limits<double>::infinity();
constexpr int64_t kMin = std::numeric_limits<int64_t>::min(), kMax = std::numeric_limits<int64_t>::max();
const std::vector<uint32_t> kIds = {1, 12, 2};
bool g_names = false;  // indexed fields whose names are prefixes of each other
const std::vector<std::string> kItems = {"a", "b", "a_1", "i_a", "missing", ""};

ScalarData rec(int k) {
  switch (k) {
    case 0: return {"a", "doc a", {{"s", std::string("a")}, {"n", int64_t(-1)}}};
    case 1: return {"b", "", {{"s", std::string("a_1")}, {"f", -0.0}, {"n", int64_t(0)}}};
    case 2: return {"", "d2", {{"n", kMax}, {"u", true}, {"f", 0.0}}};
    case 3:
      if (g_names) return {"a", "other", {{"s", std::string("s_a")}, {"n", std::string("i_8000000000000000")}}};
      return {"a", "other", {{"s", std::string("")}, {"n", std::string("a")}, {"f", -kInf}, {"b", true}}};
    default:
      if (g_names) return {"a_1", "x", {{"s_s", std::string("a")}, {"n_s", int64_t(0)}, {"n_i", 1.0}, {"n", int64_t(7)}, {"f_d", std::string("q")}}};
      return {"a_1", std::string("x\0y", 3), {{"s", std::string("a_12")}, {"n", int64_t(kMin)}, {"f", kInf}, {"u", 2.5}}};
  }
}
RocksDBConfig cfg(const std::string &dir) {
  RocksDBConfig c;
  c.db_path_ = dir;
  c.write_buffer_size_ = 1 << 20;
  c.target_file_size_base_ = 1 << 20;
  c.block_cache_size_mb_ = 1;
  c.max_background_compactions_ = 1;
  c.max_background_flushes_ = 1;
  c.indexed_fields_ = {"s", "n", "f", "b"};
  if (g_names) c.indexed_fields_ = {"s", "s_s", "n", "n_s", "n_i", "f", "f_d", "b"};
  return c;
}
bool eq(const ScalarData &a, const ScalarData &b) { return a.item_id == b.item_id && a.document == b.document && a.metadata == b.metadata; }
using Model = std::map<uint32_t, ScalarData>;
template <class T>
std::string ids_str(const T &v) {
  std::string s;
  for (auto i : v) s += std::to_string(i) + " ";
  return s;
}
void same_ids(std::vector<uint32_t> got, const std::set<uint32_t> &want, const char *sig, const std::string &what) {
  std::vector<uint32_t> w(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  MC_REQUIRE(got == w, sig, "%s: got ids { %s} expected { %s}", what.c_str(), ids_str(got).c_str(), ids_str(w).c_str());
}
std::string vstr(const MetadataValue &v) {
  return std::visit([](const auto &x) -> std::string {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, std::string>) return "\"" + x + "\"";
    else return std::to_string(x);
  }, v);
}
void compare(const Store &s, const Model &m, const char *when) {
  std::vector<uint32_t> all = {0, 1, 2, 12, 13, 121};
  auto got = s.batch_get(all);
  auto raws = s.batch_get_raw_values(all);
  auto items = s.batch_get_item_id_only(all);
  MC_REQUIRE(got.size() == all.size() && raws.size() == all.size() && items.size() == all.size(), "batch-size", "%s: batch_get returns %zu of %zu", when, got.size(), all.size());
  for (size_t i = 0; i < all.size(); ++i) {
    auto it = m.find(all[i]);
    bool live = it != m.end();
    std::string raw;
    MC_REQUIRE(s.is_valid(all[i]) == live && s.get_raw_value(all[i], raw) == live, "existence", "%s: id %u is %s", when, all[i], live ? "missing" : "present");
    MC_REQUIRE(raws[i].empty() == !live, "batch-existence", "%s: batch read of id %u is %s", when, all[i], live ? "missing" : "present");
    if (live) {
      MC_REQUIRE(eq(s[all[i]], it->second) && eq(got[i], it->second) && raws[i] == raw, "content", "%s: id %u does not hold the value last written", when, all[i]);
      MC_REQUIRE(items[i] == it->second.item_id, "item-id", "%s: id %u has item id '%s'", when, all[i], items[i].c_str());
    } else {
      MC_REQUIRE(items[i].empty(), "item-id", "%s: absent id %u has item id '%s'", when, all[i], items[i].c_str());
    }
  }
  for (auto &k : kItems) {
    std::optional<uint32_t> want;
    for (auto &[id, r] : m)
      if (!k.empty() && r.item_id == k) want = id;
    MC_REQUIRE(s.find_by_item_id(k) == want, "find-by-item-id", "%s: find_by_item_id('%s') = %ld, expected %ld", when, k.c_str(), long(s.find_by_item_id(k).value_or(-1)), long(want.value_or(-1)));
    MC_REQUIRE(s.item_id_available(k) == !want.has_value(), "item-id-available", "%s: item_id_available('%s')", when, k.c_str());
  }
  MC_REQUIRE(s.count() == m.size(), "count", "%s: count() = %zu, %zu live records", when, s.count(), m.size());
  for (size_t limit : {0, 1}) {
    auto sc = s.scan_with_filter([](const ScalarData &) { return true; }, limit);
    size_t n = limit ? std::min(limit, m.size()) : m.size();
    MC_REQUIRE(sc.size() == n, "scan", "%s: scan returns %zu records, expected %zu", when, sc.size(), n);
    auto it = m.begin();
    for (auto &[id, r] : sc) {
      MC_REQUIRE(id == it->first && eq(r, it->second), "scan", "%s: scan returns id %u where %u was expected", when, id, it->first);
      ++it;
    }
  }
  auto sc = s.scan_with_filter([](const ScalarData &r) { return r.document.empty(); });
  size_t ne = 0;
  for (auto &[id, r] : m) ne += r.document.empty();
  MC_REQUIRE(sc.size() == ne, "scan-filter", "%s: filtered scan returns %zu of %zu", when, sc.size(), ne);
  static const std::vector<std::pair<std::string, MetadataValue>> vals = {
      {"s", std::string("a")}, {"s", std::string("a_1")}, {"s", std::string("")}, {"s", std::string("a_12")}, {"s", std::string("z")},
      {"n", int64_t(-1)}, {"n", int64_t(0)}, {"n", kMin}, {"n", kMax}, {"n", std::string("a")}, {"n", int64_t(1)}, {"n", 0.0},
      {"f", 0.0}, {"f", -0.0}, {"f", kInf}, {"f", -kInf}, {"b", true}, {"b", false}};
  static const std::vector<std::pair<std::string, MetadataValue>> named = {
      {"s", std::string("a")}, {"s", std::string("s_a")}, {"s_s", std::string("a")}, {"n", int64_t(-1)}, {"n", int64_t(0)}, {"n_s", int64_t(0)}, {"n_i", 1.0}, {"f", 0.0}, {"f", -0.0}};
  for (auto &[f, v] : g_names ? named : vals) {
    std::set<uint32_t> want;
    for (auto &[id, r] : m)
      if (auto it = r.metadata.find(f); it != r.metadata.end() && it->second == v) want.insert(id);
    same_ids(s.get_ids_by_field_value(f, v), want, "field-value", std::string(when) + ": records with " + f + " = " + vstr(v));
  }
  static const int64_t ib[] = {kMin, -1, 0, 1, kMax};
  for (auto lo : ib)
    for (auto hi : ib) {
      std::set<uint32_t> want;
      for (auto &[id, r] : m)
        if (auto it = r.metadata.find("n"); it != r.metadata.end())
          if (auto p = std::get_if<int64_t>(&it->second); p && lo <= *p && *p <= hi) want.insert(id);
      same_ids(s.get_ids_by_int_range("n", lo, hi), want, "int-range", std::string(when) + ": " + std::to_string(lo) + " <= n <= " + std::to_string(hi));
    }
  if (g_names) {
    std::set<uint32_t> want;
    for (auto &[id, r] : m)
      if (r.metadata.count("n_s")) want.insert(id);
    same_ids(s.get_ids_by_int_range("n_s", kMin, kMax), want, "int-range", std::string(when) + ": any n_s");
  }
  static const double db[] = {-kInf, -1e308, -0.0, 0.0, 1.5, kInf};
  for (auto lo : db)
    for (auto hi : db) {
      std::set<uint32_t> want;
      for (auto &[id, r] : m)
        if (auto it = r.metadata.find("f"); it != r.metadata.end())
          if (auto p = std::get_if<double>(&it->second); p && lo <= *p && *p <= hi) want.insert(id);
      same_ids(s.get_ids_by_double_range("f", lo, hi), want, "double-range", std::string(when) + ": " + std::to_string(lo) + " <= f <= " + std::to_string(hi));
    }
}
bool item_free(const Model &m, const std::string &item, uint32_t id) {
  if (item.empty()) return true;
  for (auto &[i, r] : m)
    if (i != id && r.item_id == item) return false;
  return true;
}
struct Batch {
  uint32_t start;
  std::vector<int> recs;
};
const Batch kBatches[] = {{1, {0, 1}}, {1, {2, 3}}, {1, {0, 3}}, {11, {1, 4}}, {12, {3}}, {0, {}}, {0, {4, 0, 1}}};

void body(int depth, bool legacy, bool names = false) {
  g_names = names;
  std::string base = mc::fresh_dir();
  int gen = 0;
  auto dir = [&] { return base + "/db" + std::to_string(gen); };
  Model m;
  if (legacy) {  // a database written with the unpadded keys of earlier versions
    rocksdb::Options o;
    o.create_if_missing = true;
    rocksdb::DB *raw = nullptr;
    auto st = rocksdb::DB::Open(o, dir(), &raw);
    MC_REQUIRE(st.ok(), "setup", "%s", st.ToString().c_str());
    auto bytes = rec(0).serialize();
    uint32_t id = 1;
    size_t one = 1;
    raw->Put({}, "d_1", rocksdb::Slice(bytes.data(), bytes.size()));
    raw->Put({}, "i_a", rocksdb::Slice(reinterpret_cast<char *>(&id), 4));
    raw->Put({}, "f_s_s_a_1", "");
    raw->Put({}, "f_n_i_7fffffffffffffff_1", "");
    raw->Put({}, "__COUNT__", rocksdb::Slice(reinterpret_cast<char *>(&one), 8));
    delete raw;
    m[1] = rec(0);
  }
  auto s = std::make_unique<Store>(cfg(dir()));
  compare(*s, m, "start");
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(6, "operation");
    if (op == 0 || op == 1) {
      uint32_t id = kIds[mc::choose(mc::thorough() ? 3 : 2, "id")];
      int k = mc::choose(5, "record");
      mc::note("%s(%u, record %d)", op ? "update" : "insert", id, k);
      bool want = item_free(m, rec(k).item_id, id) && (op == 0 || m.count(id));
      bool got = op == 0 ? s->insert(id, rec(k)) : s->update(id, rec(k));
      MC_REQUIRE(got == want, op ? "update-result" : "insert-result", "%s(%u, record %d) returned %d", op ? "update" : "insert", id, k, got);
      if (want) m[id] = rec(k);
    } else if (op == 2) {
      uint32_t id = kIds[mc::choose(mc::thorough() ? 3 : 2, "id")];
      mc::note("remove(%u)", id);
      bool want = m.erase(id) > 0;
      MC_REQUIRE(s->remove(id) == want, "remove-result", "remove(%u) returned %d", id, !want);
    } else if (op == 3) {
      int bi = mc::choose(int(std::size(kBatches)), "batch");
      const Batch &b = kBatches[bi];
      std::vector<ScalarData> v;
      for (int k : b.recs) v.push_back(rec(k));
      mc::note("batch_insert(%u, batch %d)", b.start, bi);
      bool want = true;
      for (size_t i = 0; i < v.size(); ++i) {
        want = want && item_free(m, v[i].item_id, b.start + uint32_t(i));
        for (size_t j = 0; j < i; ++j) want = want && (v[i].item_id.empty() || v[i].item_id != v[j].item_id);
      }
      bool got = s->batch_insert(b.start, v.begin(), v.end());
      MC_REQUIRE(got == want, "batch-result", "batch_insert(%u, batch %d) returned %d", b.start, bi, got);
      if (want)
        for (size_t i = 0; i < v.size(); ++i) m[b.start + uint32_t(i)] = v[i];
    } else if (op == 4) {
      int how = mc::choose(mc::thorough() ? 4 : 3, "how");
      if (how == 0) {
        mc::note("close and reopen");
        s.reset();
        s = std::make_unique<Store>(cfg(dir()));
      } else if (how == 1) {
        mc::note("process dies; reopen");
        std::string from = dir();
        ++gen;
        fs::copy(from, dir(), fs::copy_options::recursive);
        fs::remove(dir() + "/LOCK");
        auto dying = std::move(s);
        s = std::make_unique<Store>(cfg(dir()));
        dying.reset();  // its directory is no longer used
      } else if (how == 2) {
        mc::note("save a copy, continue on the copy");
        std::string to = base + "/db" + std::to_string(gen + 1);
        s->save(to);
        compare(*s, m, "after saving");
        s.reset();
        ++gen;
        s = std::make_unique<Store>(cfg(dir()));
      } else {
        mc::note("flush, compact");
        s->flush();
        s->compact();
      }
    } else {
      mc::note("second handle on the same directory");
      Store ro(cfg(dir()));
      MC_REQUIRE(ro.is_read_only(), "two-writers", "a second writable handle on an open database");
      compare(ro, m, "read-only handle");
      int k = mc::choose(2, "write through it");
      bool refused = false;
      try {
        if (k) ro.remove(1);
        else ro.insert(1, rec(2));
      } catch (const std::exception &) {
        refused = true;
      }
      MC_REQUIRE(refused, "read-only-write", "a write through a read-only handle was accepted");
    }
    mc::step();
    compare(*s, m, "after the operation");
    if (d + 1 < depth) mc::nontrivial();
    uint64_t h = 17;
    for (auto &[id, r] : m) h = mc::mix(h, mc::hash_str(r.item_id + "|" + r.document, id));
    mc::state(h);
  }
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P10";
  sp.level = "model_checking";
  sp.rule = "every sequence of insert, update, remove, batch insert, close/reopen, process death, checkpoint and second-handle operations over 2 ids, 5 records and 7 batches; after each operation every lookup, scan and range of the store is compared with a map";
  sp.assumptions = {"the set of indexed fields does not change between openings", "no NaN metadata values", "process death keeps the bytes already written to the files (no power loss)"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> f) {
    mc::Scenario s;
    s.name = n;
    s.body = std::move(f);
    sc.push_back(s);
  };
  add("sequences", [] { body(3, false); });
  add("field-names", [] { body(mc::thorough() ? 3 : 2, false, true); });
  add("legacy-keys", [] { body(mc::thorough() ? 3 : 2, true); });
  return mc::run_main(argc, argv, sp, sc);
}
