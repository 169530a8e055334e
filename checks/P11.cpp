// P11 metadata filters: every filter expression of a bounded grammar against a reference evaluator, answered
// with and without field indexes, per id, in batches and by full scan.
// mc-libs: -lrocksdb
#include <cmath>
#include <filesystem>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include "lib/mc.hpp"
#include "utils/metadata_filter_matcher.hpp"
using namespace alaya;
namespace fs = std::filesystem;
namespace {
using Store = RocksDBStorage<uint32_t>;
using Exec = MetadataFilterExecutor<uint32_t>;
constexpr double kInf = std::numeric_limits<double>::infinity();
const std::vector<MetadataValue> kVals = {
    std::numeric_limits<int64_t>::min(), int64_t(-1), int64_t(0), int64_t(5), std::numeric_limits<int64_t>::max(),
    -kInf, -1.5, -0.0, 0.0, 2.5, std::numeric_limits<double>::max(), kInf,
    std::string(""), std::string("a"), std::string("a_1"), std::string("ab"), false, true};
const int kN = int(kVals.size());
const FilterOp kOps[] = {FilterOp::EQ, FilterOp::NE, FilterOp::GT, FilterOp::GE, FilterOp::LT, FilterOp::LE, FilterOp::CONTAINS};
const char *kOpName[] = {"==", "!=", ">", ">=", "<", "<=", "contains"};
const char *kFields[] = {"k", "m", "absent", ""};

// ---- reference ---------------------------------------------------------------------------------
struct Expr {
  int kind = 0;  // 0 condition, 1 and, 2 or, 3 not
  std::string field;
  int op = 0;  // index into kOps; 7 = in, 8 = not in
  std::vector<MetadataValue> v;
  std::vector<Expr> kids;
};
int order(const MetadataValue &a, const MetadataValue &b) {  // same type: <0, 0, >0
  if (auto p = std::get_if<int64_t>(&a)) return *p < std::get<int64_t>(b) ? -1 : *p > std::get<int64_t>(b);
  if (auto p = std::get_if<double>(&a)) return *p < std::get<double>(b) ? -1 : *p > std::get<double>(b);
  if (auto p = std::get_if<std::string>(&a)) return p->compare(std::get<std::string>(b));
  return int(std::get<bool>(a)) - int(std::get<bool>(b));
}
bool holds(const Expr &n, const MetadataMap &r) {
  if (n.kind == 3) return !holds(n.kids[0], r);
  if (n.kind) {
    for (auto &k : n.kids)
      if (holds(k, r) == (n.kind == 2)) return n.kind == 2;
    return n.kind == 1 || n.kids.empty();
  }
  auto it = r.find(n.field);
  if (it == r.end()) return false;
  auto &a = it->second;
  auto same = [&](const MetadataValue &b) { return a.index() == b.index() && order(a, b) == 0; };
  if (n.op >= 7) {
    bool in = false;
    for (auto &b : n.v) in = in || same(b);
    return in == (n.op == 7);
  }
  auto &b = n.v[0];
  if (n.op == 0) return same(b);
  if (n.op == 1) return !same(b);
  if (a.index() != b.index()) return false;
  if (n.op == 6) {
    auto p = std::get_if<std::string>(&a);
    return p && p->find(std::get<std::string>(b)) != std::string::npos;
  }
  int c = order(a, b);
  return n.op == 2 ? c > 0 : n.op == 3 ? c >= 0 : n.op == 4 ? c < 0 : c <= 0;
}
FilterCondition cond(const Expr &n) {
  FilterCondition c;
  c.field = n.field;
  c.op = n.op == 7 ? FilterOp::IN_SET : n.op == 8 ? FilterOp::NOT_IN_SET : kOps[n.op];
  if (n.op >= 7) c.values = n.v;
  else c.value = n.v[0];
  return c;
}
MetadataFilter build(const Expr &n) {
  MetadataFilter f;
  if (n.kind == 0) {
    f.conditions.push_back(cond(n));
    return f;
  }
  f.logic_op = n.kind == 1 ? LogicOp::AND : n.kind == 2 ? LogicOp::OR : LogicOp::NOT;
  for (auto &k : n.kids) {
    if (k.kind == 0) f.conditions.push_back(cond(k));
    else f.add_sub_filter(build(k));
  }
  return f;
}
std::string str(const Expr &n) {
  if (n.kind) {
    std::string s = n.kind == 1 ? "and(" : n.kind == 2 ? "or(" : "not(";
    for (auto &k : n.kids) s += str(k) + ", ";
    return s + ")";
  }
  std::string s = n.field + " " + (n.op == 7 ? "in" : n.op == 8 ? "not in" : kOpName[n.op]);
  for (auto &v : n.v)
    s += std::visit([](const auto &x) -> std::string {
      using T = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<T, std::string>) return " \"" + x + "\"";
      else if constexpr (std::is_same_v<T, bool>) return x ? " true" : " false";
      else return " " + std::to_string(x);
    }, v);
  return s;
}
// ---- stores ------------------------------------------------------------------------------------
std::map<uint32_t, MetadataMap> records(int set) {
  std::map<uint32_t, MetadataMap> m;
  if (set == 0) {  // every value once, with gaps in the ids
    for (int i = 0; i < kN; ++i) m[uint32_t(i + i / 7)] = {{"k", kVals[i]}, {"m", int64_t(i % 3)}, {"", int64_t(i % 2)}, {"z", std::string("k")}};
    m[25] = {{"m", std::string("a")}};
    m[26] = {};
  } else if (set == 1) {  // shared values, ids around the word and batch boundaries
    uint32_t ids[] = {0, 1, 62, 63, 64, 127, 128, 1022, 1023, 1024, 1025, 1087, 1088, 2047, 2048};
    int i = 0;
    for (auto id : ids) m[id] = {{"k", kVals[size_t(3 + (i++ * 7) % 12)]}, {"m", i % 2 == 0}};
  }
  return m;
}
struct Set {
  std::map<uint32_t, MetadataMap> rec;
  std::unique_ptr<Store> st[2];
  size_t data_num = 0;
};
Set g_set[3];
std::string g_root;
Set &get_set(int k) {
  Set &s = g_set[k];
  if (s.st[0]) return s;
  s.rec = records(k);
  s.data_num = k == 0 ? 30 : k == 1 ? 2049 : 0;
  for (int ix = 0; ix < 2; ++ix) {
    RocksDBConfig c;
    c.db_path_ = g_root + "/w" + std::to_string(getpid()) + "-" + std::to_string(k) + std::to_string(ix);
    c.block_cache_size_mb_ = 8;
    if (ix) c.indexed_fields_ = {"k", "m", "absent", ""};
    s.st[ix] = std::make_unique<Store>(c);
    for (auto &[id, m] : s.rec)
      if (!s.st[ix]->insert(id, ScalarData("item" + std::to_string(id), "doc", m))) mc::fail("setup", "insert failed");
  }
  return s;
}
void check(const Expr &n, int set) {
  Set &S = get_set(set);
  std::string txt = str(n);
  mc::note("%s on record set %d", txt.c_str(), set);
  MetadataFilter f = build(n);
  std::vector<uint8_t> want(S.data_num, 0);
  size_t total = 0;
  for (auto &[id, m] : S.rec) {
    want[id] = holds(n, m);
    total += want[id];
    MC_REQUIRE(f.evaluate(m) == bool(want[id]), "evaluate", "%s: evaluates to %d on record %u", txt.c_str(), !want[id], id);
  }
  if (total && total < S.rec.size()) mc::nontrivial();
  bool empty = f.is_empty();
  for (int ix = 0; ix < 2; ++ix) {
    const char *w = ix ? "indexed store" : "plain store";
    Exec e(f, S.st[ix].get(), S.data_num);
    if (e.has_index_fast_path()) {
      std::vector<uint32_t> got = e.indexed_ids(), ids;
      std::sort(got.begin(), got.end());
      for (auto &[id, m] : S.rec)
        if (want[id]) ids.push_back(id);
      MC_REQUIRE(got == ids && e.indexed_count() == ids.size(), "index-ids", "%s, %s: the index names %zu records, %zu match", txt.c_str(), w, got.size(), ids.size());
    }
    std::vector<uint32_t> lists[3];
    for (auto &[id, m] : S.rec) lists[0].push_back(id), lists[1].insert(lists[1].begin(), id);
    lists[2] = lists[0];
    lists[2].insert(lists[2].end(), lists[0].begin(), lists[0].begin() + std::ptrdiff_t(std::min<size_t>(3, lists[0].size())));
    if (!empty && S.data_num) lists[2].push_back(uint32_t(S.data_num - 1)), lists[1].push_back(7);  // ids without a record in set 0
    for (auto &[id, m] : S.rec) MC_REQUIRE(e.match(id) == bool(want[id]), "match", "%s, %s: match(%u) = %d", txt.c_str(), w, id, !want[id]);
    if (!empty)
      for (uint32_t id = 0; id < S.data_num; id += 1 + id / 40)
        if (!S.rec.count(id)) MC_REQUIRE(!e.match(id), "match-absent", "%s, %s: absent id %u matches", txt.c_str(), w, id);
    for (auto &l : lists) {
      std::vector<uint8_t> m;
      e.eval_offsets(l, m);
      auto b = e.build_blocked_bitset(l);
      MC_REQUIRE(m.size() == l.size(), "batch-size", "%s, %s: %zu answers for %zu ids", txt.c_str(), w, m.size(), l.size());
      size_t cnt = 0;
      for (size_t i = 0; i < l.size(); ++i) {
        bool x = want[l[i]];
        cnt += x;
        MC_REQUIRE(bool(m[i]) == x && b.blocked_.get(i) == !x, "batch", "%s, %s: batch answer for id %u is %d", txt.c_str(), w, l[i], !x);
      }
      MC_REQUIRE(b.matched_count_ == cnt, "batch-count", "%s, %s: batch reports %zu matches of %zu", txt.c_str(), w, b.matched_count_, cnt);
    }
    auto b = e.build_blocked_bitset();
    for (uint32_t id = 0; id < S.data_num; ++id)
      if (!empty || S.rec.count(id)) MC_REQUIRE(b.blocked_.get(id) == !want[id], "scan", "%s, %s: full scan says %d for id %u", txt.c_str(), w, !want[id], id);
    MC_REQUIRE(b.matched_count_ == (empty ? S.data_num : total), "scan-count", "%s, %s: full scan reports %zu matches, %zu records match", txt.c_str(), w, b.matched_count_, total);
    mc::step(S.rec.size());
  }
  mc::state(mc::hash_str(txt, uint64_t(set)));
}
Expr any_cond() {
  Expr n;
  n.field = kFields[mc::choose(4, "field")];
  n.op = mc::choose(9, "op");
  if (n.op < 7) {
    n.v = {kVals[size_t(mc::choose(kN, "value"))]};
  } else {
    int cnt = mc::choose(3, "set size");
    for (int i = 0; i < cnt; ++i) n.v.push_back(kVals[size_t(mc::choose(kN, "value"))]);
  }
  return n;
}
Expr small_cond() {
  static const Expr pool[] = {
      {0, "k", 0, {std::string("a")}, {}}, {0, "k", 1, {int64_t(0)}, {}}, {0, "k", 3, {0.0}, {}}, {0, "k", 4, {int64_t(5)}, {}},
      {0, "m", 0, {int64_t(1)}, {}}, {0, "m", 8, {int64_t(1), int64_t(2)}, {}}, {0, "k", 7, {true, std::string("a"), 2.5}, {}},
      {0, "absent", 1, {int64_t(0)}, {}}, {0, "k", 6, {std::string("a")}, {}}, {0, "k", 8, {}, {}}};
  return pool[mc::choose(10, "condition")];
}
Expr tree(int depth) {
  Expr n;
  int k = depth == 0 ? 0 : mc::choose(4, "node");
  if (k == 0) return small_cond();
  n.kind = k;
  int kids = k == 3 ? 1 : mc::choose(3, "children");
  for (int i = 0; i < kids; ++i) n.kids.push_back(tree(depth - 1));
  return n;
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P11";
  sp.level = "model_checking";
  sp.rule = "every single condition over 4 fields, 9 operators and 18 values (sets of up to 2), and every and/or/not tree up to the depth bound over 10 conditions, on 2 record sets stored with and without field indexes; the verdict on every record by evaluate, match, batch, full scan and index must equal a reference evaluator's";
  sp.assumptions = {"no NaN metadata values", "a record without the field satisfies no condition on it (not inverts that)", "not has one operand"};
  char tmpl[] = "/tmp/p11-XXXXXX";
  g_root = mkdtemp(tmpl);
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> f) {
    mc::Scenario s;
    s.name = n;
    s.body = std::move(f);
    sc.push_back(s);
  };
  add("conditions", [] { check(any_cond(), 0); });
  add("conditions-boundaries", [] {
    Expr n;
    n.field = kFields[mc::choose(2, "field")];
    n.op = mc::choose(mc::thorough() ? 7 : 4, "op");
    n.v = {kVals[size_t(mc::choose(kN, "value"))]};
    if (mc::choose(2, "negate")) {
      Expr m;
      m.kind = 3;
      m.kids = {n};
      n = m;
    }
    check(n, 1);
  });
  add("trees", [] { check(tree(2), 0); });
  add("trees-boundaries", [] { check(tree(2), 1); });
  sc.back().thorough_only = true;
  add("no-records", [] { check(tree(1), 2); });
  int rc = mc::run_main(argc, argv, sp, sc);
  std::error_code ec;
  fs::remove_all(g_root, ec);
  return rc;
}
