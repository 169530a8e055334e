// P24: cached records while other threads override, drop and look up - every bounded schedule.
// mc-sched
#include <memory>
#include <thread>
#include <vector>
#include "index/graph/diskann/node_cache.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"
using alaya::diskann::NodeCache;
namespace {
constexpr uint64_t kDim = 2;
constexpr uint32_t kDeg = 2;
// version v of node id: coordinates {v, id}, v % 3 neighbours numbered v * 10 + i; version 0 is the pinned record
struct Seen {
  bool present;
  int version;
};
Seen decode(const NodeCache::Lookup &l, uint32_t id) {
  if (!l) return {false, -1};
  const float *x = reinterpret_cast<const float *>(l.get());
  uint32_t w[3];
  memcpy(w, l.get() + 8, 12);
  int v = int(x[0]);
  uint32_t n = uint32_t(v % 3);
  bool ok = x[1] == float(id) && w[0] == n;
  for (uint32_t i = 0; i < n && ok; ++i) ok = w[1 + i] == uint32_t(v * 10) + i;
  MC_REQUIRE(ok, "torn-record", "node %u: a record mixes versions", id);
  return {true, v};
}
void put(NodeCache &c, uint32_t id, int v) {
  float x[2] = {float(v), float(id)};
  uint32_t nb[2] = {uint32_t(v * 10), uint32_t(v * 10 + 1)};
  c.upsert_node(id, x, uint32_t(v % 3), nb);
}
struct W {
  uint32_t id;
  int v;  // -1: drop unpinned overrides
};
struct Ev {
  uint32_t id;
  int v;
  uint64_t s, e;
  bool read;
  bool present;
};
void run(const std::vector<std::vector<W>> &writers, const std::vector<std::vector<uint32_t>> &readers, int pb, std::vector<W> before = {}) {
  NodeCache c;
  float rows[4] = {0, 0, 0, 1};
  c.generate({{}, {}}, rows, 0, 2, kDim, kDeg, 0.5);  // pins node 0
  std::vector<Ev> h;
  h.reserve(64);
  uint64_t clk = 0;
  auto tick = [&] {
    sched::NoPreempt np;
    return ++clk;
  };
  for (auto &w : before) {
    put(c, w.id, w.v);
    h.push_back({w.id, w.v, 0, 0, false, true});
  }
  sched::Options o;
  o.preemptions = mc::thorough() ? pb + 1 : pb;
  sched::run(o, [&] {
    std::vector<std::thread> t;
    for (auto &p : writers)
      t.emplace_back([&, p] {
        for (auto &w : p) {
          uint64_t s = tick();
          if (w.v < 0) c.drop_disk_backed_overrides();
          else put(c, w.id, w.v);
          uint64_t e = tick();
          sched::NoPreempt np;
          h.push_back({w.id, w.v, s, e, false, true});
        }
      });
    for (auto &p : readers)
      t.emplace_back([&, p] {
        for (uint32_t id : p) {
          uint64_t s = tick();
          NodeCache::Lookup l = c.lookup_record(id);
          uint64_t e = tick();
          Seen a = decode(l, id);
          sched::point();
          Seen b = decode(l, id);  // the record stays what it was while it is held
          mc::require(a.version == b.version, "held-lookup", "a held record changed");
          sched::NoPreempt np;
          h.push_back({id, a.version, s, e, true, a.present});
        }
      });
    for (auto &x : t) x.join();
  });
  // every read returns a value written by some write, not overwritten before the read began
  for (auto &r : h) {
    if (!r.read) continue;
    auto value = [&](const Ev &w, bool &present, int &v) {  // what write w leaves in r's node; false when w does not touch it
      if (w.v < 0) {
        if (r.id == 0) return false;
        present = false;
        v = -1;
        return true;
      }
      present = true;
      v = w.v;
      return w.id == r.id;
    };
    bool ok = false, p;
    int v;
    auto overwritten = [&](uint64_t wend) {
      for (auto &x : h)
        if (!x.read && value(x, p, v) && x.s > wend && x.e < r.s) return true;
      return false;
    };
    bool ip = r.id == 0;
    bool pre = false;
    for (auto &x : before) pre |= x.id == r.id;
    if (!pre && r.present == ip && r.v == (ip ? 0 : -1)) ok = !overwritten(0);
    for (auto &w : h)
      if (!ok && !w.read && value(w, p, v) && w.s < r.e && p == r.present && v == r.v) ok = !overwritten(w.e);
    MC_REQUIRE(ok, "stale", "a lookup of node %u returned %s %d although no completed or running change explains it", r.id, r.present ? "version" : "absent", r.v);
  }
  // final contents
  uint64_t hh = sched::now();
  for (uint32_t id : {0u, 1u, 64u}) hh = mc::mix(hh, uint64_t(decode(c.lookup_record(id), id).version + 2));
  mc::state(hh);
}
}  // namespace
int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P24";
  sp.level = "model_checking";
  sp.rule = "a schedule is non-trivial when it contains a preemption";
  sp.assumptions = {"changes of one node are serialised by its owner, as in DiskANNIndex; base records do not change while in use"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b, bool deep = false) {
    mc::Scenario s{n, b, deep};
    s.isolate = true;
    sc.push_back(s);
  };
  add("pinned-1w2r", [] { run({{{0, 1}, {0, 2}}}, {{0, 0}, {0}}, 3); });
  add("unpinned-1w1r", [] { run({{{64, 1}, {64, 2}, {64, 4}}}, {{64, 64, 64}}, 4); });
  add("same-shard-2w1r", [] { run({{{0, 1}, {0, 2}}, {{64, 1}, {64, 2}}}, {{0, 64}}, 3); });
  add("drop-vs-lookup", [] { run({{{0, -1}}, {{0, 2}}}, {{64, 0, 64}}, 2, {{64, 1}, {0, 1}}); });
  add("drop-vs-upsert", [] { run({{{0, -1}}, {{64, 2}}}, {{64, 64}}, 2, {{64, 1}}); });
  return mc::run_main(argc, argv, sp, sc);
}
