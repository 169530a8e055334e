// P23: deletion marks under every interleaving of mutators, lock-free readers and growth; save/load.
// mc-sched
#include <algorithm>
#include <map>
#include <mutex>
#include <memory>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <thread>
#include <vector>
#include "index/graph/diskann/tombstone_bitmap.hpp"
#include "lib/mc.hpp"
#include "lib/sched.hpp"

using alaya::diskann::TombstoneBitmap;
using alaya::diskann::TombstoneSnapshot;
namespace {
constexpr uint64_t C = TombstoneBitmap::kChunkBits;

struct Op {
  int kind;  // 0 set, 1 clear, 2 query
  uint64_t bit;
};
struct Rec {
  Op op;
  uint64_t s, e;
  bool val;
};
// histories of single-bit registers: r may return the value of a change w unless another change lies wholly between
void check_history(const std::vector<Rec> &h, const std::set<uint64_t> &initial, const char *what) {
  for (auto &r : h) {
    if (r.op.kind != 2) continue;
    bool ok = false;
    auto covered = [&](uint64_t wend) {  // a change that starts after wend and ends before the query
      for (auto &w : h)
        if (w.op.kind != 2 && w.op.bit == r.op.bit && w.s > wend && w.e < r.s) return true;
      return false;
    };
    if (initial.count(r.op.bit) == size_t(r.val)) {
      bool any_before = false;
      for (auto &w : h) any_before |= w.op.kind != 2 && w.op.bit == r.op.bit && w.e < r.s;
      ok |= !any_before;
    }
    for (auto &w : h)
      if (!ok && w.op.kind != 2 && w.op.bit == r.op.bit && w.s < r.e && (w.op.kind == 0) == r.val && !covered(w.e)) ok = true;
    MC_REQUIRE(ok, "wrong-mark", "%s: a query of position %llu returned %s although no completed or running change explains it", what, (unsigned long long)r.op.bit, r.val ? "deleted" : "live");
  }
}

void concurrent(std::vector<std::vector<Op>> progs, std::vector<uint64_t> initial, uint64_t presize, int pb) {
  auto bm = std::make_unique<TombstoneBitmap>(presize);
  std::set<uint64_t> init(initial.begin(), initial.end());
  for (auto b : init) bm->set(b);
  sched::Options o;
  o.preemptions = mc::thorough() ? pb + 2 : pb;
  std::vector<Rec> hist;
  hist.reserve(64);
  sched::run(o, [&] {
    std::vector<std::thread> t;
    for (auto &p : progs)
      t.emplace_back([&, p] {
        for (auto &op : p) {
          Rec r{op, sched::now(), 0, false};
          if (op.kind == 0)
            bm->set(op.bit);
          else if (op.kind == 1)
            bm->clear(op.bit);
          else
            r.val = bm->is_deleted(op.bit);
          r.e = sched::now() + 1;
          sched::NoPreempt np;
          hist.push_back(r);
        }
      });
    for (auto &x : t) x.join();
  });
  // the end state as seen by fresh queries (they run after everything)
  std::set<uint64_t> touched = init;
  for (auto &r : hist) touched.insert(r.op.bit);
  uint64_t end = sched::now() + 10, marks = 0, top = 0;
  auto all = hist;
  TombstoneSnapshot snap;
  bm->snapshot_into(snap);
  for (auto b : touched) {
    bool v = bm->is_deleted(b);
    marks += v;
    all.push_back({{2, b}, end, end + 1, v});
    MC_REQUIRE(snap.is_deleted(b) == v, "snapshot", "snapshot and bitmap disagree about %llu", (unsigned long long)b);
    for (uint64_t nb : {b - 1, b + 1, b ^ 64, b + C})
      if (!touched.count(nb)) MC_REQUIRE(!bm->is_deleted(nb), "neighbour", "position %llu was never marked but is deleted", (unsigned long long)nb);
  }
  for (auto &r : all)
    if (r.op.kind == 0) top = std::max(top, r.op.bit + 1);
  for (auto b : init) top = std::max(top, b + 1);
  check_history(all, init, "concurrent");
  MC_REQUIRE(bm->count() == marks, "count", "count %llu, %llu marked positions", (unsigned long long)bm->count(), (unsigned long long)marks);
  MC_REQUIRE(bm->capacity() >= top && bm->capacity() >= presize, "capacity", "capacity %llu does not cover %llu", (unsigned long long)bm->capacity(), (unsigned long long)top);
  MC_REQUIRE(snap.capacity() == bm->capacity(), "snapshot-capacity", "snapshot capacity %llu", (unsigned long long)snap.capacity());
  mc::state(mc::mix(marks, sched::now()));
}

// the documented snapshot discipline: mutators under an exclusive lock, snapshots under the shared side
void snapshots() {
  auto bm = std::make_unique<TombstoneBitmap>(128);
  sched::Options o;
  o.preemptions = mc::thorough() ? 2 : 1;
  sched::run(o, [&] {
    std::shared_mutex mu;
    std::vector<std::thread> t;
    t.emplace_back([&] {
      {
        std::unique_lock l(mu);
        bm->set(3);
        bm->set(70);
      }
      std::unique_lock l(mu);
      bm->clear(3);
      bm->clear(70);
    });
    for (int i = 0; i < 1; ++i)
      t.emplace_back([&] {
        TombstoneSnapshot s;
        {
          std::shared_lock l(mu);
          bm->snapshot_into(s);
        }
        MC_REQUIRE(s.is_deleted(3) == s.is_deleted(70), "torn-snapshot", "a snapshot holds half of a change");
        MC_REQUIRE(!s.is_deleted(4) && !s.is_deleted(1000000), "invented", "snapshot invents a mark");
      });
    for (auto &x : t) x.join();
  });
}

}  // namespace

int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P23";
  sp.level = "model_checking";
  sp.rule = "a schedule is non-trivial when it contains a preemption; a sequence when more than one mark is set at its end";
  sp.assumptions = {"sequentially consistent executions, plus a happens-before race monitor that honours the memory orders used"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b, bool iso, bool deep = false) {
    mc::Scenario s{n, b, deep};
    s.isolate = iso;
    sc.push_back(s);
  };
  using P = std::vector<std::vector<Op>>;
  using V = std::vector<uint64_t>;
  add("same-word-2w1r", [] { concurrent(P{{{0, 1}, {1, 1}}, {{0, 2}, {1, 3}}, {{2, 1}, {2, 3}, {2, 2}}}, V{3}, 64, 3); }, true);
  add("same-bit-2w1r", [] { concurrent(P{{{0, 7}, {1, 7}}, {{1, 7}, {0, 7}}, {{2, 7}, {2, 7}}}, V{}, 64, 3); }, true);
  add("growth-2w1r", [] { concurrent(P{{{0, C + 1}}, {{0, C + 2}}, {{2, C + 1}, {2, C + 2}}}, V{5}, 64, 3); }, true);
  add("growth-two-chunks", [] { concurrent(P{{{0, 2 * C}}, {{0, C}, {1, C}}, {{2, 2 * C}, {2, C}}}, V{}, 0, 3); }, true);
  add("growth-skip", [] { concurrent(P{{{0, 3 * C + 63}, {1, 0}}, {{2, 3 * C + 63}, {2, 0}}}, V{0}, 1, 4); }, true);
  add("query-vs-set-clear", [] { concurrent(P{{{0, 1}, {0, 65}, {1, 1}}, {{2, 1}, {2, 65}, {2, 1}}}, V{}, 128, 5); }, true);
  add("three-writers", [] { concurrent(P{{{0, 1}}, {{0, 2}}, {{1, 3}}}, V{3}, 64, 4); }, true);
  add("snapshot-discipline", [] { snapshots(); }, true);
  return mc::run_main(argc, argv, sp, sc);
}
