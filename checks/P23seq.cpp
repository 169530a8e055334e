// P23: every sequence of operations on the deletion bitmap; damaged files.
#include <algorithm>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include "index/graph/diskann/tombstone_bitmap.hpp"
#include "lib/mc.hpp"

using alaya::diskann::TombstoneBitmap;
using alaya::diskann::TombstoneSnapshot;
namespace {
constexpr uint64_t C = TombstoneBitmap::kChunkBits;

// every sequence of operations against a set
void sequences(int depth) {
  static const uint64_t kBits[] = {0, 63, 64, C - 1, C, 3 * C + 5};
  uint64_t presize = std::vector<uint64_t>{0, 64, C + 1}[mc::choose(3, "initial size")];
  auto bm = std::make_unique<TombstoneBitmap>(presize);
  std::set<uint64_t> m;
  uint64_t top = presize;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(14, "operation");
    if (op < 6) {
      bm->set(kBits[op]);
      m.insert(kBits[op]);
      top = std::max(top, kBits[op] + 1);
    } else if (op < 12) {
      bm->clear(kBits[op - 6]);
      m.erase(kBits[op - 6]);
    } else if (op == 12) {
      bm->reset(10);
      m.clear();
      top = 10;
    } else {
      std::stringstream ss;
      bm->serialize(ss);
      auto b2 = std::make_unique<TombstoneBitmap>(mc::choose(2, "target") ? 4 * C : 0);
      if (b2->capacity()) b2->set(3 * C + 77), b2->set(1);
      b2->deserialize(ss);
      MC_REQUIRE(b2->capacity() == bm->capacity(), "reload-capacity", "reloaded capacity differs");
      MC_REQUIRE(!b2->is_deleted(3 * C + 77) && !b2->is_deleted(1), "reload-leftover", "a mark from before the reload survived");
      bm = std::move(b2);
    }
    for (auto b : kBits) MC_REQUIRE(bm->is_deleted(b) == (m.count(b) > 0), "value", "position %llu is %s after step %d", (unsigned long long)b, m.count(b) ? "live but was marked" : "deleted but was not marked", d);
    for (uint64_t b : {uint64_t(1), uint64_t(62), uint64_t(65), C - 2, C + 1, 2 * C, 3 * C + 4, 9 * C, uint64_t(1) << 33}) MC_REQUIRE(!bm->is_deleted(b), "invented", "position %llu", (unsigned long long)b);
    MC_REQUIRE(bm->count() == m.size(), "count", "count %llu, expected %zu", (unsigned long long)bm->count(), m.size());
    MC_REQUIRE(bm->capacity() >= top && bm->capacity() % 64 == 0, "capacity", "capacity %llu does not cover %llu", (unsigned long long)bm->capacity(), (unsigned long long)top);
    TombstoneSnapshot s;
    bm->snapshot_into(s);
    for (auto b : kBits) MC_REQUIRE(s.is_deleted(b) == (m.count(b) > 0), "snapshot", "position %llu", (unsigned long long)b);
    mc::step();
  }
  uint64_t h = presize;
  for (auto b : m) h = mc::mix(h, b);
  mc::state(mc::mix(h, top));
  if (m.size() > 1) mc::nontrivial();
}

void truncated() {
  TombstoneBitmap a(64);
  a.set(5);
  a.set(C + 9);
  std::stringstream ss;
  a.serialize(ss);
  std::string all = ss.str();
  int k = mc::choose(96, "cut");
  size_t cut = k < 32 ? k : all.size() - 1 - (k - 32) * (k - 32) * 4;
  std::stringstream in(all.substr(0, cut));
  bool threw = false;
  try {
    TombstoneBitmap b;
    b.deserialize(in);
  } catch (const std::exception &) {
    threw = true;
  }
  MC_REQUIRE(threw, "truncated-accepted", "%zu of %zu bytes were accepted", cut, all.size());
  for (int byte = 0; byte < 8; ++byte) {
    std::string bad = all;
    bad[byte] = char(bad[byte] ^ 1);
    std::stringstream i2(bad);
    threw = false;
    try {
      TombstoneBitmap b;
      b.deserialize(i2);
    } catch (const std::exception &) {
      threw = true;
    }
    MC_REQUIRE(threw, "damaged-accepted", "changed magic byte %d was accepted", byte);
  }
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P23";
  sp.level = "model_checking";
  sp.rule = "a sequence is non-trivial when more than one mark is set at its end";
  std::vector<mc::Scenario> sc;
  sc.push_back({"sequences-4", [] { sequences(4); }});
  sc.push_back({"sequences-5", [] { sequences(5); }, true});
  sc.push_back({"truncated", [] { truncated(); }});
  return mc::run_main(argc, argv, sp, sc);
}
