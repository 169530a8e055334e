// P22: slot allocator - every sequence of operations up to a depth, saved-state damage, and use under the
// owner's lock from several threads.
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include "index/graph/diskann/slot_allocator.hpp"
#include "lib/mc.hpp"

using alaya::diskann::SlotAllocator;
namespace {
struct Model {
  std::vector<uint32_t> fresh;           // allocated, not yet published
  std::set<uint32_t> free;               // released
  uint32_t n = 0;                        // ids handed out so far
  bool live(uint32_t id) const { return id < n && !free.count(id) && std::find(fresh.begin(), fresh.end(), id) == fresh.end(); }
  int64_t lowest() const {
    for (uint32_t i = 0; i < n; ++i)
      if (live(i)) return i;
    return -1;
  }
  int64_t highest() const {
    for (int64_t i = int64_t(n) - 1; i >= 0; --i)
      if (live(uint32_t(i))) return i;
    return -1;
  }
};
void compare(const SlotAllocator &a, const Model &m, const char *when) {
  std::set<uint32_t> f(a.free_list().begin(), a.free_list().end());
  MC_REQUIRE(f.size() == a.free_list().size() && a.free_count() == f.size(), "free-list-duplicate", "%s: the free list holds %zu entries for %zu ids", when, a.free_list().size(), f.size());
  MC_REQUIRE(f == m.free, "free-list", "%s: %zu ids on the free list, %zu released", when, f.size(), m.free.size());
  MC_REQUIRE(a.next_fresh_id() == m.n, "next-id", "%s: next fresh id %u, expected %u", when, a.next_fresh_id(), m.n);
  uint64_t del = 0;
  auto one = [&](uint32_t id) {
    bool want = id < m.n && !m.live(id);
    del += want;
    MC_REQUIRE(a.is_deleted(id) == want, "visibility", "%s: slot %u is reported %s", when, id, want ? "live" : "deleted");
  };
  // all ids near the boundaries the sequence can reach
  uint32_t lo = m.n > 24 ? m.n - 24 : 0;
  for (uint32_t id = 0; id < std::min<uint32_t>(lo, 8); ++id) one(id);
  for (uint32_t id = lo; id < m.n + 2; ++id) one(id);
  MC_REQUIRE(a.tombstone_count() == m.fresh.size() + m.free.size(), "count", "%s: %llu deletion marks, %zu slots are not live", when, (unsigned long long)a.tombstone_count(), m.fresh.size() + m.free.size());
}
void sequences(int depth) {
  static const uint32_t kStart[] = {0, 3, 65534, 65536};
  uint32_t start = kStart[mc::choose(4, "existing slots")];
  auto a = std::make_unique<SlotAllocator>(start);
  Model m;
  m.n = start;
  std::string path = mc::fresh_dir() + "/slots";
  compare(*a, m, "start");
  uint64_t h = start;
  for (int d = 0; d < depth; ++d) {
    int op = mc::choose(7, "operation");
    if (op == 0) {  // alloc
      uint32_t id = a->alloc();
      mc::note("alloc -> %u", id);
      MC_REQUIRE(!m.live(id), "live-slot-handed-out", "alloc returned the live slot %u", id);
      MC_REQUIRE(std::find(m.fresh.begin(), m.fresh.end(), id) == m.fresh.end(), "slot-handed-out-twice", "alloc returned slot %u which another caller holds", id);
      if (!m.free.empty()) {
        MC_REQUIRE(m.free.count(id), "free-slot-not-reused", "alloc returned %u although %zu released slots are available", id, m.free.size());
        m.free.erase(id);
      } else {
        MC_REQUIRE(id == m.n, "gap", "alloc returned fresh id %u, expected %u", id, m.n);
        ++m.n;
      }
      m.fresh.push_back(id);
    } else if (op == 1 || op == 2) {  // publish oldest / newest
      if (m.fresh.empty() || (op == 2 && m.fresh.size() == 1)) mc::assume(false);
      size_t k = op == 1 ? 0 : m.fresh.size() - 1;
      uint32_t id = m.fresh[k];
      m.fresh.erase(m.fresh.begin() + k);
      a->publish(id);
      mc::note("publish %u", id);
    } else if (op == 3) {  // free a published slot: lowest, highest
      int64_t lo = m.lowest(), hi = m.highest();
      if (lo < 0) mc::assume(false);
      uint32_t id = uint32_t(hi > lo && mc::choose(2, "which") ? hi : lo);
      m.free.insert(id);
      a->free(id);
      mc::note("free %u", id);
    } else if (op == 4) {  // give up an unpublished slot
      if (m.fresh.empty()) mc::assume(false);
      uint32_t id = m.fresh.back();
      m.fresh.pop_back();
      m.free.insert(id);
      a->free(id);
      mc::note("abandon %u", id);
    } else if (op == 6) {  // start over for another index
      uint32_t n = std::vector<uint32_t>{0, 5, 65537}[mc::choose(3, "new size")];
      a->reset(n);
      m = Model{};
      m.n = n;
      mc::note("reset to %u", n);
    } else {  // save, load into another allocator that already holds something else
      a->save(path);
      auto b = std::make_unique<SlotAllocator>(mc::choose(2, "loaded into") ? 200000u : 0u);
      if (b->next_fresh_id()) {
        b->free(7);
        b->free(150000);
      }
      b->load(path);
      a = std::move(b);
      mc::note("save+load");
      mc::nontrivial();
    }
    compare(*a, m, "after an operation");
    h = mc::mix(h, uint64_t(m.fresh.size()) << 40 | uint64_t(m.free.size()) << 32 | m.n);
    mc::state(h);
    mc::step();
  }
  // everything that is free comes back exactly once, then fresh ids follow
  std::set<uint32_t> want = m.free, got;
  for (size_t i = 0; i < want.size(); ++i) got.insert(a->alloc());
  MC_REQUIRE(got == want, "free-slots-lost", "draining returned %zu distinct ids of %zu released ones", got.size(), want.size());
  MC_REQUIRE(a->alloc() == m.n, "fresh-id", "the next fresh id is not %u", m.n);
}
// every truncation and every single-bit change of the header of a saved file
void damage() {
  SlotAllocator a(5);
  int n = mc::choose(3, "released slots");
  a.alloc();
  a.publish(a.alloc());
  for (int i = 0; i < n; ++i) a.free(i);
  std::string path = mc::fresh_dir() + "/slots";
  a.save(path);
  size_t sz = std::filesystem::file_size(path);
  size_t head = 24 + 4 * n + 16;  // up to the first bitmap word
  int kind = mc::choose(2, "damage");
  if (kind == 0) {
    // every length, longest first (each truncation shortens the previous one)
    for (size_t cut = sz; cut-- > 0;) {
      std::filesystem::resize_file(path, cut);
      bool threw = false;
      try {
        SlotAllocator b;
        b.load(path);
      } catch (const std::exception &) {
        threw = true;
      }
      MC_REQUIRE(threw, "truncated-accepted", "a file cut to %zu of %zu bytes was loaded", cut, sz);
    }
  } else {
    std::fstream f(path, std::ios::binary | std::ios::in | std::ios::out);
    int which = mc::choose(2, "magic");
    size_t off = (which ? 24 + 4 * n : 0) + mc::choose(8, "byte");
    f.seekg(off);
    char c;
    f.get(c);
    c = char(c ^ (1 << mc::choose(8, "bit")));
    f.seekp(off);
    f.put(c);
    f.close();
    bool threw = false;
    try {
      SlotAllocator b;
      b.load(path);
    } catch (const std::exception &) {
      threw = true;
    }
    MC_REQUIRE(threw, "damaged-accepted", "a file with a changed magic number (byte %zu) was loaded", off);
  }
  {  // a missing file
    bool threw = false;
    try {
      SlotAllocator b;
      b.load(path + ".none");
    } catch (const std::exception &) {
      threw = true;
    }
    MC_REQUIRE(threw, "missing-accepted", "a missing file was loaded");
  }
  mc::nontrivial();
  mc::step();
}
// a fresh id beyond 32 bits is not accepted from a file
void wide_next() {
  SlotAllocator a(2);
  std::string path = mc::fresh_dir() + "/slots";
  a.save(path);
  std::fstream f(path, std::ios::binary | std::ios::in | std::ios::out);
  uint64_t next = (1ull << 32) << mc::choose(8, "shift");
  f.seekp(8);
  f.write(reinterpret_cast<char *>(&next), 8);
  f.close();
  bool threw = false;
  try {
    SlotAllocator b;
    b.load(path);
  } catch (const std::exception &) {
    threw = true;
  }
  MC_REQUIRE(threw, "wide-id-accepted", "next id %llx was accepted", (unsigned long long)next);
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P22";
  sp.level = "model_checking";
  sp.rule = "a sequence is non-trivial when it contains a save/load cycle; a damage execution always is";
  sp.assumptions = {"callers release only slots they hold (publish/free of foreign slots is outside the contract)"};
  std::vector<mc::Scenario> sc;
  sc.push_back({"sequences-5", [] { sequences(5); }});
  sc.push_back({"sequences-6", [] { sequences(6); }, true});
  sc.push_back({"damage", [] { damage(); }});
  sc.push_back({"wide-next", [] { wide_next(); }});
  return mc::run_main(argc, argv, sp, sc);
}
