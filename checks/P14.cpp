// P14 candidate pools: every bounded sequence of offers and expansions, and the visited sets beside them.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include "lib/mc.hpp"
#include "index/graph/diskann/visited_bitset.hpp"
#include "index/graph/laser/utils/buffer.hpp"
#include "index/graph/vamana/robust_prune.hpp"
#include "index/neighbor.hpp"
#include "utils/query_utils.hpp"
#include "utils/rabitq_utils/search_utils/buffer.hpp"
#include "utils/rabitq_utils/search_utils/hashset.hpp"
#include "utils/rabitq_utils/search_utils/visited_pool.hpp"

namespace {
struct Cand {
  uint32_t id;
  float d;
};
constexpr uint32_t kTop = 1u << 31;

// One adapter per pool. `insert` says whether the candidate was taken (-1: the pool does not say).
struct Linear {
  static constexpr bool dedups = false, ids_break_ties = false, expands = true, readable = true, clears = false;
  alaya::LinearPool<float, uint32_t> p;
  explicit Linear(int cap) : p(1000, cap) {}
  int insert(Cand c) { return p.insert(c.id, c.d); }
  bool has_next() { return p.has_next(); }
  uint32_t peek() { return p.next_id(); }
  Cand pop() {
    float d = -99;
    uint32_t id = p.pop(d);
    return {id, d};
  }
  bool pop_has_dist() { return true; }
  std::vector<Cand> all() {
    std::vector<Cand> o;
    for (size_t i = 0; i < p.size(); ++i) o.push_back({p.id(uint32_t(i)), p.dist(uint32_t(i))});
    return o;
  }
  void clear() {}
};
struct Rabit {
  static constexpr bool dedups = false, ids_break_ties = false, expands = true, readable = true, clears = true;
  alaya::SearchBuffer<float> p;
  int cap;
  explicit Rabit(int c) : p(size_t(c)), cap(c) {}
  int insert(Cand c) {
    bool worse = p.is_full(c.d);
    int r = p.insert(c.id, c.d);
    MC_REQUIRE(r == !worse, "search buffer admission", "is_full says %d, insert says %d", worse, r);
    return r;
  }
  bool has_next() { return p.has_next(); }
  uint32_t peek() { return p.next_id() & ~kTop; }
  Cand pop() { return {p.pop(), 0}; }
  bool pop_has_dist() { return false; }
  std::vector<Cand> all() {
    std::vector<Cand> o;
    for (size_t i = 0; i < p.size(); ++i) o.push_back({p.data()[i].id_ & ~kTop, p.data()[i].distance_});
    std::vector<uint32_t> ids(p.size() + 1, 12345), two(3, 12345);
    p.copy_results_to(ids.data());
    p.copy_results_to(two.data(), 2);
    for (size_t i = 0; i < o.size(); ++i) {
      MC_REQUIRE((ids[i] & ~kTop) == o[i].id, "result copy", "copied id %u at %zu, the buffer has %u", ids[i], i, o[i].id);
      if (i < 2) MC_REQUIRE((two[i] & ~kTop) == o[i].id, "result copy", "copied id %u at %zu, the buffer has %u", two[i], i, o[i].id);
    }
    MC_REQUIRE(ids[p.size()] == 12345 && two[2] == 12345, "result copy", "wrote beyond the results");
    float top = p.top_dist();
    if (p.size() == size_t(cap) && !o.empty()) MC_REQUIRE(top == o.back().d, "top distance", "top_dist %g, the farthest kept is %g", top, o.back().d);
    else MC_REQUIRE(top == std::numeric_limits<float>::max(), "top distance", "top_dist %g while there is room", top);
    return o;
  }
  void clear() { p.clear(); }
};
struct Laser {
  static constexpr bool dedups = false, ids_break_ties = false, expands = true, readable = false, clears = true;
  alaya::laser::buffer::SearchBuffer p;
  explicit Laser(int c) : p(size_t(c)) {}
  int insert(Cand c) {  // its callers ask first
    if (p.is_full(c.d)) return 0;
    p.insert(c.id, c.d);
    return 1;
  }
  bool has_next() { return p.has_next(); }
  uint32_t peek() { return p.next_id() & ~kTop; }
  Cand pop() { return {p.pop(), 0}; }
  bool pop_has_dist() { return false; }
  std::vector<Cand> all() { return {}; }
  void clear() { p.clear(); }
};
struct LaserResult {
  static constexpr bool dedups = false, ids_break_ties = false, expands = false, readable = true, clears = false;
  alaya::laser::buffer::ResultBuffer p;
  std::map<uint32_t, float> seen;
  size_t n = 0, cap;
  explicit LaserResult(int c) : p(size_t(c)), cap(size_t(c)) {}
  int insert(Cand c) {
    p.insert(c.id, c.d);
    seen[c.id] = c.d;
    n = std::min(cap, n + 1);
    MC_REQUIRE(p.is_full() == (n == cap), "result buffer full", "is_full %d with %zu of %zu", p.is_full(), n, cap);
    return -1;
  }
  bool has_next() { return false; }
  uint32_t peek() { return 0; }
  Cand pop() { return {0, 0}; }
  bool pop_has_dist() { return false; }
  std::vector<Cand> all() {
    std::vector<Cand> o;
    std::vector<uint32_t> out(cap + 1, 12345);
    p.copy_results(out.data());
    MC_REQUIRE(out[cap] == 12345, "result copy", "wrote beyond the results");
    for (size_t i = 0; i < n; ++i) {
      MC_REQUIRE(out[i] == p.ids()[i], "result copy", "copied id %u at %zu, the buffer has %u", out[i], i, p.ids()[i]);
      MC_REQUIRE(seen.count(out[i]), "unknown id", "result %zu is id %u, which was never offered", i, out[i]);
      o.push_back({out[i], seen[out[i]]});
    }
    return o;
  }
  void clear() {}
};
struct Vamana {
  static constexpr bool dedups = true, ids_break_ties = true, expands = true, readable = true, clears = true;
  alaya::vamana::NeighborPriorityQueue p;
  explicit Vamana(int c) {
    if (c & 1) p = alaya::vamana::NeighborPriorityQueue(size_t(c));
    else p.reserve(size_t(c));
  }
  int insert(Cand c) {
    std::multiset<uint32_t> before;
    for (size_t i = 0; i < p.size(); ++i) before.insert(p[i].id);
    auto r = p.insert_with_result(alaya::vamana::Neighbor(c.id, c.d));
    std::multiset<uint32_t> after;
    for (size_t i = 0; i < p.size(); ++i) after.insert(p[i].id);
    if (r.inserted) before.insert(c.id);
    if (r.evicted) {
      MC_REQUIRE(before.count(r.evicted_id), "eviction report", "id %u was reported evicted and was not there", r.evicted_id);
      before.erase(before.find(r.evicted_id));
    }
    MC_REQUIRE(before == after, "eviction report", "the reported insertion and eviction do not explain the new contents");
    return r.inserted;
  }
  bool has_next() { return p.has_unexpanded_node(); }
  uint32_t peek() { return ~0u; }
  Cand pop() {
    auto n = p.closest_unexpanded();
    return {n.id, n.distance};
  }
  bool pop_has_dist() { return true; }
  std::vector<Cand> all() {
    std::vector<Cand> o;
    for (size_t i = 0; i < p.size(); ++i) o.push_back({p[i].id, p[i].distance});
    return o;
  }
  void clear() { p.clear(); }
};

struct Ref {  // everything offered, with what happened to it
  int cap;
  bool ties;
  std::vector<Cand> offered;
  std::set<uint32_t> popped;
  std::set<uint32_t> gone;  // known to have left or never entered (only used where the pool is not readable)
  std::vector<Cand> best() const {  // the k closest; `ties`: exact set, otherwise only the distances are determined
    auto v = offered;
    std::sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.d < b.d || (a.d == b.d && a.id < b.id); });
    if (v.size() > size_t(cap)) v.resize(size_t(cap));
    return v;
  }
};

template <class P>
void compare(P &p, const Ref &r) {
  auto want = r.best();
  if constexpr (P::readable) {
    auto got = p.all();
    MC_REQUIRE(got.size() == want.size(), "pool size", "%zu candidates held, %zu of %zu offered should be (capacity %d)", got.size(), want.size(), r.offered.size(), r.cap);
    std::set<uint32_t> ids;
    bool open = false;
    for (size_t i = 0; i < got.size(); ++i) {
      MC_REQUIRE(ids.insert(got[i].id).second, "duplicate candidate", "id %u is held twice", got[i].id);
      MC_REQUIRE(got[i].d == want[i].d, "pool contents", "position %zu has distance %g, the best so far has %g there", i, got[i].d, want[i].d);
      bool found = false;
      for (auto &c : r.offered) found |= c.id == got[i].id && c.d == got[i].d;
      MC_REQUIRE(found, "unknown candidate", "id %u with distance %g was never offered", got[i].id, got[i].d);
      if (r.ties) MC_REQUIRE(got[i].id == want[i].id, "pool contents", "position %zu is id %u, should be %u", i, got[i].id, want[i].id);
      open |= !r.popped.count(got[i].id);
    }
    if (P::expands) MC_REQUIRE(p.has_next() == open, "unexpanded candidates", "has_next is %d and there %s an unexpanded candidate", p.has_next(), open ? "is" : "is not");
    if (P::expands && open) {
      uint32_t pk = p.peek();
      for (auto &c : got)
        if (!r.popped.count(c.id)) {
          if (pk != ~0u) MC_REQUIRE(pk == c.id, "next candidate", "next is %u, the nearest unexpanded is %u", pk, c.id);
          break;
        }
    }
  }
}
template <class P>
void pop(P &p, Ref &r) {
  bool open_before = p.has_next();
  if (!open_before) {
    mc::assume(false);
  }
  uint32_t pk = p.peek();
  Cand c = p.pop();
  MC_REQUIRE(pk == ~0u || pk == c.id, "next candidate", "next was %u, popped %u", pk, c.id);
  const Cand *o = nullptr;
  for (auto &x : r.offered)
    if (x.id == c.id) o = &x;
  MC_REQUIRE(o, "unknown candidate", "expanded id %u, which was never offered", c.id);
  if (p.pop_has_dist()) MC_REQUIRE(c.d == o->d, "expanded distance", "id %u expanded with distance %g, offered with %g", c.id, c.d, o->d);
  MC_REQUIRE(r.popped.insert(c.id).second, "expanded twice", "id %u was expanded a second time", c.id);
  // nobody among the best, unexpanded and strictly nearer may be skipped; the expanded one is among the best
  auto want = r.best();
  MC_REQUIRE(o->d <= want.back().d, "expanded candidate", "id %u (distance %g) expanded, which is not among the best", c.id, o->d);
  for (auto &w : want)
    if (!r.popped.count(w.id)) MC_REQUIRE(!(w.d < o->d), "expansion order", "id %u at %g expanded before id %u at %g", c.id, o->d, w.id, w.d);
}

template <class P>
void seq(int depth, int maxcap, int levels) {
  int cap = 1 + mc::choose(maxcap, "capacity");
  P p(cap);
  Ref r{cap, P::ids_break_ties, {}, {}, {}};
  static const float dist[] = {0.5f, -1.0f, 2.0f, 3.25f, 1e30f};
  // ids in an order that is neither ascending nor descending
  static const uint32_t ids[] = {5, 9, 2, 7, 11, 0, 4, 12, 1, 8, 3, 6, 10};
  size_t next = 0;
  for (int i = 0; i < depth; ++i) {
    int nre = P::dedups ? std::min<int>(3, int(r.offered.size())) : 0;
    int op = mc::choose(levels + (P::expands ? 1 : 0) + nre + (P::clears ? 1 : 0) + 1, "op");
    mc::step();
    if (op < levels) {
      Cand c{ids[next++], dist[op]};
      auto before = r.best();
      mc::note("offer id %u at %g", c.id, c.d);
      int took = p.insert(c);
      bool better = before.size() < size_t(cap) || c.d < before.back().d, worse = before.size() == size_t(cap) && c.d > before.back().d;
      if (took == 1) MC_REQUIRE(!worse, "insert result", "id %u at %g taken although the pool is full of better ones", c.id, c.d);
      if (took == 0) MC_REQUIRE(!better, "insert result", "id %u at %g refused although it is among the best", c.id, c.d);
      r.offered.push_back(c);
      if (r.offered.size() > size_t(cap)) mc::nontrivial();
    } else if ((op -= levels) == 0) {  // stop early: the final drain below sees every prefix
      break;
    } else if (P::expands && --op == 0) {
      mc::note("expand");
      pop(p, r);
    } else if (P::dedups && (op - (P::expands ? 1 : 1)) < nre) {
      int k = op - 1;
      size_t at = k == 0 ? 0 : (k == 1 ? r.offered.size() - 1 : r.offered.size() / 2);
      Cand c = r.offered[at];
      mc::note("offer id %u again", c.id);
      auto b = r.best();
      bool held = std::any_of(b.begin(), b.end(), [&](auto &x) { return x.id == c.id; });
      int took = p.insert(c);
      MC_REQUIRE(!took, "insert result", "id %u taken again%s", c.id, held ? " while held" : " after it fell out");
    } else {
      mc::note("clear");
      p.clear();
      r.offered.clear();
      r.popped.clear();
      next = (next + 1) % 3;
    }
    compare(p, r);
  }
  uint64_t h = mc::mix(uint64_t(cap), P::expands);
  for (auto &c : r.offered) h = mc::mix(h, uint64_t(c.id) * 131 + uint64_t(c.d * 4 + 64) + r.popped.count(c.id) * 7919);
  mc::state(h);
  // drain: expansion hands out exactly the unexpanded ones still held, nearest first
  if (P::expands) {
    size_t left = 0;
    for (int guard = 0; p.has_next(); ++guard) {
      MC_REQUIRE(guard < 100, "never exhausted", "has_next stays true");
      pop(p, r);
      ++left;
    }
    compare(p, r);
    auto want = r.best();
    float worst = want.empty() ? 0 : want.back().d;
    for (auto &w : want)
      if (w.d < worst || want.size() == r.offered.size() || r.ties) MC_REQUIRE(r.popped.count(w.id), "lost candidate", "id %u at %g is among the best and was never handed out", w.id, w.d);
    size_t tied = 0, tied_popped = 0;
    for (auto &w : want) tied += w.d == worst;
    for (auto &c : r.offered) tied_popped += c.d == worst && r.popped.count(c.id);
    MC_REQUIRE(tied_popped >= tied, "lost candidate", "%zu of the farthest ties handed out, %zu fit", tied_popped, tied);
  }
}

// All orders in which a fixed set of distinct distances can arrive, expanding at every second step or not at all.
template <class P>
void perms(int n) {
  static const int caps[] = {1, 2, 3, 5, 7, 8};
  int cap = caps[mc::choose(6, "capacity")];
  int rhythm = P::expands ? mc::choose(3, "expand every") : 0;
  P p(cap);
  Ref r{cap, P::ids_break_ties, {}, {}, {}};
  std::vector<int> left;
  for (int i = 0; i < n; ++i) left.push_back(i);
  for (int i = 0; i < n; ++i) {
    int k = mc::choose(int(left.size()), "next distance");
    int v = left[size_t(k)];
    left.erase(left.begin() + k);
    Cand c{uint32_t(100 + i), float(v) * 1.5f - 3.0f};
    p.insert(c);
    r.offered.push_back(c);
    mc::step();
    if (rhythm && i % rhythm == 0 && p.has_next()) pop(p, r);
    compare(p, r);
  }
  if (n > cap) mc::nontrivial();
  mc::state(mc::mix(uint64_t(cap), r.popped.size()));
}

// the free-standing sorted insertion of index/neighbor.hpp (pool of K sorted entries, K+1 slots)
void flat_insert() {
  int K = 1 + mc::choose(4, "entries");
  std::vector<alaya::Neighbor<uint32_t>> pool(size_t(K) + 1);
  std::vector<int> d(static_cast<size_t>(K), 0);
  for (int i = 0; i < K; ++i) {
    d[size_t(i)] = i ? d[size_t(i) - 1] + mc::choose(2, "gap") : 0;
    pool[size_t(i)] = {uint32_t(10 + i), float(d[size_t(i)]), i % 2 == 0};
  }
  int at = mc::choose(2 * d.back() + 3, "distance") - 1;  // every gap and every tie, in halves
  float nd = float(at) * 0.5f;
  uint32_t id = 99;
  int dup = mc::choose(K + 1, "repeat");
  if (dup < K) {
    id = uint32_t(10 + dup);
    nd = float(d[size_t(dup)]);
  }
  auto before = pool;
  mc::step();
  int r = alaya::insert_into_pool<uint32_t>(pool.data(), K, {id, nd, true});
  if (dup < K) {
    mc::nontrivial();
    MC_REQUIRE(r == K + 1, "sorted insert", "a candidate already held was reported at %d of %d", r, K);
    for (int i = 0; i < K; ++i) MC_REQUIRE(pool[size_t(i)].id_ == before[size_t(i)].id_, "sorted insert", "a repeated candidate changed the pool");
    return;
  }
  MC_REQUIRE(r >= 0 && r <= K && pool[size_t(r)].id_ == 99, "sorted insert", "reported position %d of %d does not hold the candidate", r, K);
  std::multiset<uint32_t> a, b;
  for (int i = 0; i < K; ++i) a.insert(before[size_t(i)].id_);
  a.insert(99);
  for (int i = 0; i <= K; ++i) {
    b.insert(pool[size_t(i)].id_);
    if (i) MC_REQUIRE(pool[size_t(i) - 1].distance_ <= pool[size_t(i)].distance_, "sorted insert", "out of order at %d", i);
    for (auto &o : before)
      if (o.id_ == pool[size_t(i)].id_ && o.id_ >= 10) MC_REQUIRE(o.flag_ == pool[size_t(i)].flag_, "sorted insert", "the mark of id %u changed", o.id_);
  }
  MC_REQUIRE(a == b, "sorted insert", "the entries are not the old ones and the new one");
  mc::state(mc::mix(uint64_t(K), uint64_t(r)));
}

// ---- visited sets ---------------------------------------------------------------------------------
struct VBits {
  alaya::DynamicBitset s;
  explicit VBits(size_t n) : s(n) {}
  bool get(uint32_t i) { return s.get(i); }
  void set(uint32_t i) { s.set(i); }
  bool reset(uint32_t i) { s.reset(i); return true; }
  bool clear() { s.clear(); return true; }
  int fill() { s.set_all(); return 1; }
  int first(int) { return -2; }
};
template <class T>
struct VEpoch {
  alaya::EpochVisitedSet<T> s;
  explicit VEpoch(size_t n) : s(n) {}
  bool get(uint32_t i) { return s.get(i); }
  void set(uint32_t i) { s.set(i); }
  bool reset(uint32_t) { return false; }
  bool clear() { s.clear(); return true; }
  int fill() { return 0; }
  int first(int) { return -2; }
};
struct VSparse {
  alaya::SparseBitset s;
  explicit VSparse(size_t) {}
  bool get(uint32_t i) { return s.get(i); }
  void set(uint32_t i) { s.set(i); }
  bool reset(uint32_t i) { s.reset(i); return true; }
  bool clear() { return false; }
  int fill() { return 0; }
  int first(int) { return -2; }
};
struct VHier {
  alaya::HierarchicalBitset s;
  explicit VHier(size_t n) : s(n) {}
  bool get(uint32_t i) { return s.get(i); }
  void set(uint32_t i) { s.set(i); }
  bool reset(uint32_t) { return false; }
  bool clear() { return false; }
  int fill() { return 0; }
  int first(int) { return s.find_first_set(); }
};
struct VHash {
  alaya::HashBasedBooleanSet s;
  explicit VHash(size_t n) : s(n / 10) {}
  bool get(uint32_t i) { return s.get(i); }
  void set(uint32_t i) { s.set(i); }
  bool reset(uint32_t) { return false; }
  bool clear() { s.clear(); return true; }
  int fill() { return 0; }
  int first(int) { return -2; }
};
struct VDisk {
  alaya::diskann::VisitedBitset s;
  std::set<uint32_t> in;
  explicit VDisk(size_t n) { s.resize(n); }
  bool get(uint32_t i) { return s.test(i); }
  void set(uint32_t i) {
    if (i % 2) {
      bool fresh = s.test_and_set(i);
      MC_REQUIRE(fresh == in.insert(i).second, "visited test-and-set", "id %u reported %s", i, fresh ? "new" : "seen");
    } else {
      s.set(i);
      in.insert(i);
    }
  }
  bool reset(uint32_t) { return false; }
  bool clear() { s.clear(); in.clear(); return true; }
  int fill() { return 0; }
  int first(int) { return -2; }
};
template <class V>
void visited(int depth) {
  static const size_t sizes[] = {1, 64, 65, 130, 513, 1025};
  size_t n = sizes[mc::choose(6, "size")];
  V v(n);
  std::set<uint32_t> m;
  std::vector<uint32_t> pts{0};
  for (uint32_t x : {1u, 31u, 32u, 63u, 64u, 65u, 128u, 512u, 1024u, uint32_t(n - 1)})
    if (x < n && std::find(pts.begin(), pts.end(), x) == pts.end()) pts.push_back(x);
  bool full = false;
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(int(pts.size()) * 2 + 2, "op");
    mc::step();
    if (op < int(pts.size())) {
      v.set(pts[size_t(op)]);
      m.insert(pts[size_t(op)]);
    } else if ((op -= int(pts.size())) < int(pts.size())) {
      if (!v.reset(pts[size_t(op)])) mc::assume(false);
      m.erase(pts[size_t(op)]);
      if (full) mc::nontrivial();
    } else if (op == int(pts.size())) {
      if (!v.clear()) mc::assume(false);
      m.clear();
      full = false;
    } else {
      if (!v.fill()) mc::assume(false);
      for (uint32_t x = 0; x < n; ++x) m.insert(x);
      full = true;
    }
    if (m.size() > 1) mc::nontrivial();
    for (uint32_t x = 0; x < n; ++x) MC_REQUIRE(v.get(x) == (m.count(x) != 0), "visited set", "id %u of %zu is reported %s", x, n, m.count(x) ? "unvisited" : "visited");
    int f = v.first(0);
    if (f != -2) MC_REQUIRE(f == (m.empty() ? -1 : int(*m.begin())), "first set bit", "%d", f);
  }
  uint64_t h = n;
  for (auto x : m) h = mc::mix(h, x);
  mc::state(h);
}
// many clears, so that narrow epoch tags wrap; the marks of one round must never show in a later one
template <class T>
void epochs() {
  int gap = sizeof(T) == 1 ? mc::choose(300, "clears between the two marks") : 65530 + mc::choose(12, "clears");
  int size_first = mc::choose(2, "resize");
  alaya::EpochVisitedSet<T> s(4);
  if (size_first) {
    s.set(1);
    s.resize(6);
    for (uint32_t x = 0; x < 6; ++x) MC_REQUIRE(!s.get(x), "visited set", "id %u visited after resize", x);
  }
  int pre = mc::choose(3, "clears before");
  for (int i = 0; i < pre * (sizeof(T) == 1 ? 127 : 32767); ++i) s.clear();
  s.set(2);
  for (int i = 0; i < gap; ++i) {
    s.clear();
    MC_REQUIRE(!s.get(2), "visited set across epochs", "a mark shows again %d clears later", i + 1);
    MC_REQUIRE(!s.get(3), "visited set across epochs", "an id never marked shows as visited after %d clears", i + 1);
    mc::step();
  }
  s.set(0);
  MC_REQUIRE(s.get(0), "visited set across epochs", "a mark does not show");
  if (gap > 255) mc::nontrivial();
  mc::state(mc::mix(uint64_t(gap), uint64_t(pre)));
}
template <class Pool>
void pooled() {  // sets handed out again must be empty; two handed out at once must be different objects
  Pool pool(size_t(mc::choose(3, "initial")), 640);
  std::vector<std::pair<decltype(pool.acquire()), std::set<uint32_t>>> out;
  int n = 7;
  for (int i = 0; i < n; ++i) {
    int op = mc::choose(3, "op");
    mc::step();
    if (op == 0) {
      auto *s = pool.acquire();
      for (auto &[o, m] : out) MC_REQUIRE(o != s, "visited pool", "one set handed to two users");
      for (uint32_t x : {0u, 7u, 63u, 600u}) MC_REQUIRE(!s->get(x), "visited pool", "a set handed out is not empty");
      out.push_back({s, {}});
    } else if (out.empty()) {
      mc::assume(false);
    } else if (op == 1) {
      auto &[o, m] = out.back();
      uint32_t x = uint32_t(i * 97 % 640);
      o->set(x);
      m.insert(x);
      mc::nontrivial();
    } else {
      pool.release(out.front().first);
      out.erase(out.begin());
    }
    for (auto &[o, m] : out)
      for (uint32_t x = 0; x < 640; ++x) MC_REQUIRE(o->get(x) == (m.count(x) != 0), "visited pool", "id %u wrong in a set in use", x);
  }
  mc::state(out.size());
  for (auto &[o, m] : out) pool.release(o);
}
}  // namespace

int main(int argc, char **argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  mc::Spec spec{"P14", "model_checking",
                "every sequence of offers (a small alphabet of distances, ties included), expansions, repeats and clears up to the depth, on the real pool of every kind and capacity 1-4, "
                "compared after each step with the sorted list of everything offered; every arrival order of 7 distinct distances; visited sets: every sequence of marks at word and block borders",
                {"candidates are offered with distinct ids where the pool leaves that to its caller", "single-threaded use, as in a search"}};
  int D = deep ? 11 : 9;
  std::vector<mc::Scenario> v{
      {"LinearPool/sequences", [=] { seq<Linear>(D, 4, 4); }},
      {"SearchBuffer/sequences", [=] { seq<Rabit>(D - 1, 4, 4); }},
      {"laser SearchBuffer/sequences", [=] { seq<Laser>(D - 1, 4, 4); }},
      {"laser ResultBuffer/sequences", [=] { seq<LaserResult>(D, 4, 4); }},
      {"NeighborPriorityQueue/sequences", [=] { seq<Vamana>(D - 1, 4, 3); }},
      {"LinearPool/orders", [=] { perms<Linear>(deep ? 8 : 7); }},
      {"SearchBuffer/orders", [=] { perms<Rabit>(deep ? 8 : 7); }},
      {"laser SearchBuffer/orders", [=] { perms<Laser>(deep ? 8 : 7); }},
      {"laser ResultBuffer/orders", [=] { perms<LaserResult>(deep ? 8 : 7); }},
      {"NeighborPriorityQueue/orders", [=] { perms<Vamana>(deep ? 8 : 7); }},
      {"insert_into_pool", flat_insert},
      {"DynamicBitset", [=] { visited<VBits>(deep ? 4 : 3); }},
      {"EpochVisitedSet", [=] { visited<VEpoch<uint32_t>>(deep ? 4 : 3); }},
      {"SparseBitset", [=] { visited<VSparse>(deep ? 4 : 3); }},
      {"HierarchicalBitset", [=] { visited<VHier>(deep ? 4 : 3); }},
      {"HashBasedBooleanSet", [=] { visited<VHash>(deep ? 4 : 3); }},
      {"VisitedBitset", [=] { visited<VDisk>(deep ? 4 : 3); }},
      {"epochs 8 bit", epochs<uint8_t>},
      {"epochs 16 bit", epochs<uint16_t>},
      {"hash set pool", [] { pooled<alaya::HashSetPool>(); }},
      {"epoch set pool", [] { pooled<alaya::EpochVisitedPool<uint8_t>>(); }},
  };
  return mc::run_main(argc, argv, spec, v);
}
