// P25: updatable disk index - every interleaving (up to a preemption bound) of updates with searches.
// mc-sched
// mc-src: lib/aio_stub.cpp
// mc-libs: -luring
// mc-flags: -DALAYA_LASER_USE_LIBAIO=1
// mc-cpu: avx2 fma
#include <thread>
#include "checks/dk.hpp"
#include "lib/sched.hpp"
namespace {
constexpr uint64_t kEnd = ~0ull;
struct Life {  // one stay of a label: it begins between b0 and b1 and ends between e0 and e1
  uint64_t label;
  int vec;
  uint64_t b0, b1, e0 = kEnd, e1 = kEnd;
};
enum Kind { I, R, B, BR, S, SD, SN, BS, F, FP, U };
struct Op {
  Kind k;
  std::vector<int> a;  // labels (I, B: vector id = label % 100)
};
using Prog = std::vector<Op>;
struct Seen {
  uint64_t s, e;
  int q;
  uint32_t k;
  std::vector<uint64_t> lab;
  std::vector<float> d;
  const char *how;
};
struct World {
  const Config &c;
  Sut s;
  std::vector<Life> lives;
  std::vector<Seen> seen;
  explicit World(const Config &cc) : c(cc), s(cc) {
    for (int i = 0; i < c.n; ++i) lives.push_back({uint64_t(i), i, 0, 0});
  }
  uint64_t now() {
    sched::NoPreempt np;
    return sched::now();
  }
  void begun(int l, int v, uint64_t t0) {
    sched::NoPreempt np;
    lives.push_back({uint64_t(l), v, t0, kEnd});
  }
  void present(int l) {
    sched::NoPreempt np;
    for (auto &x : lives)
      if (x.label == uint64_t(l) && x.b1 == kEnd) x.b1 = sched::now();
  }
  void leaving(int l) {
    sched::NoPreempt np;
    for (auto &x : lives)
      if (x.label == uint64_t(l) && x.e0 == kEnd) x.e0 = sched::now();
  }
  void left(int l) {
    sched::NoPreempt np;
    for (auto &x : lives)
      if (x.label == uint64_t(l) && x.e1 == kEnd && x.e0 != kEnd) x.e1 = sched::now();
  }
  void search(const Op &o) {
    Seen r;
    r.q = o.a[0];
    r.k = uint32_t(o.a[1]);
    Vec q = vec(c, r.q);
    uint32_t nq = o.k == BS ? 2 : 1;
    std::vector<uint64_t> lab(size_t(r.k) * nq, 77);
    std::vector<float> d(size_t(r.k) * nq, -1);
    DiskANNSearchParams p;
    p.deterministic = o.k == SD;
    p.use_pq = o.k != SN;
    p.rerank_count = 32;
    r.how = o.k == BS ? "batch search" : o.k == SD ? "deterministic search" : o.k == SN ? "search without codes" : "search";
    r.s = now();
    if (o.k == BS) {
      Vec q2 = q;
      q2.insert(q2.end(), q.begin(), q.end());
      s.x->batch_search(q2.data(), 2, r.k, lab.data(), d.data(), 2, p);
    } else
      s.x->search(q.data(), r.k, lab.data(), d.data(), p);
    r.e = now();
    sched::NoPreempt np;
    for (uint32_t i = 0; i < nq; ++i) {
      r.lab.assign(lab.begin() + i * r.k, lab.begin() + (i + 1) * r.k);
      r.d.assign(d.begin() + i * r.k, d.begin() + (i + 1) * r.k);
      seen.push_back(r);
    }
  }
  void run(const Op &o) {
    uint64_t t = now();
    std::vector<uint64_t> labels(o.a.begin(), o.a.end());
    switch (o.k) {
      case I:
        begun(o.a[0], o.a[0] % 100, t);
        s.x->insert(vec(c, o.a[0] % 100).data(), labels[0]);
        present(o.a[0]);
        break;
      case B: {
        Vec v;
        for (int l : o.a) {
          begun(l, l % 100, t);
          auto r = vec(c, l % 100);
          v.insert(v.end(), r.begin(), r.end());
        }
        s.x->batch_insert(v.data(), labels.data(), uint32_t(labels.size()), 2);
        for (int l : o.a) present(l);
        break;
      }
      case R:
        leaving(o.a[0]);
        s.x->remove_by_label(labels[0]);
        left(o.a[0]);
        break;
      case BR:
        for (int l : o.a) leaving(l);
        s.x->batch_remove_by_labels(labels.data(), uint32_t(labels.size()));
        for (int l : o.a) left(l);
        break;
      case F: s.x->flush(); break;
      case FP: s.x->flush_pages(); break;
      case U: s.x->update_node(uint32_t(o.a[0])); break;
      default: search(o);
    }
  }
  void judge() {
    for (auto &r : seen) {
      std::set<uint64_t> got;
      uint32_t n = 0;
      while (n < r.k && r.lab[n] != DiskANNIndex::kNoLabel) ++n;
      for (uint32_t i = 0; i < n; ++i) {
        MC_REQUIRE(got.insert(r.lab[i]).second, "repeated-label", "%s returned label %llu twice", r.how, (unsigned long long)r.lab[i]);
        bool alive = false, right = false;
        float w = 0;
        for (auto &x : lives)
          if (x.label == r.lab[i] && x.b0 < r.e && x.e1 > r.s) {
            alive = true;
            w = l2(vec(c, r.q), vec(c, x.vec));
            right |= std::abs(r.d[i] - w) <= 1e-3f * (1 + w);
          }
        MC_REQUIRE(alive, "dead-label", "%s returned label %llu, which was live at no moment of the search", r.how, (unsigned long long)r.lab[i]);
        MC_REQUIRE(right, "wrong-distance", "%s: label %llu at distance %g, really %g", r.how, (unsigned long long)r.lab[i], r.d[i], w);
        MC_REQUIRE(i == 0 || r.d[i - 1] <= r.d[i], "unordered", "%s: results are not in distance order", r.how);
      }
      for (uint32_t i = n; i < r.k; ++i) MC_REQUIRE(r.lab[i] == DiskANNIndex::kNoLabel, "padding", "%s: unused result slot %u is not marked", r.how, i);
      for (auto &x : lives)
        if (x.b1 <= r.s && x.e0 >= r.e && r.k >= 12) MC_REQUIRE(got.count(x.label), "missing-label", "%s missed label %llu, which was live all the time", r.how, (unsigned long long)x.label);
    }
  }
};
struct Case {
  std::string name;
  Config c;
  std::vector<Op> before;
  std::vector<Prog> threads;
  int preemptions;
};
void body(const Case &k) {
  World w(k.c);
  for (auto &o : k.before) w.run(o);
  w.seen.clear();
  for (auto &l : w.lives) l.b0 = 0, l.b1 = l.b1 == kEnd ? kEnd : 0, l.e0 = l.e0 == kEnd ? kEnd : 0, l.e1 = l.e1 == kEnd ? kEnd : 0;
  sched::Options o;
  o.preemptions = k.preemptions + (mc::thorough() ? 1 : 0);
  o.fair = 3000;
  o.quiet_loads = true;
  sched::run(o, [&] {
    std::vector<std::thread> t;
    for (auto &p : k.threads)
      t.emplace_back([&, p] {
        for (auto &op : p) w.run(op);
      });
    for (auto &x : t) x.join();
  });
  w.judge();
  // at rest: exactly the live rows, findable, and the same after a reload
  Sut &s = w.s;
  s.live.clear();
  s.order.clear();
  s.gone.clear();
  for (auto &x : w.lives)
    if (x.e1 == kEnd) s.add(x.label, x.vec);
  for (auto &x : w.lives)
    if (x.e1 != kEnd && !s.live.count(x.label)) s.gone.push_back(x.label);
  s.next = 20;
  s.check();
  s.x->flush();
  s.load();
  s.check();
  mc::state(mc::mix(sched::points(), w.seen.size() ? w.seen[0].lab[0] : 0));
  mc::nontrivial();
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P25";
  sp.level = "model_checking";
  sp.rule = "every completed interleaving is non-trivial";
  sp.assumptions = {"records have room for every link, and no link is pruned, so the graph reaches every live row"};
  Config plain{"plain", 2, 3, false, false, 0.0, 4}, nocache{"nocache", 2, 3, false, false, 0.4, 0}, codes{"codes", 2, 3, true, false, 0.4, 4}, big{"bigrow", 700, 3, false, false, 0.0, 1};
  Config two = plain;
  two.threads = 2;
  two.name = "plain2";
  static std::vector<Case> cases{
      {"insert-search-plain", plain, {}, {{{I, {3}}}, {{S, {3, 12}}}}, 2},
      {"insert-search-nocache", nocache, {}, {{{I, {3}}}, {{S, {3, 12}}}}, 2},
      {"insert-search-codes", codes, {}, {{{I, {3}}}, {{S, {3, 12}}}}, 2},
      {"insert-search-bigrow", big, {}, {{{I, {3}}}, {{SD, {3, 12}}}}, 2},
      {"remove-search-plain", plain, {}, {{{R, {1}}}, {{S, {1, 12}}}}, 2},
      {"reuse-search-nocache", nocache, {{R, {1}}}, {{{I, {104}}}, {{S, {4, 12}}}}, 2},
      {"remove-reuse-search-plain", plain, {}, {{{R, {1}}, {I, {104}}}, {{S, {1, 12}}}}, 2},
      {"remove-reuse-search-codes", codes, {}, {{{R, {1}}, {I, {104}}}, {{S, {1, 12}}}}, 2},
      {"batch-search-plain", two, {}, {{{B, {3, 4}}}, {{S, {3, 12}}}}, 1},
      {"batch-after-removals", two, {{BR, {0, 1}}}, {{{B, {3, 4}}}}, 1},
      {"two-writers", plain, {}, {{{I, {3}}}, {{R, {0}}}}, 2},
      {"flush-search", plain, {{I, {3}}}, {{{F, {}}}, {{S, {3, 12}}}}, 2},
      {"update-search", nocache, {{R, {2}}}, {{{U, {0}}}, {{S, {3, 12}}}}, 2},
  };
  std::vector<mc::Scenario> sc;
  for (auto &c : cases) {
    c.c.name = strdup(c.name.c_str());
    mc::Scenario s;
    s.name = c.name;
    s.isolate = true;
    s.body = [&c] { body(c); };
    sc.push_back(s);
  }
  return mc::run_main(argc, argv, sp, sc);
}
