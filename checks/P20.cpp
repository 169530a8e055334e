// P20: updatable disk index - every bounded sequence of operations against a table of live labels.
// mc-src: lib/aio_stub.cpp
// mc-libs: -luring -fsanitize=address
// mc-flags: -DALAYA_LASER_USE_LIBAIO=1 -fsanitize=address
// mc-cpu: avx2 fma
#include "checks/dk.hpp"
namespace {
void sequences(const Config &c, int depth) {
  Sut s(c);
  s.check();
  int changes = 0;
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(8, "operation");
    if (op == 0) {
      uint64_t l = uint64_t(s.next);
      s.x->insert(vec(c, s.next).data(), l);
      s.add(l, s.next++);
    } else if (op == 1) {  // a removed label again, with another vector; or a live label, which is refused
      if (!s.gone.empty()) {
        uint64_t l = s.gone.back();
        s.x->insert(vec(c, s.next).data(), l);
        s.add(l, s.next++);
      } else {
        uint64_t l = s.order[0];
        mc::require(refused([&] { s.x->insert(vec(c, s.next).data(), l); }), "duplicate-accepted", "inserting a live label is not refused");
        uint64_t two[] = {uint64_t(s.next) + 50, l}, same[] = {uint64_t(s.next) + 50, uint64_t(s.next) + 50};
        Vec v = vec(c, 1), w = vec(c, 2);
        v.insert(v.end(), w.begin(), w.end());
        mc::require(refused([&] { s.x->batch_insert(v.data(), two, 2, 2); }) && refused([&] { s.x->batch_insert(v.data(), same, 2, 2); }), "duplicate-accepted", "a batch holding a live or a repeated label is not refused");
      }
    } else if (op == 2 || op == 3) {
      if (s.order.empty()) {
        mc::require(refused([&] { s.x->remove_by_label(0); }), "absent-removed", "removing an absent label succeeds");
        continue;
      }
      uint64_t l = op == 2 ? s.order.front() : s.order.back();
      s.x->remove_by_label(l);
      s.drop(l);
      mc::require(refused([&] { s.x->remove_by_label(l); }), "absent-removed", "removing a label twice succeeds");
    } else if (op == 4) {
      Vec v = vec(c, s.next), w = vec(c, s.next + 1);
      v.insert(v.end(), w.begin(), w.end());
      uint64_t l[] = {uint64_t(s.next), uint64_t(s.next + 1)};
      // members inserted concurrently need not see each other: with one at a time, every row links to every other
      auto ids = s.x->batch_insert(v.data(), l, 2, !(c.direct && c.uring) && mc::choose(2, "batch size") ? 2 : 1);
      mc::require(ids.size() == 2 && ids[0] != ids[1], "batch-slots", "a batch reports the same slot twice");
      s.add(l[0], s.next);
      s.add(l[1], s.next + 1);
      s.next += 2;
    } else if (op == 5) {
      mc::assume(s.order.size() >= 2);
      uint64_t l[] = {s.order[0], s.order[1]}, bad[] = {s.order[0], 999}, same[] = {s.order[0], s.order[0]};
      mc::require(refused([&] { s.x->batch_remove_by_labels(bad, 2); }) && refused([&] { s.x->batch_remove_by_labels(same, 2); }), "absent-removed", "a batch removal with an absent or repeated label succeeds");
      s.x->batch_remove_by_labels(l, 2);
      s.drop(l[0]);
      s.drop(l[1]);
    } else if (op == 6) {
      s.x->flush();
      s.check();
      s.load();
    } else {
      s.x->flush_pages();
      for (uint32_t k = 0; k < s.x->max_slot_id(); ++k)
        if (!s.x->is_deleted(k)) s.x->update_node(k);
    }
    changes += op < 6;
    s.check();
  }
  if (changes > 1) mc::nontrivial();
}
// emptied and filled again, in a graph whose nodes have one link each
void refill(const Config &c) {
  Sut s(c);
  int keep = mc::choose(3, "rows kept");
  int dirn = mc::choose(3, "removal order");
  while (int(s.order.size()) > keep) {
    uint64_t l = dirn == 0 ? s.order.front() : dirn == 1 ? s.order.back() : s.order[s.order.size() / 2];
    s.x->remove_by_label(l);
    s.drop(l);
  }
  if (mc::choose(2, "reload")) {
    s.x->flush();
    s.load();
  }
  // rows kept may have lost every link leading to them; rows added now must be found, kept ones may be
  std::set<uint64_t> must;
  auto check = [&] {
    if (keep == 0) return s.check();
    std::vector<uint64_t> lab(64);
    std::vector<float> d(64);
    Vec q = vec(c, s.next - 1);
    uint32_t n = s.x->search(q.data(), 40, lab.data(), d.data());
    std::set<uint64_t> got(lab.begin(), lab.begin() + n);
    MC_REQUIRE(got.size() == n, "repeated-label", "a search returned a label twice");
    for (uint32_t i = 0; i < n; ++i) {
      MC_REQUIRE(s.live.count(lab[i]), "dead-label", "a search returned label %llu, which is not live", (unsigned long long)lab[i]);
      float w = l2(q, vec(c, s.live[lab[i]]));
      MC_REQUIRE(std::abs(d[i] - w) <= 1e-3f * (1 + w), "wrong-distance", "label %llu", (unsigned long long)lab[i]);
    }
    for (uint64_t l : must) MC_REQUIRE(got.count(l), "missing-label", "label %llu cannot be found although it was inserted after the removals", (unsigned long long)l);
  };
  check();
  int n = mc::choose(4, "rows added");
  for (int i = 0; i < n; ++i) {
    bool batch = mc::choose(2, "batch") == 1;
    Vec v = vec(c, s.next), w = vec(c, s.next + 1);
    v.insert(v.end(), w.begin(), w.end());
    uint64_t l[] = {uint64_t(s.next), uint64_t(s.next + 1)};
    if (batch) s.x->batch_insert(v.data(), l, 2, 2);
    else s.x->insert(v.data(), l[0]);
    for (int k = 0; k <= batch; ++k) {
      must.insert(l[k]);
      s.add(l[k], s.next++);
    }
    check();
  }
  s.x->flush();
  s.load();
  check();
  mc::nontrivial();
}
// one object serving one directory after another
void reopen(const Config &a, const Config &b) {
  Sut s(a);
  auto obj = std::move(s.x);
  Sut t(b);
  t.x.reset();
  int first = mc::choose(2, "order");
  for (int i = 0; i < 3; ++i) {
    Sut &u = (i % 2 == 0) == (first == 0) ? s : t;
    u.x = std::move(obj);
    u.load_into();
    u.check();
    u.x->insert(vec(u.c, u.next).data(), uint64_t(u.next));
    u.add(uint64_t(u.next), u.next);
    ++u.next;
    u.check();
    u.x->flush();
    obj = std::move(u.x);
  }
  mc::nontrivial();
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P20";
  sp.level = "model_checking";
  sp.rule = "a sequence is non-trivial when it holds at least two changes";
  sp.assumptions = {"records have room for every link, and no link is pruned, so the graph reaches every live row"};
  static const std::vector<Config> cfg{
      {"plain-3", 2, 3, false, false, 0.0, 4096},
      {"plain-1-pinned", 2, 1, false, false, 1.0, 4096},
      {"plain-2-nocache-bigrow", 700, 2, false, false, 0.5, 0},
      {"codes-3", 2, 3, true, false, 0.4, 4096},
      {"uring-3", 2, 3, false, true, 0.4, 4096},
      {"codes-uring-2", 2, 2, true, true, 0.0, 4096},
      {"direct-3", 2, 3, false, false, 0.0, 4096, false, 1, true},
      {"direct-codes-2-pinned", 2, 2, true, false, 1.0, 4096, false, 1, true, false},
      {"net-3", 2, 3, false, false, 0.4, 4096, false, 1, false, true, true},
      {"net-codes-direct-2", 2, 2, true, false, 0.0, 4096, false, 1, true, true, true},
      {"direct-uring-2", 2, 2, false, true, 0.0, 4096, false, 1, true},
  };
  static const std::vector<Config> sparse{{"sparse-5", 2, 5, false, false, 0.4, 4096, true}, {"sparse-5-codes", 2, 5, true, false, 0.0, 4096, true}, {"sparse-5-uring", 2, 5, false, true, 0.0, 4096, true}};
  std::vector<mc::Scenario> sc;
  for (auto &c : cfg) {
    mc::Scenario s;
    s.name = c.name;
    s.body = [&c] { sequences(c, mc::thorough() ? 5 : c.net ? 3 : 4); };
    sc.push_back(s);
  }
  for (auto &c : sparse) {
    mc::Scenario s;
    s.name = c.name + std::string("-refill");
    s.body = [&c] { refill(c); };
    sc.push_back(s);
  }
  for (auto [i, j] : {std::pair{0, 2}, std::pair{4, 5}, std::pair{3, 0}, std::pair{5, 6}}) {
    static const Config big{"uring-2-bigrow", 700, 2, false, true, 0.5, 16};
    const Config *a = &cfg[size_t(i)], *b = j == 6 ? &big : &cfg[size_t(j)];
    mc::Scenario s;
    s.name = std::string("reopen-") + a->name + "-" + b->name;
    s.body = [a, b] { reopen(*a, *b); };
    sc.push_back(s);
  }
  return mc::run_main(argc, argv, sp, sc);
}
