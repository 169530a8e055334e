// P20: updatable disk index - every single failing read, write, truncation, sync or open inside every operation.
// mc-fsx
// mc-src: lib/aio_stub.cpp
// mc-libs: -luring -fsanitize=address
// mc-flags: -DALAYA_LASER_USE_LIBAIO=1 -fsanitize=address
// mc-cpu: avx2 fma
#include <cerrno>
#include "checks/dk.hpp"
#include "lib/fsx.hpp"
namespace {
enum { kInsert, kRemove, kBatch, kBatchRemove, kFlush, kUpdate, kSearch, kLoad, kOps };
void apply(Sut &s, int op, const std::vector<uint64_t> &labels, const std::vector<int> &vecs) {
  const Config &c = s.c;
  switch (op) {
    case kInsert: s.x->insert(vec(c, vecs[0]).data(), labels[0]); break;
    case kRemove: s.x->remove_by_label(labels[0]); break;
    case kBatch: {
      Vec v;
      for (int id : vecs) {
        auto r = vec(c, id);
        v.insert(v.end(), r.begin(), r.end());
      }
      s.x->batch_insert(v.data(), labels.data(), uint32_t(labels.size()), 2);
      break;
    }
    case kBatchRemove: s.x->batch_remove_by_labels(labels.data(), uint32_t(labels.size())); break;
    case kFlush: s.x->flush(); break;
    case kUpdate:
      s.x->flush_pages();
      for (uint32_t k = 0; k < s.x->max_slot_id(); ++k)
        if (!s.x->is_deleted(k)) s.x->update_node(k);
      break;
    case kSearch: s.check(); break;
    case kLoad: s.load_into(); break;
  }
}
struct Plan {
  std::vector<uint64_t> labels;
  std::vector<int> vecs;
};
Plan plan(Sut &s, int op) {
  Plan p;
  size_t n = op == kInsert || op == kRemove ? 1 : op == kBatch || op == kBatchRemove ? 2 : 0;
  for (size_t i = 0; i < n; ++i)
    if (op == kInsert || op == kBatch) {
      p.labels.push_back(uint64_t(s.next));
      p.vecs.push_back(s.next++);
    } else {
      mc::assume(s.order.size() > i);
      p.labels.push_back(s.order[i]);
      p.vecs.push_back(s.live[s.order[i]]);
    }
  return p;
}
void record(Sut &s, int op, const Plan &p) {
  for (size_t i = 0; i < p.labels.size(); ++i)
    if (op == kInsert || op == kBatch) s.add(p.labels[i], p.vecs[i]);
    else s.drop(p.labels[i]);
}
using fsx::Kind;
constexpr uint32_t kKinds = fsx::bit(Kind::Read) | fsx::bit(Kind::Write) | fsx::bit(Kind::Trunc) | fsx::bit(Kind::Sync) | fsx::bit(Kind::Open) | fsx::bit(Kind::Rename);
void first(Sut &s, int before) {
  if (before >= 5) return;
  Plan p = plan(s, before);
  apply(s, before, p.labels, p.vecs);
  record(s, before, p);
}
int calls(const Config &c, int before, int op) {  // file-system calls the operation makes when none fails
  static std::map<std::string, int> known;
  auto key = std::string(c.name) + "/" + std::to_string(before * 10 + op);
  if (auto i = known.find(key); i != known.end()) return i->second;
  Sut s(c);
  first(s, before);
  Plan p = plan(s, op);
  if (op == kLoad) s.x->flush();
  fsx::fault_arm(s.dir, -1, 0, 0, kKinds);
  apply(s, op, p.labels, p.vecs);
  int n = int(fsx::fault_disarm().size());
  if (c.threads > 1) n = (n / 16 + 1) * 16;  // depends on who reads a page first
  return known[key] = n;
}
void body(const Config &c) {
  int before = mc::choose(6, "operation before"), op = mc::choose(kOps, "failing operation");
  int n = calls(c, before, op);
  if (n == 0) return;
  int at = mc::choose(n, "failing call"), err = EIO;
  int mode = mc::choose(2, "failing or half-done write");
  Sut s(c);
  first(s, before);
  Plan p = plan(s, op);
  if (op == kLoad) s.x->flush();
  bool failed = false;
  std::string what;
  fsx::fault_arm(s.dir, at, err, mode, mode == 1 ? fsx::bit(Kind::Write) : kKinds);
  try {
    apply(s, op, p.labels, p.vecs);
  } catch (const mc::Violation &) {
    throw;
  } catch (const std::exception &e) {
    failed = true;
    what = e.what();
  }
  bool fired = false;
  fsx::fault_disarm(&fired);
  if (!fired) {
    mc::require(!failed, "spurious-failure", "an operation fails although no call failed");
    return;
  }
  mc::nontrivial();
  if (!failed) {
    record(s, op, p);
  } else {
    // each label is either as before the operation or as after it
    for (size_t i = 0; i < p.labels.size(); ++i) {
      bool has = s.x->contains_label(p.labels[i]);
      if (op == kInsert) mc::require(!has, "half-inserted", "a label is present although its insert failed");
      if (op == kInsert || op == kBatch) {
        if (has) s.add(p.labels[i], p.vecs[i]);
        else s.gone.push_back(p.labels[i]);
      } else if (!has)
        s.drop(p.labels[i]);
    }
  }
  if (op == kLoad && failed) s.load_into();  // the same object, again
  s.check();
  // the same again, for what did not happen
  if (op == kInsert || op == kBatch) {
    for (size_t i = 0; i < p.labels.size(); ++i)
      if (!s.live.count(p.labels[i])) {
        s.x->insert(vec(c, p.vecs[i]).data(), p.labels[i]);
        s.add(p.labels[i], p.vecs[i]);
      }
  } else if (op == kRemove || op == kBatchRemove) {
    for (uint64_t l : p.labels)
      if (s.live.count(l)) {
        s.x->remove_by_label(l);
        s.drop(l);
      }
  }
  s.check();
  s.x->flush();
  s.check();
  s.load();
  s.check();
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P20";
  sp.level = "model_checking";
  sp.rule = "a failing call is non-trivial when it was reached";
  sp.assumptions = {"one call fails with EIO: it has no effect, or it is a write of which half is done"};
  static const std::vector<Config> cfg{
      {"fault-nocache", 2, 3, false, false, 0.4, 0},
      {"fault-onepage", 2, 3, false, false, 0.0, 1},
      {"fault-bigrow-onepage", 700, 3, false, false, 0.0, 1},
      {"fault-codes-nocache", 2, 3, true, false, 0.4, 0},
      {"fault-pages", 2, 3, false, false, 0.4, 64},
      {"fault-threads", 2, 3, false, false, 0.0, 0, false, 2},
  };
  std::vector<mc::Scenario> sc;
  for (auto &c : cfg) {
    mc::Scenario s;
    s.name = c.name;
    s.body = [&c] { body(c); };
    sc.push_back(s);
  }
  return mc::run_main(argc, argv, sp, sc);
}
