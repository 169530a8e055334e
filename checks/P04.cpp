// P04 disk collection: every single failing system call of create / flush / open / search.
// mc-fsx
#include "checks/dc.hpp"
#include "lib/fsx.hpp"
#include <errno.h>
using namespace dc;
using mc::choose;

namespace {
const uint32_t kDim = 3;
std::vector<float> vec(int s) { return {float(s % 5) - 2.f, float((s * 7) % 11), float(s)}; }
std::vector<Row> rows_of(int first, int n) {
  std::vector<Row> v;
  for (int i = 0; i < n; ++i) v.push_back({uint64_t(1000 - (first + i) * 3), vec(first + i)});
  return v;
}
VamanaSegmentBuildParams params() {
  VamanaSegmentBuildParams vp;
  vp.R = 4;
  vp.L = 8;
  vp.num_threads = 1;
  return vp;
}
void add(DiskCollection &c, const std::vector<Row> &rs) {
  for (auto &r : rs) c.add_batch(r.v.data(), &r.label, 1);
}
std::vector<Row> cat(std::vector<Row> a, const std::vector<Row> &b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
enum Target { Create, Flush, Open, Search };

// segments directories that are listed nowhere are leftovers; a collection must never show them
void body(Target target, DiskIndexType type, MetricType m, int faults) {
  bool ties = type == DiskIndexType::Flat;
  int flushed = target == Create ? 0 : choose(3, "flushed before");
  std::vector<Row> base_rows;
  for (int i = 0; i < flushed; ++i) base_rows = cat(base_rows, rows_of(i * 3, 3));
  auto pend = rows_of(20, target == Flush ? 2 + choose(2, "pending") : 2);
  const int errs[] = {EIO, ENOSPC};
  // a dry run counts the calls of the target operation
  auto prepare = [&](const fs::path &p) {
    std::unique_ptr<DiskCollection> c;
    if (target == Create) return c;
    c = std::make_unique<DiskCollection>(p, kDim, m, type, size_t(1) << 20, params());
    for (int i = 0; i < flushed; ++i) {
      add(*c, rows_of(i * 3, 3));
      c->flush();
    }
    if (target == Open)
      c.reset();
    else
      add(*c, pend);
    return c;
  };
  std::vector<float> q = {0.5f, 2, 7};
  DiskSearchOptions so;
  so.top_k = 64;
  so.ef = 64;
  auto run = [&](std::unique_ptr<DiskCollection> &c, const fs::path &p, std::vector<DiskSearchHit> *hits) {
    switch (target) {
      case Create: c = std::make_unique<DiskCollection>(p, kDim, m, type, size_t(1) << 20, params()); break;
      case Flush: c->flush(); break;
      case Open: c = std::make_unique<DiskCollection>(DiskCollection::open(p)); break;
      case Search: *hits = c->search(q.data(), so); break;
    }
  };
  std::string top = mc::fresh_dir();
  size_t ncalls;
  {
    fs::path p = fs::path(top) / "dry" / "col";
    fs::create_directories(p.parent_path());
    auto c = prepare(p);
    std::vector<DiskSearchHit> h;
    fsx::fault_arm(top, -1, 0, 0, ~0u);
    run(c, p, &h);
    ncalls = fsx::fault_disarm().size();
  }
  fs::path p = fs::path(top) / "run" / "col";
  fs::create_directories(p.parent_path());
  auto c = prepare(p);
  std::string where = mc::format("target %d flushed %d", int(target), flushed);
  std::vector<Row> want = base_rows;
  for (int f = 0; f < faults; ++f) {
    if (ncalls == 0) break;
    int at = choose(int(ncalls), "call"), mode = choose(2, "mode"), err = errs[mode == 0 ? choose(2, "errno") : 1];
    std::vector<DiskSearchHit> hits;
    bool ok = true, fired = false;
    std::string what;
    fsx::fault_arm(top, at, err, mode, mode == 1 ? fsx::bit(fsx::Kind::Write) : ~0u);
    try {
      run(c, p, &hits);
    } catch (const std::exception &e) {
      ok = false;
      what = e.what();
    }
    auto pts = fsx::fault_disarm(&fired);
    if (!fired) mc::assume(false);
    mc::nontrivial();
    mc::step();
    where += mc::format("; fault %s of call %d (kind %d %s): %s", mode ? "short write" : strerror(err), at, int(pts[size_t(at) < pts.size() ? at : 0].kind),
                        fs::path(pts[size_t(at) < pts.size() ? at : 0].path).filename().c_str(), ok ? "reported success" : what.c_str());
    mc::note("%s", where.c_str());
    if (target == Flush && ok) want = cat(base_rows, pend);
    if (target == Search && ok) check_hits(hits, base_rows, q, m, 64, where, true, ties);
    if (c) check_search(*c, want, m, kDim, where + " [after]", true, ties);
    if (ok) break;
  }
  // either repeat the operation or give up and reopen
  bool retry = choose(2, "retry or reopen") == 0;
  bool done = (target == Create || target == Open) ? bool(c) : want.size() > base_rows.size();
  if (retry && !done) {
    std::vector<DiskSearchHit> hits;
    try {
      run(c, p, &hits);
    } catch (const std::exception &e) {
      mc::fail("retry-fails", std::string(e.what()) + "; " + where);
    }
    if (target == Flush) want = cat(base_rows, pend);
    if (target == Search) check_hits(hits, base_rows, q, m, 64, where, true, ties);
    where += " [retried]";
    check_search(*c, want, m, kDim, where, true, ties);
  }
  if (c && target != Flush) {  // the collection is fully usable
    if (target != Search) add(*c, pend);
    c->flush();
    want = cat(base_rows, pend);
    check_search(*c, want, m, kDim, where + " [flush after]", true, ties);
  }
  bool existed = bool(c) || target != Create;
  c.reset();
  if (!existed) {
    // a failed creation leaves nothing a later creation trips over, or nothing at all that opens
    try {
      DiskCollection d = DiskCollection::open(p);
      MC_REQUIRE(d.size() == 0, "failed-create-visible", "%s", where.c_str());
    } catch (const std::exception &) {
    }
    return;
  }
  try {
    c = std::make_unique<DiskCollection>(DiskCollection::open(p));
  } catch (const std::exception &e) {
    mc::fail("cannot-reopen", std::string(e.what()) + "; " + where);
  }
  check_search(*c, want, m, kDim, where + " [reopened]", true, ties);
  // and keeps working
  auto more = rows_of(40, 2);
  add(*c, more);
  try {
    c->flush();
  } catch (const std::exception &e) {
    mc::fail("flush-after-reopen", std::string(e.what()) + "; " + where);
  }
  check_search(*c, cat(want, more), m, kDim, where + " [reopened, flushed]", true, ties);
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P04";
  sp.level = "fault_enumeration";
  sp.rule = "an execution is non-trivial when an injected fault actually fired in the target operation";
  sp.assumptions = {"one (or, where stated, two consecutive) failing calls per operation; a failing close still closes the descriptor"};
  std::vector<mc::Scenario> sc;
  auto F = DiskIndexType::Flat, V = DiskIndexType::Vamana;
  auto L2 = MetricType::L2;
  sc.push_back({"flush-flat", [=] { body(Flush, F, L2, 1); }});
  sc.push_back({"flush-cos", [=] { body(Flush, F, MetricType::COS, 1); }});
  sc.push_back({"flush-vamana", [=] { body(Flush, V, L2, 1); }});
  sc.push_back({"open-flat", [=] { body(Open, F, L2, 1); }});
  sc.push_back({"open-vamana", [=] { body(Open, V, L2, 1); }});
  sc.push_back({"search-flat", [=] { body(Search, F, L2, 1); }});
  sc.push_back({"search-vamana", [=] { body(Search, V, L2, 1); }});
  sc.push_back({"create-flat", [=] { body(Create, F, L2, 1); }});
  sc.push_back({"create-vamana", [=] { body(Create, V, L2, 1); }});
  sc.push_back({"flush-flat-2faults", [=] { body(Flush, F, L2, 2); }});
  sc.push_back({"flush-vamana-2faults", [=] { body(Flush, V, L2, 2); }, true});
  sc.push_back({"create-2faults", [=] { body(Create, F, L2, 2); }, true});
  return mc::run_main(argc, argv, sp, sc);
}
