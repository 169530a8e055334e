// P03 disk collection: every crash image of every bounded create/add/flush/reopen history.
// mc-fsx
#include "checks/dc.hpp"
#include "lib/fsx.hpp"
using namespace dc;
using mc::choose;

namespace {
const uint32_t kDim = 3;
std::vector<float> vec(int s) { return {float(s % 5) - 2.f, float((s * 7) % 11), float(s)}; }

size_t find_mark(const fsx::Log &l, const std::string &t) {
  for (size_t i = 0; i < l.e.size(); ++i)
    if (l.e[i].op == fsx::Op::Mark && l.e[i].data == t) return i;
  return SIZE_MAX;
}

struct Hist {
  std::vector<std::vector<Row>> flushes;     // rows of flush i, in order
  std::string text;
};

VamanaSegmentBuildParams params() {
  VamanaSegmentBuildParams vp;
  vp.R = 4;
  vp.L = 8;
  vp.num_threads = 1;
  return vp;
}

void add(DiskCollection &c, const std::vector<Row> &rs) {
  for (auto &r : rs) c.add_batch(r.v.data(), &r.label, 1);
}

std::vector<Row> prefix(const Hist &h, size_t n) {
  std::vector<Row> v;
  for (size_t i = 0; i < n; ++i) v.insert(v.end(), h.flushes[i].begin(), h.flushes[i].end());
  return v;
}

// how many flushes does the reopened collection show? (exactly a prefix, or a violation)
size_t shown(const DiskCollection &c, const Hist &h, size_t acked, size_t begun, MetricType m, bool ties, const std::string &where) {
  size_t n = h.flushes.size() + 1;
  for (size_t i = acked; i <= begun; ++i)
    if (prefix(h, i).size() == c.size()) n = i;
  MC_REQUIRE(n <= h.flushes.size(), c.size() < prefix(h, acked).size() ? "flush-lost" : "flush-partial", "the collection shows %llu rows; %zu flushes were acknowledged and %zu begun; %s",
             (unsigned long long)c.size(), acked, begun, where.c_str());
  check_search(c, prefix(h, n), m, kDim, where, true, ties);
  return n;
}

// use the recovered collection: lost rows are added again, flushed, searched, reopened
void go_on(const fs::path &p, std::unique_ptr<DiskCollection> c, const Hist &h, size_t n, MetricType m, bool ties, const std::string &where) {
  auto rows = prefix(h, n);
  for (size_t i = n; i < h.flushes.size(); ++i) {
    add(*c, h.flushes[i]);
    rows.insert(rows.end(), h.flushes[i].begin(), h.flushes[i].end());
  }
  std::vector<Row> extra = {{900, vec(40)}, {901, vec(41)}};
  add(*c, extra);
  rows.insert(rows.end(), extra.begin(), extra.end());
  c->flush();
  check_search(*c, rows, m, kDim, where + " [continued]", true, ties);
  c.reset();
  c = std::make_unique<DiskCollection>(DiskCollection::open(p));
  check_search(*c, rows, m, kDim, where + " [continued, reopened]", true, ties);
}

std::unique_ptr<DiskCollection> try_open(const fs::path &p, bool must, const std::string &where) {
  try {
    return std::make_unique<DiskCollection>(DiskCollection::open(p));
  } catch (const std::exception &e) {
    MC_REQUIRE(!must, "cannot-open", "%s; %s", e.what(), where.c_str());
    return nullptr;
  }
}

uint64_t run_images(const fsx::Log &log, bool power, const Hist &h, size_t base_flushes, bool created, MetricType m, bool ties, const std::string &chk, const std::string &pre,
                    bool cont) {
  std::vector<std::pair<size_t, size_t>> fl;
  for (size_t i = base_flushes; i < h.flushes.size(); ++i) fl.emplace_back(find_mark(log, "fb" + std::to_string(i)), find_mark(log, "fe" + std::to_string(i)));
  size_t ce = created ? 0 : find_mark(log, "created");
  fsx::Policy pol;
  pol.power_loss = power;
  pol.full_subset_limit = 4;
  std::set<uint64_t> hs;
  return fsx::images(log, pol, 0, log.e.size(), [&](const fsx::Image &im) {
    auto t = fsx::apply(log, im);
    size_t acked = base_flushes, begun = base_flushes;
    for (size_t i = 0; i < fl.size(); ++i) {
      if (fl[i].second < im.k) acked = base_flushes + i + 1;
      if (fl[i].first < im.k) begun = base_flushes + i + 1;
    }
    bool made = created || ce < im.k;
    uint64_t sig = mc::mix(mc::mix(fsx::tree_hash(t), acked * 64 + begun), made);
    if (!hs.insert(sig).second) return true;
    mc::state(sig);
    mc::add_eval();
    fs::remove_all(chk);
    fsx::write_tree(t, chk);
    std::string where = pre + (mc::verbose() ? " crash " + im.describe(log) : " crash point " + std::to_string(im.k));
    fs::path p = fs::path(chk) / "col";
    auto c = try_open(p, made, where);
    if (!c) {
      // creation had not returned: the half-made directory can be discarded and creation repeated
      fs::remove_all(p);
      c = std::make_unique<DiskCollection>(p, kDim, m, ties ? DiskIndexType::Flat : DiskIndexType::Vamana, size_t(1) << 20, params());
      if (cont) go_on(p, std::move(c), h, 0, m, ties, where + " [recreated]");
      return true;
    }
    size_t n = shown(*c, h, acked, begun, m, ties, where);
    // reopening again changes nothing
    c.reset();
    c = try_open(p, true, where + " [second open]");
    MC_REQUIRE(c->size() == prefix(h, n).size(), "reopen-differs", "%s", where.c_str());
    if (cont) go_on(p, std::move(c), h, n, m, ties, where);
    return true;
  });
}

void record(const std::string &top, Hist &h, MetricType m, DiskIndexType type, int steps, bool fresh, size_t flushed_before) {
  fs::path p = fs::path(top) / "col";
  int row = int(flushed_before) * 8 + (fresh ? 0 : 3);
  std::unique_ptr<DiskCollection> c;
  fsx::begin(top);
  if (fresh)
    c = std::make_unique<DiskCollection>(p, kDim, m, type, size_t(1) << 20, params());
  else
    c = std::make_unique<DiskCollection>(DiskCollection::open(p));
  fsx::mark("created");
  std::vector<Row> pending;
  for (int s = 0; s < steps; ++s) {
    int a = choose(3, "op");
    mc::step();
    if (a == 0) {  // add two rows and flush
      h.text += " flush2";
      for (int i = 0; i < 2; ++i, ++row) pending.push_back({uint64_t(100 + row), vec(row)});
    } else if (a == 1) {
      h.text += " flush3";
      for (int i = 0; i < 3; ++i, ++row) pending.push_back({uint64_t(500 - row), vec(row)});
    } else {
      h.text += " reopen";
      c.reset();
      c = std::make_unique<DiskCollection>(DiskCollection::open(p));
      continue;
    }
    add(*c, pending);
    auto id = std::to_string(h.flushes.size());
    fsx::mark("fb" + id);
    c->flush();
    fsx::mark("fe" + id);
    h.flushes.push_back(pending);
    pending.clear();
  }
  c.reset();
}

void crash_body(bool power, DiskIndexType type, MetricType m, int steps) {
  std::string base = mc::fresh_dir(), top = base + "/run";
  fs::create_directories(top);
  Hist h;
  record(top, h, m, type, steps, true, 0);
  auto log = fsx::end();
  mc::note("history%s: %zu entries", h.text.c_str(), log.e.size());
  run_images(log, power, h, 0, false, m, type == DiskIndexType::Flat, base + "/chk", "history" + h.text, true);
  if (!h.flushes.empty()) mc::nontrivial();
}

// crash, recover, continue, crash again
void twice_body(bool power, DiskIndexType type, MetricType m) {
  std::string base = mc::fresh_dir(), top = base + "/run", top2 = base + "/run2";
  fs::create_directories(top);
  Hist h;
  {
    fsx::Log log;
    fs::path p = fs::path(top) / "col";
    std::vector<Row> r0 = {{7, vec(1)}, {8, vec(2)}}, r1 = {{5, vec(3)}, {3, vec(4)}};
    {
      DiskCollection c(p, kDim, m, type, size_t(1) << 20, params());
      add(c, r0);
      c.flush();
      fsx::begin(top);
      add(c, r1);
      fsx::mark("fb1");
      c.flush();
      fsx::mark("fe1");
    }
    log = fsx::end();
    h.flushes = {r0, r1};
    std::vector<fsx::Image> ims;
    fsx::Policy pol;
    pol.power_loss = power;
    pol.full_subset_limit = 2;
    pol.torn_all_bytes = 0;
    std::set<uint64_t> hs;
    fsx::images(log, pol, 0, log.e.size(), [&](const fsx::Image &im) {
      if (hs.insert(mc::mix(fsx::tree_hash(fsx::apply(log, im)), (find_mark(log, "fe1") < im.k) * 2 + (find_mark(log, "fb1") < im.k))).second) ims.push_back(im);
      return true;
    });
    auto &im = ims[size_t(choose(int(ims.size()), "image"))];
    fsx::write_tree(fsx::apply(log, im), top2);
    size_t acked = find_mark(log, "fe1") < im.k ? 2 : 1, begun = find_mark(log, "fb1") < im.k ? 2 : 1;
    h.text = " [crash 1: " + (mc::verbose() ? im.describe(log) : std::to_string(im.k)) + "]";
    size_t n;
    {
      auto c = try_open(fs::path(top2) / "col", true, h.text);
      n = shown(*c, h, acked, begun, m, type == DiskIndexType::Flat, h.text);
    }
    h.flushes.resize(n);
  }
  size_t before = h.flushes.size();
  record(top2, h, m, type, 1, false, before);
  auto log2 = fsx::end();
  run_images(log2, power, h, before, true, m, type == DiskIndexType::Flat, base + "/chk", "history" + h.text, true);
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P03";
  sp.level = "fault_enumeration";
  sp.rule = "an execution is non-trivial when at least one flush was interrupted at every crash point and each image was reopened, compared, continued and reopened again";
  sp.assumptions = {"metadata operations reach the disk in order; fsync of a file also persists the directory entry of that file (ext4/xfs behaviour)",
                    "the process-crash scenarios keep all completed writes; the power-loss scenarios lose any subset of un-synced ones"};
  std::vector<mc::Scenario> sc;
  auto F = DiskIndexType::Flat, V = DiskIndexType::Vamana;
  sc.push_back({"kill-flat", [=] { crash_body(false, F, MetricType::L2, 3); }});
  sc.push_back({"power-flat", [=] { crash_body(true, F, MetricType::L2, 3); }});
  sc.push_back({"kill-vamana", [=] { crash_body(false, V, MetricType::L2, 2); }});
  sc.push_back({"power-vamana", [=] { crash_body(true, V, MetricType::L2, 2); }});
  sc.push_back({"power-cos", [=] { crash_body(true, F, MetricType::COS, 2); }});
  sc.push_back({"twice-kill-flat", [=] { twice_body(false, F, MetricType::L2); }});
  sc.push_back({"twice-power-flat", [=] { twice_body(true, F, MetricType::IP); }});
  sc.push_back({"twice-power-vamana", [=] { twice_body(true, V, MetricType::L2); }});
  sc.push_back({"power-flat-deep", [=] { crash_body(true, F, MetricType::L2, 5); }, true});
  sc.push_back({"power-vamana-deep", [=] { crash_body(true, V, MetricType::L2, 4); }, true});
  return mc::run_main(argc, argv, sp, sc);
}
