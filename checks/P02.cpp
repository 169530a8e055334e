// P02 snapshots: every crash point of publication, restore and damage of pointer/manifest.
// mc-fsx
#include <map>
#include <set>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "lib/mc.hpp"
#include "lib/fsx.hpp"
#include "recovery/recovery_manager.hpp"

using namespace alaya::recovery;
namespace fs = std::filesystem;
using mc::choose;

static bool g_freeze = false;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  if (g_freeze && c == CLOCK_REALTIME) {  // several snapshots within one tick
    t->tv_sec = 1700000000;
    t->tv_nsec = 0;
    return 0;
  }
  return int(syscall(SYS_clock_gettime, c, t));
}

namespace {

struct SnapModel {
  std::string id;
  uint64_t applied = 0;
  std::map<std::string, std::string> files;  // relative -> content
};

void put(const fs::path &p, const std::string &c) {
  fs::create_directories(p.parent_path());
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(c.data(), std::streamsize(c.size()));
}
std::string get(const fs::path &p) {
  std::ifstream in(p, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(in)), {});
}
std::map<std::string, std::string> list(const fs::path &d) {
  std::map<std::string, std::string> m;
  std::error_code ec;
  if (!fs::exists(d)) return m;
  for (auto &e : fs::recursive_directory_iterator(d))
    if (e.is_regular_file()) m[fs::relative(e.path(), d).string()] = get(e.path());
  return m;
}

struct Freeze {
  Freeze() { g_freeze = true; }
  ~Freeze() { g_freeze = false; }
};
SnapModel take(const RecoveryManager &rm, uint64_t applied, int gen, bool with_db) {
  Freeze fz;
  SnapModel s;
  auto dir = rm.create_snapshot_dir();
  s.id = dir.filename().string();
  s.applied = applied;
  // the components are written the way the index writes them: plain streams, no sync of their own
  s.files["graph.snapshot"] = "graph-" + std::to_string(gen) + std::string(40, char('a' + gen));
  s.files["data.snapshot"] = "data-" + std::to_string(gen);
  if (with_db) {
    s.files["rocksdb/CURRENT"] = "db" + std::to_string(gen);
    s.files["rocksdb/sub/000.sst"] = std::string(30, char('A' + gen));
  }
  for (auto &kv : s.files) put(dir / kv.first, kv.second);
  SnapshotManifest m;
  m.snapshot_id_ = s.id;
  m.reason_ = "r" + std::to_string(gen);
  m.applied_through_op_id_ = applied;
  m.created_unix_ms_ = 5;
  m.graph_file_ = "graph.snapshot";
  m.data_file_ = "data.snapshot";
  m.rocksdb_dir_ = with_db ? "rocksdb" : "";
  rm.publish_snapshot(m, dir);
  return s;
}

struct OpM {
  uint64_t id;
  size_t acked = SIZE_MAX;
  size_t started = SIZE_MAX;
};

bool complete(const SnapModel &s, const fs::path &dir) {
  auto m = list(dir);
  for (auto &kv : s.files)
    if (!m.count(kv.first) || m[kv.first] != kv.second) return false;
  return true;
}

size_t find_mark(const fsx::Log &l, const std::string &t) {
  for (size_t i = 0; i < l.e.size(); ++i)
    if (l.e[i].op == fsx::Op::Mark && l.e[i].data == t) return i;
  return SIZE_MAX;
}

// history: actions op / snapshot; then every crash image
void crash_body(bool power, int steps) {
  std::string base = mc::fresh_dir();
  std::string top = base + "/run";
  fs::create_directories(top);
  bool with_db = choose(2, "db");
  std::vector<SnapModel> snaps;
  std::vector<OpM> ops;
  std::string hist;
  {
    RecoveryManager rm(fs::path(top) / "rec", {});
    fsx::begin(top);
    rm.ensure_layout();
    uint64_t next = 1;
    for (int s = 0; s < steps; ++s) {
      if (choose(2, "act") == 0) {
        auto id = std::to_string(next);
        fsx::mark("cb" + id);
        rm.append_prepare(WalRecord{.op_id_ = next, .mutation_type_ = MutationType::kInsert, .payload_ = {'p', char('0' + next)}});
        rm.append_commit(next, MutationType::kInsert);
        fsx::mark("ce" + id);
        ops.push_back({next});
        ++next;
        hist += "o";
      } else {
        int g = int(snaps.size());
        fsx::mark("sb" + std::to_string(g));
        snaps.push_back(take(rm, next - 1, g, with_db));
        fsx::mark("se" + std::to_string(g));
        hist += "S";
      }
      mc::step();
    }
    fsx::mark("end");
  }
  auto log = fsx::end();
  mc::note("history %s db=%d power=%d entries=%zu", hist.c_str(), with_db, power, log.e.size());
  std::vector<std::pair<size_t, size_t>> sp, op;
  for (size_t i = 0; i < snaps.size(); ++i) sp.emplace_back(find_mark(log, "sb" + std::to_string(i)), find_mark(log, "se" + std::to_string(i)));
  for (auto &o : ops) op.emplace_back(find_mark(log, "cb" + std::to_string(o.id)), find_mark(log, "ce" + std::to_string(o.id)));
  fsx::Policy pol;
  pol.power_loss = power;
  pol.full_subset_limit = 4;
  std::set<uint64_t> hs;
  fsx::images(log, pol, 0, log.e.size(), [&](const fsx::Image &im) {
    auto t = fsx::apply(log, im);
    uint64_t sig = fsx::tree_hash(t);
    int done = -1, begun = -1;
    for (size_t i = 0; i < sp.size(); ++i) {
      if (sp[i].second < im.k) done = int(i);
      if (sp[i].first < im.k) begun = int(i);
    }
    sig = mc::mix(sig, uint64_t((done + 1) * 16 + begun + 1));
    uint64_t oa = 0;
    for (size_t i = 0; i < op.size(); ++i) {
      if (op[i].second < im.k) oa = i + 1;
    }
    sig = mc::mix(sig, oa);
    if (!hs.insert(sig).second) return true;
    mc::state(sig);
    mc::add_eval();
    std::string chk = base + "/chk";
    fs::remove_all(chk);
    fsx::write_tree(t, chk);
    std::string where = mc::verbose() ? "history " + hist + " crash " + im.describe(log) : "history " + hist + " crash point " + std::to_string(im.k);
    RecoveryManager rm(fs::path(chk) / "rec", {});
    auto cur = rm.current_snapshot();
    int which = -1;
    if (cur) {
      bool named = false;
      auto d = rm.current_snapshot_dir();
      MC_REQUIRE(d.has_value(), "snapshot-dir", "%s", where.c_str());
      for (size_t i = 0; i < snaps.size(); ++i)
        if (snaps[i].id == cur->snapshot_id_ && snaps[i].applied == cur->applied_through_op_id_ && int(i) <= begun) {
          named = true;
          if (complete(snaps[i], *d)) which = int(i);
        }
      MC_REQUIRE(named, "foreign-snapshot", "current snapshot %s is none of those published; %s", cur->snapshot_id_.c_str(), where.c_str());
      MC_REQUIRE(which >= 0, "snapshot-incomplete", "snapshot %s is current but not complete; %s", cur->snapshot_id_.c_str(), where.c_str());
      MC_REQUIRE(cur->graph_path(*d) == (*d / "graph.snapshot").string() && cur->data_path(*d) == (*d / "data.snapshot").string() &&
                     cur->rocksdb_path(*d) == (with_db ? *d / "rocksdb" : fs::path{}),
                 "snapshot-paths", "%s", where.c_str());
    }
    MC_REQUIRE(which >= done && which <= begun, "snapshot-lost", "current snapshot %d, published %d, begun %d; %s", which, done, begun, where.c_str());
    uint64_t applied = cur ? cur->applied_through_op_id_ : 0;
    auto recs = rm.replayable_records(applied);
    std::set<uint64_t> got;
    for (auto &r : recs) {
      got.insert(r.op_id_);
      MC_REQUIRE(r.op_id_ > applied, "replay-applied", "op %llu already in the snapshot; %s", (unsigned long long)r.op_id_, where.c_str());
      MC_REQUIRE((r.payload_ == std::vector<char>{'p', char('0' + r.op_id_)}), "replay-payload", "%s", where.c_str());
    }
    MC_REQUIRE(got.size() == recs.size(), "replay-twice", "%s", where.c_str());
    for (size_t i = 0; i < ops.size(); ++i) {
      if (ops[i].id <= applied) continue;
      if (op[i].second < im.k) MC_REQUIRE(got.count(ops[i].id), "acked-lost", "op %llu not replayed (applied %llu); %s", (unsigned long long)ops[i].id, (unsigned long long)applied, where.c_str());
    }
    for (auto id : got) MC_REQUIRE(id <= ops.size() && op[id - 1].first < im.k, "replay-foreign", "%s", where.c_str());
    MC_REQUIRE(rm.next_operation_id() > std::max(applied, got.empty() ? uint64_t(0) : *got.rbegin()), "id-reused", "%s", where.c_str());
    // life goes on: another snapshot on the recovered state
    auto s2 = take(rm, 90, 7, with_db);
    RecoveryManager rm2(fs::path(chk) / "rec", {});
    auto c2 = rm2.current_snapshot();
    MC_REQUIRE(c2 && c2->snapshot_id_ == s2.id && complete(s2, *rm2.current_snapshot_dir()) && rm2.replayable_records(90).empty(), "snapshot-after-recovery", "%s", where.c_str());
    return true;
  });
  if (!snaps.empty()) mc::nontrivial();
}

// restoring the active database directory, with a crash in the middle and another attempt
void restore_body(bool power) {
  std::string base = mc::fresh_dir();
  std::string top = base + "/run";
  fs::create_directories(top);
  fs::path active = fs::path(top) / "db" / "active";
  RecoveryManager rm(fs::path(top) / "rec", active);
  auto s = take(rm, 3, 1, true);
  int old = choose(3, "old");
  if (old >= 1) put(active / "CURRENT", "stale");
  if (old == 2) {
    put(active / "sub" / "000.sst", "stale");
    put(active / "zzz.log", "stale extra");
  }
  std::map<std::string, std::string> want;
  for (auto &kv : s.files)
    if (kv.first.rfind("rocksdb/", 0) == 0) want[kv.first.substr(8)] = kv.second;
  fsx::begin(top);
  rm.restore_active_rocksdb_from_snapshot(*rm.current_snapshot(), *rm.current_snapshot_dir());
  fsx::mark("end");
  auto log = fsx::end();
  mc::require(list(active) == want, "restore-content", "restored database differs from the checkpoint");
  fsx::Policy pol;
  pol.power_loss = power;
  std::set<uint64_t> hs;
  fsx::images(log, pol, 0, log.e.size(), [&](const fsx::Image &im) {
    auto t = fsx::apply(log, im);
    if (!hs.insert(fsx::tree_hash(t)).second) return true;
    mc::add_eval();
    std::string chk = base + "/chk";
    fs::remove_all(chk);
    fsx::write_tree(t, chk);
    RecoveryManager r2(fs::path(chk) / "rec", fs::path(chk) / "db" / "active");
    auto cur = r2.current_snapshot();
    MC_REQUIRE(cur && complete(s, *r2.current_snapshot_dir()), "restore-harms-snapshot", "%s", im.describe(log).c_str());
    r2.restore_active_rocksdb_from_snapshot(*cur, *r2.current_snapshot_dir());
    MC_REQUIRE(list(fs::path(chk) / "db" / "active") == want, "restore-after-crash", "%s", im.describe(log).c_str());
    return true;
  });
  mc::nontrivial();
}

// two snapshots in quick succession: the published one must never be written to again
void quick_body() {
  std::string base = mc::fresh_dir();
  RecoveryManager rm(fs::path(base) / "rec", {});
  int n = 2 + choose(3, "n");
  bool publish = choose(2, "publish");
  std::set<std::string> ids;
  Freeze fz;
  for (int i = 0; i < n; ++i) {
    if (publish && i % 2 == 0) {
      ids.clear();
      auto s = take(rm, uint64_t(i), i, false);
    } else {
      auto d = rm.create_snapshot_dir();
      mc::require(fs::is_directory(d) && fs::is_empty(d), "snapshot-dir-not-new", "create_snapshot_dir returned an existing directory");
      mc::require(ids.insert(d.filename().string()).second, "snapshot-dir-reused", "create_snapshot_dir returned the same directory twice");
    }
  }
  mc::nontrivial();
}

// single damages of CURRENT and of the manifest
void damage_body() {
  std::string base = mc::fresh_dir();
  fs::path rec = fs::path(base) / "rec";
  RecoveryManager rm(rec, {});
  bool with_db = choose(2, "db");
  auto s = take(rm, 12, 2, with_db);
  // a second, foreign snapshot directory is lying around
  fs::copy(rec / "snapshots" / s.id, rec / "snapshots" / "snapshot-other", fs::copy_options::recursive);
  {
    auto m = get(rec / "snapshots" / "snapshot-other" / "manifest.txt");
    auto p = m.find(s.id);
    m.replace(p, s.id.size(), "snapshot-other");
    put(rec / "snapshots" / "snapshot-other" / "manifest.txt", m);
  }
  bool man = choose(2, "file") == 0;
  fs::path f = man ? rec / "snapshots" / s.id / "manifest.txt" : rec / "CURRENT";
  std::string d = get(f);
  int how = choose(5, "how");
  std::string what;
  if (how == 0) {  // truncation
    size_t k = size_t(choose(int(d.size()), "len"));
    d.resize(k);
    what = "truncated to " + std::to_string(k);
  } else if (how == 1) {  // a line is missing
    std::vector<std::string> ls;
    std::istringstream in(d);
    std::string l;
    while (std::getline(in, l)) ls.push_back(l);
    int k = choose(int(ls.size()), "line");
    d.clear();
    for (int i = 0; i < int(ls.size()); ++i)
      if (i != k) d += ls[size_t(i)] + "\n";
    what = "line missing: " + ls[size_t(k)];
  } else if (how == 2) {  // a key or separator byte is altered
    size_t k = size_t(choose(int(d.size()), "byte"));
    size_t ls = d.rfind('\n', k == 0 ? 0 : k - 1);
    ls = (ls == std::string::npos || k == 0) ? 0 : ls + 1;
    size_t eq = d.find('=', ls);
    if (man && !(eq != std::string::npos && k <= eq) && d[k] != '\n') {
      // value bytes: only the identity is protected
      if (d.compare(ls, 12, "snapshot_id=") != 0) return;
    }
    d[k] = char(d[k] ^ 2);
    what = "byte " + std::to_string(k) + " altered";
  } else if (how == 3) {  // manifest of another snapshot
    if (!man) return;
    d = get(rec / "snapshots" / "snapshot-other" / "manifest.txt");
    what = "foreign manifest";
  } else {
    const char *junk[] = {"", "\n", " ", "../rec", ".", "..", "snapshot-none\n", "/", "=\n=\n", "\0\0\0"};
    d = junk[choose(10, "junk")];
    what = "replaced by junk";
  }
  put(f, d);
  mc::note("%s %s", man ? "manifest" : "CURRENT", what.c_str());
  mc::nontrivial();
  mc::step();
  std::optional<SnapshotManifest> cur;
  RecoveryManager r2(rec, {});
  try {
    cur = r2.current_snapshot();
  } catch (const std::exception &) {
    return;
  }
  if (!cur) return;
  MC_REQUIRE(cur->snapshot_id_ == s.id && cur->applied_through_op_id_ == 12 && cur->graph_file_ == "graph.snapshot" && cur->data_file_ == "data.snapshot" &&
                 cur->rocksdb_dir_ == (with_db ? "rocksdb" : "") && r2.current_snapshot_dir() == rec / "snapshots" / s.id,
             "damaged-snapshot-loaded", "%s %s: loaded as id=%s applied=%llu graph=%s data=%s db=%s", man ? "manifest" : "CURRENT", what.c_str(), cur->snapshot_id_.c_str(),
             (unsigned long long)cur->applied_through_op_id_, cur->graph_file_.c_str(), cur->data_file_.c_str(), cur->rocksdb_dir_.c_str());
}

// every single failing call while publishing: the old snapshot or the new one stays current and complete
void fault_body() {
  std::string base = mc::fresh_dir();
  fs::path rec = fs::path(base) / "rec";
  RecoveryManager rm(rec, {});
  auto s0 = take(rm, 2, 0, true);
  rm.append_prepare(WalRecord{.op_id_ = 3, .mutation_type_ = MutationType::kInsert, .payload_ = {'x'}});
  rm.append_commit(3, MutationType::kInsert);
  // components of the new snapshot are written without faults; publication meets one fault
  g_freeze = true;
  auto dir = rm.create_snapshot_dir();
  g_freeze = false;
  SnapModel s1;
  s1.id = dir.filename().string();
  s1.applied = 3;
  s1.files = {{"graph.snapshot", "G1"}, {"data.snapshot", "D1"}, {"rocksdb/CURRENT", "R1"}};
  for (auto &kv : s1.files) put(dir / kv.first, kv.second);
  SnapshotManifest m;
  m.snapshot_id_ = s1.id;
  m.applied_through_op_id_ = 3;
  m.graph_file_ = "graph.snapshot";
  m.data_file_ = "data.snapshot";
  m.rocksdb_dir_ = "rocksdb";
  int at = choose(70, "fault"), mode = choose(2, "mode");
  bool fired = false, ok = true;
  fsx::fault_arm(base, at, choose(2, "errno") ? EIO : ENOSPC, mode, ~fsx::bit(fsx::Kind::Read));
  try {
    rm.publish_snapshot(m, dir);
  } catch (const std::exception &) {
    ok = false;
  }
  auto pts = fsx::fault_disarm(&fired);
  if (!fired) return;
  mc::nontrivial();
  mc::step();
  std::string where = "failing call " + std::to_string(at) + (at < int(pts.size()) ? " " + pts[size_t(at)].path.substr(std::min(base.size(), pts[size_t(at)].path.size())) : "");
  mc::note("%s", where.c_str());
  RecoveryManager r2(rec, {});
  auto cur = r2.current_snapshot();
  MC_REQUIRE(cur.has_value(), "fault-no-snapshot", "%s", where.c_str());
  const SnapModel *w = cur->snapshot_id_ == s0.id ? &s0 : cur->snapshot_id_ == s1.id ? &s1 : nullptr;
  MC_REQUIRE(w && w->applied == cur->applied_through_op_id_ && complete(*w, *r2.current_snapshot_dir()), "fault-snapshot", "%s", where.c_str());
  MC_REQUIRE(!ok || w == &s1, "fault-silent", "publication reported success but is not current; %s", where.c_str());
  auto recs = r2.replayable_records(cur->applied_through_op_id_);
  MC_REQUIRE(recs.size() == (w == &s0 ? 1u : 0u), "fault-replay", "%zu records; %s", recs.size(), where.c_str());
}

// manifests round-trip
void roundtrip_body() {
  SnapshotManifest m;
  const char *ids[] = {"snapshot-1", "s", "snapshot-18446744073709551615"};
  const uint64_t nums[] = {0, 1, 4294967296ull, UINT64_MAX};
  const char *vals[] = {"", "a", "x=y", "graph.snapshot", "with space"};
  m.snapshot_id_ = ids[choose(3)];
  m.applied_through_op_id_ = nums[choose(4)];
  m.created_unix_ms_ = nums[choose(4)];
  m.reason_ = vals[choose(5)];
  m.graph_file_ = vals[choose(5)];
  m.data_file_ = vals[choose(5)];
  m.quant_file_ = vals[choose(5)];
  m.rocksdb_dir_ = vals[choose(5)];
  auto d = SnapshotManifest::deserialize(m.serialize());
  mc::require(d && d->snapshot_id_ == m.snapshot_id_ && d->applied_through_op_id_ == m.applied_through_op_id_ && d->created_unix_ms_ == m.created_unix_ms_ && d->reason_ == m.reason_ &&
                  d->graph_file_ == m.graph_file_ && d->data_file_ == m.data_file_ && d->quant_file_ == m.quant_file_ && d->rocksdb_dir_ == m.rocksdb_dir_,
              "roundtrip", "manifest does not round-trip");
  mc::nontrivial();
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P02";
  sp.level = "fault_enumeration";
  sp.rule = "an execution is non-trivial when a snapshot was published (or a damage/fault applied) and the recovered state compared";
  sp.assumptions = {"crash model as in P01; snapshot components are written without fsync by their owners (as the index does)",
                    "altered bytes inside manifest values other than the snapshot id are not detectable (no checksum) and excluded"};
  std::vector<mc::Scenario> sc;
  sc.push_back({"manifest-roundtrip", roundtrip_body});
  sc.push_back({"damage", damage_body});
  sc.push_back({"quick-succession", quick_body});
  sc.push_back({"publish-faults", fault_body});
  sc.push_back({"restore-kill", [] { restore_body(false); }});
  sc.push_back({"restore-powerloss", [] { restore_body(true); }});
  sc.push_back({"kill", [] { crash_body(false, 4); }});
  sc.push_back({"powerloss", [] { crash_body(true, 3); }});
  sc.push_back({"powerloss-deep", [] { crash_body(true, 4); }, true});
  return mc::run_main(argc, argv, sp, sc);
}
