// P01 write-ahead log: crash/recover/append histories of the real RecoveryManager/WriteAheadLog.
// mc-fsx
#include <map>
#include <set>
#include "lib/mc.hpp"
#include "lib/fsx.hpp"
#include "recovery/recovery_manager.hpp"

using namespace alaya::recovery;
namespace fs = std::filesystem;
using mc::choose;

namespace {

struct Op {
  uint64_t id;
  MutationType type;
  std::vector<char> payload;
  size_t began_prepare = SIZE_MAX, prepared = SIZE_MAX, began_commit = SIZE_MAX, acked = SIZE_MAX;  // log positions
  bool p_ok = false, c_try = false, c_ok = false;
};

struct Log {  // everything attempted so far in this history, over all epochs
  std::vector<Op> ops;
};

const MutationType kTypes[] = {MutationType::kInsert, MutationType::kUpsert, MutationType::kRemoveByItemId, MutationType::kRemoveByInternalId};

// bytes of complete, valid frames (to be hidden inside a payload)
std::vector<char> frames_bytes(const std::string &dir, uint64_t id) {
  fs::create_directories(dir);
  {
    WriteAheadLog w(fs::path(dir) / "w.bin");
    w.append_prepare(WalRecord{.op_id_ = id, .mutation_type_ = MutationType::kInsert, .payload_ = {'z', 'z'}});
    w.append_commit(id, MutationType::kInsert);
  }
  std::ifstream in(fs::path(dir) / "w.bin", std::ios::binary);
  std::vector<char> b((std::istreambuf_iterator<char>(in)), {});
  return b;
}

std::vector<char> make_payload(int kind, int salt, const std::string &aux) {
  std::vector<char> p;
  switch (kind) {
    case 0: break;
    case 1:
      for (int i = 0; i < 5; ++i) p.push_back(char('a' + salt * 5 + i));
      break;
    case 2: p = frames_bytes(aux, uint64_t(700 + salt)); break;
    default:
      for (int i = 0; i < 9001; ++i) p.push_back(char(i * 7 + salt));
      break;
  }
  return p;
}

// Compares what recovery reports with what the history attempted.
// must(op): commit acknowledged and durable; may(op): its commit may have reached the log.
template <class Must, class May>
void check_replay(const RecoveryManager &rm, const std::vector<Op> &ops, uint64_t applied, Must must, May may, uint64_t min_next, const std::string &where) {
  uint64_t mx = 0;
  auto recs = rm.replayable_records(applied, &mx);
  std::set<uint64_t> seen;
  uint64_t prev = 0;
  for (auto &r : recs) {
    MC_REQUIRE(seen.insert(r.op_id_).second, "replay-twice", "op %llu replayed twice; %s", (unsigned long long)r.op_id_, where.c_str());
    MC_REQUIRE(r.op_id_ > prev, "replay-order", "op %llu after %llu; %s", (unsigned long long)r.op_id_, (unsigned long long)prev, where.c_str());
    prev = r.op_id_;
    const Op *m = nullptr;
    for (auto &o : ops)
      if (o.id == r.op_id_ && o.type == r.mutation_type_ && o.payload == r.payload_ && may(o)) m = &o;
    MC_REQUIRE(m, "replay-foreign", "replayed op %llu (%zu bytes) was never committed with this content; %s", (unsigned long long)r.op_id_, r.payload_.size(), where.c_str());
    MC_REQUIRE(r.op_id_ > applied, "replay-applied", "op %llu <= applied %llu; %s", (unsigned long long)r.op_id_, (unsigned long long)applied, where.c_str());
  }
  uint64_t hi = 0;
  for (auto &o : ops) {
    if (must(o) && o.id > applied)
      MC_REQUIRE(seen.count(o.id), "acked-lost", "acknowledged op %llu is not replayed; %s", (unsigned long long)o.id, where.c_str());
    if (must(o)) hi = std::max(hi, o.id);
  }
  for (auto id : seen) hi = std::max(hi, id);
  uint64_t next = rm.next_operation_id();
  hi = std::max(hi, std::max(min_next, applied));
  MC_REQUIRE(next > hi, "id-reused", "next id %llu but %llu is already used; %s", (unsigned long long)next, (unsigned long long)hi, where.c_str());
  MC_REQUIRE(mx >= (seen.empty() ? 0 : *seen.rbegin()), "max-seen", "max seen %llu; %s", (unsigned long long)mx, where.c_str());
}

struct Epoch {
  fs::path root;
  std::vector<Op> ops;        // all epochs
  std::vector<bool> old_must; // for ops of earlier epochs: durable
  std::vector<bool> old_may;
};

// one epoch: a history of log actions on a fresh manager over `root`
void run_epoch(const fs::path &root, std::vector<Op> &ops, int steps, int payload_kinds, const std::string &aux, size_t *pos_base) {
  RecoveryManager rm(root, {});
  rm.ensure_layout();
  (void)pos_base;
  uint64_t next = rm.next_operation_id();
  auto prep = [&](Op &o) {
    fsx::mark("prepare-begin " + std::to_string(o.id));
    rm.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
    fsx::mark("prepare-end " + std::to_string(o.id));
    o.p_ok = true;
  };
  auto comm = [&](Op &o) {
    fsx::mark("commit-begin " + std::to_string(o.id));
    o.c_try = true;
    rm.append_commit(o.id, o.type);
    fsx::mark("commit-end " + std::to_string(o.id));
    o.c_ok = true;
  };
  for (int s = 0; s < steps; ++s) {
    int salt = int(ops.size());
    auto mk = [&](int pk) {
      Op o;
      o.id = next++;
      o.type = kTypes[(salt) % 4];
      o.payload = make_payload(pk, salt, aux);
      return o;
    };
    int a = choose(payload_kinds + 4, "act");
    if (a < payload_kinds) {
      ops.push_back(mk(a));
      mc::note("op %llu payload kind %d", (unsigned long long)ops.back().id, a);
      prep(ops.back());
      comm(ops.back());
    } else if (a == payload_kinds) {
      ops.push_back(mk(1));
      mc::note("op %llu prepare only", (unsigned long long)ops.back().id);
      prep(ops.back());
    } else if (a == payload_kinds + 1) {
      ops.push_back(mk(1));
      ops.push_back(mk(0));
      mc::note("ops %llu,%llu interleaved, committed in reverse", (unsigned long long)ops[ops.size() - 2].id, (unsigned long long)ops.back().id);
      prep(ops[ops.size() - 2]);
      prep(ops.back());
      comm(ops.back());
      comm(ops[ops.size() - 2]);
    } else if (a == payload_kinds + 2) {
      mc::note("sync");
      rm.sync_wal();
    } else {  // a reader in the middle of the epoch
      mc::note("read");
      check_replay(rm, ops, 0, [](const Op &o) { return o.c_ok; }, [](const Op &o) { return o.c_ok || o.c_try; }, 0, "live read");
    }
    mc::step();
  }
}

size_t find_mark(const fsx::Log &l, const std::string &t) {
  for (size_t i = 0; i < l.e.size(); ++i)
    if (l.e[i].op == fsx::Op::Mark && l.e[i].data == t) return i;
  return SIZE_MAX;
}

// classification of the ops of one epoch for crash point k
struct Cls {
  const fsx::Log &l;
  std::map<uint64_t, std::array<size_t, 4>> pos;
  explicit Cls(const fsx::Log &lg, const std::vector<Op> &ops) : l(lg) {
    for (auto &o : ops) {
      auto id = std::to_string(o.id);
      pos[o.id] = {find_mark(l, "prepare-begin " + id), find_mark(l, "prepare-end " + id), find_mark(l, "commit-begin " + id), find_mark(l, "commit-end " + id)};
    }
  }
  bool reached(uint64_t id, int w, size_t k) const {
    auto it = pos.find(id);
    return it != pos.end() && it->second[size_t(w)] != SIZE_MAX && it->second[size_t(w)] < k;
  }
};

void crash_body(bool power, int epochs, int steps1, int steps2, int kinds) {
  std::string base = mc::fresh_dir();
  std::string aux = mc::fresh_dir();
  fs::path root = fs::path(base) / "r0" / "rec";
  fs::create_directories(root.parent_path());
  struct Known {
    Op op;
    bool must, may;
  };
  std::vector<Known> old;  // from earlier epochs, relative to the chosen image
  uint64_t min_next = 0;   // every id whose prepare certainly reached the log
  for (int e = 0; e < epochs; ++e) {
    std::vector<Op> ops;
    for (auto &k : old) {
      Op o = k.op;
      o.c_ok = k.must;
      o.c_try = k.may;
      ops.push_back(o);
    }
    size_t nold = ops.size();
    std::string top = (fs::path(base) / ("r" + std::to_string(e))).string();
    fsx::begin(top);
    try {
      run_epoch(fs::path(top) / "rec", ops, e == 0 ? steps1 : steps2, kinds, aux, nullptr);
    } catch (const std::exception &ex) {
      mc::fail("append-error", std::string("log append failed: ") + ex.what());
    }
    fsx::mark("end");
    auto log = fsx::end();
    std::vector<Op> mine(ops.begin() + long(nold), ops.end());
    Cls cls(log, mine);
    fsx::Policy pol;
    pol.power_loss = power;
    std::vector<fsx::Image> distinct;
    std::set<uint64_t> hs;
    std::string where;
    std::string check = (fs::path(base) / "chk").string();
    fsx::images(log, pol, 0, log.e.size(), [&](const fsx::Image &im) {
      auto t = fsx::apply(log, im);
      uint64_t sig = fsx::tree_hash(t);
      std::vector<char> ackv;
      for (auto &o : mine) {
        bool ack = cls.reached(o.id, 3, im.k), may = cls.reached(o.id, 2, im.k);
        sig = mc::mix(sig, uint64_t(ack) * 2 + may);
      }
      if (!hs.insert(sig).second) return true;
      distinct.push_back(im);
      mc::state(sig);
      return true;
    });
    auto materialise = [&](const fsx::Image &im, const std::string &dir) {
      fs::remove_all(dir);
      fsx::write_tree(fsx::apply(log, im), dir);
    };
    auto must = [&](const fsx::Image &im) {
      return [&, im](const Op &o) {
        for (auto &k : old)
          if (k.op.id == o.id && k.op.payload == o.payload) {
            if (k.must) return true;
          }
        return cls.reached(o.id, 3, im.k) && !o.payload.empty() ? true : cls.reached(o.id, 3, im.k);
      };
    };
    auto may = [&](const fsx::Image &im) {
      return [&, im](const Op &o) {
        for (auto &k : old)
          if (k.op.id == o.id && k.op.payload == o.payload && k.may) return true;
        return cls.reached(o.id, 2, im.k);
      };
    };
    auto minid = [&](const fsx::Image &im) {
      uint64_t m = min_next;
      if (!power)
        for (auto &o : mine)
          if (cls.reached(o.id, 1, im.k)) m = std::max(m, o.id);
      for (auto &o : mine)
        if (cls.reached(o.id, 3, im.k)) m = std::max(m, o.id);
      return m;
    };
    if (e + 1 == epochs) {
      for (auto &im : distinct) {
        materialise(im, check);
        RecoveryManager rm(fs::path(check) / "rec", {});
        std::string w;
        if (mc::verbose()) w = "crash: " + im.describe(log);
        else w = "crash point " + std::to_string(im.k);
        check_replay(rm, ops, 0, must(im), may(im), minid(im), w);
        // a second recovery sees the same
        RecoveryManager rm2(fs::path(check) / "rec", {});
        check_replay(rm2, ops, 0, must(im), may(im), minid(im), w + " (second recovery)");
        mc::add_eval();
      }
      if (!distinct.empty()) mc::nontrivial();
      break;
    }
    int pick = choose(int(distinct.size()), "image");
    const auto &im = distinct[size_t(pick)];
    mc::note("epoch %d crash: %s", e, im.describe(log).c_str());
    std::string nxt = (fs::path(base) / ("r" + std::to_string(e + 1))).string();
    materialise(im, nxt);
    {
      RecoveryManager rm(fs::path(nxt) / "rec", {});
      check_replay(rm, ops, 0, must(im), may(im), minid(im), "crash in epoch " + std::to_string(e));
      // what was replayed is now settled
      auto recs = rm.replayable_records(0);
      std::vector<Known> nk;
      for (auto &o : ops) {
        bool in = false;
        for (auto &r : recs) in |= r.op_id_ == o.id && r.payload_ == o.payload && r.mutation_type_ == o.type;
        nk.push_back({o, in, in});
      }
      min_next = minid(im);
      for (auto &k : nk)
        if (k.must) min_next = std::max(min_next, k.op.id);
      old = nk;
    }
    mc::step();
  }
}

// one failing system call during appends of a running process; acknowledged commits must be readable afterwards
void fault_body() {
  std::string base = mc::fresh_dir();
  fs::path root = fs::path(base) / "rec";
  int nops = 3;
  int pk = choose(2, "payload") ? 3 : 1;
  int at = choose(14, "fault");
  int mode = choose(2, "mode");
  int err = choose(2, "errno") ? EIO : ENOSPC;
  std::vector<Op> ops;
  bool fired = false;
  {
    RecoveryManager rm(root, {});
    rm.ensure_layout();
    uint64_t next = 1;
    fsx::fault_arm(base, at, err, mode, fsx::bit(fsx::Kind::Write) | fsx::bit(fsx::Kind::Sync) | fsx::bit(fsx::Kind::Open) | fsx::bit(fsx::Kind::SyncDir));
    for (int i = 0; i < nops; ++i) {
      Op o;
      o.id = next++;
      o.type = kTypes[i % 4];
      o.payload = make_payload(pk, i, "");
      try {
        rm.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
        o.p_ok = true;
        o.c_try = true;
        rm.append_commit(o.id, o.type);
        o.c_ok = true;
      } catch (const std::exception &) {
      }
      ops.push_back(o);
      mc::step();
    }
    fsx::fault_disarm(&fired);
  }
  if (!fired) return;
  mc::nontrivial();
  mc::note("fault at call %d mode %d: acked %d%d%d", at, mode, ops[0].c_ok, ops[1].c_ok, ops[2].c_ok);
  mc::require(ops[2].c_ok || ops[1].c_ok || ops[0].c_ok, "stuck", "no operation succeeds although only one call failed");
  RecoveryManager rm(root, {});
  check_replay(rm, ops, 0, [](const Op &o) { return o.c_ok; }, [](const Op &o) { return o.c_try; }, 0, "after fault");
}

// one failing system call in a restarted process that appends to an existing (possibly torn) log
void restart_fault_body() {
  std::string base = mc::fresh_dir();
  fs::path root = fs::path(base) / "rec";
  std::vector<Op> ops;
  auto add = [&](RecoveryManager &rm, uint64_t id) {
    Op o;
    o.id = id;
    o.type = kTypes[id % 4];
    o.payload = make_payload(1, int(id), "");
    try {
      rm.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
      o.c_try = true;
      rm.append_commit(o.id, o.type);
      o.c_ok = true;
    } catch (const std::exception &) {
    }
    ops.push_back(o);
    mc::step();
  };
  {
    RecoveryManager rm(root, {});
    rm.ensure_layout();
    add(rm, 1);
    add(rm, 2);
  }
  if (choose(2, "torn")) {
    std::ofstream o(root / "wal.bin", std::ios::binary | std::ios::app);
    o.write("DAEH\1\1", 6);
  }
  int at = choose(20, "fault");
  int mode = choose(2, "mode");
  bool read_first = choose(2, "read-first");
  bool fired = false;
  {
    RecoveryManager rm(root, {});
    fsx::fault_arm(base, at, EIO, mode, ~0u);
    try {
      if (read_first) rm.replayable_records(0);
    } catch (const std::exception &) {
    }
    add(rm, 3);
    add(rm, 4);
    fsx::fault_disarm(&fired);
  }
  if (!fired) return;
  mc::nontrivial();
  RecoveryManager rm(root, {});
  check_replay(rm, ops, 0, [](const Op &o) { return o.c_ok; }, [](const Op &o) { return o.c_try; }, 0, "after fault");
}

// every single-byte corruption and truncation of the last frame(s) of a log
void corrupt_body() {
  std::string base = mc::fresh_dir();
  fs::path root = fs::path(base) / "rec";
  std::vector<Op> ops;
  std::vector<size_t> ends;  // file size after each append
  auto file = root / "wal.bin";
  int kind = choose(2, "payload") ? 0 : 1;
  {
    RecoveryManager rm(root, {});
    rm.ensure_layout();
    for (int i = 0; i < 3; ++i) {
      Op o;
      o.id = uint64_t(i + 1);
      o.type = kTypes[i % 4];
      o.payload = make_payload(kind, i, "");
      rm.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
      ends.push_back(fs::file_size(file));
      rm.append_commit(o.id, o.type);
      ends.push_back(fs::file_size(file));
      o.c_ok = o.c_try = true;
      ops.push_back(o);
    }
  }
  size_t size = ends.back();
  int frame = choose(6, "frame");  // which frame is damaged
  size_t fb = frame ? ends[size_t(frame - 1)] : 0, fe = ends[size_t(frame)];
  size_t off = fb + size_t(choose(int(fe - fb), "offset"));
  int how = choose(4, "how");  // 0 truncate here, 1 zero, 2 flip low bit, 3 flip all
  std::string data;
  {
    std::ifstream in(file, std::ios::binary);
    data.assign((std::istreambuf_iterator<char>(in)), {});
  }
  size_t paylen = ops[size_t(frame / 2)].payload.size();
  bool in_payload = frame % 2 == 0 && off >= fb + 24 && off < fb + 24 + paylen;
  if (how == 0) data.resize(off);
  else if (how == 1) data[off] = 0;
  else if (how == 2) data[off] = char(data[off] ^ 1);
  else data[off] = char(~data[off]);
  if (in_payload && how != 0) return;  // content bytes carry no checksum in this format
  {
    std::ofstream o(file, std::ios::binary | std::ios::trunc);
    o.write(data.data(), std::streamsize(data.size()));
  }
  mc::note("frame %d offset %zu how %d of %zu", frame, off, how, size);
  mc::nontrivial();
  {
    RecoveryManager rm(root, {});
    // operations completely before the damage are intact; nothing foreign appears
    check_replay(rm, ops, 0, [&](const Op &o) { return ends[size_t(o.id - 1) * 2 + 1] <= fb; }, [](const Op &) { return true; }, 0, "damaged log");
  }
  // the log stays usable: new operations are durable
  std::vector<Op> ops2 = ops;
  {
    RecoveryManager rm(root, {});
    uint64_t id = rm.next_operation_id();
    uint64_t id2 = id + 10;  // clear of every original id
    Op o;
    o.id = id2;
    o.type = MutationType::kUpsert;
    o.payload = {'n', 'e', 'w'};
    rm.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
    rm.append_commit(o.id, o.type);
    o.c_ok = true;
    ops2.push_back(o);
    mc::step();
  }
  RecoveryManager rm(root, {});
  check_replay(rm, ops2, 0, [&](const Op &o) { return o.id > 3 || ends[size_t(o.id - 1) * 2 + 1] <= fb; }, [](const Op &) { return true; }, 0, "append after damaged log");
}

// ids and replay bounds after snapshots truncate the log
void snapshot_ids_body() {
  std::string base = mc::fresh_dir();
  fs::path root = fs::path(base) / "rec";
  std::vector<Op> ops;
  uint64_t applied = 0, used = 0;
  for (int ep = 0; ep < 3; ++ep) {
    RecoveryManager rm(root, {});
    rm.ensure_layout();
    auto cur = rm.current_snapshot();
    uint64_t ap = cur ? cur->applied_through_op_id_ : 0;
    mc::require(ap == applied, "snapshot-bound", mc::format("applied %llu expected %llu", (unsigned long long)ap, (unsigned long long)applied));
    check_replay(rm, ops, ap, [](const Op &o) { return o.c_ok; }, [](const Op &o) { return o.c_ok; }, used, "restart");
    uint64_t next = rm.next_operation_id();
    for (int s = 0; s < 2; ++s) {
      switch (choose(4, "act")) {
        case 0: {
          Op o;
          o.id = next++;
          o.type = kTypes[o.id % 4];
          o.payload = {char('0' + o.id)};
          rm.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
          rm.append_commit(o.id, o.type);
          o.c_ok = o.c_try = true;
          used = o.id;
          ops.push_back(o);
          break;
        }
        case 1: {
          Op o;
          o.id = next++;
          o.type = MutationType::kInsert;
          rm.append_prepare(WalRecord{.op_id_ = o.id, .mutation_type_ = o.type, .payload_ = o.payload});
          used = o.id;
          ops.push_back(o);
          break;
        }
        case 2: {  // snapshot through everything acknowledged
          SnapshotManifest m;
          auto d = root / "snapshots" / ("snapshot-" + std::to_string(1000 + ep * 10 + s));
          fs::create_directories(d);
          m.snapshot_id_ = d.filename().string();
          uint64_t thr = applied;
          for (auto &o : ops)
            if (o.c_ok) thr = std::max(thr, o.id);
          m.applied_through_op_id_ = thr;
          rm.publish_snapshot(m, d);
          applied = thr;
          used = applied;  // ids of never-committed operations above it may be handed out again
          std::vector<Op> keep;
          for (auto &o : ops)
            if (o.c_ok) keep.push_back(o);
          ops = keep;
          next = std::max(next, rm.next_operation_id());
          break;
        }
        default: check_replay(rm, ops, applied, [](const Op &o) { return o.c_ok; }, [](const Op &o) { return o.c_ok; }, used, "live"); break;
      }
      mc::step();
    }
    mc::nontrivial();
  }
}
}  // namespace

int main(int argc, char **argv) {
  alaya::recovery::SnapshotManifest warm;
  (void)warm;
  mc::Spec sp;
  sp.property = "P01";
  sp.level = "fault_enumeration";
  sp.rule = "an execution counts as non-trivial when at least one crash image / fault / damaged log was recovered and compared with the history";
  sp.assumptions = {"crash model: directory changes persist in order, un-synced file writes may be lost in any subset, the last write may be torn at any byte (rest absent or zero)",
                    "fsync of a file also persists that file's own directory entry (Linux journaling file systems)",
                    "damage to payload bytes of an already synced frame is outside the property (the format has no checksum)"};
  bool th = mc::thorough();
  (void)th;
  std::vector<mc::Scenario> sc;
  sc.push_back({"corrupt-log", corrupt_body});
  sc.push_back({"snapshot-ids", snapshot_ids_body});
  sc.push_back({"append-faults", fault_body});
  sc.push_back({"restart-faults", restart_fault_body});
  sc.push_back({"kill-1-epoch", [] { crash_body(false, 1, 3, 0, 4); }});
  sc.push_back({"powerloss-1-epoch", [] { crash_body(true, 1, 3, 0, 3); }});
  sc.push_back({"kill-2-epochs", [] { crash_body(false, 2, 2, 1, 3); }});
  sc.push_back({"powerloss-2-epochs", [] { crash_body(true, 2, 1, 1, 3); }});
  sc.push_back({"kill-3-epochs", [] { crash_body(false, 3, 1, 1, 2); }, true});
  sc.push_back({"powerloss-2-epochs-deep", [] { crash_body(true, 2, 2, 2, 3); }, true});
  return mc::run_main(argc, argv, sp, sc);
}
