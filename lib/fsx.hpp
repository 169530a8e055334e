// fsx.hpp - file-system interposer: records mutating calls below a root, rebuilds crash images, injects faults.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace fsx {

enum class Op : uint8_t { Link, Unlink, Rename, Write, Trunc, Sync, Mark };

struct Entry {
  Op op;
  int dir = -1, dir2 = -1;   // directory inodes (Link/Unlink/Rename)
  std::string name, name2;
  int ino = -1;
  bool isdir = false;
  uint64_t off = 0;          // Write offset / Trunc size
  std::string data;          // Write bytes / Mark text
  bool meta() const { return op == Op::Link || op == Op::Unlink || op == Op::Rename; }
  bool dataop() const { return op == Op::Write || op == Op::Trunc; }
};

struct Tree {  // in-memory image
  struct Node {
    bool dir = false;
    std::string data;
    std::map<std::string, int> kids;
  };
  std::map<int, Node> n;  // inode -> node; 0 = root directory
};

struct Log {
  std::string root;
  Tree initial;
  std::vector<Entry> e;
  std::string describe(size_t i) const;
};

// ---- recording ----
void begin(const std::string &root);   // root must exist
void mark(const std::string &text);
Log end();
bool recording();

// ---- crash images ----
struct Image {
  size_t k;                    // crash after the first k entries
  size_t meta_prefix;          // number of metadata entries (within the first k) that reached the disk
  std::vector<size_t> lost;    // data entries (index < k) that did not reach the disk
  int64_t torn = -1;           // if >=0: the last entry (index k-1, a Write) persisted only this many bytes
  bool torn_zero = false;      // ... and the rest of it reads as zeros instead of being absent
  std::string describe(const Log &l) const;
};
struct Policy {
  bool power_loss = false;     // un-synced writes/renames may be missing
  size_t full_subset_limit = 5;
  bool torn = true;
  bool torn_zero = true;       // (power loss only) also images where the torn rest reads as zeros
  size_t torn_all_bytes = 96;  // cut at every byte for writes up to this size
};
// Calls fn for every crash image of the log at crash points [from, to]; fn returns false to stop.
uint64_t images(const Log &l, const Policy &p, size_t from, size_t to, const std::function<bool(const Image &)> &fn);
Tree apply(const Log &l, const Image &im);
void write_tree(const Tree &t, const std::string &dir);  // dir is created / must be empty
uint64_t tree_hash(const Tree &t);
Tree read_tree(const std::string &dir);

// ---- fault injection ----
enum class Kind : uint8_t { Open, Write, Sync, SyncDir, Rename, Unlink, Mkdir, Trunc, Close, Read, Mmap, Stat };
struct FaultPoint {
  Kind kind;
  std::string path;
};
// Counts eligible calls below root; when `at` >= 0 the at-th (0-based) eligible call fails.
// mode: 0 = fail with err; 1 = short write (half the bytes, then the next write to it fails with err)
void fault_arm(const std::string &root, int at, int err, int mode, uint32_t kinds_mask);
std::vector<FaultPoint> fault_disarm(bool *fired = nullptr);
constexpr uint32_t bit(Kind k) { return 1u << unsigned(k); }

// ---- step hook: called before every eligible call below root (for cooperative interleaving of FS-level actors) ----
using StepHook = void (*)(Kind, const char *path);
void set_step_hook(const std::string &root, StepHook h);

}  // namespace fsx
