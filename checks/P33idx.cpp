// P33: a disk index directory with any of its files truncated, extended, missing or altered in a structural field
// is refused, or still gives the answers of the undamaged index.
// mc-src: lib/aio_stub.cpp
// mc-libs: -luring
// mc-flags: -DALAYA_LASER_USE_LIBAIO=1
// mc-cpu: avx2 fma
#include <spdlog/spdlog.h>
#include <sys/resource.h>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <memory>
#include "index/graph/diskann/diskann_index.hpp"
#include "lib/mc.hpp"
using namespace alaya::diskann;
namespace {
namespace fs = std::filesystem;
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const std::string &p, const std::string &s) { std::ofstream(p, std::ios::binary | std::ios::trunc) << s; }
constexpr uint64_t kDim = 300;  // three records to a page
std::vector<float> row(int i) {
  std::vector<float> v(kDim);
  for (uint64_t k = 0; k < kDim; ++k) v[k] = float((i * 37 + int(k) * (i + 3)) % 23) / 4 + float(i);
  return v;
}
DiskANNLoadParams load_params(bool updatable) {
  DiskANNLoadParams p;
  p.num_threads = 1;
  p.updatable = updatable;
  p.update_insert_threads = 1;
  p.update_reconnect_threads = 1;
  p.update_io = DiskANNUpdateIO::kBlocking;
  return p;
}
enum Kind { kPlain, kPq, kUpdated, kUpdatedPq, kKinds };
void make(const std::string &dir, int kind) {
  std::vector<float> v;
  std::vector<uint64_t> l;
  for (int i = 0; i < 5; ++i) {
    auto r = row(i);
    v.insert(v.end(), r.begin(), r.end());
    l.push_back(uint64_t(100 + i * 7));
  }
  DiskANNBuildParams b;
  b.R = 4;
  b.L = 10;
  b.record_capacity = 12;
  b.num_threads = 1;
  b.cache_ratio = 0.4;
  b.pq_n_chunks = (kind == kPq || kind == kUpdatedPq) ? 4 : 0;
  b.pq_train_iters = 2;
  DiskANNIndex::build(dir, v.data(), l.data(), 5, kDim, b);
  if (kind == kUpdated || kind == kUpdatedPq) {
    DiskANNIndex x;
    x.load(dir, load_params(true));
    for (int i = 5; i < 8; ++i) x.insert(row(i).data(), uint64_t(100 + i * 7));
    x.remove_by_label(100 + 7);
    x.remove_by_label(100 + 4 * 7);
    x.insert(row(8).data(), 500);
    x.flush();
  }
}
struct Answers {
  uint64_t live = 0;
  std::vector<uint64_t> labels;
  std::vector<float> dist;
  bool operator==(const Answers &) const = default;
};
bool answers(const std::string &dir, Answers &a, std::string *err = nullptr) {
  try {
    DiskANNIndex x;
    x.load(dir, load_params(false));
    a = {};
    a.live = x.live_count();
    for (int q = 0; q < 9; ++q) {
      uint64_t lab[16];
      float d[16];
      DiskANNSearchParams sp;
      sp.deterministic = true;
      uint32_t n = x.search(row(q).data(), 10, lab, d, sp);
      a.labels.insert(a.labels.end(), lab, lab + n);
      a.dist.insert(a.dist.end(), d, d + n);
    }
    return true;
  } catch (const std::exception &e) {
    if (err) *err = e.what();
    return false;
  }
}
void check(const std::string &dir, const Answers &good, const char *file, const char *what, size_t at, bool must_refuse) {
  Answers a;
  bool ok = answers(dir, a);
  mc::add_eval();
  if (!ok) return;
  MC_REQUIRE(!must_refuse, "damaged index loaded", "%s %s %zu", file, what, at);
  MC_REQUIRE(a == good, "damaged index serves other answers", "%s %s %zu: %zu results instead of %zu, live count %llu instead of %llu", file, what, at, a.labels.size(), good.labels.size(), (unsigned long long)a.live, (unsigned long long)good.live);
}
void damage() {
  static const char *files[] = {"meta.bin", "ids.bin", "diskann.index", "slots.bin", "cache_ids.bin", "cache_nodes.bin", "pq_pivots.bin", "pq_compressed.bin"};
  int kind = mc::choose(kKinds, "index");
  int fi = mc::choose(8, "file");
  std::string dir = mc::fresh_dir() + "/x";
  make(dir, kind);
  std::string p = dir + "/" + files[fi];
  mc::assume(fs::exists(p));
  std::string ok = slurp(p);
  Answers good;
  std::string err;
  bool l = answers(dir, good, &err);
  MC_REQUIRE(l, "good index refused", "%s", err.c_str());
  mc::require(good.live == 5 + (kind >= kUpdated ? 2 : 0) && good.labels.size() == 9 * good.live, "good index incomplete");
  mc::nontrivial();
  int how = mc::choose(4, "damage");
  if (how == 0) {  // cut
    int part = mc::choose(16, "part");
    size_t stepw = ok.size() > 4096 && !mc::thorough() ? 41 : 1;
    for (size_t k = size_t(part) * stepw; k < ok.size(); k += 16 * stepw) {
      fs::copy_file(p, p + ".tmp");
      fs::resize_file(p, k);
      check(dir, good, files[fi], "cut to", k, true);
      fs::rename(p + ".tmp", p);
    }
    if (part == 0)
      for (size_t k = ok.size(); k-- > 0 && k + 40 > ok.size();) {
        fs::resize_file(p, k);
        check(dir, good, files[fi], "cut to", k, true);
      }
  } else if (how == 1) {  // longer: refused or harmless
    for (size_t k : {size_t(1), size_t(8), size_t(4096)}) {
      spit(p, ok + std::string(k, '\1'));
      check(dir, good, files[fi], "extended by", k, false);
    }
  } else if (how == 2) {
    fs::remove(p);
    check(dir, good, files[fi], "missing", 0, fi != 3);
  } else {
    // structural fields: everything in meta.bin and slots.bin, counts elsewhere, the header sector of the index
    size_t n = fi == 0 || fi == 3 ? std::min<size_t>(ok.size(), 200) : fi == 1 || fi == 4 ? 8 : fi == 2 ? 48 : fi == 5 ? 16 : 0;
    mc::assume(n > 0);
    int x0 = mc::choose(8, "bit");
    for (size_t b = 0; b < n; ++b) {
      if (fi == 0 && b >= 32 && b < 36) {  // another existing entry point: other paths, same rows
        std::string f = ok;
        f[b] = char(f[b] ^ (1 << x0));
        uint32_t m;
        memcpy(&m, f.data() + 32, 4);
        if (m < 9) continue;
      }
      for (int x : mc::thorough() ? std::vector<int>{1 << x0, 0x80 | x0, 0x55 ^ x0} : std::vector<int>{1 << x0}) {
        std::string f = ok;
        f[b] = char(f[b] ^ x);
        if (f == ok) continue;
        if (fi == 0 && b >= 32 && b < 36) {
          uint32_t m;
          memcpy(&m, f.data() + 32, 4);
          if (m < 9) continue;
        }
        spit(p, f);
        check(dir, good, files[fi], "changed at", b, false);
      }
    }
    spit(p, ok);
  }
}
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  rlimit rl{6ull << 30, 6ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  mc::Spec sp;
  sp.property = "P33";
  sp.level = "fault_enumeration";
  sp.rule = "every damaged directory is";
  sp.assumptions = {"quick: files above 4 KiB are cut at every 41st byte and at each of the last 40; vectors, labels and codes carry no checksums, so their contents are not altered"};
  std::vector<mc::Scenario> sc;
  sc.push_back({"directory", damage, false});
  return mc::run_main(argc, argv, sp, sc);
}
