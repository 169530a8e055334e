// P33: disk layout - every geometry up to a bound, every record place, every truncation and header change.
// mc-fsx
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include "index/graph/diskann/disk_layout.hpp"
#include "lib/fsx.hpp"
#include "lib/mc.hpp"
using namespace alaya::diskann;
namespace {
namespace fs = std::filesystem;
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const std::string &p, const std::string &s) { std::ofstream(p, std::ios::binary | std::ios::trunc) << s; }

// arithmetic of one geometry: node ids up to a bound occupy disjoint bytes inside pages inside the file
void geometry(uint64_t dim, uint32_t deg, uint64_t n) {
  auto g = DiskLayoutGeometry::compute(dim, deg);
  uint64_t len = dim * 4 + 4 + uint64_t(deg) * 4;
  MC_REQUIRE(g.node_len == len && g.dim == dim && g.max_degree == deg, "record-length", "dim %llu degree %u", (unsigned long long)dim, deg);
  MC_REQUIRE(g.nodes_per_sector >= 1 && g.page_size % kSectorLen == 0 && g.page_size >= g.nodes_per_sector * len, "page", "dim %llu degree %u: %llu records of %llu bytes do not fit a page of %llu", (unsigned long long)dim, deg, (unsigned long long)g.nodes_per_sector, (unsigned long long)len, (unsigned long long)g.page_size);
  uint64_t prev = kSectorLen, total = g.total_file_size(n);
  for (uint64_t id = 0; id < n; ++id) {
    uint64_t o = g.file_offset(id), pg = g.get_page_offset(id);
    MC_REQUIRE(o >= prev, "overlap", "dim %llu degree %u: node %llu starts at %llu inside the previous record", (unsigned long long)dim, deg, (unsigned long long)id, (unsigned long long)o);
    MC_REQUIRE(pg % kSectorLen == 0 && o == pg + g.offset_to_node(id) && o + len <= pg + g.page_size && pg + g.page_size <= total, "outside-page", "dim %llu degree %u: node %llu leaves its page or the file", (unsigned long long)dim, deg, (unsigned long long)id);
    prev = o + len;
  }
  MC_REQUIRE(n == 0 || total == g.get_page_offset(n - 1) + g.page_size, "file-size", "dim %llu degree %u: %llu nodes", (unsigned long long)dim, deg, (unsigned long long)n);
  MC_REQUIRE(g.num_pages(n) * g.page_size + kSectorLen == total, "file-size", "dim %llu degree %u", (unsigned long long)dim, deg);
}
void geometries() {
  int d0 = mc::choose(64, "dimension block");
  uint64_t hi = mc::thorough() ? 4200 : 1100;
  for (uint64_t dim = 1 + uint64_t(d0); dim <= hi; dim += 64)
    for (uint32_t deg = 0; deg <= 130; deg += (dim % 7 == 0 || mc::thorough()) ? 1 : 13) {
      auto g = DiskLayoutGeometry::compute(dim, deg);
      for (uint64_t n : {uint64_t(0), uint64_t(1), g.nodes_per_sector, g.nodes_per_sector + 1, 3 * g.nodes_per_sector}) geometry(dim, deg, n);
      mc::add_eval(5);
    }
  // ids around every power of two of the id and of the file offset still map to bytes of their own
  for (uint64_t dim : {1ull, 128ull, 768ull, 960ull, 1500ull})
    for (uint32_t deg : {0u, 32u, 64u}) {
      auto g = DiskLayoutGeometry::compute(dim, deg);
      std::set<uint64_t> at;
      for (int k = 20; k <= 44; ++k) {
        at.insert(uint64_t(1) << std::min(k, 31));
        at.insert((uint64_t(1) << k) / g.page_size * g.nodes_per_sector);
      }
      at.insert(0xfffffff0ull);
      for (uint64_t m : at) {
        if (m > 0xfffffff0ull) continue;
        for (uint64_t id = m - 2 * std::min<uint64_t>(m / 2, g.nodes_per_sector); id < std::min<uint64_t>(m + 2 * g.nodes_per_sector, 0xfffffffeull); ++id) {
          uint64_t o = g.file_offset(id), nx = g.file_offset(id + 1);
          MC_REQUIRE(nx >= o + g.node_len && nx <= o + g.node_len + g.page_size && o >= kSectorLen + id * g.node_len, "overlap", "dim %llu degree %u: nodes %llu and %llu at %llu and %llu", (unsigned long long)dim, deg, (unsigned long long)id, (unsigned long long)id + 1, (unsigned long long)o, (unsigned long long)nx);
          MC_REQUIRE(o == g.get_page_offset(id) + g.offset_to_node(id) && g.total_file_size(id + 1) == g.get_page_offset(id) + g.page_size, "outside-page", "dim %llu degree %u: node %llu", (unsigned long long)dim, deg, (unsigned long long)id);
        }
        mc::add_eval(1);
      }
    }
  mc::nontrivial();
}
struct Sample {
  uint64_t n, dim;
  uint32_t deg, medoid;
  std::vector<float> v;
  std::vector<std::vector<uint32_t>> g;
};
Sample sample(uint64_t n, uint64_t dim, uint32_t deg) {
  Sample s{n, dim, deg, uint32_t(n / 2), std::vector<float>(n * dim), std::vector<std::vector<uint32_t>>(n)};
  for (size_t i = 0; i < s.v.size(); ++i) s.v[i] = float(i) * 1.25f - 3;
  for (uint64_t i = 0; i < n; ++i)
    for (uint32_t k = 0; k < (deg ? (i % (deg + 1)) : 0); ++k) s.g[i].push_back(uint32_t((i + k + 1) % n));
  return s;
}
void write(const std::string &p, const Sample &s) { write_disk_layout(p, s.v.data(), s.g, {s.n, s.dim, s.deg, s.medoid}); }
// the file as the documented format describes it
std::string expected(const Sample &s) {
  auto g = DiskLayoutGeometry::compute(s.dim, s.deg);
  std::string f(size_t(g.total_file_size(s.n)), '\0');
  auto put = [&](size_t o, const void *p, size_t n) { memcpy(f.data() + o, p, n); };
  uint64_t tot = f.size();
  put(0, &s.n, 8), put(8, &s.dim, 8), put(16, &s.medoid, 4), put(20, &s.deg, 4), put(24, &g.node_len, 8), put(32, &g.nodes_per_sector, 8), put(40, &tot, 8);
  for (uint64_t i = 0; i < s.n; ++i) {
    size_t o = size_t(kSectorLen + g.page_size * (i / g.nodes_per_sector) + (i % g.nodes_per_sector) * g.node_len);
    put(o, &s.v[i * s.dim], s.dim * 4);
    uint32_t c = uint32_t(s.g[i].size());
    put(o + s.dim * 4, &c, 4);
    if (c) put(o + s.dim * 4 + 4, s.g[i].data(), c * 4);
  }
  return f;
}
bool reads(const std::string &p, DiskLayoutHeader *h = nullptr) {
  try {
    auto x = read_disk_layout_header(p);
    if (h) *h = x;
    return true;
  } catch (const std::exception &) {
    return false;
  }
}
const std::vector<Sample> &samples() {
  static const std::vector<Sample> v{sample(1, 1, 0), sample(5, 3, 2), sample(130, 4, 3), sample(3, 1100, 4), sample(2, 960, 64), sample(9, 500, 13)};
  return v;
}
void contents() {
  static const uint64_t dims[] = {1, 2, 3, 7, 16, 100, 127, 511, 512, 1023, 1024, 1500, 2050};
  static const uint32_t degs[] = {0, 1, 3, 32, 64};
  uint64_t dim = dims[mc::choose(13, "dim")];
  uint32_t deg = degs[mc::choose(5, "degree")];
  auto g = DiskLayoutGeometry::compute(dim, deg);
  uint64_t per = g.nodes_per_sector;
  uint64_t ns[] = {1, per, per + 1, 2 * per + 1};
  Sample s = sample(ns[mc::choose(4, "rows")], dim, deg);
  std::string p = mc::fresh_dir() + "/x";
  spit(p, std::string(100000, 'z'));  // an older file is replaced
  write(p, s);
  std::string f = slurp(p);
  MC_REQUIRE(f == expected(s), "file-contents", "dim %llu degree %u rows %llu", (unsigned long long)dim, deg, (unsigned long long)s.n);
  DiskLayoutHeader h;
  mc::require(reads(p, &h), "own file refused");
  mc::require(h.num_points == s.n && h.dim == dim && h.medoid == s.medoid && h.max_degree == deg && h.node_len == g.node_len && h.nodes_per_sector == per && h.total_file_size == f.size(), "header-round-trip");
  for (uint64_t i = 0; i < s.n; ++i) {
    NodeRecordView v{f.data() + g.file_offset(i), dim};
    MC_REQUIRE(!memcmp(v.coords(), &s.v[i * dim], dim * 4) && v.n_nbrs() == s.g[i].size() && std::equal(s.g[i].begin(), s.g[i].end(), v.nbrs()), "record-round-trip", "node %llu", (unsigned long long)i);
  }
  mc::nontrivial();
}
void damage() {
  const Sample &s = samples()[size_t(mc::choose(int(samples().size()), "file"))];
  std::string p = mc::fresh_dir() + "/x";
  write(p, s);
  std::string ok = slurp(p);
  int part = mc::choose(4, "kind of damage");
  mc::nontrivial();
  if (part == 0) {
    for (size_t k = ok.size(); k-- > 0;) {
      fs::resize_file(p, k);
      MC_REQUIRE(!reads(p), "truncated file accepted", "%zu of %zu bytes", k, ok.size());
      mc::add_eval();
    }
  } else if (part == 1) {
    for (size_t k = 1; k <= 2 * kSectorLen; k += 511) {
      spit(p, ok + std::string(k, '\0'));
      MC_REQUIRE(!reads(p), "extended file accepted", "%zu bytes more", k);
      mc::add_eval();
    }
  } else {
    auto g = DiskLayoutGeometry::compute(s.dim, s.deg);
    for (size_t b = part == 2 ? 0 : 24; b < (part == 2 ? 24u : 48u); ++b)
      for (int x = 1; x < 256; ++x) {
        std::string f = ok;
        f[b] = char(f[b] ^ x);
        spit(p, f);
        uint64_t n;
        uint32_t m;
        memcpy(&n, f.data(), 8), memcpy(&m, f.data() + 16, 4);
        // same number of pages and an entry point that exists: indistinguishable
        bool same = (b < 8 && n > s.medoid && n < (1ull << 32) && n && g.num_pages(n) == g.num_pages(s.n)) || (b >= 16 && b < 20 && m < s.n);
        if (same) continue;
        MC_REQUIRE(!reads(p), "altered header accepted", "byte %zu changed by %02x", b, x);
        mc::add_eval();
      }
  }
}
// refused arguments; failing writes are reported
void arguments() {
  Sample s = sample(4, 2, 2);
  std::string p = mc::fresh_dir() + "/x";
  int k = mc::choose(6, "call");
  bool threw = false;
  try {
    auto g = s.g;
    if (k == 0) write_disk_layout(p, s.v.data(), g, {4, 0, 2, 0});
    if (k == 1) write_disk_layout(p, s.v.data(), g, {0, 2, 2, 0});
    if (k == 2) write_disk_layout(p, nullptr, g, {4, 2, 2, 0});
    if (k == 3) write_disk_layout(p, s.v.data(), g, {3, 2, 2, 0});
    if (k == 4) write_disk_layout(p, s.v.data(), g, {4, 2, 2, 4});
    if (k == 5) write_disk_layout(p, s.v.data(), g, {4, 2, 1, 0});
  } catch (const std::invalid_argument &) {
    threw = true;
  }
  mc::require(threw, "bad argument accepted");
  mc::nontrivial();
}
void faults() {
  const Sample &s = samples()[size_t(mc::choose(int(samples().size()), "file"))];
  std::string dir = mc::fresh_dir(), p = dir + "/x";
  int mode = mc::choose(2, "short write"), at = mc::choose(16, "failing call");
  fsx::fault_arm(dir, at, ENOSPC, mode, fsx::bit(fsx::Kind::Write) | fsx::bit(fsx::Kind::Open));
  bool ok = true, fired = false;
  try {
    write(p, s);
  } catch (const std::exception &) {
    ok = false;
  }
  fsx::fault_disarm(&fired);
  mc::assume(fired);
  mc::nontrivial();
  mc::require(!ok || slurp(p) == expected(s), "a write failed without an error");
}
}  // namespace
int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P33";
  sp.level = "model_checking";
  sp.rule = "every geometry, file and damage is";
  sp.assumptions = {"a changed number of points that needs the same number of pages, and another valid entry point, cannot be told from a good header by the layout reader alone"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, std::function<void()> b) { sc.push_back({n, b, false}); };
  add("geometry", geometries);
  add("contents", contents);
  add("damage", damage);
  add("arguments", arguments);
  add("failing-write", faults);
  return mc::run_main(argc, argv, sp, sc);
}
