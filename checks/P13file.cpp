// P13 (files): every truncation of a saved in-memory store, and every failing call while saving one.
// mc-fsx
// mc-libs: -lrocksdb
#include <filesystem>
#include <fstream>
#include <memory>
#include "index/graph/graph.hpp"
#include "lib/fsx.hpp"
#include "lib/mc.hpp"
#include "space/rabitq_space.hpp"
#include "space/raw_space.hpp"
#include "space/sq4_space.hpp"
#include "space/sq8_space.hpp"
using namespace alaya;
namespace {
namespace fs = std::filesystem;
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const std::string &p, const std::string &s) { std::ofstream(p, std::ios::binary | std::ios::trunc) << s; }

template <class Sp>
std::unique_ptr<Sp> make_space(const std::string &dir) {
  RocksDBConfig c;
  c.db_path_ = dir + "/db";
  c.write_buffer_size_ = 1 << 20;
  c.block_cache_size_mb_ = 1;
  constexpr bool big = std::is_same_v<Sp, RaBitQSpace<float>>;  // its rotation needs 64 dimensions
  auto s = std::make_unique<Sp>(3, big ? 64 : 4, MetricType::L2, c);
  float rows[128];
  for (int i = 0; i < 128; ++i) rows[i] = float(i * 7 % 11);
  if constexpr (Sp::has_scalar_data) {
    ScalarData sd[] = {ScalarData("a", "d", {}), ScalarData("b", "d", {})};
    s->fit(rows, 2, sd);
    s->close_db();
  } else {
    s->fit(rows, 2);
  }
  return s;
}
using G = Graph<float, uint32_t>;
template <bool kOverlay>
std::unique_ptr<G> make_graph(const std::string &) {
  auto g = std::make_unique<G>(3, 2);
  uint32_t e[][2] = {{1, 2}, {0, uint32_t(-1)}, {0, 1}};
  for (auto &x : e) g->insert(x);
  g->eps_ = {1};
  if (kOverlay) {
    g->overlay_graph_ = std::make_unique<OverlayGraph<uint32_t>>(3, 2);
    g->overlay_graph_->ep_ = 2;
    for (uint32_t i = 0; i < 3; ++i) {
      g->overlay_graph_->set_level(i, i);
      g->overlay_graph_->lists_[i].assign(size_t(i) * 2, uint32_t(-1));
    }
    g->overlay_graph_->at(1, 2, 0) = 1;
    g->overlay_graph_->at(1, 1, 1) = 2;
  }
  return g;
}
template <class T>
bool loads(const std::string &p, std::unique_ptr<T> *out = nullptr) {
  try {
    auto t = std::make_unique<T>();
    t->load(p);
    if (out) *out = std::move(t);
    return true;
  } catch (const std::exception &) {
    return false;
  }
}
// saved again, a loaded store gives the same file
template <class T>
void cut(const std::function<std::unique_ptr<T>(const std::string &)> &make, size_t optional_tail) {
  std::string dir = mc::fresh_dir(), p = dir + "/f";
  make(dir)->save(p);
  std::string whole = slurp(p);
  mc::nontrivial();
  std::unique_ptr<T> t;
  mc::require(loads(p, &t), "a saved store cannot be loaded");
  t->save(dir + "/g");
  mc::require(slurp(dir + "/g") == whole, "a loaded store saves other contents than it was loaded from");
  t.reset();
  for (size_t k = 0; k < whole.size(); ++k) {
    if (k == whole.size() - optional_tail && optional_tail) continue;  // a complete file of a graph without upper layers
    spit(p, whole.substr(0, k));
    MC_REQUIRE(!loads<T>(p), "a truncated store was loaded", "%zu of %zu bytes", k, whole.size());
    mc::add_eval();
  }
  fs::remove(p);
  mc::require(!loads<T>(p), "a missing store was loaded");
}
template <class T>
void faults(const std::function<std::unique_ptr<T>(const std::string &)> &make) {
  std::string dir = mc::fresh_dir(), sub = dir + "/s", p = sub + "/f";
  fs::create_directory(sub);
  auto t = make(dir);
  t->save(dir + "/ref");
  if (mc::choose(2, "file exists already")) t->save(p);
  int mode = mc::choose(2, "short write"), err = mc::choose(2, "errno") ? ENOSPC : EIO, at = mc::choose(24, "failing call");
  fsx::fault_arm(sub, at, err, mode, fsx::bit(fsx::Kind::Write) | fsx::bit(fsx::Kind::Open) | fsx::bit(fsx::Kind::Close));
  bool ok = true, fired = false;
  try {
    t->save(p);
  } catch (const std::exception &) {
    ok = false;
  }
  fsx::fault_disarm(&fired);
  mc::assume(fired);
  mc::nontrivial();
  MC_REQUIRE(!ok || slurp(p) == slurp(dir + "/ref"), "a save failed without an error", "call %d", at);
}
template <class Sp>
using Make = std::function<std::unique_ptr<Sp>(const std::string &)>;
}  // namespace
int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P13";
  sp.level = "fault_enumeration";
  sp.rule = "for raw, SQ8, SQ4, RaBitQ and scalar-carrying spaces and for graphs with and without upper layers: every truncation of the saved file, and every open, write and close failing (entirely or after half the bytes) while saving";
  sp.assumptions = {"a graph file cut exactly before its upper layers is a valid graph without them"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, auto make, size_t tail) {
    using T = typename decltype(make(std::string()))::element_type;
    mc::Scenario s;
    s.serial = false;
    s.name = n + "/truncated";
    s.body = [=] { cut<T>(make, tail); };
    sc.push_back(s);
    s.name = n + "/failing save";
    s.body = [=] { faults<T>(make); };
    sc.push_back(s);
  };
  add("raw", make_space<RawSpace<float>>, 0);
  add("sq8", make_space<SQ8Space<float>>, 0);
  add("sq4", make_space<SQ4Space<float>>, 0);
  add("rabitq", make_space<RaBitQSpace<float>>, 0);
  add("raw-scalar", make_space<RawSpace<float, float, uint32_t, SequentialStorage<float, uint32_t>, ScalarData>>, 0);
  add("graph", make_graph<false>, 0);
  add("layered graph", make_graph<true>, 12 + 3 * 4 + 6 * 4);
  return mc::run_main(argc, argv, sp, sc);
}
