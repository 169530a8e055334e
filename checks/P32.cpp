// P32 product quantisation: codes are nearest centres, table distances are the distance to the decoded vector,
// and tables survive storage; every lattice vector, batch size, edit sequence, file length and failing call.
// mc-fsx
#include <cmath>
#include <filesystem>
#include <fstream>
#include <set>
#include "index/graph/diskann/pq_table.hpp"
#include "lib/fsx.hpp"
#include "lib/mc.hpp"

namespace {
using alaya::diskann::kPQNumCentroids;
using alaya::diskann::PQTable;
using V = std::vector<float>;
namespace fs = std::filesystem;

struct Book {
  uint32_t dim, chunks, cd;
  V gc, cb;
  PQTable make() const { return PQTable::from_codebook(dim, chunks, gc, cb); }
  float res(const V &v, uint32_t d) const { return v[d] - gc[d]; }
  double dist(const V &v, uint32_t c, uint32_t k) const {
    double s = 0;
    for (uint32_t j = 0; j < cd; ++j) {
      double x = double(res(v, c * cd + j)) - cb[(size_t(c) * 256 + k) * cd + j];
      s += x * x;
    }
    return s;
  }
  double best(const V &v, uint32_t c) const {
    double b = 1e300;
    for (uint32_t k = 0; k < 256; ++k) b = std::min(b, dist(v, c, k));
    return b;
  }
  V decode(const uint8_t *code) const {
    V o(dim);
    for (uint32_t c = 0; c < chunks; ++c)
      for (uint32_t j = 0; j < cd; ++j) o[c * cd + j] = gc[c * cd + j] + cb[(size_t(c) * 256 + code[c]) * cd + j];
    return o;
  }
};
// kind 0: small lattice with duplicates; 1: every centre distinct, last ones matter; 2: centres far away but number 255; 3: skewed, negative
Book book(uint32_t chunks, uint32_t cd, int kind) {
  Book b{chunks * cd, chunks, cd, {}, {}};
  for (uint32_t d = 0; d < b.dim; ++d) b.gc.push_back(kind == 0 ? 0.f : float(int(d % 5) - 2));
  for (uint32_t c = 0; c < chunks; ++c)
    for (uint32_t k = 0; k < 256; ++k)
      for (uint32_t j = 0; j < cd; ++j) {
        int x;
        if (kind == 0) x = int((k >> (2 * (j % 4))) & 3) - 1;
        else if (kind == 1) x = j == 0 ? int(k) - 128 : int((k * 7 + j * 3 + c) % 11) - 5;
        else if (kind == 2) x = k == 255 ? int(j % 3) : 100 + int(k + j);
        else x = -int((k * (c + 1) + j) % 64);
        b.cb.push_back(float(x));
      }
  return b;
}
double l2(const V &a, const V &b) {
  double s = 0;
  for (size_t i = 0; i < a.size(); ++i) s += (double(a[i]) - b[i]) * (double(a[i]) - b[i]);
  return s;
}
bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(a) + std::fabs(b)); }
V lattice(uint32_t dim, uint32_t i, int kind) {  // a few coordinates from i, the others derived
  static const float vals[] = {0, 1, -2, 3, -128, 127, 0.5f, 60};
  V v(dim);
  for (uint32_t d = 0; d < dim; ++d) v[d] = vals[(i + (i >> 3) * d + (i >> 6) * (d / 2) + uint32_t(kind)) % 8];
  return v;
}

void codes_ok(const Book &b, const V &v, const uint8_t *code, const char *what) {
  for (uint32_t c = 0; c < b.chunks; ++c)
    MC_REQUIRE(near(b.dist(v, c, code[c]), b.best(v, c)), "a code is not the nearest centre", "%s chunk %u of %u (width %u): centre %u at %g, nearest at %g", what, c, b.chunks, b.cd,
               code[c], b.dist(v, c, code[c]), b.best(v, c));
}

void encode_body(bool deep) {
  static const std::pair<uint32_t, uint32_t> shapes[] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 3}, {4, 4}, {1, 7}, {2, 8}, {1, 16}, {5, 9}, {63, 1}, {64, 1}, {65, 1}, {64, 2}, {65, 3}, {96, 1}, {2, 33}};
  auto [ch, cd] = shapes[mc::choose(int(std::size(shapes)), "shape")];
  int kind = mc::choose(4, "codebook"), threads = mc::choose(2, "threads") ? 3 : 1;
  mc::nontrivial();
  Book b = book(ch, cd, kind);
  PQTable t = b.make();
  uint32_t n = ch > 60 ? 24 : deep ? 512 : 128;
  V data;
  std::vector<V> rows;
  for (uint32_t i = 0; i < n; ++i) {
    rows.push_back(lattice(b.dim, i, kind));
    data.insert(data.end(), rows.back().begin(), rows.back().end());
  }
  // every centre is its own code (or that of an equal centre)
  t.encode(data.data(), n, uint32_t(threads));
  mc::require(t.num_points() == n && t.codes().size() == size_t(n) * ch, "the table does not hold one code row per vector");
  for (uint32_t i = 0; i < n; ++i) {
    codes_ok(b, rows[i], t.codes().data() + size_t(i) * ch, "encode");
    std::vector<uint8_t> one(ch + 8, 0xA5);
    t.encode_to_code(rows[i].data(), one.data());
    codes_ok(b, rows[i], one.data(), "encode_to_code");
    for (int g = 0; g < 8; ++g) mc::require(one[ch + size_t(g)] == 0xA5, "encode_to_code wrote past the code row");
    mc::step();
  }
  V dec[512];
  for (uint32_t i = 0; i < n; ++i) dec[i] = b.decode(t.codes().data() + size_t(i) * ch);
  // distance from a query
  std::vector<uint32_t> ids;
  for (uint32_t i = 0; i < 200; ++i) ids.push_back((i * 37 + 5) % n);
  for (uint32_t q = 0; q < (deep ? 32u : 8u); ++q) {
    V query = lattice(b.dim, q * 5 + 3, kind + 1), tab(size_t(ch) * 256 + 8, -7.f), scratch(b.dim + 8, -7.f);
    t.preprocess_query(query.data(), tab.data(), scratch.data());
    for (int g = 0; g < 8; ++g) mc::require(tab[size_t(ch) * 256 + size_t(g)] == -7.f && scratch[b.dim + size_t(g)] == -7.f, "preprocess_query wrote past its buffers");
    for (uint32_t i = 0; i < n; ++i) {
      float d = t.pq_distance(i, tab.data());
      MC_REQUIRE(near(d, l2(query, dec[i])), "the table distance is not the distance to the decoded vector", "chunks %u width %u: %g instead of %g", ch, cd, d, l2(query, dec[i]));
      mc::add_eval();
    }
    for (uint32_t m = 0; m <= 200; m += (q == 0 ? 1 : 31)) {
      V out(m + 4, -7.f);
      t.pq_distance_batch(ids.data(), m, tab.data(), out.data());
      for (uint32_t i = 0; i < m; ++i)
        MC_REQUIRE(near(out[i], l2(query, dec[ids[i]])), "a batched distance differs from the single one", "chunks %u batch of %u, element %u: %g instead of %g", ch, m, i, out[i],
                   l2(query, dec[ids[i]]));
      for (uint32_t g = 0; g < 4; ++g) mc::require(out[m + g] == -7.f, "pq_distance_batch wrote past the results");
      mc::add_eval();
    }
  }
  for (uint32_t i = 0; i < n; i += 3)
    for (uint32_t j = 0; j < n; ++j) {
      float d = t.pq_symmetric_distance(i, j), e = t.pq_symmetric_distance(t.codes().data() + size_t(i) * ch, j);
      MC_REQUIRE(near(d, l2(dec[i], dec[j])) && d == e, "the symmetric distance is not the distance between the decoded vectors", "chunks %u width %u: %g/%g instead of %g", ch, cd, d, e,
                 l2(dec[i], dec[j]));
      mc::add_eval();
    }
  try {
    (void)t.pq_symmetric_distance(uint64_t(0), uint64_t(n));
    mc::fail("a symmetric distance to a point that is not stored", "");
  } catch (const std::out_of_range &) {
  }
  // every centre alone is found again
  for (uint32_t c = 0; c < std::min(ch, 4u); ++c)
    for (uint32_t k = 0; k < 256; ++k) {
      V v(b.gc);
      for (uint32_t j = 0; j < cd; ++j) v[c * cd + j] += b.cb[(size_t(c) * 256 + k) * cd + j];
      std::vector<uint8_t> one(ch);
      t.encode_to_code(v.data(), one.data());
      MC_REQUIRE(b.dist(v, c, one[c]) == 0, "a centre is not encoded as itself", "chunk %u centre %u -> %u", c, k, one[c]);
      mc::add_eval();
    }
}

// ---- slot edits -------------------------------------------------------------------------------
void edits(int depth) {
  static const std::pair<uint32_t, uint32_t> shapes[] = {{2, 2}, {3, 1}};
  auto [ch, cd] = shapes[mc::choose(2, "shape")];
  Book b = book(ch, cd, 1);
  PQTable t = b.make();
  std::vector<std::vector<uint8_t>> model;
  auto code = [&](const V &v) {
    std::vector<uint8_t> o(ch);
    for (uint32_t c = 0; c < ch; ++c) {
      uint32_t w = 0;
      for (uint32_t k = 1; k < 256; ++k)
        if (b.dist(v, c, k) < b.dist(v, c, w)) w = k;
      o[c] = uint8_t(w);
    }
    return o;
  };
  std::string dir = mc::fresh_dir();
  for (int s = 0; s < depth; ++s) {
    int op = mc::choose(9, "op");
    if (op == 0) break;
    if (op <= 5) {  // one slot: 0, 1, 3; two vectors
      uint32_t id = op <= 3 ? uint32_t(op - 1) : uint32_t(op);
      V v = lattice(b.dim, uint32_t(17 * s + 9 + op), s);
      t.encode_one(v.data(), id);
      if (model.size() <= id) model.resize(id + 1, std::vector<uint8_t>(ch, 0));
      model[id] = code(v);
      mc::note("encode_one %u", id);
    } else if (op == 6 || op == 7) {
      uint32_t n = op == 6 ? 1 : 4;
      V data;
      model.clear();
      for (uint32_t i = 0; i < n; ++i) {
        V v = lattice(b.dim, 31 * i + uint32_t(s), s);
        model.push_back(code(v));
        data.insert(data.end(), v.begin(), v.end());
      }
      t.encode(data.data(), n, 2);
      mc::note("encode %u rows", n);
    } else {
      if (model.empty()) mc::assume(false);
      t.save(dir + "/p", dir + "/c");
      if (mc::choose(2, "into a used table")) {
        t.load(dir + "/p", dir + "/c", model.size(), b.dim, ch);
      } else {
        PQTable u;
        u.load(dir + "/p", dir + "/c", model.size(), b.dim, ch);
        t = std::move(u);
      }
      mc::note("save and load");
    }
    mc::step();
    mc::nontrivial();
    MC_REQUIRE(t.num_points() == model.size(), "number of stored codes", "%zu instead of %zu", size_t(t.num_points()), model.size());
    uint64_t h = model.size();
    for (size_t i = 0; i < model.size(); ++i) {
      for (uint32_t c = 0; c < ch; ++c)
        MC_REQUIRE(t.codes()[i * ch + c] == model[i][c], "a slot holds another code than the one written there", "slot %zu chunk %u: %u instead of %u", i, c, t.codes()[i * ch + c], model[i][c]);
      h = mc::hash_bytes(model[i].data(), ch, h);
    }
    mc::state(h);
    mc::require(t.codebook() == b.cb && t.global_centroid() == b.gc && t.dim() == b.dim && t.n_chunks() == ch && t.chunk_dim() == cd, "the codebook changed");
    for (size_t i = 0; i < model.size(); ++i)
      for (size_t j = 0; j < model.size(); ++j)
        mc::require(near(t.pq_symmetric_distance(i, j), l2(b.decode(model[i].data()), b.decode(model[j].data()))), "the symmetric distance after an edit");
  }
}

// ---- training ---------------------------------------------------------------------------------
V train_rows(uint32_t n, uint32_t dim, int kind) {
  V d;
  for (uint32_t i = 0; i < n; ++i)
    for (uint32_t j = 0; j < dim; ++j) {
      uint32_t h = (i * 2654435761u + j * 40503u) >> 7;
      d.push_back(kind == 0 ? float(int(h % 17) - 8) : kind == 1 ? float(i % 40) + 100.f * float(j % 2) : kind == 2 ? 5.f : float(int(h % 100000)) * 0.01f);
    }
  return d;
}
void train_body(bool deep) {
  static const uint32_t small[] = {1, 2, 3, 17, 255, 256, 257, 300, 700};
  static const std::pair<uint32_t, uint32_t> shapes[] = {{1, 1}, {1, 3}, {2, 2}, {4, 1}, {5, 2}};
  uint32_t n = small[mc::choose(deep ? 9 : 8, "rows")];
  auto [ch, cd] = shapes[mc::choose(5, "shape")];
  int kind = mc::choose(4, "data");
  uint32_t iters = uint32_t(mc::choose(3, "iterations"));
  iters = iters == 2 ? 15 : iters;
  mc::nontrivial();
  uint32_t dim = ch * cd;
  V d = train_rows(n, dim, kind);
  PQTable t;
  t.train(d.data(), n, dim, ch, iters, 99, 1);
  for (uint32_t th : {0u, 2u, 3u, 9u}) {
    PQTable u;
    u.train(d.data(), n, dim, ch, iters, 99, th);
    MC_REQUIRE(u.codebook() == t.codebook() && u.global_centroid() == t.global_centroid(), "training depends on the number of threads", "%u rows, %u threads", n, th);
    mc::add_eval();
  }
  for (float x : t.codebook()) mc::require(std::isfinite(x), "a trained centre is not a number");
  Book b{dim, ch, cd, t.global_centroid(), t.codebook()};
  mc::require(b.gc.size() == dim && b.cb.size() == size_t(256) * dim, "shape of the trained table");
  V mean(dim);
  for (uint32_t j = 0; j < dim; ++j) {
    double s = 0;
    for (uint32_t i = 0; i < n; ++i) s += d[i * dim + j];
    MC_REQUIRE(std::fabs(s / n - b.gc[j]) <= 1e-3 * (1 + std::fabs(s / n)), "the global centre is not the mean", "%g instead of %g", b.gc[j], s / n);
  }
  t.encode(d.data(), n, 2);
  PQTable t1;
  t1 = t;
  t1.encode(d.data(), n, 1);
  mc::require(t1.codes() == t.codes(), "encoding depends on the number of threads");
  double err = 0, var = 0;
  for (uint32_t i = 0; i < n; ++i) {
    V v(d.begin() + i * dim, d.begin() + (i + 1) * dim);
    codes_ok(b, v, t.codes().data() + size_t(i) * ch, "trained");
    V x = b.decode(t.codes().data() + size_t(i) * ch);
    err += l2(v, x);
    var += l2(v, b.gc);
    if (n <= 256) MC_REQUIRE(l2(v, x) <= 1e-4 * (1 + l2(v, b.gc)), "with up to 256 rows encoding is not exact", "%u rows: error %g", n, l2(v, x));
    // the query table sees the same
  }
  MC_REQUIRE(err <= 0.5 * var + 1e-3 * n, "256 trained centres describe the data no better than a few would", "%u rows: error %g of %g", n, err, var);
  V tab(size_t(ch) * 256), scratch(dim);
  for (uint32_t q = 0; q < std::min(n, 5u); ++q) {
    V v(d.begin() + q * dim, d.begin() + (q + 1) * dim);
    t.preprocess_query(v.data(), tab.data(), scratch.data());
    for (uint32_t i = 0; i < n; ++i)
      mc::require(near(t.pq_distance(i, tab.data()), l2(v, b.decode(t.codes().data() + size_t(i) * ch))), "the table distance is not the distance to the decoded vector");
    mc::add_eval(n);
  }
}
void blocks() {  // the encoder hands out blocks of rows: sizes around them, and thread counts
  static const uint32_t ns[] = {4095, 4096, 4097, 8192, 8193, 12289};
  uint32_t n = ns[mc::choose(6, "rows")], th = uint32_t(mc::choose(4, "threads") + 1);
  mc::nontrivial();
  Book b = book(2, 1, 1);
  PQTable t = b.make();
  V d;
  for (uint32_t i = 0; i < n; ++i) {
    d.push_back(float(int(i * 7 % 256) - 128 + b.gc[0]));
    d.push_back(float(int(i * 11 % 256) - 128 + b.gc[1]));
  }
  t.encode(d.data(), n, th);
  for (uint32_t i = 0; i < n; ++i)
    for (uint32_t c = 0; c < 2; ++c)
      MC_REQUIRE(b.cb[c * 256 + t.codes()[i * 2 + c]] + b.gc[c] == d[i * 2 + c], "a row of a large table has a wrong code", "row %u of %u, %u threads", i, n, th);
  mc::add_eval(n);
}

// ---- storage ----------------------------------------------------------------------------------
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spit(const std::string &p, const std::string &s) { std::ofstream(p, std::ios::binary) << s; }
struct Saved {
  Book b;
  PQTable t;
  uint32_t n;
};
Saved saved(int shape) {
  static const std::pair<uint32_t, uint32_t> shapes[] = {{1, 1}, {2, 1}, {2, 2}, {3, 1}};
  auto [ch, cd] = shapes[shape];
  Saved s{book(ch, cd, 1), {}, 3};
  s.t = s.b.make();
  V d;
  for (uint32_t i = 0; i < s.n; ++i) {
    V v = lattice(s.b.dim, 7 * i + 2, 1);
    d.insert(d.end(), v.begin(), v.end());
  }
  s.t.encode(d.data(), s.n, 1);
  return s;
}
bool same(const PQTable &a, const PQTable &b) {
  return a.codes() == b.codes() && a.codebook() == b.codebook() && a.global_centroid() == b.global_centroid() && a.dim() == b.dim() && a.n_chunks() == b.n_chunks() &&
         a.num_points() == b.num_points() && a.chunk_dim() == b.chunk_dim();
}
void lengths() {
  Saved s = saved(mc::choose(4, "shape"));
  int which = mc::choose(2, "file");
  mc::nontrivial();
  std::string dir = mc::fresh_dir(), p = dir + "/p", c = dir + "/c";
  s.t.save(p, c);
  {
    PQTable u;
    u.load(p, c, s.n, s.b.dim, s.b.chunks);
    mc::require(same(u, s.t), "a saved table does not load identically");
    for (uint32_t i = 0; i < s.n; ++i)
      for (uint32_t j = 0; j < s.n; ++j) mc::require(u.pq_symmetric_distance(i, j) == s.t.pq_symmetric_distance(i, j), "a loaded table measures other distances");
  }
  std::string &path = which ? c : p, whole = slurp(path);
  std::set<size_t> cuts;
  for (size_t k = 0; k <= whole.size(); ++k)
    if (which || k % 4 == 0 || k < 64 || k + 64 > whole.size()) cuts.insert(k);
  for (size_t k = whole.size() + 1; k < whole.size() + 9; ++k) cuts.insert(k);
  cuts.insert(whole.size() * 2);
  for (size_t k : cuts) {
    spit(path, k <= whole.size() ? whole.substr(0, k) : whole + std::string(k - whole.size(), 'x'));
    PQTable u;
    bool ok = true;
    try {
      u.load(p, c, s.n, s.b.dim, s.b.chunks);
    } catch (const std::exception &) {
      ok = false;
    }
    MC_REQUIRE(ok == (k == whole.size()), ok ? "a truncated or extended file was loaded" : "the complete file was refused", "%s: %zu of %zu bytes", which ? "codes" : "pivots", k, whole.size());
    mc::add_eval();
  }
  fs::remove(path);
  try {
    PQTable u;
    u.load(p, c, s.n, s.b.dim, s.b.chunks);
    mc::fail("a missing file was loaded", "");
  } catch (const std::exception &) {
  }
  // the two files swapped, and shapes that do not match
  spit(path, whole);
  for (uint64_t n = 0; n < 8; ++n)
    for (uint64_t dim = 0; dim < 9; ++dim)
      for (uint32_t ch = 0; ch < 5; ++ch) {
        bool fits = ch && dim && n && dim % ch == 0 && n * ch == slurp(c).size() && (dim + 256 * dim) * 4 == slurp(p).size();
        PQTable u;
        bool ok = true;
        try {
          u.load(p, c, n, dim, ch);
        } catch (const std::exception &) {
          ok = false;
        }
        MC_REQUIRE(!ok || fits, "a table was loaded with a shape its files do not have", "n %zu dim %zu chunks %u", size_t(n), size_t(dim), ch);
        if (n == s.n && dim == s.b.dim && ch == s.b.chunks) mc::require(ok, "the right shape was refused");
        mc::add_eval();
      }
}
// a failing call while saving: either save reports it or both files are complete
void save_faults() {
  Saved s = saved(mc::choose(4, "shape"));
  std::string dir = mc::fresh_dir(), p = dir + "/p", c = dir + "/c";
  bool before = mc::choose(2, "files exist already");
  if (before) s.t.save(p, c);
  int mode = mc::choose(2, "short write"), err = mc::choose(2, "errno") ? ENOSPC : EIO;
  int at = mc::choose(12, "failing call");
  fsx::fault_arm(dir, at, err, mode, fsx::bit(fsx::Kind::Write) | fsx::bit(fsx::Kind::Open) | fsx::bit(fsx::Kind::Close));
  bool ok = true, fired = false;
  try {
    s.t.save(p, c);
  } catch (const std::exception &) {
    ok = false;
  }
  auto pts = fsx::fault_disarm(&fired);
  mc::assume(fired);
  mc::nontrivial();
  if (ok) {
    PQTable u;
    bool good = false;
    try {
      u.load(p, c, s.n, s.b.dim, s.b.chunks);
      good = same(u, s.t);
    } catch (const std::exception &) {
    }
    MC_REQUIRE(good, "saving failed without an error", "call %d of %zu", at, pts.size());
  }
}
}  // namespace

int main(int argc, char **argv) {
  bool deep = false;
  for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  mc::Spec spec{"P32", "exploration",
                "17 shapes x 4 codebooks: every one of 128 (512) lattice vectors encoded three ways, all queries x codes, every batch size 0..200, all symmetric pairs, every centre; "
                "all sequences of slot edits, re-encodings and save/load up to the depth; training over sizes around 256 and all thread counts; every length of both files, every shape, every failing call of a save",
                {"distances are compared up to rounding (relative 1e-4)", "a failing close() loses no data that write() accepted"}};
  std::vector<mc::Scenario> v{
      {"codes and distances", [=] { encode_body(deep); }},
      {"slot edits", [=] { edits(deep ? 5 : 4); }},
      {"training", [=] { train_body(deep); }},
      {"row blocks", blocks},
      {"file lengths and shapes", lengths},
      {"failing save", save_faults},
  };
  return mc::run_main(argc, argv, spec, v);
}
