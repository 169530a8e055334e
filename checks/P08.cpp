// P08 collection and segment manifests: every small edit of the text, against a strict reference reader.
// mc-fsx
// mc-flags: -fsanitize=address
// mc-libs: -fsanitize=address
#include <spdlog/spdlog.h>
#include "checks/dc.hpp"
#include "lib/fsx.hpp"
using namespace dc;
using mc::choose;

namespace {
using KV = std::map<std::string, std::string>;
// ---- reference reader, written from the format description in docs and comments ---------------------
struct Ref {
  bool ok = true;
  std::string why;
  KV kv;
  std::vector<std::string> segs;
  uint64_t num(const char *k) const { return strtoull(kv.at(k).c_str(), nullptr, 10); }
};
std::string trim(const std::string &s) {
  auto a = s.find_first_not_of(" \t\r\n");
  if (a == std::string::npos) return "";
  return s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1);
}
bool is_u64(const std::string &s) {
  if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos) return false;
  auto z = s.find_first_not_of('0');
  std::string d = z == std::string::npos ? "0" : s.substr(z);
  return d.size() < 20 || (d.size() == 20 && d <= "18446744073709551615");
}
bool is_seg(const std::string &s) { return s.size() == 12 && s.compare(0, 4, "seg_") == 0 && s.find_first_not_of("0123456789", 4) == std::string::npos; }
bool is_base(const std::string &s) { return !s.empty() && s != "." && s != ".." && s.find('/') == std::string::npos && s.find('\0') == std::string::npos; }
Ref reference(const std::string &t, bool col) {
  Ref r;
  auto bad = [&](const std::string &w) {
    r.ok = false;
    r.why = w;
    return r;
  };
  if (t.size() > (1u << 20)) return bad("too large");
  if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) return bad("byte order mark");
  bool rep = false, csv = false;
  std::string list;
  std::istringstream in(t);
  for (std::string l; std::getline(in, l, '\n');) {
    l = trim(l);
    if (l.empty() || l[0] == '#') continue;
    auto e = l.find('=');
    if (e == std::string::npos) return bad("line without =");
    std::string k = trim(l.substr(0, e)), v = trim(l.substr(e + 1));
    if (col && k == "segment") {
      rep = true;
      r.segs.push_back(v);
    } else if (col && k == "segments") {
      if (csv) return bad("segments= twice");
      csv = true;
      list = v;
    } else if (!r.kv.emplace(k, v).second) {
      return bad("duplicate key " + k);
    }
  }
  if (rep && csv) return bad("segment= and segments=");
  if (csv) {
    std::string cur;
    for (char c : list + ",") {
      if (c == ',') {
        r.segs.push_back(cur);
        cur.clear();
      } else {
        cur += c;
      }
    }
  }
  std::vector<std::string> need{"version", "dim", "metric", "index_type"};
  if (col) need.push_back("next_segment_id");
  else
    for (auto k : {"segment_id", "count", "ids_file", "vectors_file"}) need.push_back(k);
  for (auto &k : need) {
    if (!r.kv.count(k)) return bad("no " + k);
    if (r.kv[k].empty() && k != "vectors_file") return bad("empty " + k);
  }
  for (auto &[k, v] : r.kv)
    if (std::find(need.begin(), need.end(), k) == need.end() && k.compare(0, 2, "x_") != 0) return bad("unknown key " + k);
  for (auto k : {"version", "dim", "count", "next_segment_id"})
    if (r.kv.count(k) && !is_u64(r.kv[k])) return bad(std::string("number ") + k);
  if (r.num("version") != 1) return bad("version");
  if (r.num("dim") == 0) return bad("dim 0");
  if (!std::set<std::string>{"L2", "IP", "COS"}.count(r.kv["metric"])) return bad("metric");
  if (!std::set<std::string>{"disk_flat", "disk_vamana", "disk_laser"}.count(r.kv["index_type"])) return bad("index type");
  if (col) {
    std::set<std::string> once;
    for (auto &s : r.segs) {
      if (!is_seg(s)) return bad("segment id " + s);
      if (!once.insert(s).second) return bad("segment listed twice " + s);
    }
  } else {
    if (r.num("count") == 0) return bad("count 0");
    if (!is_seg(r.kv["segment_id"])) return bad("segment id");
    if (!is_base(r.kv["ids_file"])) return bad("ids_file");
    if (!r.kv["vectors_file"].empty() && !is_base(r.kv["vectors_file"])) return bad("vectors_file");
  }
  return r;
}
KV extras(const Ref &r) {
  KV x;
  for (auto &[k, v] : r.kv)
    if (k.compare(0, 2, "x_") == 0) x[k] = v;
  return x;
}
void spew(const fs::path &p, const std::string &t) {
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o.write(t.data(), long(t.size()));
  o.close();
  MC_REQUIRE(o.good(), "setup", "cannot write %s", p.c_str());
}
std::string slurp(const fs::path &p) {
  std::ifstream i(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(i), {});
}
std::string show(const std::string &t) {
  std::string o;
  for (unsigned char c : t.substr(0, 700)) o += c == '\n' ? "|" : (c < 32 || c > 126) ? mc::format("\\x%02x", c) : std::string(1, char(c));
  return o;
}
// the text is in `p`: the loaded manifest must be what the reference reads, or both refuse
bool check_text(const fs::path &p, const std::string &t, bool col) {
  spew(p, t);
  Ref r = reference(t, col);
  mc::step();
  mc::add_eval();
  bool threw = false;
  std::string what;
  auto same = [&](bool c, const char *f) { MC_REQUIRE(c, "misread", "field %s is not what the text says: %s", f, show(t).c_str()); };
  try {
    auto common = [&](const auto &m) {
      if (!r.ok) return;
      same(m.version == r.num("version"), "version");
      same(m.dim == r.num("dim"), "dim");
      same(m.metric == alaya::kMetricMap[r.kv["metric"]], "metric");
      same(alaya::disk::index_type_to_string(m.index_type) == r.kv["index_type"], "index_type");
      same(m.x_extras == extras(r), "x_*");
    };
    if (col) {
      auto m = alaya::disk::CollectionManifest::load(p);
      common(m);
      if (r.ok) {
        same(m.next_segment_id == r.num("next_segment_id"), "next_segment_id");
        same(m.segment_ids == r.segs, "segments");
      }
    } else {
      auto m = alaya::disk::SegmentManifest::load(p);
      common(m);
      if (r.ok) {
        same(m.count == r.num("count"), "count");
        same(m.segment_id == r.kv["segment_id"], "segment_id");
        same(m.ids_file == r.kv["ids_file"] && m.vectors_file == r.kv["vectors_file"], "files");
      }
    }
  } catch (const std::invalid_argument &e) {
    threw = true;
    what = e.what();
  }
  MC_REQUIRE(threw == !r.ok, threw ? "refused-valid" : "accepted-malformed", "%s (%s): %s", threw ? "a valid manifest was refused" : "a malformed manifest was accepted",
             threw ? what.c_str() : r.why.c_str(), show(t).c_str());
  mc::state(mc::hash_str(t));
  if (!r.ok) mc::add_nontrivial();
  return r.ok;
}
const std::vector<std::string> kColTexts{
    "version=1\ndim=4\nmetric=L2\nindex_type=disk_flat\nnext_segment_id=3\nsegment=seg_00000001\nsegment=seg_00000002\nx_max_pending_bytes=4096\n",
    "# c\r\n version = 1 \r\ndim=16\n\nmetric=COS\nindex_type=disk_laser\nnext_segment_id=12\nsegments=seg_00000010,seg_00000011\nx_a=\nx_b= p=q #r",
    "version=1\ndim=1\nmetric=IP\nindex_type=disk_vamana\nnext_segment_id=0\nx_vamana_alpha=1.2\n",
};
const std::vector<std::string> kSegTexts{
    "version=1\nsegment_id=seg_00000001\nindex_type=disk_flat\nmetric=L2\ndim=4\ncount=3\nids_file=ids.u64.bin\nvectors_file=vectors.f32.bin\n",
    "#\nversion=1\nsegment_id=seg_99999999\nindex_type=disk_laser\nmetric=IP\ndim=128\ncount=18446744073709551615\nids_file=a b\nvectors_file=\nx_graph_file=g\nx_=\n",
};
// ---- every single edit at every position ---------------------------------------------------------
void edits(bool col, bool pairs) {
  auto &texts = col ? kColTexts : kSegTexts;
  const std::string &t = texts[size_t(choose(int(texts.size()), "text"))];
  fs::path p = fs::path(mc::fresh_dir()) / "m.txt";
  size_t i = size_t(choose(int(t.size() + 1), "position"));
  static const std::string alphabet("\n\r\t =#,/.\0" "019a-+xs_Lq\xEF\xBB", 24);
  auto singles = [&](const std::string &s, size_t k, const std::function<void(const std::string &)> &fn) {
    fn(s.substr(0, k));
    if (k < s.size()) {
      fn(s.substr(0, k) + s.substr(k + 1));
      if (k + 1 < s.size()) {
        std::string w = s;
        std::swap(w[k], w[k + 1]);
        fn(w);
      }
    }
    for (char c : alphabet) {
      fn(s.substr(0, k) + c + s.substr(k));
      if (k < s.size()) fn(s.substr(0, k) + c + s.substr(k + 1));
    }
  };
  if (!pairs) {
    singles(t, i, [&](const std::string &x) { check_text(p, x, col); });
    // a run of bytes dropped or repeated
    for (size_t n = 2; n <= 16 && i + n <= t.size(); ++n) {
      check_text(p, t.substr(0, i) + t.substr(i + n), col);
      check_text(p, t.substr(0, i + n) + t.substr(i), col);
    }
    check_text(p, "\xEF\xBB\xBF" + t.substr(i), col);
  } else {
    // two edits: delete or substitute at i and at every later position within the next two lines
    static const std::string small("\n=#,/19x", 8);
    for (size_t j = i + 1; j < std::min(t.size(), i + 30); ++j)
      for (char a : small)
        for (char b : small) {
          if (i >= t.size()) continue;
          std::string x = t;
          x[i] = a;
          x[j] = b;
          check_text(p, x, col);
        }
  }
  mc::nontrivial();
}
// ---- every line dropped, repeated, moved; every field given every value of a menu -------------------
std::vector<std::string> lines(const std::string &t) {
  std::vector<std::string> l;
  std::istringstream in(t);
  for (std::string s; std::getline(in, s);) l.push_back(s);
  return l;
}
std::string join(const std::vector<std::string> &l) {
  std::string t;
  for (auto &s : l) t += s + "\n";
  return t;
}
const std::vector<std::string> kMenu{
    "", "0", "00", "1", "01", "2", "4", "5", "+1", "-1", "1 2", "1.0", "0x1", "1e3", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "184467440737095516150",
    "99999999999999999999999999", "L2", "IP", "COS", "NONE", "l2", "L2 ", "disk_flat", "disk_vamana", "disk_laser", "Flat", "flat", ".", "..", "...", "/", "a/b", "../x", "/etc/passwd", "x/..",
    "seg_00000001", "seg_00000002", "seg_0000001", "seg_000000001", "seg_0000000a", "Seg_00000001", "seg_00000001/..", "../seg_00000001", "seg_00000001,seg_00000002", "seg_00000001,seg_00000001",
    "seg_00000001,", ",seg_00000001", "seg_00000001,,seg_00000002", "seg_00000001 ,seg_00000002", ",", "=", "a=b", "#x", "ids.u64.bin", "vectors.f32.bin", "manifest.txt",
    std::string("a\0b", 3), std::string("seg_00000001\0", 13), "\xEF\xBB\xBF" "1"};
std::vector<std::string> edit_lines(const std::vector<std::string> &l, int kind, size_t i, size_t j, bool &valid) {
  auto r = l;
  valid = true;
  switch (kind) {
    case 0: r.erase(r.begin() + long(i)); break;
    case 1: r.insert(r.begin() + long(j), l[i]); break;
    case 2: std::swap(r[i], r[j]); break;
    case 3: {
      auto e = l[i].find('=');
      if (e == std::string::npos) return valid = false, r;
      r[i] = l[i].substr(0, e + 1) + kMenu[j];
      break;
    }
    case 4: {
      static const std::vector<std::string> keys{"", "version", "dim", "segment", "segments", "x_", "x_dim", "X_a", "x", "segment_id", "count", "Version", "y_b", "#dim", "metric"};
      auto e = l[i].find('=');
      if (e == std::string::npos) return valid = false, r;
      r[i] = keys[j] + l[i].substr(e);
      break;
    }
  }
  return r;
}
const int kKinds = 5;
size_t second(int kind, size_t n) { return kind == 0 ? 1 : kind == 3 ? kMenu.size() : kind == 4 ? 15 : n; }
void line_edits(bool col, bool two) {
  auto &texts = col ? kColTexts : kSegTexts;
  auto l = lines(texts[size_t(choose(int(texts.size()), "text"))]);
  fs::path p = fs::path(mc::fresh_dir()) / "m.txt";
  int kind = choose(kKinds, "edit");
  size_t i = size_t(choose(int(l.size()), "line"));
  if (two && kind == 3 && !mc::thorough()) {  // quick: pairs of value changes only within the first lines
    if (i > 5) mc::assume(false);
  }
  for (size_t j = 0; j < second(kind, l.size()); ++j) {
    bool v;
    auto r = edit_lines(l, kind, i, j, v);
    if (!v) continue;
    if (!two) {
      check_text(p, join(r), col);
      continue;
    }
    if (kind == 3 && !mc::thorough() && j % 4) continue;
    for (int k2 = 0; k2 < kKinds; ++k2)
      for (size_t a = 0; a < r.size(); ++a)
        for (size_t b = 0; b < second(k2, r.size()); ++b) {
          if (k2 == 3 && !mc::thorough() && (b + a + j) % 4) continue;
          auto q = edit_lines(r, k2, a, b, v);
          if (v) check_text(p, join(q), col);
        }
  }
  mc::nontrivial();
}
// ---- saving and loading every combination of field values, with every failing call ------------------
void roundtrip(bool col) {
  std::string d = mc::fresh_dir();
  fs::path p = fs::path(d) / "m.txt";
  static const uint64_t nums[] = {1, 7, 4294967295ull, 4294967296ull, 18446744073709551615ull};
  static const alaya::MetricType met[] = {alaya::MetricType::L2, alaya::MetricType::IP, alaya::MetricType::COS};
  static const DiskIndexType typ[] = {DiskIndexType::Flat, DiskIndexType::Vamana, DiskIndexType::Laser};
  static const std::vector<KV> xs{{}, {{"x_a", ""}}, {{"x_a", "1"}, {"x_b", "p q=r#s,t"}}, {{"x_", "."}}, {{"x_graph_file", "graph.index"}, {"x_z", std::string(3000, 'z')}}};
  uint64_t dim = nums[choose(5)];
  int m = choose(3), t = choose(3);
  auto x = xs[size_t(choose(int(xs.size())))];
  auto go = [&](const auto &man, auto eq) {
    using M = std::decay_t<decltype(man)>;
    man.save(p);
    mc::step();
    MC_REQUIRE(eq(M::load(p)), "round-trip", "a saved manifest loads back different: %s", show(slurp(p)).c_str());
    std::string want = slurp(p);
    // saving again over the same file, and over a longer one, with each call failing in turn
    for (int mode = 0; mode < 2; ++mode)
      for (int at = 0;; ++at) {
        spew(p, want + "junk=1\n");
        fsx::fault_arm(d, at, ENOSPC, mode, ~0u);
        bool threw = false, fired = false;
        try {
          man.save(p);
        } catch (const std::exception &) {
          threw = true;
        }
        auto pts = fsx::fault_disarm(&fired);
        mc::add_eval();
        if (!threw) MC_REQUIRE(slurp(p) == want, "save-lied", "save() reported success although %s failed; file: %s", at < int(pts.size()) ? pts[size_t(at)].path.c_str() : "?", show(slurp(p)).c_str());
        if (!fired) break;
      }
    spew(p, want);
    for (int at = 0;; ++at) {
      fsx::fault_arm(d, at, EIO, 0, ~0u);
      bool fired = false, ok = true;
      try {
        ok = eq(M::load(p));
      } catch (const std::exception &) {
      }
      fsx::fault_disarm(&fired);
      mc::add_eval();
      MC_REQUIRE(ok, "load-lied", "load() returned something else when a call failed");
      if (!fired) break;
    }
  };
  if (col) {
    alaya::disk::CollectionManifest c;
    c.dim = dim;
    c.metric = met[m];
    c.index_type = typ[t];
    c.next_segment_id = choose(2) ? 18446744073709551615ull : 0;
    int n = choose(4);
    static const char *ids[] = {"seg_00000002", "seg_99999999", "seg_00000000"};
    for (int i = 0; i < n; ++i) c.segment_ids.push_back(ids[i]);
    c.x_extras = x;
    go(c, [&](const alaya::disk::CollectionManifest &o) {
      return o.version == c.version && o.dim == c.dim && o.metric == c.metric && o.index_type == c.index_type && o.next_segment_id == c.next_segment_id && o.segment_ids == c.segment_ids && o.x_extras == c.x_extras;
    });
  } else {
    alaya::disk::SegmentManifest c;
    c.segment_id = choose(2) ? "seg_00000000" : "seg_99999999";
    c.dim = dim;
    c.count = nums[choose(5)];
    c.metric = met[m];
    c.index_type = typ[t];
    if (choose(2)) c.ids_file = "a b=c", c.vectors_file = "";
    c.x_extras = x;
    go(c, [&](const alaya::disk::SegmentManifest &o) {
      return o.version == c.version && o.segment_id == c.segment_id && o.dim == c.dim && o.count == c.count && o.metric == c.metric && o.index_type == c.index_type && o.ids_file == c.ids_file &&
             o.vectors_file == c.vectors_file && o.x_extras == c.x_extras;
    });
  }
  mc::nontrivial();
}
// ---- file kinds ----------------------------------------------------------------------------------
void kinds() {
  fs::path d = mc::fresh_dir(), p = d / "m.txt";
  bool col = choose(2);
  const std::string t = col ? kColTexts[0] : kSegTexts[0];
  int k = choose(6);
  bool good = false;
  switch (k) {
    case 0: break;  // absent
    case 1: fs::create_directory(p); break;
    case 2: spew(d / "real", t), fs::create_symlink(d / "real", p); break;
    case 3: spew(p, t + std::string((1 << 20) - t.size() + 1, '\n')); break;
    case 4: spew(p, t + std::string((1 << 20) - t.size(), '\n')), good = true; break;
    case 5: spew(p, ""); break;
  }
  bool threw = false;
  try {
    col ? (void)alaya::disk::CollectionManifest::load(p) : (void)alaya::disk::SegmentManifest::load(p);
  } catch (const std::exception &) {
    threw = true;
  }
  MC_REQUIRE(threw == !good, "file-kind", "case %d: %s", k, threw ? "refused" : "accepted");
  mc::nontrivial();
}
// ---- whole collections with an edited manifest -----------------------------------------------------
struct Fixture {
  MetricType metric;
  DiskIndexType type;
  uint32_t dim;
  uint64_t seed;
};
const std::vector<Fixture> kFix{{MetricType::L2, DiskIndexType::Flat, 4, 1}, {MetricType::IP, DiskIndexType::Flat, 1, 1}, {MetricType::L2, DiskIndexType::Vamana, 4, 7}, {MetricType::COS, DiskIndexType::Flat, 8, 1}};
Row row(uint32_t dim, int i) {
  Row r;
  r.label = uint64_t(100 + i * 7 % 31);
  for (uint32_t k = 0; k < dim; ++k) r.v.push_back(float((i * 5 + int(k) * 3) % 11) - 4.5f);
  return r;
}
void add(DiskCollection &c, const std::vector<Row> &rs) {
  std::vector<float> f;
  std::vector<uint64_t> l;
  for (auto &r : rs) f.insert(f.end(), r.v.begin(), r.v.end()), l.push_back(r.label);
  c.add_batch(f.data(), l.data(), rs.size());
}
std::unique_ptr<DiskCollection> make(const fs::path &p, const Fixture &f, std::vector<std::vector<Row>> &segs) {
  VamanaSegmentBuildParams vp;
  vp.R = 8, vp.L = 16, vp.num_threads = 1, vp.seed = f.seed;
  auto c = std::make_unique<DiskCollection>(p, f.dim, f.metric, f.type, 1 << 16, vp);
  for (int s = 0; s < 2; ++s) {
    segs.push_back({row(f.dim, s * 3), row(f.dim, s * 3 + 1), row(f.dim, s * 3 + 2)});
    add(*c, segs.back());
    c->flush();
  }
  return c;
}
void collection(bool of_segment) {
  Fixture f = kFix[size_t(choose(int(kFix.size()), "collection"))];
  fs::path base = mc::fresh_dir(), p = base / "col";
  std::vector<std::vector<Row>> segs;
  make(p, f, segs);
  fs::path man = of_segment ? p / "segments/seg_00000001/manifest.txt" : p / "collection_manifest.txt";
  const std::string t = slurp(man);
  auto l = lines(t);
  int kind = choose(kKinds + 1, "edit");
  size_t at = size_t(choose(kind == kKinds ? int(t.size()) : int(l.size()), "where"));
  std::vector<std::string> variants;
  if (kind == kKinds) {
    variants = {t.substr(0, at) + t.substr(at + 1), t.substr(0, at)};
    for (char c : std::string("0129-x\n#")) variants.push_back(t.substr(0, at) + c + t.substr(at + 1)), variants.push_back(t.substr(0, at) + c + t.substr(at));
  } else {
    for (size_t j = 0; j < second(kind, l.size()); ++j) {
      bool v;
      auto r = edit_lines(l, kind, at, j, v);
      if (v) variants.push_back(join(r));
    }
  }
  const fs::path work = base / "w";
  for (auto &x : variants) {
    if (x == t) continue;
    fs::remove_all(work);
    fs::copy(p, work, fs::copy_options::recursive);
    fs::path wm = work / man.lexically_relative(p);
    spew(wm, x);
    Ref r = reference(x, !of_segment);
    mc::step();
    mc::add_eval();
    std::string ctx = show(x);
    std::unique_ptr<DiskCollection> c;
    std::string what;
    try {
      c = std::make_unique<DiskCollection>(DiskCollection::open(work));
    } catch (const std::exception &e) {
      what = e.what();
    }
    if (!r.ok) {
      MC_REQUIRE(!c, "opened-malformed", "a collection with a malformed manifest (%s) was opened: %s", r.why.c_str(), ctx.c_str());
      mc::add_nontrivial();
      continue;
    }
    // what the text says about the rows
    std::vector<Row> rows;
    bool contradicts = false, missing = false;
    if (!of_segment) {
      for (auto &s : r.segs) {
        int n = atoi(s.c_str() + 4);
        if (n < 1 || n > 2) missing = true;
        else
          rows.insert(rows.end(), segs[size_t(n) - 1].begin(), segs[size_t(n) - 1].end());
      }
      contradicts = !r.segs.empty() && (r.num("dim") != f.dim || alaya::kMetricMap[r.kv["metric"]] != f.metric);
      if (auto i = r.kv.find("x_max_pending_bytes"); i != r.kv.end() && !is_u64(i->second)) contradicts = true;
    } else {
      for (auto &s : segs) rows.insert(rows.end(), s.begin(), s.end());
      contradicts = r.num("dim") != f.dim || alaya::kMetricMap[r.kv["metric"]] != f.metric || r.num("count") != segs[0].size();
    }
    MC_REQUIRE(!(c && (contradicts || missing)), "opened-contradiction", "a collection was opened although its manifest %s: %s", missing ? "lists a segment that does not exist" : "contradicts its segments",
               ctx.c_str());
    if (!c) {
      mc::add_nontrivial();
      continue;
    }
    bool huge = false;  // a list size of billions is granted, and simply does not fit in memory
    for (auto k : {"x_vamana_L", "x_vamana_R", "x_vamana_num_threads"})
      if (r.kv.count(k)) huge |= r.num(k) > 1000;
    if (huge) continue;
    if (r.segs.empty() && !of_segment) continue;  // an empty collection of any dimension
    check_search(*c, rows, f.metric, f.dim, ctx, f.type == DiskIndexType::Flat, f.type == DiskIndexType::Flat);
    // the other segments on the disk survive further use
    auto before0 = fsx::tree_hash(fsx::read_tree((work / "segments/seg_00000001").string())), before1 = fsx::tree_hash(fsx::read_tree((work / "segments/seg_00000002").string()));
    std::vector<Row> more{row(f.dim, 8), row(f.dim, 9)};
    bool flushed = true;
    try {
      add(*c, more);
      c->flush();
    } catch (const std::exception &) {
      flushed = false;
    }
    c.reset();
    if (flushed) rows.insert(rows.end(), more.begin(), more.end());
    MC_REQUIRE(before0 == fsx::tree_hash(fsx::read_tree((work / "segments/seg_00000001").string())) && before1 == fsx::tree_hash(fsx::read_tree((work / "segments/seg_00000002").string())), "overwrote-segment",
               "a flush changed the files of an existing segment: %s", ctx.c_str());
    try {
      c = std::make_unique<DiskCollection>(DiskCollection::open(work));
    } catch (const std::exception &e) {
      mc::fail("reopen", mc::format("after a flush the collection cannot be opened (%s): %s", e.what(), ctx.c_str()));
    }
    check_search(*c, rows, f.metric, f.dim, ctx, f.type == DiskIndexType::Flat, f.type == DiskIndexType::Flat);
    mc::state(mc::hash_str(x));
  }
  mc::nontrivial();
}
// every parameter a collection can be created with is still there when it is opened again
void parameters() {
  fs::path p = fs::path(mc::fresh_dir()) / "col";
  static const uint64_t seeds[] = {0, 1, 1234, 4294967295ull, 4294967296ull, 18446744073709551615ull};
  static const float alphas[] = {1.0f, 1.2f, 1.0000002f, 2.0f, 1e9f};
  static const size_t caps[] = {1, 4096, size_t(-1)};
  Fixture f{MetricType::L2, choose(2) ? DiskIndexType::Vamana : DiskIndexType::Flat, 4, 0};
  VamanaSegmentBuildParams vp;
  vp.seed = seeds[choose(6)];
  vp.alpha = alphas[choose(5)];
  vp.R = choose(2) ? 1 : 64, vp.L = choose(2) ? 64 : 4294967295u;
  size_t cap = caps[choose(3)];
  vp.num_threads = 1;
  std::vector<Row> rows{row(4, 0), row(4, 1), row(4, 2)};
  bool made = false;
  try {
    DiskCollection c(p, f.dim, f.metric, f.type, cap, vp);
    made = true;
    if (cap > 100 && vp.L == 64) add(c, rows), c.flush();
    else
      rows.clear();
  } catch (const std::exception &) {
    mc::assume(!made);
    mc::assume(false);
  }
  mc::nontrivial();
  mc::step();
  try {
    auto c = DiskCollection::open(p);
    check_search(c, rows, f.metric, f.dim, "reopened", f.type == DiskIndexType::Flat, f.type == DiskIndexType::Flat);
    bool threw = false;
    std::vector<Row> four;
    for (int i = 3; i < 7; ++i) four.push_back(row(4, i));
    try {
      add(c, four);
    } catch (const std::exception &) {
      threw = true;
    }
    MC_REQUIRE(threw == (cap == 1), "pending-limit-lost", "limit %zu is not in force after reopening", cap);
  } catch (const std::exception &e) {
    mc::fail("unopenable", mc::format("a collection created with seed %llu, alpha %g, R %u, L %u, limit %zu cannot be opened: %s", (unsigned long long)vp.seed, double(vp.alpha), vp.R, vp.L, cap, e.what()));
  }
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  mc::Spec sp;
  sp.property = "P08";
  sp.level = "model_checking";
  sp.rule = "evaluations whose text is malformed or contradicts the files, and all round trips";
  sp.assumptions = {"extension values contain no line breaks or surrounding blanks", "the files of a collection are not changed while it is open"};
  std::vector<mc::Scenario> sc;
  sc.push_back({"collection-edits", [] { edits(true, false); }});
  sc.push_back({"segment-edits", [] { edits(false, false); }});
  sc.push_back({"collection-lines", [] { line_edits(true, false); }});
  sc.push_back({"segment-lines", [] { line_edits(false, false); }});
  sc.push_back({"collection-two-lines", [] { line_edits(true, true); }});
  sc.push_back({"segment-two-lines", [] { line_edits(false, true); }});
  sc.push_back({"collection-two-bytes", [] { edits(true, true); }, true});
  sc.push_back({"segment-two-bytes", [] { edits(false, true); }, true});
  sc.push_back({"collection-roundtrip", [] { roundtrip(true); }});
  sc.push_back({"segment-roundtrip", [] { roundtrip(false); }});
  sc.push_back({"file-kinds", [] { kinds(); }});
  sc.push_back({"open-collection", [] { collection(false); }});
  sc.push_back({"open-segment", [] { collection(true); }});
  sc.push_back({"parameters", [] { parameters(); }});
  return mc::run_main(argc, argv, sp, sc);
}
