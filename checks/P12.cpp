// P12 record payloads: bounded records, every truncation, every single-position damage; sortable encodings.
#include <sys/mman.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include "lib/mc.hpp"
#include "utils/index_encoding.hpp"
#include "utils/scalar_data.hpp"
using namespace alaya;
namespace ie = alaya::index_encoding;
namespace {
const std::string kNul("x\0y_", 4);
const std::string kLong(300, 'q');
const std::vector<std::string> kStr = {"", "a", kNul, kLong};
const std::vector<std::string> kKeys = {"", "k", "kk", kNul};
const std::vector<MetadataValue> kVals = {
    int64_t(0), std::numeric_limits<int64_t>::min(), 2.5, -0.0, std::numeric_limits<double>::infinity(),
    std::string(""), std::string("v"), kLong, true, false};

// bytes placed directly before an inaccessible page: any read past the end faults
struct Guarded {
  char *page = nullptr;
  size_t cap = 8192;
  Guarded() {
    page = static_cast<char *>(mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(page + cap, 4096, PROT_NONE);
  }
  const char *put(const char *d, size_t n) {
    std::memcpy(page + cap - n, d, n);
    return page + cap - n;
  }
};
Guarded &guard() {
  static Guarded *g = new Guarded;
  return *g;
}
bool eq(const MetadataValue &a, const MetadataValue &b) {
  if (a.index() != b.index()) return false;
  if (auto p = std::get_if<double>(&a)) return std::memcmp(p, &std::get<double>(b), 8) == 0;
  return a == b;
}
bool eq(const MetadataMap &a, const MetadataMap &b) {
  if (a.size() != b.size()) return false;
  for (auto &[k, v] : a)
    if (auto it = b.find(k); it == b.end() || !eq(v, it->second)) return false;
  return true;
}
ScalarData any_record(int max_fields, int nvals) {
  ScalarData r;
  r.item_id = kStr[size_t(mc::choose(4, "item id"))];
  r.document = kStr[size_t(mc::choose(4, "document"))];
  int n = mc::choose(max_fields + 1, "fields");
  int prev = -1;
  for (int i = 0; i < n; ++i) {
    int left = int(kKeys.size()) - prev - 1;
    if (left <= 0) mc::assume(false);
    prev += 1 + mc::choose(left, "key");
    r.metadata[kKeys[size_t(prev)]] = kVals[size_t(mc::choose(nvals, "value"))];
  }
  return r;
}
void partial(const char *p, size_t n, const MetadataMap &full, const char *when) {
  for (unsigned m = 0; m < 32; ++m) {  // every subset of the four keys and an absent one
    std::unordered_set<std::string> want;
    MetadataMap exp;
    for (unsigned i = 0; i < 5; ++i)
      if (m >> i & 1) {
        std::string k = i < 4 ? kKeys[i] : "absent";
        want.insert(k);
        if (auto it = full.find(k); it != full.end()) exp[k] = it->second;
      }
    MC_REQUIRE(eq(ScalarData::deserialize_selected_metadata(p, n, want), exp), "selected", "%s: decoding %zu selected fields differs from the full record", when, want.size());
  }
  for (unsigned i = 0; i < 5; ++i) {
    std::string k = i < 4 ? kKeys[i] : "absent";
    auto v = ScalarData::deserialize_single_metadata_value(p, n, k);
    auto it = full.find(k);
    MC_REQUIRE(v.has_value() == (it != full.end()) && (!v || eq(*v, it->second)), "single", "%s: decoding the single field '%s' differs from the full record", when, k.c_str());
  }
}
void roundtrip() {
  ScalarData r = any_record(mc::thorough() ? 4 : 3, int(kVals.size()));
  if (!r.metadata.empty()) mc::nontrivial();
  mc::step();
  auto b = r.serialize();
  MC_REQUIRE(b.size() == r.serialized_size(), "size", "serialized_size() = %zu, %zu bytes", r.serialized_size(), b.size());
  const char *p = guard().put(b.data(), b.size());
  ScalarData d = ScalarData::deserialize(p, b.size());
  MC_REQUIRE(d.item_id == r.item_id && d.document == r.document && eq(d.metadata, r.metadata), "round-trip", "the record does not decode to itself");
  MC_REQUIRE(d.serialize().size() == b.size(), "round-trip", "re-encoding has another size");
  partial(p, b.size(), r.metadata, "intact bytes");
  mc::state(mc::hash_bytes(b.data(), b.size()));
}
// decodes possibly damaged bytes in every way; only memory safety and termination matter
bool decode_all(const char *d, size_t n) {
  const char *p = guard().put(d, n);
  bool ok = true;
  size_t total = 0;
  try {
    ScalarData r = ScalarData::deserialize(p, n);
    total = r.item_id.size() + r.document.size();
    for (auto &[k, v] : r.metadata) total += k.size() + (v.index() == 2 ? std::get<std::string>(v).size() : 1);
  } catch (const std::runtime_error &) {
    ok = false;
  }
  MC_REQUIRE(total <= n, "invented-bytes", "%zu bytes decoded out of %zu", total, n);
  for (unsigned m = 1; m < 32; ++m) {
    std::unordered_set<std::string> want;
    for (unsigned i = 0; i < 5; ++i)
      if (m >> i & 1) want.insert(i < 4 ? kKeys[i] : "absent");
    auto r = ScalarData::deserialize_selected_metadata(p, n, want);
    for (auto &[k, v] : r) MC_REQUIRE(want.count(k), "unasked-field", "a field that was not asked for is returned");
  }
  for (unsigned i = 0; i < 5; ++i) (void)ScalarData::deserialize_single_metadata_value(p, n, i < 4 ? kKeys[i] : "absent");
  return ok;
}
ScalarData sample(int k) {
  switch (k) {
    case 0: return {"", "", {}};
    case 1: return {"id", "doc", {{"k", int64_t(5)}}};
    case 2: return {"id", "", {{"k", std::string("val")}, {"kk", 2.5}}};
    case 3: return {"i", "d", {{"", true}, {"k", false}, {"kk", std::string("")}}};
    default: return {kNul, "doc", {{"k", std::string("v")}, {kNul, int64_t(-1)}, {"kk", 1e300}, {"", std::string("zz")}}};
  }
}
void truncation() {
  ScalarData r = sample(mc::choose(5, "record"));
  mc::step();
  auto b = r.serialize();
  size_t n = size_t(mc::choose(int(b.size()) + 1, "bytes kept"));
  mc::nontrivial();
  mc::note("%zu of %zu bytes", n, b.size());
  bool ok = decode_all(b.data(), n);
  MC_REQUIRE(n == b.size() || !ok, "truncation-accepted", "%zu of %zu bytes are accepted as a whole record", n, b.size());
  MC_REQUIRE(n < b.size() || ok, "intact-rejected", "the intact record is rejected");
}
void damage() {
  ScalarData r = sample(mc::choose(5, "record"));
  mc::step();
  auto b = r.serialize();
  size_t at = size_t(mc::choose(int(b.size()), "position"));
  mc::nontrivial();
  if (mc::choose(2, "width") == 0) {
    int v = mc::choose(256, "byte");
    b[at] = char(v);
    decode_all(b.data(), b.size());
  } else {
    if (at + 4 > b.size()) mc::assume(false);
    size_t left = b.size() - at - 4;
    uint32_t vs[] = {0, 1, uint32_t(left), uint32_t(left + 1), uint32_t(left - 1), 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffcu, uint32_t(-int64_t(at + 4))};
    uint32_t v = vs[mc::choose(10, "word")];
    std::memcpy(&b[at], &v, 4);
    decode_all(b.data(), b.size());
  }
}
// two damaged length fields or a damaged length in a truncated record
void damage_and_truncate() {
  ScalarData r = sample(mc::choose(5, "record"));
  mc::step();
  auto b = r.serialize();
  size_t at = size_t(mc::choose(int(b.size()), "position"));
  size_t n = size_t(mc::choose(int(b.size()), "bytes kept"));
  if (at >= n) mc::assume(false);
  b[at] = char(b[at] ^ (mc::choose(2, "bit") ? 0x80 : 1));
  mc::nontrivial();
  decode_all(b.data(), n);
}
// ---- encodings ---------------------------------------------------------------------------------
const std::vector<int64_t> &ints() {
  static const auto *v = [] {
    auto *r = new std::vector<int64_t>;
    for (int b = 0; b < 64; ++b)
      for (int d = -2; d <= 2; ++d)
        for (int s = 0; s < 2; ++s) {
          uint64_t x = (uint64_t(1) << b) + uint64_t(int64_t(d));
          r->push_back(int64_t(s ? ~x : x));
        }
    for (int64_t i = -20; i <= 20; ++i) r->push_back(i);
    std::sort(r->begin(), r->end());
    r->erase(std::unique(r->begin(), r->end()), r->end());
    return r;
  }();
  return *v;
}
double from_bits(uint64_t u) {
  double d;
  std::memcpy(&d, &u, 8);
  return d;
}
uint64_t to_bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, 8);
  return u;
}
const std::vector<uint64_t> &doubles() {  // bit patterns; no NaN
  static const auto *v = [] {
    auto *r = new std::vector<uint64_t>;
    for (uint64_t e : {0ull, 1ull, 2ull, 1022ull, 1023ull, 1024ull, 1075ull, 2045ull, 2046ull})
      for (uint64_t m : {0ull, 1ull, 2ull, 0x8000000000000ull, 0x7ffffffffffffull, 0xffffffffffffeull, 0xfffffffffffffull, 0x1999999999999ull})
        for (uint64_t s = 0; s < 2; ++s) r->push_back(s << 63 | e << 52 | m);
    r->push_back(0x7ffull << 52);
    r->push_back(0xfffull << 52);
    return r;
  }();
  return *v;
}
int64_t rank(uint64_t bits) {  // order of the real numbers; both zeros alike
  int64_t mag = int64_t(bits & ~(1ull << 63));
  return bits >> 63 ? -mag : mag;
}
int sgn(int64_t a, int64_t b) { return a < b ? -1 : a > b; }
int sgn(int c) { return c < 0 ? -1 : c > 0; }
void enc_int() {
  auto &v = ints();
  int64_t a = v[size_t(mc::choose(int(v.size()), "a"))];
  mc::step(v.size());
  auto ea = ie::encode_int64(a);
  mc::nontrivial();
  MC_REQUIRE(ie::decode_int64(ea) == a, "int-decode", "%lld decodes to %lld", (long long)a, (long long)ie::decode_int64(ea));
  for (auto b : v) MC_REQUIRE(sgn(ea.compare(ie::encode_int64(b))) == sgn(a, b), "int-order", "encodings of %lld and %lld are in the wrong order", (long long)a, (long long)b);
  mc::add_eval(v.size());
  mc::state(uint64_t(a));
}
void enc_double() {
  auto &v = doubles();
  uint64_t a = v[size_t(mc::choose(int(v.size()), "a"))];
  mc::step(v.size());
  auto ea = ie::encode_double(from_bits(a));
  mc::nontrivial();
  uint64_t back = to_bits(ie::decode_double(ea));
  MC_REQUIRE(rank(back) == rank(a), "double-decode", "%016llx decodes to %016llx", (unsigned long long)a, (unsigned long long)back);
  for (auto b : v) MC_REQUIRE(sgn(ea.compare(ie::encode_double(from_bits(b)))) == sgn(rank(a), rank(b)), "double-order", "encodings of %016llx and %016llx are in the wrong order", (unsigned long long)a, (unsigned long long)b);
  mc::add_eval(v.size());
  mc::state(a);
}
void enc_value() {  // values of any type: equal encodings exactly for equal values; ids come back
  static const std::vector<MetadataValue> pool = {
      int64_t(0), int64_t(1), int64_t(-1), 0.0, 1.0, -1.0, std::string(""), std::string("0"), std::string("1"), std::string("a"), std::string("a_1"),
      std::string("s_a"), std::string("8000000000000000"), std::string("i_8000000000000000"), true, false};
  auto &a = pool[size_t(mc::choose(int(pool.size()), "a"))];
  auto &b = pool[size_t(mc::choose(int(pool.size()), "b"))];
  MC_REQUIRE((ie::encode_value(a) == ie::encode_value(b)) == eq(a, b), "value-encoding", "encodings '%s' and '%s'", ie::encode_value(a).c_str(), ie::encode_value(b).c_str());
  static const uint32_t ids[] = {0, 1, 9, 10, 4294967295u, 4294967294u};
  uint32_t id = ids[mc::choose(6, "id")];
  for (auto f : {"", "f", "f_1", "_"}) {
    auto key = ie::make_field_index_key<uint32_t>(f, ie::encode_value(a), id);
    MC_REQUIRE(ie::extract_id_from_key<uint32_t>(key) == id, "key-id", "key '%s' gives id %u", key.c_str(), ie::extract_id_from_key<uint32_t>(key));
    MC_REQUIRE(key.starts_with(ie::make_field_index_prefix(f, ie::encode_value(a))) && key.starts_with(ie::make_field_prefix(f)), "key-prefix", "key '%s' lacks its prefix", key.c_str());
  }
  mc::nontrivial();
}
}  // namespace
int main(int argc, char **argv) {
  mc::Spec sp;
  sp.property = "P12";
  sp.level = "model_checking";
  sp.rule = "every record of up to 3 (thorough 4) fields over 4 keys and 10 values, every subset of fields decoded; every truncation, every damaged byte and word of 5 records in front of an inaccessible page; all pairs of 650 integers and 146 reals";
  sp.assumptions = {"no NaN values", "-0.0 and 0.0 are the same value"};
  std::vector<mc::Scenario> sc;
  auto add = [&](std::string n, void (*f)()) {
    mc::Scenario s;
    s.name = n;
    s.body = f;
    sc.push_back(s);
  };
  add("round-trip", roundtrip);
  add("truncation", truncation);
  add("damage", damage);
  add("damage-and-truncation", damage_and_truncate);
  add("integers", enc_int);
  add("reals", enc_double);
  add("values", enc_value);
  return mc::run_main(argc, argv, sp, sc);
}
