// P31 distance kernels: every dimension, every lane, every processor-specific variant, operands against guard pages.
// mc-libs: -lrocksdb
#include <sys/mman.h>
#include <unistd.h>
#include <cfloat>
#include <cmath>
#include <functional>
#include <memory>
#include "lib/mc.hpp"
#include "index/graph/laser/utils/scalar_quantize.hpp"
#include "simd/distance_ip.hpp"
#include "simd/distance_l2.hpp"
#include "simd/fht.hpp"
#include "simd/laser_dispatch.hpp"
#include "utils/rabitq_utils/lut.hpp"
#include "utils/rabitq_utils/rotator.hpp"
#include "utils/rabitq_utils/fastscan.hpp"
namespace simd = alaya::simd;
namespace lsimd = alaya::laser::simd;
namespace {
// A block of n bytes that ends exactly at an inaccessible page (or begins exactly behind one).
struct Guarded {
  char *base = nullptr, *p = nullptr;
  size_t len = 0;
  void init(size_t cap) {
    long pg = sysconf(_SC_PAGESIZE);
    len = (cap + size_t(pg) - 1) / size_t(pg) * size_t(pg) + 2 * size_t(pg);
    base = static_cast<char *>(mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(base + pg, len - 2 * size_t(pg), PROT_READ | PROT_WRITE);
  }
  template <class T>
  T *place(size_t n, bool at_end) {
    long pg = sysconf(_SC_PAGESIZE);
    p = at_end ? base + len - pg - n * sizeof(T) : base + pg;
    return reinterpret_cast<T *>(p);
  }
};
Guarded &arena(int i) {
  static Guarded g[6];
  if (!g[i].base) g[i].init(1 << 16);
  return g[i];
}
bool has512() { return simd::get_cpu_features().avx512f_ && simd::get_cpu_features().avx512bw_; }
bool has2() { return simd::get_cpu_features().avx2_ && simd::get_cpu_features().fma_; }

using F32 = float (*)(const float *, const float *, size_t);
using FQ = float (*)(const uint8_t *, const uint8_t *, size_t, const float *, const float *);
struct K32 {
  const char *name;
  F32 f;
  bool l2;
};
struct KQ {
  const char *name;
  FQ f;
  bool l2;
  int bits;
};
std::vector<K32> kernels32() {
  std::vector<K32> v{{"l2 generic", simd::l2_sqr_generic, true}, {"ip generic", simd::ip_sqr_generic, false}, {"l2 dispatched", simd::l2_sqr<float, float>, true}, {"ip dispatched", simd::ip_sqr<float, float>, false}};
#ifdef ALAYA_ARCH_X86
  if (has2()) {
    v.push_back({"l2 avx2", simd::l2_sqr_avx2, true});
    v.push_back({"ip avx2", simd::ip_sqr_avx2, false});
    v.push_back({"l2 compatible", simd::l2_sqr_avx2_diskann_compat, true});
  }
  if (has512()) {
    v.push_back({"l2 avx512", simd::l2_sqr_avx512, true});
    v.push_back({"ip avx512", simd::ip_sqr_avx512, false});
  }
#endif
  return v;
}
std::vector<KQ> kernelsq() {
  std::vector<KQ> v{{"l2 sq8 generic", simd::l2_sqr_sq8_generic, true, 8}, {"ip sq8 generic", simd::ip_sqr_sq8_generic, false, 8}, {"l2 sq4 generic", simd::l2_sqr_sq4_generic, true, 4}, {"ip sq4 generic", simd::ip_sqr_sq4_generic, false, 4},
                    {"l2 sq8 dispatched", simd::l2_sqr_sq8<float, float>, true, 8}, {"ip sq8 dispatched", simd::ip_sqr_sq8<float, float>, false, 8}, {"l2 sq4 dispatched", simd::l2_sqr_sq4<float, float>, true, 4}, {"ip sq4 dispatched", simd::ip_sqr_sq4<float, float>, false, 4}};
#ifdef ALAYA_ARCH_X86
  if (has2()) {
    v.push_back({"l2 sq8 avx2", simd::l2_sqr_sq8_avx2, true, 8});
    v.push_back({"ip sq8 avx2", simd::ip_sqr_sq8_avx2, false, 8});
    v.push_back({"l2 sq4 avx2", simd::l2_sqr_sq4_avx2, true, 4});
    v.push_back({"ip sq4 avx2", simd::ip_sqr_sq4_avx2, false, 4});
  }
  if (has512()) {
    v.push_back({"l2 sq8 avx512", simd::l2_sqr_sq8_avx512, true, 8});
    v.push_back({"ip sq8 avx512", simd::ip_sqr_sq8_avx512, false, 8});
    v.push_back({"l2 sq4 avx512", simd::l2_sqr_sq4_avx512, true, 4});
    v.push_back({"ip sq4 avx512", simd::ip_sqr_sq4_avx512, false, 4});
  }
#endif
  return v;
}

// One lane at a time on top of a dense background of small integers: every sum is exact in float.
void fp32(size_t maxdim) {
  auto ks = kernels32();
  auto &k = ks[size_t(mc::choose(int(ks.size()), "kernel"))];
  size_t dim = size_t(mc::choose(int(maxdim) + 1, "dimension"));
  bool end = mc::choose(2, "at the end of the page");
  float *x = arena(0).place<float>(dim, end), *y = arena(1).place<float>(dim, end);
  double ref = 0;
  for (size_t i = 0; i < dim; ++i) {
    x[i] = float(int(i * 7 % 11) - 5);
    y[i] = float(int(i * 5 % 9) - 4);
    ref += k.l2 ? double(x[i] - y[i]) * (x[i] - y[i]) : -double(x[i]) * y[i];
  }
  float r = k.f(x, y, dim);
  MC_REQUIRE(double(r) == ref, std::string("value of ") + k.name, "dimension %zu: %g instead of %g", dim, r, ref);
  for (size_t i = 0; i < dim; ++i) {
    float keep = x[i];
    x[i] = 300.0f;
    double want = ref + (k.l2 ? double(300 - y[i]) * (300 - y[i]) - double(keep - y[i]) * (keep - y[i]) : -double(300 - keep) * y[i]);
    float got = k.f(x, y, dim);
    MC_REQUIRE(double(got) == want, std::string("value of ") + k.name, "dimension %zu, lane %zu changed: %g instead of %g", dim, i, got, want);
    x[i] = keep;
    mc::step();
  }
  // magnitudes that differ between lanes, against the double value within rounding
  double s = 0, mag = 0;
  for (size_t i = 0; i < dim; ++i) {
    x[i] = std::ldexp(1.0f + float(i % 13) / 16, int(i % 9) - 4) * (i % 3 == 1 ? -1.0f : 1.0f);
    y[i] = std::ldexp(1.0f + float(i % 5) / 7, int(i % 7) - 3) * (i % 4 == 2 ? -1.0f : 1.0f);
    double t = k.l2 ? (double(x[i]) - y[i]) * (double(x[i]) - y[i]) : -double(x[i]) * y[i];
    s += t;
    mag += std::abs(t) + double(std::abs(x[i]) + std::abs(y[i])) * (std::abs(x[i]) + std::abs(y[i])) * 0.01;
  }
  r = k.f(x, y, dim);
  MC_REQUIRE(std::abs(double(r) - s) <= 4e-7 * mag * (4 + double(dim) / 8), std::string("value of ") + k.name, "dimension %zu: %.9g instead of %.9g", dim, r, s);
  if (dim % 8) mc::nontrivial();
  mc::add_eval(dim);
  mc::state(mc::mix(dim, mc::hash_str(k.name)));
}

double deq(int code, int bits, float lo, float hi) { return double(lo) + double(code) / double((1 << bits) - 1) * (double(hi) - double(lo)); }
void set_code(uint8_t *b, size_t i, int bits, int v) {
  if (bits == 8) b[i] = uint8_t(v);
  else if (i % 2) b[i / 2] = uint8_t((b[i / 2] & 0x0F) | (v << 4));
  else b[i / 2] = uint8_t((b[i / 2] & 0xF0) | v);
}
void quantized(size_t maxdim, bool all_codes) {
  auto ks = kernelsq();
  auto &k = ks[size_t(mc::choose(int(ks.size()), "kernel"))];
  size_t dim = all_codes ? std::vector<size_t>{1, 2, 15, 33, 47, 80}[size_t(mc::choose(6, "dimension"))] : size_t(mc::choose(int(maxdim) + 1, "dimension"));
  bool end = mc::choose(2, "at the end of the page");
  size_t bytes = k.bits == 8 ? dim : (dim + 1) / 2;
  uint8_t *x = arena(0).place<uint8_t>(bytes, end), *y = arena(1).place<uint8_t>(bytes, end);
  float *lo = arena(2).place<float>(dim, end), *hi = arena(3).place<float>(dim, end);
  int top = (1 << k.bits) - 1;
  std::vector<int> cx(dim), cy(dim);
  memset(x, 0xff, bytes);  // the padding nibble of an odd dimension must not matter
  memset(y, 0, bytes);
  for (size_t i = 0; i < dim; ++i) {
    lo[i] = -1.0f + 0.125f * float(i % 17);  // every lane its own range, some degenerate
    hi[i] = i % 19 == 18 ? lo[i] : lo[i] + 0.5f * float(1 + i % 7);
    set_code(x, i, k.bits, cx[i] = int(i * 37 + 11) & top);
    set_code(y, i, k.bits, cy[i] = int(i * 101 + 5) & top);
  }
  auto term = [&](size_t i) {
    double a = deq(cx[i], k.bits, lo[i], hi[i]), b = deq(cy[i], k.bits, lo[i], hi[i]);
    return k.l2 ? (a - b) * (a - b) : -a * b;
  };
  double ref = 0, mag = 1;
  for (size_t i = 0; i < dim; ++i) {
    ref += term(i);
    mag += 16;
  }
  auto check = [&](double want, size_t lane) {
    float got = k.f(x, y, dim, lo, hi);
    MC_REQUIRE(std::abs(double(got) - want) <= 1e-6 * mag + 2e-6 * std::abs(want), std::string("value of ") + k.name, "dimension %zu, lane %zu: %.8g instead of %.8g", dim, lane, got, want);
  };
  check(ref, dim);
  if (all_codes) {  // all pairs of codes in one lane of every kind
    size_t lane = std::vector<size_t>{0, dim / 2, dim - 1}[size_t(mc::choose(3, "lane"))];
    double base = ref - term(lane);
    int n = 0;
    for (int a = 0; a <= top; ++a)
      for (int b = 0; b <= top; ++b, ++n) {
        set_code(x, lane, k.bits, cx[lane] = a);
        set_code(y, lane, k.bits, cy[lane] = b);
        check(base + term(lane), lane);
      }
    mc::add_eval(uint64_t(n));
    mc::step(uint64_t(n));
    mc::nontrivial();
  } else {
    for (size_t i = 0; i < dim; ++i) {
      double base = ref - term(i);
      int kx = cx[i], ky = cy[i];
      for (auto [a, b] : {std::pair{0, top}, std::pair{top, 0}, std::pair{top, top}}) {
        set_code(x, i, k.bits, cx[i] = a);
        set_code(y, i, k.bits, cy[i] = b);
        check(base + term(i), i);
      }
      set_code(x, i, k.bits, cx[i] = kx);
      set_code(y, i, k.bits, cy[i] = ky);
      float klo = lo[i], khi = hi[i];  // the range of this lane must be used for this lane and no other
      double b2 = ref - term(i);
      lo[i] = 2.0f;
      hi[i] = 6.0f;
      check(b2 + term(i), i);
      lo[i] = klo;
      hi[i] = khi;
      mc::step(4);
    }
    mc::add_eval(4 * dim);
    if (dim % 8) mc::nontrivial();
  }
  mc::state(mc::mix(dim, mc::hash_str(k.name)));
}

template <class T>
void typed() {  // element types without a special kernel
  size_t dim = size_t(mc::choose(70, "dimension"));
  T *x = arena(0).place<T>(dim, true), *y = arena(1).place<T>(dim, true);
  long l2 = 0, ip = 0;
  for (size_t i = 0; i < dim; ++i) {
    x[i] = T(i * 7 % 11);
    y[i] = T(i * 5 % 9);
    if (i % 5 == 0) x[i] = std::numeric_limits<T>::is_signed ? T(-100) : T(200);
    if (i % 7 == 0) y[i] = T(127);
    l2 += (long(x[i]) - long(y[i])) * (long(x[i]) - long(y[i]));
    ip -= long(x[i]) * long(y[i]);
  }
  mc::step();
  float a = simd::l2_sqr<T, float>(x, y, dim), b = simd::ip_sqr<T, float>(x, y, dim);
  MC_REQUIRE(long(a) == l2, "value of typed l2", "dimension %zu: %g instead of %ld", dim, a, l2);
  MC_REQUIRE(long(b) == ip, "value of typed ip", "dimension %zu: %g instead of %ld", dim, b, ip);
  mc::nontrivial();
  mc::state(dim);
}

// The dispatchers, with every environment setting that selects another kernel (one process each).
void dispatch() {
  int e = mc::choose(6, "environment");
  static const char *vars[][2] = {{nullptr, nullptr}, {"ALAYA_FORCE_SCALAR_L2", "1"}, {"ALAYA_FORCE_DISKANN_COMPAT_L2", "1"}, {"ALAYA_SIMD_DISTANCE_POLICY", "avx512"}, {"ALAYA_SIMD_DISTANCE_POLICY", "nonsense"}, {"ALAYA_FORCE_SCALAR_L2", "11"}};
  if (vars[e][0]) setenv(vars[e][0], vars[e][1], 1);
  for (size_t dim = 0; dim < 200; ++dim) {
    float *x = arena(0).place<float>(dim, true), *y = arena(1).place<float>(dim, true);
    double l2 = 0, ip = 0;
    for (size_t i = 0; i < dim; ++i) {
      x[i] = float(int(i % 13) - 6);
      y[i] = float(int(i * 3 % 7));
      l2 += double(x[i] - y[i]) * (x[i] - y[i]);
      ip -= double(x[i]) * y[i];
    }
    MC_REQUIRE(double(simd::get_l2_sqr_func()(x, y, dim)) == l2, "value of selected l2", "dimension %zu, environment %d", dim, e);
    MC_REQUIRE(double(simd::get_ip_sqr_func()(x, y, dim)) == ip, "value of selected ip", "dimension %zu, environment %d", dim, e);
    mc::step();
  }
  simd::CpuFeatures f;
  for (int bits = 0; bits < 32; ++bits) {  // the choice never names an instruction set that is missing
    f.avx512f_ = bits & 1, f.avx512bw_ = bits & 2, f.avx2_ = bits & 4, f.fma_ = bits & 8, f.sse4_1_ = bits & 16;
    for (auto pol : {simd::DistanceDispatchPolicy::kPreferStableThroughput, simd::DistanceDispatchPolicy::kPreferAvx512}) {
      auto l = simd::select_fp32_distance_level(f, pol);
      if (l == simd::SimdLevel::kAvx512) MC_REQUIRE(f.avx512f_, "kernel selection", "AVX-512 chosen without it");
      if (l == simd::SimdLevel::kAvx2) MC_REQUIRE(f.avx2_ && f.fma_, "kernel selection", "AVX2 chosen without AVX2 and FMA");
    }
    auto l = simd::get_simd_level(f);
    if (l == simd::SimdLevel::kAvx512) MC_REQUIRE(f.avx512f_, "kernel selection", "AVX-512 chosen without it");
    if (l == simd::SimdLevel::kAvx2) MC_REQUIRE(f.avx2_ && f.fma_, "kernel selection", "AVX2 chosen without AVX2 and FMA");
  }
  mc::nontrivial();
  mc::state(uint64_t(e));
}

// ---- transforms: every unit vector through every variant -------------------------------------------
struct KF {
  const char *name;
  int log_n;
  void (*f)(float *);
};
std::vector<KF> fhts() {
  std::vector<KF> v{{"6", 6, simd::helper_float_6}, {"7", 7, simd::helper_float_7}, {"8", 8, simd::helper_float_8}, {"9", 9, simd::helper_float_9}, {"10", 10, simd::helper_float_10}, {"11", 11, simd::helper_float_11},
                    {"generic 6", 6, simd::fwht_generic_template<6>}, {"generic 9", 9, simd::fwht_generic_template<9>}, {"generic 11", 11, simd::fwht_generic_template<11>}};
#ifdef ALAYA_ARCH_X86
  if (has2()) {
    v.push_back({"avx2 6", 6, simd::helper_float_6_avx2});
    v.push_back({"avx2 7", 7, simd::helper_float_7_avx2});
    v.push_back({"avx2 8", 8, simd::helper_float_8_avx2});
    v.push_back({"avx2 9", 9, simd::helper_float_9_avx2});
    v.push_back({"avx2 10", 10, simd::helper_float_10_avx2});
    v.push_back({"avx2 11", 11, simd::helper_float_11_avx2});
  }
  if (has512()) {
    v.push_back({"avx512 6", 6, simd::helper_float_6_avx512});
    v.push_back({"avx512 7", 7, simd::helper_float_7_avx512});
    v.push_back({"avx512 8", 8, simd::helper_float_8_avx512});
    v.push_back({"avx512 9", 9, simd::helper_float_9_avx512});
    v.push_back({"avx512 10", 10, simd::helper_float_10_avx512});
    v.push_back({"avx512 11", 11, simd::helper_float_11_avx512});
  }
#endif
  return v;
}
void transform() {
  auto ks = fhts();
  auto &k = ks[size_t(mc::choose(int(ks.size()), "transform"))];
  size_t n = size_t(1) << k.log_n;
  size_t lane = size_t(mc::choose(int(n), "unit vector"));
  bool end = mc::choose(2, "at the end of the page");
  float *b = arena(0).place<float>(n, end);
  for (size_t i = 0; i < n; ++i) b[i] = 0;
  b[lane] = 3.0f;
  k.f(b);
  for (size_t j = 0; j < n; ++j) {
    float want = __builtin_parityll(j & lane) ? -3.0f : 3.0f;
    MC_REQUIRE(b[j] == want, std::string("transform ") + k.name, "unit vector %zu: coordinate %zu is %g instead of %g", lane, j, b[j], want);
  }
  mc::step(n);
  mc::nontrivial();
  mc::state(mc::mix(lane, mc::hash_str(k.name)));
}
void flips() {  // sign flips and the butterfly of two halves, at every multiple of 64
  size_t dim = 64 * size_t(1 + mc::choose(8, "dimension/64"));
  size_t bit = size_t(mc::choose(int(dim), "bit"));
  uint8_t *f = arena(0).place<uint8_t>(dim / 8, true);
  float *d = arena(1).place<float>(dim, true);
  memset(f, 0, dim / 8);
  f[bit / 8] = uint8_t(1u << (bit % 8));
  for (size_t i = 0; i < dim; ++i) d[i] = float(i + 1);
  alaya::rotator_impl::flip_sign(f, d, dim);
  for (size_t i = 0; i < dim; ++i) MC_REQUIRE(d[i] == (i == bit ? -float(i + 1) : float(i + 1)), "sign flip", "dimension %zu, bit %zu: coordinate %zu is %g", dim, bit, i, d[i]);
  for (size_t i = 0; i < dim; ++i) d[i] = float(i * i % 97);
  std::vector<float> o(d, d + dim);
  alaya::rotator_impl::FhtKacRotator::kacs_walk(d, dim);
  for (size_t i = 0; i < dim / 2; ++i) MC_REQUIRE(d[i] == o[i] + o[i + dim / 2] && d[i + dim / 2] == o[i] - o[i + dim / 2], "butterfly", "dimension %zu, coordinate %zu", dim, i);
  mc::step(dim);
  mc::nontrivial();
  mc::state(mc::mix(dim, bit));
}
// A rotation keeps lengths and inner products; every dimension of the supported range up to the bound.
void rotation(size_t maxdim) {
  int kind = mc::choose(2, "rotator");
  size_t dim = kind ? size_t(1 + mc::choose(70, "dimension")) : size_t(64 + mc::choose(int(maxdim) - 63, "dimension"));
  auto type = kind ? alaya::RotatorType::MatrixRotator : alaya::RotatorType::FhtKacRotator;
  std::unique_ptr<alaya::Rotator<float>> r(alaya::choose_rotator<float>(dim, type));
  size_t pd = r->size();
  MC_REQUIRE(pd >= dim && (kind || pd % 64 == 0), "padded dimension", "%zu for %zu", pd, dim);
  float *x = arena(0).place<float>(dim, true), *y = arena(1).place<float>(dim, true);
  float *rx = arena(2).place<float>(pd, true), *ry = arena(3).place<float>(pd, true);
  double xx = 0, xy = 0, rxx = 0, rxy = 0, yy = 0;
  for (size_t i = 0; i < dim; ++i) {
    x[i] = float(int(i * 7 % 11) - 5);
    y[i] = float(int(i * 5 % 9) - 3);
    xx += double(x[i]) * x[i];
    xy += double(x[i]) * y[i];
    yy += double(y[i]) * y[i];
  }
  r->rotate(x, rx);
  r->rotate(y, ry);
  // the half-length transforms of dimensions that are no power of two scale by a fixed factor: fix it from |x|
  for (size_t i = 0; i < pd; ++i) {
    rxx += double(rx[i]) * rx[i];
    rxy += double(rx[i]) * ry[i];
  }
  double s = rxx / xx;
  MC_REQUIRE(std::abs(s - 1) < 1e-3, "rotation length", "dimension %zu: |x|^2 becomes %g times as long", dim, s);
  MC_REQUIRE(std::abs(rxy - xy) < 1e-3 * std::sqrt(xx * yy), "rotation inner product", "dimension %zu: %g instead of %g", dim, rxy, xy);
  mc::step();
  mc::nontrivial();
  mc::state(mc::mix(dim, uint64_t(kind)));
}

// ---- 4-bit lookup scans ------------------------------------------------------------------------------
uint8_t code_bit(const std::vector<uint8_t> &codes, size_t cols, size_t row, size_t d) { return codes[row * cols + d / 8] >> (7 - d % 8) & 1; }
void fastscan(size_t maxdim) {
  size_t dim = 8 * size_t(1 + mc::choose(int(maxdim / 8), "dimension/8"));
  int pattern = mc::choose(4, "codes");
  size_t cols = dim / 8;
  static const size_t nums[] = {32, 31, 1, 17};
  size_t num = nums[mc::choose(4, "rows")];
  std::vector<uint8_t> codes(num * cols);
  for (size_t r = 0; r < num; ++r)
    for (size_t c = 0; c < cols; ++c) codes[r * cols + c] = pattern == 0 ? 0xff : pattern == 1 ? uint8_t(1u << ((r + c) % 8)) : pattern == 2 ? uint8_t(r * 31 + c * 17) : (r % 2 ? 0x0f : 0xf0);
  uint8_t *blocks = arena(0).place<uint8_t>(dim * 4, true), *lut = arena(1).place<uint8_t>(dim * 4, true);
  alaya::fastscan::pack_codes(dim, codes.data(), num, blocks);
  std::vector<float> q(dim), flut(dim * 4);
  for (size_t i = 0; i < dim; ++i) q[i] = float(int(i * 5 % 7) - 3) * 0.25f;
  alaya::fastscan::pack_lut(dim, q.data(), flut.data());
  // the float table: entry j of a group of four coordinates is the sum of those whose bit is set, the first coordinate being the highest bit
  for (size_t g = 0; g < dim / 4; ++g)
    for (size_t j = 0; j < 16; ++j) {
      float w = 0;
      for (size_t b = 0; b < 4; ++b)
        if (j >> (3 - b) & 1) w += q[g * 4 + b];
      MC_REQUIRE(flut[g * 16 + j] == w, "lookup table", "dimension %zu, group %zu, entry %zu: %g instead of %g", dim, g, j, flut[g * 16 + j], w);
    }
  int hot = mc::choose(3, "table");
  for (size_t i = 0; i < dim * 4; ++i) lut[i] = hot == 0 ? uint8_t(i * 29 + 3) % 61 : hot == 1 ? uint8_t(i % 16 == 0 ? 0 : 255) : uint8_t(i / 16 % 256);
  uint32_t want[32] = {};
  for (size_t r = 0; r < 32; ++r)
    for (size_t g = 0; g < dim / 4; ++g) {
      unsigned n = 0;
      if (r < num)
        for (size_t b = 0; b < 4; ++b) n = n * 2 + code_bit(codes, cols, r, g * 4 + b);
      want[r] += lut[g * 16 + n];
    }
  bool fits = true;
  for (auto w : want) fits &= w < 65536;
  uint16_t *res = arena(2).place<uint16_t>(32, true);
  if (fits) {
    alaya::fastscan::accumulate(blocks, lut, res, dim);
    for (int r = 0; r < 32; ++r) MC_REQUIRE(res[r] == want[r], "table scan", "dimension %zu, row %d: %u instead of %u", dim, r, res[r], want[r]);
    std::vector<std::pair<const char *, lsimd::AccumulateFn>> v;
    if (dim % 8 == 0) v.push_back({"generic", lsimd::detail::accumulate_impl_generic});
#ifdef ALAYA_ARCH_X86
    if (dim % 64 == 0) {
      if (has512()) v.push_back({"avx512", lsimd::detail::accumulate_impl_avx512});
      if (has2()) v.push_back({"avx2", lsimd::detail::accumulate_impl_avx2});
    }
#endif
    for (auto &[n, f] : v) {
      memset(res, 0xaa, 64);
      f(dim, blocks, lut, res);
      for (int r = 0; r < 32; ++r) MC_REQUIRE(res[r] == want[r], std::string("table scan ") + n, "dimension %zu, row %d: %u instead of %u", dim, r, res[r], want[r]);
    }
  } else mc::nontrivial();
  // estimates: add + rescale * (delta * sum + bias)
  float *fa = arena(3).place<float>(32, true), *fr = arena(4).place<float>(32, true), *est = arena(5).place<float>(32, true);
  for (int r = 0; r < 32; ++r) fa[r] = float(r) * 0.5f - 3, fr[r] = 1.0f + float(r % 5) * 0.25f;
  alaya::fastscan::accumulate_and_estimate_distances<float>(blocks, lut, fa, fr, 2.0f, 0.125f, -7.0f, est, dim);
  for (int r = 0; r < 32; ++r) {
    double w = double(fr[r]) * (0.125 * want[r] - 7.0) + fa[r] + 2.0;
    MC_REQUIRE(std::abs(est[r] - w) <= 1e-5 * (std::abs(w) + 10), "distance estimate", "dimension %zu, row %d: %g instead of %g (sum %u)", dim, r, est[r], w, want[r]);
  }
  if (dim % 16) mc::nontrivial();
  mc::step(32);
  mc::state(mc::mix(dim, uint64_t(pattern * 100 + hot * 10) + num));
}
void lut_quantizer() {  // table entries are rounded to the nearest of 255 steps between the extremes
  size_t dim = 64 * size_t(1 + mc::choose(4, "dimension/64"));
  int shape = mc::choose(4, "query");
  std::vector<float> q(dim), fl(dim * 4);
  for (size_t i = 0; i < dim; ++i) q[i] = shape == 0 ? float(int(i % 9) - 4) : shape == 1 ? (i == dim / 3 ? 5.0f : 0.01f * float(i % 3)) : shape == 2 ? -float(i % 5) : std::sin(float(i));
  alaya::fastscan::pack_lut(dim, q.data(), fl.data());
  alaya::Lut<float> l(q.data(), dim);
  float lo = *std::min_element(fl.begin(), fl.end()), hi = *std::max_element(fl.begin(), fl.end());
  double d = (double(hi) - lo) / 255;
  MC_REQUIRE(std::abs(l.delta() - d) <= 1e-5 * d, "table step", "%g instead of %g", l.delta(), d);
  MC_REQUIRE(std::abs(l.sum_vl() - double(lo) * double(dim / 4)) <= 1e-4 * std::abs(lo) * double(dim), "table offset", "%g", l.sum_vl());
  for (size_t i = 0; i < dim * 4; ++i) MC_REQUIRE(std::abs(double(lo) + d * l.lut()[i] - fl[i]) <= d * 0.501 + 1e-5, "table entry", "dimension %zu, entry %zu: step %u for %g in [%g,%g]", dim, i, l.lut()[i], fl[i], lo, hi);
  mc::nontrivial();
  mc::step(dim * 4);
  mc::state(mc::mix(dim, uint64_t(shape)));
}

// ---- the remaining kernels of the Laser dispatcher ----------------------------------------------------
void laser(size_t maxn) {
  size_t n = size_t(mc::choose(int(maxn) + 1, "length"));
  bool end = mc::choose(2, "at the end of the page");
  int variant = mc::choose(3, "variant");
#ifdef ALAYA_ARCH_X86
  if ((variant == 1 && !has2()) || (variant == 2 && !has512())) mc::assume(false);
#define PICK(name) (variant == 0 ? lsimd::detail::name##_generic : variant == 1 ? lsimd::detail::name##_avx2 : lsimd::detail::name##_avx512)
#else
  if (variant) mc::assume(false);
#define PICK(name) lsimd::detail::name##_generic
#endif
  static const char *names[] = {"generic", "avx2", "avx512"};
  std::string vn = names[variant];
  float *x = arena(0).place<float>(n, end), *y = arena(1).place<float>(n, end), *o = arena(2).place<float>(n, end);
  float *t = arena(3).place<float>(n, end), *u = arena(4).place<float>(n, end);
  uint16_t *h = reinterpret_cast<uint16_t *>(arena(5).place<uint16_t>(n, end));
  double sq = 0;
  for (size_t i = 0; i < n; ++i) {
    x[i] = float(int(i * 7 % 13) - 6), y[i] = float(int(i * 3 % 5) - 2) * 0.5f, t[i] = float(i % 7), u[i] = float(i % 3) - 1, o[i] = -777, h[i] = uint16_t(i * 2039 % 32768);
    sq += double(x[i]) * x[i];
  }
  MC_REQUIRE(double(PICK(l2_sqr_single)(x, n)) == sq, "squared length " + vn, "length %zu", n);
  for (size_t i = 0; i <= n; ++i) {  // the extremes at every lane
    if (i < n) x[i] = 50;
    size_t j = n ? (i * 5 + n / 2) % n : 0;
    bool both = i < n && j != i;
    if (both) x[j] = -60;
    float lo = 9, hi = 9, wl = n ? FLT_MAX : 0, wh = n ? -FLT_MAX : 0;
    for (size_t q = 0; q < n; ++q) wl = std::min(wl, x[q]), wh = std::max(wh, x[q]);
    PICK(data_range)(x, n, lo, hi);
    MC_REQUIRE(lo == wl && hi == wh, "value range " + vn, "length %zu: [%g,%g] instead of [%g,%g]", n, lo, hi, wl, wh);
    if (i < n) x[i] = float(int(i * 7 % 13) - 6);
    if (both) x[j] = float(int(j * 7 % 13) - 6);
    mc::step();
  }
  size_t done = PICK(rotate_loop)(x, y, n, o);
  MC_REQUIRE(done <= n, "lane product " + vn, "%zu of %zu done", done, n);
  for (size_t i = 0; i < n; ++i) MC_REQUIRE(o[i] == (i < done ? x[i] * y[i] : -777), "lane product " + vn, "length %zu, lane %zu of %zu done: %g", n, i, done, o[i]);
  PICK(convert_accum_to_float)(n, h, 37, o);
  for (size_t i = 0; i < n; ++i) MC_REQUIRE(o[i] == float(2 * int(h[i]) - 37), "sum conversion " + vn, "length %zu, lane %zu: %g from %u", n, i, o[i], h[i]);
  PICK(appro_dist_impl)(n, 3.0f, 0.5f, 0.25f, 1.5f, x, y, t, u, o);
  for (size_t i = 0; i < n; ++i) {
    double w = 3.0 + y[i] + double(t[i]) * 0.5 * x[i] + double(u[i]) * 0.25 + 1.5;
    MC_REQUIRE(std::abs(o[i] - w) < 1e-4, "combined estimate " + vn, "length %zu, lane %zu: %g instead of %g", n, i, o[i], w);
  }
  if (n % 16) mc::nontrivial();
  mc::state(mc::mix(n, uint64_t(variant)));
}
}  // namespace

int main(int argc, char **argv) {
  spdlog::set_level(spdlog::level::off);
  bool deep = false;
  for (int i = 1; i < argc; ++i) deep |= std::string(argv[i]) == "--thorough";
  mc::Spec spec{"P31", "exploration",
                "every kernel and variant this processor can run, every dimension of the bound, every single lane changed on a dense background whose sums are exact in float, operands ending at and beginning behind "
                "inaccessible pages; all pairs of codes; every unit vector through every transform",
                {"variants this processor lacks are not run", "floating-point results are compared exactly where all partial sums are exact integers, otherwise within rounding"}};
  size_t D = deep ? 2100 : 1030;
  std::vector<mc::Scenario> v{
      {"full precision", [=] { fp32(D); }},
      {"quantized", [=] { quantized(deep ? 1030 : 520, false); }},
      {"quantized, all codes", [=] { quantized(0, true); }},
      {"signed bytes", typed<int8_t>},
      {"bytes", typed<uint8_t>},
      {"dispatch", dispatch, false, false, true},
      {"transforms", transform},
      {"flips", flips},
      {"rotations", [=] { rotation(deep ? 4095 : 2200); }},
      {"table scan", [=] { fastscan(deep ? 4096 : 2100); }},
      {"table", lut_quantizer},
      {"laser kernels", [=] { laser(deep ? 1030 : 300); }},
  };
  return mc::run_main(argc, argv, spec, v);
}
