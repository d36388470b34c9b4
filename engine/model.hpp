// Value-level model of tensors and generators shared by the properties.
#pragma once
#include <cfloat>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

#include "alloc.hpp"
#include "pbt.hpp"

extern "C" {
#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/core/allocator.h"
#include "src/core/tensor.h"
#include "src/core/types.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"
}

using pbt::Case;
typedef std::vector<int64_t> Dims;

#define LIB(expr)            \
  ([&] {                     \
    alloc::enter();          \
    Status s__ = (expr);     \
    alloc::leave();          \
    return s__;              \
  }())

enum { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, NDT };
static const char* const kDtName[] = {"int8", "uint8", "int16", "uint16", "int32",
                                      "uint32", "int64", "uint64", "float", "double"};
static const int kDtSize[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};

static inline DataType dtype_of(int dt) {
  switch (dt) {
    case I8: return kInt8;
    case U8: return kUint8;
    case I16: return kInt16;
    case U16: return kUint16;
    case I32: return kInt32;
    case U32: return kUint32;
    case I64: return kInt64;
    case U64: return kUint64;
    case F32: return kFloat;
    default: return kDouble;
  }
}
static inline bool is_float(int dt) { return dt >= F32; }
static inline bool is_signed_int(int dt) { return dt < F32 && !(dt & 1); }

template <class F>
static inline auto with_type(int dt, F f) {
  switch (dt) {
    case I8: return f((int8_t)0);
    case U8: return f((uint8_t)0);
    case I16: return f((int16_t)0);
    case U16: return f((uint16_t)0);
    case I32: return f((int32_t)0);
    case U32: return f((uint32_t)0);
    case I64: return f((int64_t)0);
    case U64: return f((uint64_t)0);
    case F32: return f((float)0);
    default: return f((double)0);
  }
}

static inline const char* status_name(int s) {
  static const char* const n[] = {"SUCCESS", "TYPE_MISMATCH", "DIMENSIONS_MISMATCH",
                                  "INVALID_ARGUMENT", "NOT_SUPPORTED", "ALLOC_FAILED",
                                  "OUT_OF_RANGE", "INTERNAL_ERROR", "MATH_ERROR"};
  return s >= 0 && s < 9 ? n[s] : "(not a status)";
}

static inline int64_t prod(const Dims& d) {
  int64_t r = 1;
  for (auto x : d) r *= x;
  return r;
}
static inline int64_t prod(const Dims& d, size_t a, size_t b) {
  int64_t r = 1;
  for (size_t k = a; k < b; k++) r *= d[k];
  return r;
}
static inline std::string str(const Dims& d) {
  std::string s = "[";
  for (size_t k = 0; k < d.size(); k++) s += (k ? "," : "") + std::to_string(d[k]);
  return s + "]";
}
static inline std::string str(const std::vector<int>& d) {
  return str(Dims(d.begin(), d.end()));
}

// A tensor value.
struct TV {
  int dt = F32;
  Dims dims;
  std::vector<uint8_t> b;
  Device dev = {DEVICE_CPU, 0};
  TV() {}
  TV(int t, const Dims& d) : dt(t), dims(d), b((size_t)(prod(d) * kDtSize[t])) {}
  int64_t n() const { return prod(dims); }
  template <class T> T get(int64_t k) const {
    T v;
    memcpy(&v, b.data() + (size_t)k * sizeof(T), sizeof(T));
    return v;
  }
  template <class T> void set(int64_t k, T v) {
    memcpy(b.data() + (size_t)k * sizeof(T), &v, sizeof(T));
  }
  long double num(int64_t k) const {
    return with_type(dt, [&](auto z) { return (long double)get<decltype(z)>(k); });
  }
  bool operator==(const TV& o) const { return dt == o.dt && dims == o.dims && b == o.b; }
};

static inline std::string elem_str(const TV& v, int64_t k) {
  char buf[64];
  switch (v.dt) {
    case F32: snprintf(buf, sizeof buf, "%.9g", (double)v.get<float>(k)); break;
    case F64: snprintf(buf, sizeof buf, "%.17g", v.get<double>(k)); break;
    case U64: snprintf(buf, sizeof buf, "%" PRIu64, v.get<uint64_t>(k)); break;
    default: snprintf(buf, sizeof buf, "%" PRId64, (int64_t)v.num(k)); break;
  }
  return buf;
}
static inline std::string str(const TV& v, int64_t max = 24) {
  std::string s = std::string(kDtName[v.dt]) + str(v.dims) + "{";
  for (int64_t k = 0; k < v.n() && k < max; k++) s += (k ? "," : "") + elem_str(v, k);
  if (v.n() > max) s += ",...";
  return s + "}";
}

// ------------------------------------------------------------- generators
struct ShapeOpt {
  int min_nd = 0, max_nd = 6;
  int64_t max_elems = 600;
  bool zero = false;      // allow a zero extent (rarely)
  int64_t max_dim = 1 << 20;
  int many = 300;         // now and then up to so many dimensions
};

// A number of dimensions: mostly 1 to 4.
static inline int gen_nd(Case& c, int lo, int hi) {
  static const int w[] = {7, 16, 24, 24, 15, 8, 6};
  int total = 0;
  for (int k = lo; k <= hi; k++) total += w[k > 6 ? 6 : k];
  int v = (int)c.i(0, total - 1);
  for (int k = lo; k <= hi; k++) {
    v -= w[k > 6 ? 6 : k];
    if (v < 0) return k;
  }
  return hi;
}

// While a Big exists, generated tensors have 2^17 or more elements, up to the
// given number.
static int64_t g_big;
struct Big {
  explicit Big(int64_t n) { g_big = n; }
  ~Big() { g_big = 0; }
};
template <void (*F)(Case&), int64_t N = 1200000>
static void big(Case& c) {
  Big b(N);
  F(c);
}
static inline int64_t cap(int64_t usual) { return g_big ? 2 * g_big : usual; }

static inline Dims gen_big_dims(Case& c, ShapeOpt o) {
  static const int64_t edge[] = {1 << 17, 1 << 18, 1 << 19, 1000000, 1 << 20, 1 << 21};
  int64_t want = c.chance(50) ? edge[c.i(0, 5)] + c.i(-2, 5000) : c.i(1 << 17, g_big);
  want = std::min(want, g_big);
  int nd = std::max(1, gen_nd(c, o.min_nd, o.max_nd)), carriers = (int)c.weighted({50, 30, 20}) + 1;
  Dims d((size_t)nd, 1);
  for (int q = 0; q < carriers && want > 1; q++) {
    size_t at = (size_t)c.i(0, nd - 1);
    int64_t e = want;
    if (q + 1 < carriers) e = c.i(2, std::max<int64_t>(2, c.chance(50) ? 1000 : want / 2));
    e = std::max<int64_t>(1, std::min(e, want));
    d[at] *= e;
    want /= e;
  }
  return d;
}

static inline Dims gen_dims(Case& c, ShapeOpt o) {
  if (g_big && o.max_elems >= g_big) return gen_big_dims(c, o);
  Dims d;
  int nd = gen_nd(c, o.min_nd, o.max_nd);
  if (o.max_nd >= 6 && o.many && c.chance(2)) nd = (int)c.i(o.max_nd, c.chance(10) ? o.many : 20);  // very many dimensions
  int64_t budget = o.max_elems;
  if (budget > 20000 && nd > 0 && c.chance(75)) {
    // A large tensor whose size is due to one extent, often next to where a narrower
    // integer type would wrap around
    static const int64_t edge[] = {128, 256, 32768, 65536};
    int at = (int)c.i(0, nd - 1);
    int64_t want = c.chance(40) ? edge[c.i(0, 3)] + c.i(-2, 40) : c.i(1000, budget);
    want = std::min(std::min(want, budget), o.max_dim);
    budget /= want;
    for (int k = 0; k < nd; k++) {
      int64_t v = k == at ? want : c.chance(60) ? 1 : c.i(1, 4);
      if (k != at) {
        v = std::max<int64_t>(1, std::min(v, budget));
        budget /= v;
      }
      d.push_back(v);
    }
    return d;
  }
  int big = -1;
  if (nd > 0 && c.chance(8)) big = (int)c.i(0, nd - 1);  // one long dimension
  for (int k = 0; k < nd; k++) {
    int64_t hi = std::min(budget, o.max_dim), v;
    if (k == big) {
      v = c.i(1, std::max<int64_t>(1, std::min<int64_t>(hi, 3000)));
    } else {
      switch (c.weighted({25, 55, 15, 5})) {
        case 0: v = 1; break;
        case 1: v = c.i(2, 5); break;
        case 2: v = c.i(4, 12); break;
        default: v = c.i(8, 40); break;
      }
      if (v > hi) v = hi;
      if (v < 1) v = 1;
    }
    budget /= v;
    d.push_back(v);
  }
  if (o.zero && nd > 0 && c.chance(6)) d[(size_t)c.i(0, nd - 1)] = 0;
  return d;
}

// Ordinary size, and now and then a large one.
static inline int64_t gen_budget(Case& c, int64_t normal, int64_t large, int pct = 2) {
  return g_big ? g_big : c.chance(pct) ? large : normal;
}

enum Profile {
  P_SMALL,   // small integers, exact everywhere
  P_UNIT,    // floats in [-2,2]; ints within +-100
  P_WIDE,    // floats of very different magnitude; ints of the full range
  P_EDGE,    // extremes and special values (finite)
  P_BYTES,   // any bit pattern
  P_IOTA,    // the element's own position
  P_POS,     // small positive numbers
};

template <class T>
static inline T make_val(Profile p, uint64_t r, int64_t k) {
  pbt::Rng g(pbt::mix(r));
  typedef std::numeric_limits<T> L;
  if (p == P_IOTA) return (T)(k + 1);
  if (r < 6) {  // simple values
    static const int simple[] = {0, 1, 2, -1, 3, -2};
    int v = simple[r];
    if (p == P_POS && v <= 0) v = 1;
    if (!std::is_signed<T>::value && v < 0) v = 4 - v;
    return (T)v;
  }
  if constexpr (std::is_floating_point<T>::value) {
    switch (p) {
      case P_SMALL: return (T)((int)g.below(17) - 8);
      case P_POS: return (T)(g.below(9) + 1) * (T)0.5;
      case P_UNIT: return (T)(g.unit() * 4 - 2);
      case P_WIDE: {
        int e = (int)g.below(41) - 20;
        return (T)std::ldexp(g.unit() * 2 - 1, e);
      }
      case P_EDGE: {
        static const T e[] = {(T)0.0, (T)-0.0, L::max(), L::lowest(), L::min(), -L::min(),
                              L::denorm_min(), L::epsilon(), (T)1, (T)-1, (T)0.1, (T)1e10,
                              (T)-1e10, (T)88.8, (T)-88.8, (T)710, (T)-746, (T)16777217.0};
        return e[g.below(sizeof e / sizeof *e)];
      }
      default: {
        uint64_t b = g.next();
        T v;
        memcpy(&v, &b, sizeof v);
        return v;
      }
    }
  } else {
    switch (p) {
      case P_SMALL: return (T)((int)g.below(9) - (std::is_signed<T>::value ? 4 : 0));
      case P_POS: return (T)(g.below(9) + 1);
      case P_UNIT: return (T)((int)g.below(std::is_signed<T>::value ? 201 : 101) -
                              (std::is_signed<T>::value ? 100 : 0));
      case P_EDGE: {
        static const T e[] = {(T)0, L::max(), L::min(), (T)(L::max() - 1), (T)(L::min() + 1),
                              (T)1, (T)-1, (T)2, (T)(L::max() / 2), (T)(L::max() / 2 + 1), (T)3,
                              (T)127, (T)128, (T)255, (T)256, (T)32767, (T)32768, (T)65535};
        return e[g.below(sizeof e / sizeof *e)];
      }
      default: return (T)g.next();
    }
  }
}

static inline void fill_tv(Case& c, TV& v, Profile p) {
  int64_t n = v.n();
  with_type(v.dt, [&](auto z) {
    typedef decltype(z) T;
    if (n <= 16) {
      for (int64_t k = 0; k < n; k++)
        v.set<T>(k, make_val<T>(p, p == P_IOTA ? 0 : (uint64_t)c.small(0, UINT32_MAX), k));
    } else {
      uint64_t s = p == P_IOTA ? 0 : c.bulk_seed();
      pbt::Rng g(s);
      for (int64_t k = 0; k < n; k++)
        v.set<T>(k, make_val<T>(p, s == 0 ? 1 : g.next() >> 8, k));
    }
    return 0;
  });
}
static inline TV gen_tv(Case& c, int dt, const Dims& d, Profile p) {
  TV v(dt, d);
  fill_tv(c, v, p);
  return v;
}
// Zeros, infinities and NaNs among finite numbers.
static inline void sprinkle(Case& c, TV& v) {
  if (!is_float(v.dt) || !v.n()) return;
  int m = (int)c.i(1, 3);
  for (int q = 0; q < m; q++) {
    int64_t at = c.i(0, v.n() - 1);
    double x = c.pick<double>({0.0, -0.0, INFINITY, -INFINITY, NAN, 0.0});
    if (v.dt == F32) v.set<float>(at, (float)x);
    else v.set<double>(at, x);
  }
}
static inline int gen_dt(Case& c) { return (int)c.i(0, NDT - 1); }
static inline Device gen_dev(Case& c, bool cpu_only = false) {
  Device d = {DEVICE_CPU, 0};
  if (c.chance(15)) {
    if (!cpu_only && c.chance(50)) d.type = DEVICE_CUDA;
    d.id = c.chance(20) ? (int)c.pick<int64_t>({127, 128, 255, 256, 32768, 65535, 65536, INT32_MAX, -1, INT32_MIN}) : (int)c.i(0, 7);
  }
  return d;
}

// ------------------------------------------------------- tensors and values
static inline Tensor mk(Case& c, const TV& v) {
  void* data = alloc::take(v.b.size());
  memcpy(data, v.b.data(), v.b.size());
  Tensor t = nullptr;
  Dims d = v.dims;
  Status s = LIB(aitisa_create(dtype_of(v.dt), v.dev, d.empty() ? nullptr : d.data(),
                               (int64_t)d.size(), data, (unsigned)v.b.size(), &t));
  if (s != STATUS_SUCCESS || !t)
    c.fail("aitisa_create of %s gave %s", str(v, 4).c_str(), status_name(s));
  return t;
}
static inline TV rd(Case& c, Tensor t) {
  if (!t) c.fail("the output handle is null");
  TV v;
  DataType d = aitisa_tensor_data_type(t);
  if ((unsigned)d.code >= NDT) c.fail("the tensor has data type code %d", (int)d.code);
  v.dt = (int)d.code;
  if (d.size != kDtSize[v.dt]) c.fail("a tensor of %s has element size %d", kDtName[v.dt], d.size);
  int64_t nd = aitisa_tensor_ndim(t);
  if (nd < 0 || nd > 4096) c.fail("the tensor has %" PRId64 " dimensions", nd);
  for (int64_t k = 0; k < nd; k++) v.dims.push_back(aitisa_tensor_dim(t, k));
  for (auto x : v.dims) if (x < 0) c.fail("the tensor has shape %s", str(v.dims).c_str());
  if (aitisa_tensor_size(t) != prod(v.dims))
    c.fail("size %" PRId64 " of a tensor of shape %s", aitisa_tensor_size(t), str(v.dims).c_str());
  v.dev = aitisa_tensor_device(t);
  size_t nb = (size_t)(v.n() * kDtSize[v.dt]);
  v.b.resize(nb);
  if (nb) memcpy(v.b.data(), aitisa_tensor_data(t), nb);
  return v;
}
static inline void drop(Case& c, Tensor& t) {
  if (!t) return;
  Status s = LIB(aitisa_destroy(&t));
  if (s != STATUS_SUCCESS) c.fail("aitisa_destroy gave %s", status_name(s));
  if (t) c.fail("aitisa_destroy left the handle set");
}

static Tensor const kUntouched = (Tensor)(uintptr_t)0x5eed5eed5eed5eedULL;

static inline void want_status(Case& c, const char* what, Status got, Status want) {
  if (got != want) c.fail("%s gave %s, expected %s", what, status_name(got), status_name(want));
}
static inline void want_rejected(Case& c, const char* what, Status got) {
  if (got == STATUS_SUCCESS) c.fail("%s was accepted", what);
  if ((int)got < 0 || (int)got > (int)STATUS_MATH_ERROR) c.fail("%s gave the number %d", what, (int)got);
}
static inline void want_ok(Case& c, const char* what, Status got, const Tensor& out) {
  if (got != STATUS_SUCCESS) c.fail("%s gave %s", what, status_name(got));
  if (!out || out == kUntouched) c.fail("%s succeeded without giving an output", what);
}
static inline void want_shape(Case& c, const char* what, const TV& got, int dt, const Dims& d) {
  if (got.dt != dt) c.fail("%s: output type %s, expected %s", what, kDtName[got.dt], kDtName[dt]);
  if (got.dims != d)
    c.fail("%s: output shape %s, expected %s", what, str(got.dims).c_str(), str(d).c_str());
}
// Bit-for-bit equality of the values.
static inline void want_bits(Case& c, const char* what, const TV& got, const TV& want) {
  want_shape(c, what, got, want.dt, want.dims);
  if (got.b == want.b) return;
  int es = kDtSize[want.dt];
  for (int64_t k = 0; k < want.n(); k++)
    if (memcmp(&got.b[(size_t)(k * es)], &want.b[(size_t)(k * es)], (size_t)es))
      c.fail("%s: element %" PRId64 " is %s, expected %s", what, k, elem_str(got, k).c_str(),
             elem_str(want, k).c_str());
}
// Equality as numbers: NaN equals NaN; the sign of zero counts only if asked.
static inline bool same_num(long double a, long double b, bool zsign = false) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (a != b) return false;
  return !zsign || a != 0 || std::signbit(a) == std::signbit(b);
}
static inline void want_nums(Case& c, const char* what, const TV& got, const TV& want,
                             bool zsign = false) {
  want_shape(c, what, got, want.dt, want.dims);
  for (int64_t k = 0; k < want.n(); k++) {
    if (is_float(want.dt) ? !same_num(got.num(k), want.num(k), zsign)
                          : memcmp(&got.b[(size_t)(k * kDtSize[want.dt])],
                                   &want.b[(size_t)(k * kDtSize[want.dt])],
                                   (size_t)kDtSize[want.dt]) != 0)
      c.fail("%s: element %" PRId64 " is %s, expected %s", what, k, elem_str(got, k).c_str(),
             elem_str(want, k).c_str());
  }
}
static inline void want_same(Case& c, const char* what, Tensor t, const TV& before) {
  TV now = rd(c, t);
  if (now.dev.type != before.dev.type || now.dev.id != before.dev.id)
    c.fail("%s: the device of the tensor changed", what);
  want_bits(c, what, now, before);
}
static inline double eps_of(int dt) { return dt == F32 ? (double)FLT_EPSILON : DBL_EPSILON; }
static inline long double max_of(int dt) { return dt == F32 ? (long double)FLT_MAX : (long double)DBL_MAX; }
static inline long double tiny_of(int dt) {
  return dt == F32 ? (long double)FLT_MIN : (long double)DBL_MIN;
}

// row-major strides
static inline Dims strides_of(const Dims& d) {
  Dims s(d.size(), 1);
  for (int k = (int)d.size() - 2; k >= 0; k--) s[(size_t)k] = s[(size_t)k + 1] * d[(size_t)k + 1];
  return s;
}
static inline Dims unravel(const Dims& d, int64_t k) {
  Dims r(d.size(), 0);
  for (int a = (int)d.size() - 1; a >= 0; a--) {
    r[(size_t)a] = k % d[(size_t)a];
    k /= d[(size_t)a];
  }
  return r;
}
