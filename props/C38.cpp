// C38: tensors of more than 2^31 elements
// @variants: wrap
// @workers: wrap=4
// @cap_quick: 400
// @cap_thorough: 2400
#include <sys/file.h>
#include <fcntl.h>
#include <unistd.h>
#include <map>
#include "model.hpp"
extern "C" {
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"
}
namespace pbt {
const char* const kProperty = "C38";
const char* const kRule =
    "one call per case on a tensor of 2^31 to 2^32 elements, zero (or one) except for up to 40 elements placed at "
    "random, at both ends and around the positions 2^31 and 2^32; every element of the result is compared; "
    "non-trivial: more than 2^31 elements are read or written";
}
typedef std::map<int64_t, int> Marks;  // position: value
static const int64_t G = (int64_t)1 << 31;
static int64_t g_total;  // bytes the case may write

// More than 2^31 elements, as a shape of so many dimensions.
static Dims giant(Case& c, int nd, int64_t least) {
  Dims d((size_t)nd, 1);
  int at = (int)c.i(0, nd - 1);
  int64_t rest = least;
  for (int k = 0; k < nd; k++)
    if (k != at) {
      d[(size_t)k] = c.chance(40) ? c.i(1, 3) : c.chance(50) ? c.i(2, 300) : c.i(1, 30000);
      while (rest / d[(size_t)k] < 40) d[(size_t)k] = 1;
      rest = (rest + d[(size_t)k] - 1) / d[(size_t)k];
    }
  d[(size_t)at] = rest;
  return d;
}
static Marks marks(Case& c, int64_t n, int lo, int hi) {
  Marks m;
  for (int64_t p : {(int64_t)0, n - 1, n - 2, G - 1, G, G + 1, 2 * G - 1, 2 * G, (int64_t)65536, G / 2})
    if (p >= 0 && p < n && c.chance(70)) m[p] = (int)c.i(lo, hi);
  for (int k = (int)c.i(3, 25); k > 0; k--) m[c.i(0, n - 1)] = (int)c.i(lo, hi);
  for (int k = (int)c.i(1, 4); k > 0; k--) m[n - 1 - c.small(0, std::min<int64_t>(n - 1, 100))] = (int)c.i(lo, hi);
  for (int k = (int)c.i(1, 4); k > 0 && n > G; k--) m[c.i(G, n - 1)] = (int)c.i(lo, hi);
  return m;
}
static Tensor mk_giant(Case& c, int dt, Dims d) {
  Tensor t = nullptr;
  Device dev = {DEVICE_CPU, 0};
  Status s = LIB(aitisa_create(dtype_of(dt), dev, d.data(), (int64_t)d.size(), nullptr, 0, &t));
  want_ok(c, "aitisa_create", s, t);
  if (aitisa_tensor_size(t) != prod(d)) c.fail("the size of a tensor of shape %s is %" PRId64, str(d).c_str(), aitisa_tensor_size(t));
  return t;
}
static void put(Tensor t, const Marks& m) {
  with_type((int)aitisa_tensor_data_type(t).code, [&](auto z) {
    for (auto& x : m) ((decltype(z)*)aitisa_tensor_data(t))[x.first] = (decltype(z))x.second;
    return 0;
  });
}
// Every element is rest, except for the marked ones.
template <class T>
static void want_all(Case& c, const char* what, Tensor t, const Dims& d, T rest, const std::map<int64_t, T>& m, double tol = 0) {
  if (!t || t == kUntouched) c.fail("%s succeeded without an output", what);
  Dims got;
  for (int64_t k = 0; k < aitisa_tensor_ndim(t) && k < 100; k++) got.push_back(aitisa_tensor_dim(t, k));
  if (got != d || aitisa_tensor_size(t) != prod(d)) c.fail("%s: the result has shape %s, expected %s", what, str(got).c_str(), str(d).c_str());
  if (aitisa_tensor_data_type(t).size != sizeof(T)) c.fail("%s: the result has another type", what);
  const T* p = (const T*)aitisa_tensor_data(t);
  int64_t n = prod(d);
  auto it = m.begin();
  auto near = [&](T a, T b) { return a == b || (tol > 0 && fabs((double)a - (double)b) <= tol * fabs((double)b)); };
  for (int64_t k = 0; k < n;) {
    int64_t end = it == m.end() ? n : it->first;
    if (k == end) {
      if (!near(p[k], it->second)) c.fail("%s: element %" PRId64 " of %" PRId64 " is %.9g, expected %.9g", what, k, n, (double)p[k], (double)it->second);
      ++it;
      ++k;
      continue;
    }
    if (tol > 0) {
      for (; k < end; k++) if (p[k] != rest && !near(p[k], rest)) break;
    } else {
      for (; k + 64 <= end; k += 64) {
        bool ok = true;
        for (int q = 0; q < 64; q++) ok &= p[k + q] == rest;
        if (!ok) break;
      }
      for (; k < end && p[k] == rest; k++) {}
    }
    if (k < end) c.fail("%s: element %" PRId64 " of %" PRId64 " is %.9g, expected %.9g", what, k, n, (double)p[k], (double)rest);
  }
}
template <class T, class F>
static std::map<int64_t, T> through(const Marks& m, F f) {
  std::map<int64_t, T> r;
  for (auto& x : m) r[x.first] = (T)f(x.second);
  return r;
}
static auto same = [](int x) { return x; };

enum { FULL, CAST, SLICE, DUP, RESHAPE, SQUEEZE, ADD, SUB, MUL, DIV, DIV_ZERO, SQRT, SQRT_NEG, RELU, DOT_VV, DOT_SCALAR, MM_VV,
       MM_MV, MM_VM, MM_BATCH, SIGMOID, TANH, SOFTMAX, SOFTMAX_ALL, DROPOUT, NQUICK, POOL = NQUICK, NCASE };
static const char* kCase[] = {"full", "cast", "slice", "duplicate", "reshape", "squeeze", "add", "sub", "mul", "div", "division by zero",
                              "sqrt", "negative sqrt", "relu", "dot of vectors", "dot with a scalar", "matmul of vectors", "matmul of matrix and vector",
                              "matmul of vector and matrix", "batched matmul", "sigmoid", "tanh", "softmax", "softmax of everything", "dropout", "pooling"};
static void one_at_a_time(bool wide) {
  static int fd = -1;
  if (fd < 0) fd = open("/proc/self/exe", O_RDONLY);
  if (fd >= 0) flock(fd, wide ? LOCK_EX : LOCK_UN);
}
static void giants(Case& c) {
  int op = (int)c.turn(pbt::thorough_tier() ? NCASE : NQUICK, NCASE);
  bool f32 = op >= SIGMOID && op <= SOFTMAX_ALL;
  bool quick_op = op == CAST || op == DUP || op == RESHAPE || op == SQUEEZE || op == SQRT || op == RELU || op == DOT_VV || op == MM_VV;
  int dt = f32 ? F32 : op == SQRT_NEG ? I8 : c.chance(50) ? I8 : U8;
  int64_t n = G + c.i(1, 3000) * (c.chance(30) ? 1000 : 1);
  if (quick_op && c.chance(pbt::thorough_tier() ? 40 : 25)) n = 2 * G + c.i(1, 3000);
  alloc::sparse_from(1 << 16);
  one_at_a_time(f32);
  c.cls(kCase[op]);
  c.nontrivial();
  Tensor t = nullptr, u = nullptr, out = kUntouched;
  Status s;
  switch (op) {
    case FULL: {
      Dims d = giant(c, (int)c.i(1, 4), n);
      Device dev = {DEVICE_CPU, 0};
      int v = (int)c.i(1, 127);
      c.note("full %s%s of %d", kDtName[dt], str(d).c_str(), v);
      s = LIB(aitisa_full(dtype_of(dt), dev, d.data(), (int64_t)d.size(), (double)v, &out));
      want_ok(c, "full", s, out);
      want_all<uint8_t>(c, "full", out, d, (uint8_t)v, {});
      break;
    }
    case CAST: case DUP: case RESHAPE: case SQUEEZE: case SQRT: case RELU: case DROPOUT: {
      Dims d = giant(c, (int)c.i(1, 4), n);
      if (op == SQUEEZE) d.insert(d.begin() + c.i(0, (int64_t)d.size()), 1);
      n = prod(d);
      Marks m = op == SQRT ? marks(c, n, 0, 127) : marks(c, n, dt == I8 ? -128 : 0, dt == I8 ? 127 : 255);
      c.note("%s %s%s, %d elements are not zero", kCase[op], kDtName[dt], str(d).c_str(), (int)m.size());
      t = mk_giant(c, dt, d);
      put(t, m);
      auto want = through<uint8_t>(m, same);
      Dims od = d;
      switch (op) {
        case CAST: s = LIB(aitisa_cast(t, dtype_of(dt == I8 ? U8 : I8), &out)); break;
        case DUP: s = LIB(aitisa_duplicate(t, &out)); break;
        case RESHAPE: od = c.chance(50) ? Dims{n} : Dims(d.rbegin(), d.rend()); s = LIB(aitisa_reshape(t, od.data(), (int64_t)od.size(), &out)); break;
        case SQUEEZE: od.clear(); for (auto x : d) if (x != 1) od.push_back(x); s = LIB(aitisa_squeeze(t, nullptr, 0, &out)); break;
        case SQRT: want = through<uint8_t>(m, [](int x) { return (int)std::sqrt((double)x); }); s = LIB(aitisa_sqrt(t, &out)); break;
        case RELU: if (dt == I8) want = through<uint8_t>(m, [](int x) { return std::max(x, 0); }); s = LIB(aitisa_relu(t, &out)); break;
        default: {
          double rate = c.chance(50) ? 0 : 1;
          if (rate == 1) want.clear();
          s = LIB(aitisa_dropout(t, rate, &out));
        }
      }
      want_ok(c, kCase[op], s, out);
      want_all<uint8_t>(c, kCase[op], out, od, 0, want);
      want_all<uint8_t>(c, "the input", t, d, 0, through<uint8_t>(m, same));
      break;
    }
    case SLICE: {
      Dims d = giant(c, (int)c.i(2, 3), n), od;
      std::vector<int> b, z, st;
      bool fits = true;
      for (auto x : d) fits &= x < INT32_MAX - 10;
      if (!fits) { d = {c.i(3, 50), 0}; d[1] = (n + d[0] - 1) / d[0]; }
      for (size_t k = 0; k < d.size(); k++) {
        int64_t sz = d[k], off = c.i(0, 3);
        d[k] += off + c.i(0, 3);
        b.push_back((int)off);
        z.push_back((int)sz);
        st.push_back(1);
        od.push_back(sz);
      }
      size_t skip = (size_t)c.i(0, (int64_t)d.size() - 1);
      if (od[skip] < 3000) { d[skip] = (d[skip] + 3) * 3; z[skip] = (int)(od[skip] * 3 - c.i(0, 2)); st[skip] = 3; }
      n = prod(od);
      Marks m = marks(c, n, -100, 100);
      c.note("slice of %s, begin %s size %s step %s, %d elements are not zero", str(d).c_str(), str(b).c_str(), str(z).c_str(), str(st).c_str(), (int)m.size());
      t = mk_giant(c, dt, d);
      Dims is = strides_of(d);
      for (auto& x : m) {
        Dims at = unravel(od, x.first);
        int64_t off = 0;
        for (size_t k = 0; k < d.size(); k++) off += (b[k] + at[k] * st[k]) * is[k];
        ((uint8_t*)aitisa_tensor_data(t))[off] = (uint8_t)x.second;
      }
      s = LIB(aitisa_slice(t, b.data(), z.data(), st.data(), &out));
      want_ok(c, "slice", s, out);
      want_all<uint8_t>(c, "slice", out, od, 0, through<uint8_t>(m, same));
      break;
    }
    case ADD: case SUB: case MUL: case DIV: case DIV_ZERO: {
      Dims d = giant(c, (int)c.i(1, 4), n);
      n = prod(d);
      Marks m = marks(c, n, 0, 11);
      bool div = op == DIV || op == DIV_ZERO, twice = !div && c.chance(40);
      c.note("%s %s%s%s, %d elements are not zero", kCase[op], kDtName[dt], str(d).c_str(), twice ? " and itself" : "", (int)m.size());
      t = mk_giant(c, dt, d);
      put(t, m);
      Marks w = twice ? m : m;
      if (!twice) {
        u = mk_giant(c, dt, d);
        if (div) memset(aitisa_tensor_data(u), 1, (size_t)n);
        for (auto& x : w) x.second = (int)c.i(div ? 1 : 0, 11);
        if (op == DIV_ZERO) w[c.chance(50) ? n - 1 - c.small(0, 50) : c.i(G, n - 1)] = 0;
        put(u, w);
      }
      Tensor v = twice ? t : u;
      auto f = op == ADD ? aitisa_add : op == SUB ? aitisa_sub : op == MUL ? aitisa_mul : aitisa_div;
      s = LIB(f(t, v, &out));
      if (op == DIV_ZERO) {
        want_status(c, kCase[op], s, STATUS_MATH_ERROR);
        if (out != kUntouched) c.fail("a failed division set the output");
        break;
      }
      want_ok(c, kCase[op], s, out);
      std::map<int64_t, uint8_t> want;
      for (auto& x : m) {
        int y = w[x.first];
        want[x.first] = (uint8_t)(op == ADD ? x.second + y : op == SUB ? x.second - y : op == MUL ? x.second * y : x.second / y);
      }
      want_all<uint8_t>(c, kCase[op], out, d, 0, want);
      break;
    }
    case SQRT_NEG: {
      Dims d = giant(c, (int)c.i(1, 3), n);
      n = prod(d);
      int64_t at = c.chance(50) ? n - 1 - c.small(0, 50) : c.i(G, n - 1);
      c.note("sqrt of %s with a negative element at %" PRId64, str(d).c_str(), at);
      t = mk_giant(c, dt, d);
      ((int8_t*)aitisa_tensor_data(t))[at] = -1;
      s = LIB(aitisa_sqrt(t, &out));
      want_status(c, kCase[op], s, STATUS_MATH_ERROR);
      if (out != kUntouched) c.fail("a failed sqrt set the output");
      break;
    }
    case DOT_VV: case MM_VV: {
      Marks m = marks(c, n, 1, 9), w = m;
      int sum = 0;
      c.note("%s of %" PRId64 " elements, %d are not zero", kCase[op], n, (int)m.size());
      t = mk_giant(c, dt, {n});
      u = mk_giant(c, dt, {n});
      for (auto& x : w) { x.second = (int)c.i(1, 9); sum += x.second * m[x.first]; }
      put(t, m);
      put(u, w);
      s = op == DOT_VV ? LIB(aitisa_dot(t, u, &out)) : LIB(aitisa_matmul(t, u, &out));
      want_ok(c, kCase[op], s, out);
      want_all<uint8_t>(c, kCase[op], out, {1}, (uint8_t)sum, {});
      break;
    }
    case DOT_SCALAR: {
      Dims d = giant(c, (int)c.i(1, 3), n);
      Marks m = marks(c, prod(d), 0, 20);
      int v = (int)c.i(2, 6);
      c.note("dot of %d and %s, %d elements are not zero", v, str(d).c_str(), (int)m.size());
      t = mk_giant(c, dt, d);
      put(t, m);
      u = mk_giant(c, dt, {});
      *(uint8_t*)aitisa_tensor_data(u) = (uint8_t)v;
      s = c.chance(50) ? LIB(aitisa_dot(t, u, &out)) : LIB(aitisa_dot(u, t, &out));
      want_ok(c, kCase[op], s, out);
      want_all<uint8_t>(c, kCase[op], out, d, 0, through<uint8_t>(m, [&](int x) { return x * v; }));
      break;
    }
    case MM_MV: case MM_VM: case MM_BATCH: {
      // [B, M, K] times [K, N], of which few elements are not zero
      int64_t B = op == MM_BATCH ? c.i(2, 5) : 1, K = c.chance(50) ? c.i(3, 60000) : c.i(1000000, 800000000), M = n / B / K + 1, N = 1;
      bool vec = op != MM_BATCH;
      if (op == MM_VM) { N = M; M = 1; }
      c.note("%s: [%" PRId64 ",%" PRId64 ",%" PRId64 "] and [%" PRId64 ",%" PRId64 "]", kCase[op], B, M, K, K, N);
      Dims d1 = op == MM_BATCH ? Dims{B, M, K} : op == MM_MV ? Dims{M, K} : Dims{K};
      Dims d2 = op == MM_MV ? Dims{K} : Dims{K, N};
      Dims d3 = op == MM_BATCH ? Dims{B, M, N} : op == MM_MV ? Dims{M} : Dims{N};
      if (vec && op == MM_VM && c.chance(50)) { d1 = {1, K}; d3 = {1, N}; }
      if (vec && op == MM_MV && c.chance(50)) { d2 = {K, 1}; d3 = {M, 1}; }
      t = mk_giant(c, dt, d1);
      u = mk_giant(c, dt, d2);
      bool first = prod(d1) > prod(d2);
      // the smaller one is full of small numbers, the larger one has some elements
      Tensor big = first ? t : u, lit = first ? u : t;
      int64_t ln = first ? prod(d2) : prod(d1);
      std::vector<uint8_t> l((size_t)ln);
      uint64_t seed = c.bulk_seed();
      for (int64_t k = 0; k < ln; k++) l[(size_t)k] = (uint8_t)(pbt::mix(seed ^ (uint64_t)(k / 8)) >> (k % 8 * 8) & 7);
      memcpy(aitisa_tensor_data(lit), l.data(), l.size());
      Marks m = marks(c, first ? prod(d1) : prod(d2), 1, 7);
      put(big, m);
      std::map<int64_t, uint8_t> want;
      for (auto& x : m) {
        if (first) {  // (b, i, q) adds to row i, N is 1
          int64_t q = x.first % K, row = x.first / K;
          want[row] = (uint8_t)(want[row] + x.second * l[(size_t)q]);
        } else {  // (q, j), M is 1
          int64_t j = x.first % N, q = x.first / N;
          want[j] = (uint8_t)(want[j] + x.second * l[(size_t)q]);
        }
      }
      s = LIB(aitisa_matmul(t, u, &out));
      want_ok(c, kCase[op], s, out);
      want_all<uint8_t>(c, kCase[op], out, d3, 0, want);
      break;
    }
    case SIGMOID: case TANH: {
      Dims d = giant(c, (int)c.i(1, 3), n);
      Marks m = marks(c, prod(d), -9, 9);
      c.note("%s float%s, %d elements are not zero", kCase[op], str(d).c_str(), (int)m.size());
      t = mk_giant(c, dt, d);
      put(t, m);
      s = op == SIGMOID ? LIB(aitisa_sigmoid(t, &out)) : LIB(aitisa_tanh(t, &out));
      want_ok(c, kCase[op], s, out);
      if (op == SIGMOID) want_all<float>(c, kCase[op], out, d, 0.5f, through<float>(m, [](int x) { return 1 / (1 + std::exp(-(double)x)); }), 1e-6);
      else want_all<float>(c, kCase[op], out, d, 0.0f, through<float>(m, [](int x) { return std::tanh((double)x); }), 1e-6);
      break;
    }
    case POOL: {  // windows of one element
      Dims d{1, 1};
      for (auto x : giant(c, (int)c.i(1, 3), n)) d.push_back(x);
      n = prod(d);
      Marks m = marks(c, n, 0, 20);
      int one[3] = {1, 1, 1}, no[3] = {0, 0, 0};
      bool max = c.chance(50);
      c.note("%s of %s%s, %d elements are not zero", kCase[op], kDtName[dt], str(d).c_str(), (int)m.size());
      t = mk_giant(c, dt, d);
      put(t, m);
      s = LIB(aitisa_pooling(t, max ? "max" : "avg", one, one, no, one, &out));
      want_ok(c, kCase[op], s, out);
      want_all<uint8_t>(c, kCase[op], out, d, 0, through<uint8_t>(m, same));
      break;
    }
    case SOFTMAX: case SOFTMAX_ALL: {
      // along the axis: all elements of a line are the same, but for the marks
      bool all = op == SOFTMAX_ALL;
      Dims d = giant(c, all ? (int)c.i(1, 3) : (int)c.i(2, 3), n);
      n = prod(d);
      int axis = all ? -1 : (int)c.i(0, (int64_t)d.size() - 1);
      Marks m = marks(c, n, 1, 30);
      c.note("softmax of float%s along %d, %d elements are not zero", str(d).c_str(), axis, (int)m.size());
      t = mk_giant(c, dt, d);
      put(t, m);
      s = LIB(aitisa_softmax(t, axis, &out));
      want_ok(c, kCase[op], s, out);
      int64_t len = all ? n : d[(size_t)axis], inner = all ? 1 : strides_of(d)[(size_t)axis];
      std::map<int64_t, long double> sum;  // of the lines with a mark
      auto line = [&](int64_t p) { return all ? 0 : p / (inner * len) * inner + p % inner; };
      for (auto& x : m) {
        auto& y = sum.insert({line(x.first), (long double)len}).first->second;
        y += expl((long double)x.second) - 1;
      }
      // the lines with a mark, a sample of their elements, and of the others
      auto at = [&](int64_t p) { return (double)((float*)aitisa_tensor_data(out))[p]; };
      auto want = [&](int64_t p) {
        auto y = sum.find(line(p));
        auto x = m.find(p);
        return (double)((x == m.end() ? 1 : expl((long double)x->second)) / (y == sum.end() ? (long double)len : y->second));
      };
      auto look = [&](int64_t p) {
        double w = want(p), g = at(p);
        if (!(fabs(g - w) <= 1e-5 * w + 1e-37)) c.fail("softmax: element %" PRId64 " of %" PRId64 " is %.9g, expected %.9g", p, n, g, w);
      };
      if (aitisa_tensor_size(out) != n) c.fail("softmax: the result has %" PRId64 " elements", aitisa_tensor_size(out));
      for (auto& x : m) { look(x.first); for (int64_t q : {x.first - 1, x.first + 1, x.first - inner, x.first + inner}) if (q >= 0 && q < n) look(q); }
      for (int64_t p = 0; p < n; p += 997) look(p);
      for (int64_t p = n - 1000; p < n; p++) look(p);
      break;
    }
  }
  drop(c, t);
  drop(c, u);
  if (out != kUntouched) drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
  one_at_a_time(false);
}
std::vector<pbt::Target> pbt::targets() { return {{"giants", giants, NQUICK, 4 * NCASE, V_WRAP | V_SLOW}}; }
