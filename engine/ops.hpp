// Any call of the library's operations as a value: generated, described, judged
// (is it valid, what shape results) and run on any tensors.
#pragma once
#include "nnmodel.hpp"

enum OpKind {
  O_CREATE, O_FULL, O_CAST, O_SLICE, O_DUP, O_RESHAPE, O_SQUEEZE, O_ADD, O_SUB, O_MUL, O_DIV, O_MATMUL, O_DOT,
  O_SQRT, O_RELU, O_SIGMOID, O_TANH, O_SOFTMAX, O_CONV, O_POOL, O_BN, O_DROPOUT, NOPS_
};
static const char* const kOpName[] = {"create", "full", "cast", "slice", "duplicate", "reshape", "squeeze", "add",
                                      "sub", "mul", "div", "matmul", "dot", "sqrt", "relu", "sigmoid", "tanh",
                                      "softmax", "conv", "pooling", "batch_norm", "dropout"};
struct Call {
  int op = O_DUP;
  std::vector<TV> in;
  std::vector<int> a, b, c, d;  // slice: begin size step; conv: stride pad dil; pooling: k stride pad dil
  Dims dims;                    // create, full, reshape: extents; squeeze: axes
  int64_t n = 0;                // how many of them
  int code = F32;               // create, full, cast: the type code (maybe not one)
  double x = 0;                 // full: value; batch_norm: epsilon; dropout: rate
  int axis = 0, groups = 1;
  int entry = 0;                // conv: 0 general, 2 conv2d, 3 conv3d
  int la = 0, lb = 0, lc = 0;   // conv2d, conv3d: lengths
  std::string mode = "max";
  Device dev = {DEVICE_CPU, 0};
};
static inline std::string str(const Call& k) {
  std::string s = std::string(kOpName[k.op]) + "(";
  for (size_t q = 0; q < k.in.size(); q++) s += (q ? ", " : "") + str(k.in[q], 8) + (k.in[q].dev.type == DEVICE_CPU ? "" : "@cuda");
  char b[64];
  switch (k.op) {
    case O_CREATE: case O_FULL: snprintf(b, sizeof b, " type %d value %g n %d", k.code, k.x, (int)k.n); s += b + (" " + str(k.dims)); break;
    case O_CAST: s += " to " + std::to_string(k.code); break;
    case O_SLICE: s += " begin " + str(k.a) + " size " + str(k.b) + " step " + str(k.c); break;
    case O_RESHAPE: case O_SQUEEZE: s += " " + str(k.dims) + " n " + std::to_string(k.n); break;
    case O_SOFTMAX: s += " axis " + std::to_string(k.axis); break;
    case O_CONV: s += " stride " + str(k.a) + " pad " + str(k.b) + " dil " + str(k.c) + " groups " + std::to_string(k.groups) + " entry " + std::to_string(k.entry); break;
    case O_POOL: s += " " + k.mode + " k " + str(k.a) + " stride " + str(k.b) + " pad " + str(k.c) + " dil " + str(k.d); break;
    case O_BN: snprintf(b, sizeof b, " axis %d eps %g", k.axis, k.x); s += b; break;
    case O_DROPOUT: snprintf(b, sizeof b, " rate %g", k.x); s += b; break;
  }
  return s + ")";
}
// Argument arrays are copies of exactly their length, and it is checked that
// the library leaves them alone.
struct Args {
  std::vector<int> a, b, c, d;
  Dims dims;
  explicit Args(const Call& k) : a(k.a), b(k.b), c(k.c), d(k.d), dims(k.dims) {}
  void check(const Call& k) const {
    if (a != k.a || b != k.b || c != k.c || d != k.d || dims != k.dims) abort();
  }
};
static inline Status invoke(const Call& k, Args& g, const Tensor* in, Tensor* out) {
  std::vector<int> &a = g.a, &b = g.b, &c = g.c, &d = g.d;
  Dims& dims = g.dims;
  Status s = STATUS_INTERNAL_ERROR;
  auto P = [](std::vector<int>& v) { return v.empty() ? nullptr : v.data(); };
  int64_t* D = dims.empty() ? nullptr : dims.data();
  DataType t = dtype_of(k.code >= 0 && k.code < NDT ? k.code : F32);
  if (k.code < 0 || k.code >= NDT) t.code = (decltype(t.code))k.code;
  switch (k.op) {
    case O_CREATE: s = aitisa_create(t, k.dev, D, k.n, nullptr, 0, out); break;
    case O_FULL: s = aitisa_full(t, k.dev, D, k.n, k.x, out); break;
    case O_CAST: s = aitisa_cast(in[0], t, out); break;
    case O_SLICE: s = aitisa_slice(in[0], P(a), P(b), P(c), out); break;
    case O_DUP: s = aitisa_duplicate(in[0], out); break;
    case O_RESHAPE: s = aitisa_reshape(in[0], D, k.n, out); break;
    case O_SQUEEZE: s = aitisa_squeeze(in[0], D, k.n, out); break;
    case O_ADD: s = aitisa_add(in[0], in[1], out); break;
    case O_SUB: s = aitisa_sub(in[0], in[1], out); break;
    case O_MUL: s = aitisa_mul(in[0], in[1], out); break;
    case O_DIV: s = aitisa_div(in[0], in[1], out); break;
    case O_MATMUL: s = aitisa_matmul(in[0], in[1], out); break;
    case O_DOT: s = aitisa_dot(in[0], in[1], out); break;
    case O_SQRT: s = aitisa_sqrt(in[0], out); break;
    case O_RELU: s = aitisa_relu(in[0], out); break;
    case O_SIGMOID: s = aitisa_sigmoid(in[0], out); break;
    case O_TANH: s = aitisa_tanh(in[0], out); break;
    case O_SOFTMAX: s = aitisa_softmax(in[0], k.axis, out); break;
    case O_CONV:
      if (k.entry == 0) s = aitisa_conv(in[0], in[1], P(a), P(b), P(c), k.groups, out);
      else s = (k.entry == 2 ? aitisa_conv2d : aitisa_conv3d)(in[0], in[1], P(a), k.la, P(b), k.lb, P(c), k.lc, k.groups, out);
      break;
    case O_POOL: s = aitisa_pooling(in[0], k.mode.c_str(), P(a), P(b), P(c), P(d), out); break;
    case O_BN: s = aitisa_batch_norm(in[0], k.axis, in[1], in[2], in[3], in[4], k.x, out); break;
    case O_DROPOUT: s = aitisa_dropout(in[0], k.x, out); break;
  }
  return s;
}
// Runs the call on the given operands.
static inline Status invoke(const Call& k, const Tensor* in, Tensor* out) {
  Args g(k);
  Status s = invoke(k, g, in, out);
  g.check(k);
  return s;
}
static inline Status run(const Call& k, const Tensor* in, Tensor* out) {
  Args g(k);
  Status s = LIB(invoke(k, g, in, out));
  g.check(k);
  return s;
}

// Whether every arithmetic step of the call is defined for these values (no
// signed overflow, no conversion out of range). A call that is not valid
// anyway computes nothing.
static inline long double max_abs(const TV& v) {
  long double m = 0;
  for (int64_t k = 0; k < v.n(); k++) {
    long double x = fabsl(v.num(k));
    if (!(x <= m)) m = std::isnan(x) ? INFINITY : x;
  }
  return m;
}
static inline bool defined_shape(const Dims& dims) {  // not empty with an oversized rest
  long double p = 1;
  bool zero = false;
  for (auto d : dims) { zero |= d == 0; if (d) p *= (long double)d; }
  return !zero || fabsl(p) < 1e15L;
}
static inline bool arithmetic_defined(const Call& k) {
  int dt = k.in.empty() ? k.code : k.in[0].dt;
  long double lim = dt == I32 ? 2147483647.0L : 9223372036854775807.0L;
  bool si = dt == I32 || dt == I64;
  auto in_range = [](long double x, int t) {
    if (is_float(t)) return std::isnan(x) || std::isinf(x) || fabsl(x) <= max_of(t);
    return with_type(t, [&](auto z) {
      typedef std::numeric_limits<decltype(z)> L;
      return std::isfinite(x) && truncl(x) >= (long double)L::lowest() && truncl(x) <= (long double)L::max();
    });
  };
  switch (k.op) {
    case O_FULL: return k.code < 0 || k.code >= NDT || in_range(k.x, k.code);
    case O_CAST:
      if (k.code < 0 || k.code >= NDT || !is_float(dt)) return true;
      for (int64_t q = 0; q < k.in[0].n(); q++) if (!in_range(k.in[0].num(q), k.code)) return false;
      return true;
    case O_ADD: case O_SUB: return !si || max_abs(k.in[0]) + max_abs(k.in[1]) <= lim;
    case O_MUL: return !si || max_abs(k.in[0]) * max_abs(k.in[1]) <= lim;
    case O_DIV:  // -128/-1 in 8 bits wraps or not
      if (!is_signed_int(dt) || si) return true;
      for (int64_t q = 0; q < std::min(k.in[0].n(), k.in[1].n()); q++)
        if (k.in[1].num(q) == -1 && k.in[0].num(q) == (dt == I8 ? -128 : -32768)) return false;
      return true;
    case O_MATMUL: case O_DOT:
      return !si || max_abs(k.in[0]) * max_abs(k.in[1]) * (long double)std::max<int64_t>(1, k.in[0].dims.empty() ? 1 : k.in[0].dims.back()) <= lim;
    case O_POOL: return (dt != I64 && dt != U64) || max_abs(k.in[0]) <= 1e14L;
    case O_SOFTMAX: return is_float(dt) || max_abs(k.in[0]) <= 100;
    case O_BN:
      if (is_float(dt)) return true;
      for (auto& v : k.in) if (v.dt != dt) return true;  // rejected
      if (!(fabs(k.x) < 100)) return false;
      return (max_abs(k.in[0]) + max_abs(k.in[3])) * std::max<long double>(1, max_abs(k.in[1])) + max_abs(k.in[2]) <=
                 (dt == I8 || dt == U8 ? 127 : dt == I16 || dt == U16 ? 32767 : lim) &&
             max_abs(k.in[4]) + 100 <= lim;
    default: return true;
  }
}
// Whether it is specified if the call is valid.
static inline bool specified(const Call& k) {
  switch (k.op) {
    case O_FULL: case O_CREATE: case O_RESHAPE: return defined_shape(k.dims);
    case O_BN:  // devices of the parameters, and tensors without elements
      for (auto& v : k.in) if (v.dev.type != DEVICE_CPU || !v.n()) return false;
      return !std::isnan(k.x);
    case O_DROPOUT: return !std::isnan(k.x);
    default: return true;
  }
}
static inline bool defined(const Call& k) { return arithmetic_defined(k) && specified(k); }
// Whether the call is valid, and the type, shape and device of its output.
struct Expect {
  bool ok = false, none = false;  // none: succeeds without an output
  int dt = F32;
  Dims dims;
  Device dev = {DEVICE_CPU, 0};
  int64_t work = 0;
};
static inline long double spread(const Dims& d) {  // extents of 0 counted as 1
  long double p = 1;
  for (auto x : d) p *= (long double)std::max<int64_t>(1, x);
  return p;
}
static inline Expect expect(const Call& k) {
  Expect e;
  const TV* x = k.in.empty() ? nullptr : &k.in[0];
  auto cpu = [](const TV& v) { return v.dev.type == DEVICE_CPU; };
  if (x) { e.dt = x->dt; e.dims = x->dims; e.dev = x->dev; e.work = x->n(); }
  bool known = k.code >= 0 && k.code < NDT;
  size_t nd = e.dims.size();
  switch (k.op) {
    case O_CREATE: case O_FULL: {
      e.dt = k.code;
      e.dims = k.dims;
      e.dev = k.dev;
      e.ok = known && k.n >= 0 && k.n == (int64_t)k.dims.size();
      long double p = known ? kDtSize[k.code] : 1;
      bool zero = false;
      for (auto d : k.dims) { if (d < 0) e.ok = false; zero |= d == 0; p *= (long double)d; }
      if (!(p < 9e18L) && !zero) e.ok = false;
      e.work = zero ? 0 : p > 1e15L ? (int64_t)1e15 : (int64_t)p;
      return e;
    }
    case O_CAST:
      e.ok = known;
      e.none = known && k.code == x->dt;
      e.dt = k.code;
      return e;
    case O_SLICE: {
      e.ok = true;
      Dims od;
      for (size_t q = 0; q < nd; q++) {
        if (k.a[q] < 0 || k.a[q] >= x->dims[q] || k.b[q] < 0 || (int64_t)k.a[q] + k.b[q] > x->dims[q] || k.c[q] < 1) { e.ok = false; return e; }
        int64_t n = k.b[q] == 0 ? 0 : ((int64_t)k.b[q] - 1) / k.c[q] + 1;
        if (n) od.push_back(n);
      }
      e.dims = od;
      return e;
    }
    case O_DUP: e.ok = true; return e;
    case O_DROPOUT: e.ok = k.x >= 0 && k.x <= 1; return e;
    case O_RESHAPE: {
      e.ok = k.n >= 0;
      __int128 p = 1;
      for (auto d : k.dims) {
        if (d < 0) e.ok = false;
        if (d == 0) p = 0;
        else if (p < ((__int128)1 << 62)) p *= d;
      }
      e.ok = e.ok && p == x->n();
      e.dims = k.dims;
      return e;
    }
    case O_SQUEEZE: {
      e.ok = k.n >= 0;
      for (auto a : k.dims) if (a < 0 || a >= (int64_t)nd) e.ok = false;
      Dims od;
      for (size_t q = 0; q < nd; q++) {
        bool named = k.dims.empty();
        for (auto a : k.dims) named |= a == (int64_t)q;
        if (!(named && x->dims[q] == 1)) od.push_back(x->dims[q]);
      }
      e.dims = od;
      return e;
    }
    case O_ADD: case O_SUB: case O_MUL: case O_DIV:
      e.ok = x->dt == k.in[1].dt && x->dims == k.in[1].dims && cpu(*x) && cpu(k.in[1]);
      if (e.ok && k.op == O_DIV && !is_float(x->dt))
        for (int64_t q = 0; q < x->n(); q++) {
          long double b = k.in[1].num(q), a = x->num(q);
          if (b == 0 || (b == -1 && ((x->dt == I32 && a == -2147483648.0L) || (x->dt == I64 && a == -9223372036854775808.0L)))) { e.ok = false; break; }
        }
      return e;
    case O_MATMUL: {
      const Dims &A = x->dims, &B = k.in[1].dims;
      e.ok = x->dt == k.in[1].dt && cpu(*x) && cpu(k.in[1]) && !A.empty() && !B.empty();
      if (!e.ok) return e;
      if (A.back() != B[B.size() >= 2 ? B.size() - 2 : 0]) { e.ok = false; return e; }
      Dims r;
      size_t na = A.size() >= 2 ? A.size() - 2 : 0, nb = B.size() >= 2 ? B.size() - 2 : 0, nr = std::max(na, nb);
      for (size_t q = 0; q < nr; q++) {
        int64_t a = q + na >= nr ? A[q + na - nr] : 1, b = q + nb >= nr ? B[q + nb - nr] : 1;
        if (a != b && a != 1 && b != 1) { e.ok = false; return e; }
        r.push_back(a == 1 ? b : a);
      }
      if (A.size() >= 2) r.push_back(A[A.size() - 2]);
      if (B.size() >= 2) r.push_back(B.back());
      if (A.size() == 1 && B.size() == 1) r = {1};
      e.dims = r;
      e.work = prod(r) * std::max<int64_t>(1, A.back());
      return e;
    }
    case O_DOT: {
      const Dims &A = x->dims, &B = k.in[1].dims;
      e.ok = x->dt == k.in[1].dt && cpu(*x) && cpu(k.in[1]);
      if (A.empty() || B.empty()) { e.dims = B.empty() ? A : B; e.work = prod(e.dims); return e; }
      e.work = x->n() * std::max<int64_t>(1, B.size() > 1 ? k.in[1].n() : 1);
      if (A.size() == 1 && B.size() == 1) { e.ok = e.ok && A[0] == B[0]; e.dims = {1}; return e; }
      if (B.size() == 1) { e.ok = e.ok && A.back() == B[0]; e.dims = Dims(A.begin(), A.end() - 1); return e; }
      if ((A.size() == 2 && B.size() == 2) || (A.size() > 2 && B.size() > 2)) {
        e.ok = e.ok && A.back() == B[B.size() - 2];
        e.dims = Dims(A.begin(), A.end() - 1);
        e.dims.insert(e.dims.end(), B.begin(), B.end() - 2);
        e.dims.push_back(B.back());
        return e;
      }
      e.ok = false;
      return e;
    }
    case O_SQRT:
      e.ok = true;
      for (int64_t q = 0; q < x->n(); q++) if (x->num(q) < 0) e.ok = false;
      return e;
    case O_RELU: e.ok = true; return e;
    case O_SIGMOID: case O_TANH: e.ok = is_float(x->dt); return e;
    case O_SOFTMAX: e.ok = k.axis >= -1 && k.axis < (int64_t)nd; return e;
    case O_CONV: {
      const Dims &A = x->dims, &B = k.in[1].dims;
      if (k.entry && (A.size() != (size_t)k.entry + 2 || k.la != k.entry || k.lb != k.entry || k.lc != k.entry)) return e;
      if (x->dt != F32 || k.in[1].dt != F32 || A.size() < 3 || A.size() != B.size() || k.groups < 1) return e;
      if (A[1] % k.groups || B[0] % k.groups || B[1] != A[1] / k.groups) return e;
      Dims r = {A[0], B[0]};
      __int128 w = (__int128)A[0] * B[0];
      for (size_t q = 2; q < nd; q++) {
        int64_t s = k.a[q - 2], p = k.b[q - 2], d = k.c[q - 2];
        if (s < 1 || p < 0 || d < 1 || B[q] < 1 || (__int128)(B[q] - 1) * d + 1 > A[q] + 2 * p) return e;
        r.push_back((A[q] + 2 * p - ((B[q] - 1) * d + 1)) / s + 1);
        if (w < ((__int128)1 << 60)) w *= r.back();
      }
      int64_t per = std::max<int64_t>(1, prod(B, 1, B.size()));
      w *= per;
      e.work = w > (__int128)1e15 ? (int64_t)1e15 : (int64_t)w;
      e.dims = r;
      e.ok = true;
      return e;
    }
    case O_POOL: {
      if (nd < 3 || nd > 5 || (k.mode != "max" && k.mode != "avg")) return e;
      Dims r = {e.dims[0], e.dims[1]};
      __int128 w = (__int128)r[0] * r[1];
      for (size_t q = 2; q < nd; q++) {
        int64_t z = k.a[q - 2], s = k.b[q - 2], p = k.c[q - 2], d = k.d[q - 2];
        if (z < 1 || s < 1 || p < 0 || d < 1 || (z - 1) * d + 1 > e.dims[q] + 2 * p) return e;
        r.push_back((e.dims[q] + 2 * p - ((z - 1) * d + 1)) / s + 1);
        w *= r.back() < 1e9 ? r.back() : (int64_t)1e9;
        if (w < ((__int128)1 << 60)) w *= z;
      }
      e.work = w > (__int128)1e15 ? (int64_t)1e15 : (int64_t)w;
      e.dims = r;
      e.ok = true;
      return e;
    }
    case O_BN: {
      if (nd < 2 || nd > 5 || (k.axis != 1 && k.axis != (int)nd - 1) || x->n() == 0) return e;
      int64_t C = x->dims[(size_t)k.axis];
      for (size_t q = 1; q < 5; q++) {
        const TV& v = k.in[q];
        if (v.dt != x->dt || v.dims != Dims{C}) return e;
      }
      for (auto& v : k.in) if (!cpu(v)) return e;
      if (!(k.x >= 0)) return e;
      for (int64_t q = 0; q < C; q++) {
        long double den = 0;
        with_type(x->dt, [&](auto z) {
          typedef decltype(z) T;
          den = (long double)(T)(k.in[4].get<T>(q) + (T)k.x);
          return 0;
        });
        if (den < 0) return e;
        if (!is_float(x->dt) && (int64_t)sqrtl(den) == 0) return e;
        if ((x->dt == I32 || x->dt == I64) && (int64_t)sqrtl(den) == -1) return e;
      }
      e.ok = true;
      e.work = x->n() * 30;
      return e;
    }
  }
  return e;
}

// ------------------------------------------------------------- generator
struct CallOpt {
  bool dropout_random = false;  // rates other than 0 and 1
  int64_t max_elems = 60;
  bool creators = true;         // create and full
  bool zero = true;             // zero extents
  bool devices = true;          // operands on other devices where that is allowed
};
static inline Profile gen_profile(Case& c) { return (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_POS, P_IOTA}); }
// A random call; mostly a valid one. With first given, it is the first operand.
static inline Call gen_call(Case& c, const CallOpt& o, const TV* first = nullptr, int op = -1) {
  Call k;
  if (op < 0) {
    static const int all[] = {O_DUP, O_RESHAPE, O_SQUEEZE, O_SLICE, O_CAST, O_RELU, O_ADD, O_SUB, O_MUL, O_DIV, O_SQRT,
                              O_SIGMOID, O_TANH, O_SOFTMAX, O_MATMUL, O_MATMUL, O_DOT, O_DOT, O_CONV, O_CONV, O_POOL, O_POOL, O_BN,
                              O_BN, O_DROPOUT, O_FULL, O_CREATE};
    static const int cheap[] = {O_DUP, O_RESHAPE, O_SQUEEZE, O_SLICE, O_CAST, O_RELU, O_ADD, O_SUB, O_MUL, O_DIV, O_SQRT,
                                O_SIGMOID, O_TANH, O_SOFTMAX, O_DROPOUT, O_MATMUL, O_DOT, O_POOL, O_BN, O_FULL};
    if (g_big) op = cheap[c.i(0, (int64_t)(sizeof cheap / sizeof *cheap) - (o.creators && !first ? 1 : 2))];
    else op = all[c.i(0, (int64_t)(sizeof all / sizeof *all) - (o.creators && !first ? 1 : 3))];
  }
  k.op = op;
  ShapeOpt so;
  so.max_elems = o.max_elems;
  so.zero = o.zero;
  auto dev = [&] { return o.devices ? gen_dev(c) : gen_dev(c, true); };
  if (op == O_CREATE || op == O_FULL) {
    k.dims = gen_dims(c, so);
    k.n = (int64_t)k.dims.size();
    k.code = gen_dt(c);
    k.x = c.chance(65) ? (double)c.i(0, 100) : c.pick<double>({0.0, -0.0, 0.0, -0.0, 0.5, -1, -100, 1e-40, 3e38, NAN, INFINITY, -INFINITY});
    k.dev = dev();
    return k;
  }
  int dt = gen_dt(c);
  TV x;
  bool have = first != nullptr;
  if (have) { x = *first; dt = x.dt; }
  bool floats = op == O_SIGMOID || op == O_TANH || op == O_SOFTMAX || op == O_CONV;
  if (!have && floats && c.chance(95)) dt = c.chance(50) ? F32 : F64;
  if (!have && op == O_CONV && c.chance(95)) dt = F32;
  bool unary = op <= O_SQUEEZE || (op >= O_SQRT && op <= O_SOFTMAX) || op == O_DROPOUT;
  Profile pr = op == O_SQRT && c.chance(85) ? P_POS : gen_profile(c);
  if (!have) {
    switch (op) {
      case O_MATMUL: case O_DOT: so.min_nd = op == O_MATMUL ? 1 : 0; so.max_nd = c.chance(4) ? 8 : 5; so.many = 0; break;
      case O_CONV: so.min_nd = 3; so.max_nd = c.chance(4) ? 9 : 5; so.many = 0; break;
      case O_POOL: so.min_nd = 3; so.max_nd = 5; break;
      case O_BN: so.min_nd = 2; so.max_nd = 5; so.zero = false; break;
    }
    x = gen_tv(c, dt, gen_dims(c, so), pr);
    if (op == O_SQRT && !is_float(dt)) {}
    bool any_dev = unary || op == O_CONV || op == O_POOL;
    x.dev = any_dev && o.devices ? gen_dev(c) : gen_dev(c, true);
  }
  size_t nd = x.dims.size();
  const Dims& D = x.dims;
  switch (op) {
    case O_CAST: k.code = (dt + (int)c.i(0, NDT - 1)) % NDT; break;
    case O_SLICE:
      for (size_t q = 0; q < nd; q++) {
        int64_t e = D[q];
        int b = (int)c.small(0, std::max<int64_t>(0, e - 1)), s = (int)(e - b - c.small(0, std::max<int64_t>(0, e - b)));
        k.a.push_back(b);
        k.b.push_back(s);
        k.c.push_back((int)c.small(1, 4));
      }
      break;
    case O_RESHAPE: {
      k.dims = D;
      std::vector<size_t> ord;
      if (c.chance(40)) k.dims = {x.n()};
      else if (c.chance(50) && nd) std::reverse(k.dims.begin(), k.dims.end());
      if (c.chance(40)) k.dims.insert(k.dims.begin() + c.i(0, (int64_t)k.dims.size()), 1);
      if (k.dims.size() > 1 && c.chance(40)) { int64_t l = k.dims.back(); k.dims.pop_back(); k.dims.back() *= l; }
      if (!k.dims.empty() && k.dims[0] % 2 == 0 && c.chance(50)) { k.dims[0] /= 2; k.dims.push_back(2); }
      k.n = (int64_t)k.dims.size();
      break;
    }
    case O_SQUEEZE:
      if (nd && c.chance(60)) for (int q = (int)c.small(1, 3); q > 0; q--) k.dims.push_back(c.i(0, (int64_t)nd - 1));
      k.n = (int64_t)k.dims.size();
      break;
    case O_SOFTMAX: k.axis = (int)c.i(-1, (int64_t)nd - 1); break;
    case O_DROPOUT: k.x = o.dropout_random ? (double)c.i(0, 100) / 100 : (double)c.i(0, 1); break;
  }
  k.in.push_back(x);
  switch (op) {
    case O_ADD: case O_SUB: case O_MUL: case O_DIV:
      if (c.chance(6)) k.in.push_back(x);
      else k.in.push_back(gen_tv(c, dt, D, op == O_DIV ? P_POS : gen_profile(c)));
      break;
    case O_MATMUL: {
      Dims B;
      if (nd == 0) { B = {2}; k.in.push_back(gen_tv(c, dt, B, pr)); break; }
      if (c.chance(35)) B = {D.back()};
      else {
        B = {D.back(), c.i(1, 4)};
        for (size_t q = 3; q <= nd && c.chance(70); q++) B.insert(B.begin(), c.chance(25) ? 1 : D[nd - q]);
        if (B.size() == nd && c.chance(15) && prod(B) < 50) B.insert(B.begin(), c.i(1, 3));
      }
      k.in.push_back(gen_tv(c, dt, B, gen_profile(c)));
      break;
    }
    case O_DOT: {
      Dims B;
      if (nd == 0 || c.chance(10)) { if (c.chance(70) && nd == 0) B = {c.i(1, 3), c.i(1, 3)}; }
      else if (nd == 1 || (nd > 1 && c.chance(40))) B = {D.back()};
      else if (nd == 2) B = {D.back(), c.i(1, 4)};
      else { B = {D.back(), c.i(1, 3)}; for (int q = (int)c.i(1, 2); q > 0; q--) B.insert(B.begin(), c.i(1, 3)); }
      k.in.push_back(gen_tv(c, dt, B, gen_profile(c)));
      break;
    }
    case O_CONV: {
      Dims B = {1, 1};
      int64_t C = nd > 1 ? D[1] : 1;
      for (int g = (int)c.i(1, 4); g > 1; g--) if (C && C % g == 0 && c.chance(60)) { k.groups = g; break; }
      B[1] = C / k.groups;
      B[0] = k.groups * c.i(1, 3);
      int n = (int)std::max<size_t>(nd, 3) - 2;
      int64_t cells = 1;
      for (int q = 0; q < n; q++) {
        int64_t e = (size_t)q + 2 < nd ? D[(size_t)q + 2] : 3;
        int p = q < 8 ? (int)c.small(0, 2) : 0;
        int64_t room = e + 2 * p, kk = std::max<int64_t>(1, std::min<int64_t>(room, c.i(1, 3)));
        if (q > 3 && cells * kk > 128) kk = 1;
        cells *= kk;
        if (room < 1) { p = 1; kk = 1; }
        int dil = kk > 1 && (kk - 1) * 2 + 1 <= room && c.chance(30) ? 2 : 1;
        B.push_back(kk);
        k.a.push_back((int)c.small(1, 3));
        k.b.push_back(p);
        k.c.push_back(dil);
      }
      if ((nd == 4 || nd == 5) && c.chance(50)) { k.entry = (int)nd - 2; k.la = k.lb = k.lc = k.entry; }
      k.in.push_back(gen_tv(c, dt, B, gen_profile(c)));
      k.in[1].dev = k.in[0].dev;
      break;
    }
    case O_POOL: {
      int n = (int)std::max<size_t>(nd, 3) - 2;
      if (n > 8) n = 8;
      for (int q = 0; q < n; q++) {
        int64_t e = (size_t)q + 2 < nd ? D[(size_t)q + 2] : 3;
        int p = (int)c.small(0, 2);
        int64_t room = e + 2 * p, kk = std::max<int64_t>(1, std::min<int64_t>(room, c.i(1, 3)));
        if (room < 1) { p = 1; kk = 1; }
        int dil = kk > 1 && (kk - 1) * 2 + 1 <= room && c.chance(30) ? 2 : 1;
        k.a.push_back((int)kk);
        k.b.push_back((int)c.small(1, 3));
        k.c.push_back(p);
        k.d.push_back(dil);
      }
      k.mode = c.chance(50) ? "avg" : "max";
      break;
    }
    case O_BN: {
      k.axis = nd > 2 && c.chance(50) ? (int)nd - 1 : 1;
      int64_t C = (size_t)k.axis < nd ? D[(size_t)k.axis] : 1;
      for (int q = 0; q < 4; q++) k.in.push_back(gen_tv(c, dt, {C}, q == 3 ? P_POS : P_SMALL));
      for (size_t q = 1; q < 5; q++) k.in[q].dev = x.dev;
      k.x = c.pick<double>({0.001, 0, 1, 0.25});
      break;
    }
  }
  return k;
}
// Makes one random thing of the call wrong, or at least different; array
// lengths stay what the callee may assume.
static inline void damage(Case& c, Call& k) {
  auto odd = [&](int64_t near) { return (int)c.pick<int64_t>({near + 1, near - 1, 0, -1, -near, INT_MAX, INT_MIN, near * 2 + 1}); };
  auto odd64 = [&](int64_t near) { return c.pick<int64_t>({near + 1, near - 1, 0, -1, -near, INT64_MAX, INT64_MIN, 1LL << 32, 1LL << 31, 1LL << 62, near * 2 + 1}); };
  auto hit = [&](std::vector<int>& v) { if (!v.empty()) { int& x = v[(size_t)c.i(0, (int64_t)v.size() - 1)]; x = odd(x); } };
  auto hit_tensor = [&](size_t q) {
    TV& t = k.in[q];
    switch (c.i(0, 3)) {
      case 0: t = gen_tv(c, (t.dt + (int)c.i(1, 9)) % NDT, t.dims, P_POS); break;
      case 1: { Dims d = t.dims; if (d.empty()) d.push_back(c.i(1, 3)); else d[(size_t)c.i(0, (int64_t)d.size() - 1)] = c.small(0, 5); t = gen_tv(c, t.dt, d, P_POS); break; }
      case 2: { Dims d = t.dims; if (!d.empty() && c.chance(50)) d.pop_back(); else if (d.size() < 8) d.push_back(c.i(1, 2)); t = gen_tv(c, t.dt, d, P_POS); break; }
      default: t.dev.type = t.dev.type == DEVICE_CPU ? DEVICE_CUDA : DEVICE_CPU; break;
    }
  };
  switch (k.op) {
    case O_CREATE: case O_FULL:
      switch (c.i(0, 2)) {
        case 0: k.code = c.pick<int>({10, 11, -1, 255, 1 << 20}); break;
        case 1: k.n = c.pick<int64_t>({-1, -2, INT64_MIN}); break;
        default: if (!k.dims.empty()) { auto& x = k.dims[(size_t)c.i(0, (int64_t)k.dims.size() - 1)]; x = odd64(x); } break;
      }
      break;
    case O_CAST: k.code = c.pick<int>({10, 11, -1, 255, 1 << 20}); break;
    case O_SLICE: switch (c.i(0, 2)) { case 0: hit(k.a); break; case 1: hit(k.b); break; default: hit(k.c); break; } break;
    case O_RESHAPE:
      if (k.dims.empty() || c.chance(10)) { k.dims.push_back(odd64(1)); k.n = (int64_t)k.dims.size(); }
      else { auto& x = k.dims[(size_t)c.i(0, (int64_t)k.dims.size() - 1)]; x = odd64(x); }
      if (c.chance(5)) k.n = -k.n - 1;
      break;
    case O_SQUEEZE:
      if (c.chance(15)) { k.n = c.pick<int64_t>({-1, INT64_MIN}); break; }
      k.dims.push_back(c.chance(50) ? (int64_t)k.in[0].dims.size() : odd64((int64_t)k.in[0].dims.size()));
      k.n = (int64_t)k.dims.size();
      break;
    case O_SOFTMAX: k.axis = odd((int)k.in[0].dims.size()); break;
    case O_DROPOUT: k.x = c.pick<double>({-0.01, 1.01, -INFINITY, INFINITY, 2}); break;
    case O_SQRT: {
      TV& t = k.in[0];
      if (t.n() && (is_float(t.dt) || is_signed_int(t.dt)))
        with_type(t.dt, [&](auto z) { typedef decltype(z) T; t.set<T>(c.i(0, t.n() - 1), (T)-3); return 0; });
      break;
    }
    case O_SIGMOID: case O_TANH: k.in[0] = gen_tv(c, (int)c.i(0, 7), k.in[0].dims, P_SMALL); break;
    case O_DIV:
      if (c.chance(60) && k.in[1].n()) {
        TV& t = k.in[1];
        int64_t p = c.i(0, t.n() - 1);
        memset(&t.b[(size_t)(p * kDtSize[t.dt])], 0, (size_t)kDtSize[t.dt]);
        break;
      }  // fall through
    case O_ADD: case O_SUB: case O_MUL: case O_MATMUL: case O_DOT: hit_tensor((size_t)c.i(0, 1)); break;
    case O_CONV:
      switch (c.i(0, 5)) {
        case 0: hit(k.a); break;
        case 1: hit(k.b); break;
        case 2: hit(k.c); break;
        case 3: k.groups = odd(k.groups); break;
        case 4:
          if (k.entry) { int* l[] = {&k.la, &k.lb, &k.lc}; *l[c.i(0, 2)] = c.pick<int>({0, 1, -1, 5 - k.entry}); }
          else hit_tensor((size_t)c.i(0, 1));
          break;
        default: hit_tensor((size_t)c.i(0, 1)); break;
      }
      // the arrays must have an entry for every dimension of the input
      for (auto* v : {&k.a, &k.b, &k.c}) while (v->size() + 2 < k.in[0].dims.size()) v->push_back(1);
      break;
    case O_POOL:
      switch (c.i(0, 5)) {
        case 0: hit(k.a); break;
        case 1: hit(k.b); break;
        case 2: hit(k.c); break;
        case 3: hit(k.d); break;
        case 4: k.mode = c.chance(50) ? "" : c.chance(50) ? "maximum" : "min"; break;
        default: hit_tensor(0); break;
      }
      for (auto* v : {&k.a, &k.b, &k.c, &k.d}) while (v->size() + 2 < k.in[0].dims.size()) v->push_back(1);
      break;
    case O_BN:
      switch (c.i(0, 3)) {
        case 0: k.axis = odd(k.axis); break;
        case 1: k.x = c.pick<double>({-1, -1e-9, -INFINITY}); break;
        case 2: {
          TV& t = k.in[4];
          if (t.n() && (is_float(t.dt) || is_signed_int(t.dt)))
            with_type(t.dt, [&](auto z) { typedef decltype(z) T; t.set<T>(c.i(0, t.n() - 1), (T)-9); return 0; });
          break;
        }
        default: hit_tensor((size_t)c.i(0, 4)); break;
      }
      break;
    default: break;
  }
}
static inline std::vector<Tensor> mk_all(Case& c, const Call& k) {
  std::vector<Tensor> v;
  for (auto& t : k.in) v.push_back(mk(c, t));
  return v;
}
// A call close to this one: other values of the same shape, other arguments for
// the same operands, another type or place of the same values.
static inline TV vary_values(Case& c, const TV& t) {
  TV r = t;
  if (!t.n()) return r;
  int how = (int)c.i(0, 4);
  int64_t one = c.i(0, t.n() - 1);
  for (int64_t q = 0; q < t.n(); q++)
    with_type(t.dt, [&](auto z) {
      typedef decltype(z) T;
      T x = t.get<T>(q);
      switch (how) {
        case 0: if (is_float(t.dt)) r.set<T>(q, (T)-x); else r.set<T>(q, t.get<T>(t.n() - 1 - q)); break;   // signs, zeros too
        case 1: if (q == one) r.set<T>(q, (T)(x > 0 ? x - 1 : x + 1)); break;
        case 2: r.set<T>(q, t.get<T>(t.n() - 1 - q)); break;
        case 3: if (q) r.set<T>(q, (T)(q % 5 + 1)); break;    // the first stays
        default: if (q != t.n() - 1) r.set<T>(q, (T)(q % 3 + 1)); break;  // the last stays
      }
      return 0;
    });
  return r;
}
static inline Call vary(Case& c, const Call& k, const CallOpt& o) {
  Call v = k;
  if (k.in.empty()) {
    switch (c.i(0, 3)) {
      case 0: v.x = -k.x; break;
      case 1: v.code = gen_dt(c); break;
      case 2: if (!v.dims.empty()) { v.dims[0] = c.i(0, 5); } break;
      default: v.x = k.x + 0.5; break;
    }
    return v;
  }
  switch (c.weighted({50, 25, 15, 10})) {
    case 0: {
      size_t q = (size_t)c.i(0, (int64_t)k.in.size() - 1);
      v.in[q] = vary_values(c, k.in[q]);
      break;
    }
    case 1: v = gen_call(c, o, &k.in[0], k.op); break;
    case 2: {  // an operation of its own kind on the same operands
      if (k.in.size() == 1) v.op = c.pick<int>({O_RELU, O_DUP, O_SQRT, O_SIGMOID, O_TANH});
      else if (k.op >= O_ADD && k.op <= O_DIV) v.op = O_ADD + (int)c.i(0, 3);
      else if (k.in.size() == 2 && k.in[0].dims.size() == 2 && k.in[1].dims.size() == 2) v.op = c.chance(50) ? O_MATMUL : O_DOT;
      break;
    }
    default:
      for (auto& t : v.in) if (t.dims.size() > 1) std::swap(t.dims[0], t.dims[1]);
      break;
  }
  return v;
}
