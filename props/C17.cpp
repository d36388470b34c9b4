// C17: dot products
#include "linalg.hpp"
namespace pbt {
const char* const kProperty = "C17";
const char* const kRule =
    "two random tensors of one type (10 types): two vectors, two matrices, a scalar and a tensor of "
    "0-6 dimensions, a tensor of 2-6 dimensions and a vector, two tensors of 3-9 dimensions, one tensor on both sides, with "
    "zero extents, infinities and NaNs, and (big) up to 2 million elements; and combinations that have no dot product; non-trivial: two or more products are "
    "summed, or a rejected combination";
}
static bool dot_model(const TV& a, const TV& b, Prod& r) {
  size_t na = a.dims.size(), nb = b.dims.size();
  if (na == 0 || nb == 0) {
    const TV& t = nb == 0 ? a : b;
    r.dims = t.dims;
    r.v.assign((size_t)t.n(), Sum());
    for (int64_t k = 0; k < t.n(); k++) add_prod(r.v[(size_t)k], nb == 0 ? b : a, 0, t, k);
    return true;
  }
  if (na <= 2 && na == nb) return matmul_model(a, b, r);
  if (nb == 1) {
    int64_t K = a.dims.back();
    if (b.dims[0] != K) return false;
    r.dims = Dims(a.dims.begin(), a.dims.end() - 1);
    r.v.assign((size_t)prod(r.dims), Sum());
    for (size_t i = 0; i < r.v.size(); i++)
      for (int64_t k = 0; k < K; k++) add_prod(r.v[i], a, (int64_t)i * K + k, b, k);
    return true;
  }
  if (na <= 2 || nb <= 2) return false;
  int64_t K = a.dims.back(), N = b.dims.back();
  if (b.dims[nb - 2] != K) return false;
  r.dims = Dims(a.dims.begin(), a.dims.end() - 1);
  int64_t P = prod(a.dims, 0, na - 1), Q = prod(b.dims, 0, nb - 2);
  r.dims.insert(r.dims.end(), b.dims.begin(), b.dims.end() - 2);
  r.dims.push_back(N);
  r.v.assign((size_t)(P * Q * N), Sum());
  for (int64_t p = 0; p < P; p++)
    for (int64_t q = 0; q < Q; q++)
      for (int64_t j = 0; j < N; j++)
        for (int64_t k = 0; k < K; k++)
          add_prod(r.v[(size_t)((p * Q + q) * N + j)], a, p * K + k, b, (q * K + k) * N + j);
  return true;
}
static void dot(Case& c) {
  int dt = gen_dt(c);
  ShapeOpt o;
  o.max_elems = 120;
  o.max_dim = 9;
  o.zero = true;
  Dims A, B;
  auto g = [&](int lo, int hi, int64_t elems) {
    ShapeOpt p = o;
    p.min_nd = lo;
    p.max_nd = hi;
    p.max_elems = elems;
    return gen_dims(c, p);
  };
  int kind = (int)c.i(0, 5);
  switch (kind) {
    case 0: {
      A = {c.chance(5) ? c.i(0, 3000) : c.chance(1) ? c.i(3000, 70000) : c.i(0, 12)};
      B = A;
      break;
    }
    case 1:
      A = g(2, 2, 400); B = g(2, 2, 400); B[0] = A[1];
      if (c.chance(1)) { A = {c.i(1, 2), c.i(1000, 70000)}; B = {A[1], c.i(1, 2)}; }
      break;
    case 2: A = {}; B = g(0, 6, c.chance(2) ? 70000 : 300); if (c.chance(50)) std::swap(A, B); break;
    case 3:
      A = g(2, 6, 200);
      if (c.chance(1)) { int64_t x = c.i(200, 3000); A = c.chance(50) ? Dims{x, c.i(1, 3)} : Dims{c.i(1, 3), x * 20}; if (c.chance(10)) A[0] = 66000; if (A[0] > 60000) A[1] = 1; }
      B = {A.back()};
      break;
    case 4:
      A = g(3, c.chance(5) ? 9 : 5, 60); B = g(3, c.chance(5) ? 9 : 5, 60); B[B.size() - 2] = A.back();
      if (c.chance(2)) {  // one large extent among small ones
        A = {c.i(1, 3), c.i(1, 2), c.i(1, 2)};
        B = {c.i(1, 2), A[2], c.i(1, 2)};
        int64_t x = c.chance(50) ? c.pick<int64_t>({127, 129, 255, 257, 300}) : c.chance(60) ? c.i(300, 3000) : c.pick<int64_t>({32767, 32768, 32769, 33000});
        if (x > 3000) { for (auto& e : A) e = std::min<int64_t>(e, 2); for (auto& e : B) e = 1; A[2] = B[1] = 1; }
        switch (c.i(0, 4)) {
          case 0: A[0] = x; if (x > 3000) A[1] = 1; break;
          case 1: A[1] = x; break;
          case 2: B[0] = x; break;
          case 3: B[2] = x; break;
          default: A[2] = B[1] = x; break;
        }
      }
      if (c.chance(1)) {
        static const int64_t x[] = {129, 257, 300, 32769, 65537};
        A = {1, c.i(1, 2), c.i(1, 2)};
        B = {1, A[2], 1};
        switch (c.i(0, 4)) {
          case 0: A[0] = x[c.i(0, 2)]; break;
          case 1: A[1] = x[c.i(0, 2)]; break;
          case 2: B[0] = x[c.i(0, 2)]; break;
          case 3: B[2] = x[c.i(0, 2)]; break;
          default: A[2] = B[1] = x[c.i(0, 4)]; break;
        }
      }
      break;
    default: A = g(1, 5, 60); B = g(1, 5, 60); break;  // anything
  }
  if (g_big) {
    int64_t n = std::min(g_big, c.chance(50) ? c.pick<int64_t>({1 << 17, 1 << 18, 1 << 20, 1000000, 1 << 21}) + c.i(-2, 5000) : c.i(1 << 17, g_big));
    kind = (int)c.i(0, 4);
    switch (kind) {
      case 0: A = {n}; B = {n}; break;
      case 1: A = {n / 4, 2}; B = {2, 3}; break;
      case 2: A = {}; B = c.chance(50) ? Dims{n} : Dims{n / 6, 2, 3}; if (c.chance(50)) std::swap(A, B); break;
      case 3: A = c.chance(50) ? Dims{n / 8, 4} : c.chance(50) ? Dims{3, n / 3} : Dims{2, 2, n / 4}; B = {A.back()}; break;
      default: A = {1, 2, n / 8}; B = {2, n / 8, 2}; if (c.chance(30)) { A = {n / 20, 2, 2}; B = {1, 2, 2}; } break;
    }
  }
  bool self = !g_big && c.chance(4);  // one tensor on both sides
  if (self) {
    if (A.size() >= 2) A[A.size() - 2] = A.back() = std::min<int64_t>(A.back(), 9);
    if (A.size() >= 3 && prod(A) > 100) A = {c.i(1, 4), 3, 3};
    B = A;
    kind = A.empty() ? 2 : A.size() == 1 ? 0 : A.size() == 2 ? 1 : 4;
  }
  int64_t K = A.empty() || B.empty() ? 1 : A.back();
  TV a = gen_factor(c, dt, A, K), b = gen_factor(c, dt, B, K);
  if (c.chance(8)) {
    sprinkle(c, a);
    if (c.chance(60)) sprinkle(c, b);
  }
  if (c.chance(20)) a.dev.id = b.dev.id = 2;
  if (self) { b = a; c.cls("one tensor twice"); }
  c.note("%s . %s", str(a).c_str(), str(b).c_str());
  Prod want;
  bool ok = dot_model(a, b, want);
  Tensor ta = mk(c, a), tb = self ? ta : mk(c, b), out = kUntouched;
  uint64_t live = alloc::live();
  Status s = LIB(aitisa_dot(ta, tb, &out));
  if (ok) {
    want_ok(c, "dot", s, out);
    want_prod(c, "dot", rd(c, out), dt, want);
    if (!want.v.empty() && want.v[0].n > 1) c.nontrivial();
    static const char* const nm[] = {"vectors", "matrices", "scalar and tensor", "tensor and vector", "two tensors", "other"};
    c.cls(nm[kind]);
    drop(c, out);
  } else {
    c.cls("rejected");
    c.nontrivial();
    want_rejected(c, "dot of operands that have no dot product", s);
    if (out != kUntouched) c.fail("a rejected dot set the output");
    if (alloc::live() != live) c.fail("a rejected dot left memory behind");
  }
  want_same(c, "the first operand", ta, a);
  want_same(c, "the second operand", tb, b);
  drop(c, ta);
  if (!self) drop(c, tb);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static void mismatch(Case& c) {  // type and device
  int da = gen_dt(c), db = da;
  Device v1 = {DEVICE_CPU, 0}, v2 = {DEVICE_CPU, 0};
  Dims A = {3}, B = {3};
  switch (c.i(0, 3)) {
    case 0: break;
    case 1: A = {2, 3}; B = {3, 2}; break;
    case 2: A = {}; B = {4}; break;
    default: A = {2, 3, 2}; B = {3, 2, 3}; break;
  }
  if (c.chance(50)) db = (da + (int)c.i(1, 9)) % NDT;
  else if (c.chance(50)) v1.type = DEVICE_CUDA;
  else v2.type = DEVICE_CUDA;
  TV a = gen_tv(c, da, A, P_SMALL), b = gen_tv(c, db, B, P_SMALL);
  a.dev = v1;
  b.dev = v2;
  c.note("%s dev %d . %s dev %d", str(a).c_str(), v1.type, str(b).c_str(), v2.type);
  Tensor ta = mk(c, a), tb = mk(c, b), out = kUntouched;
  Status s = LIB(aitisa_dot(ta, tb, &out));
  want_status(c, "dot of different types or devices", s, STATUS_NOT_SUPPORTED);
  if (out != kUntouched) c.fail("a rejected dot set the output");
  want_same(c, "the first operand", ta, a);
  want_same(c, "the second operand", tb, b);
  c.nontrivial();
  drop(c, ta);
  drop(c, tb);
  if (alloc::live()) c.fail("memory is left behind");
}
std::vector<pbt::Target> pbt::targets() {
  return {{"dot", dot, 60000, 1500000, V_ALL}, {"big", big<dot>, 60, 3000, V_ALL}, {"type_and_device", mismatch, 20000, 200000, V_ALL}};
}
