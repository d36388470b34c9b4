// C16: matrix products that do not exist
#include "linalg.hpp"
namespace pbt {
const char* const kProperty = "C16";
const char* const kRule =
    "two random tensors under matmul with one thing wrong: a scalar operand, contracted extents or "
    "batch extents that do not match (zero extents included), different types, another device; "
    "non-trivial: two or more dimensions on either side";
}
static void reject(Case& c) {
  int da = gen_dt(c), db = da;
  ShapeOpt o;
  o.min_nd = 1;
  o.max_nd = 5;
  o.max_elems = 200;
  o.max_dim = 6;
  o.zero = true;
  Dims A, B;
  Device v1 = {DEVICE_CPU, 0}, v2 = {DEVICE_CPU, 0};
  int what = (int)c.i(0, 4);
  Status want = STATUS_DIMENSIONS_MISMATCH;
  auto match = [&] {  // two shapes that can be multiplied
    A = gen_dims(c, o);
    B = gen_dims(c, o);
    B[B.size() == 1 ? 0 : B.size() - 2] = A.back();
    for (size_t k = 0; k + 2 < A.size() && k + 2 < B.size(); k++) {
      int64_t& x = A[A.size() - 3 - k];
      int64_t& y = B[B.size() - 3 - k];
      if (x != 1 && y != 1) y = x;
    }
  };
  match();
  switch (what) {
    case 0: {
      int64_t& y = B[B.size() == 1 ? 0 : B.size() - 2];
      int64_t x = A.back();
      y = c.pick<int64_t>({x + 1, x - 1, 1, x * 2, A[0], B.back(), 0});
      if (c.chance(2)) y = x + (prod(B) / std::max<int64_t>(1, y) <= 4 ? 65536 : 256);  // equal in a narrower integer
      if (y < 0 || y == x) y = x + 1;
      c.cls("contracted extents");
      break;
    }
    case 1: {
      while (A.size() < 3) A.insert(A.begin(), c.i(2, 4));
      while (B.size() < 3) B.insert(B.begin(), c.i(2, 4));
      B[B.size() - 2] = A.back();
      int64_t k = c.i(0, (int64_t)std::min(A.size(), B.size()) - 3);
      int64_t& x = A[A.size() - 3 - (size_t)k];
      int64_t& y = B[B.size() - 3 - (size_t)k];
      x = c.pick<int64_t>({2, 3, 4, 0, 6});
      y = c.pick<int64_t>({2, 3, 4, 0, 6});
      if (x == y) y = x + 2;
      if (y == 1) y = 5;
      c.cls("batch extents");
      break;
    }
    case 2:
      if (c.chance(50)) A.clear(); else B.clear();
      if (c.chance(20)) { A.clear(); B.clear(); }
      want = STATUS_INVALID_ARGUMENT;
      c.cls("scalar operand");
      break;
    case 3:
      db = (da + (int)c.i(1, 9)) % NDT;
      if (c.chance(30)) { static const int twin[] = {U8, I8, U16, I16, F32, F32, F64, F64, I32, U64}; db = twin[da]; }
      want = STATUS_NOT_SUPPORTED;
      c.cls("types");
      break;
    default:
      if (c.chance(50)) v1.type = DEVICE_CUDA; else v2.type = DEVICE_CUDA;
      want = STATUS_NOT_SUPPORTED;
      c.cls("device");
      break;
  }
  TV a = gen_tv(c, da, A, P_POS), b = gen_tv(c, db, B, P_POS);
  a.dev = v1;
  b.dev = v2;
  c.note("%s dev %d x %s dev %d", str(a, 3).c_str(), v1.type, str(b, 3).c_str(), v2.type);
  Tensor ta = mk(c, a), tb = mk(c, b), out = kUntouched;
  uint64_t live = alloc::live();
  Status s = LIB(aitisa_matmul(ta, tb, &out));
  want_status(c, "matmul of operands that cannot be multiplied", s, want);
  if (out != kUntouched) c.fail("a rejected matmul set the output");
  if (alloc::live() != live) c.fail("a rejected matmul left memory behind");
  want_same(c, "the first operand", ta, a);
  want_same(c, "the second operand", tb, b);
  if (A.size() >= 2 || B.size() >= 2) c.nontrivial();
  drop(c, ta);
  drop(c, tb);
}
std::vector<pbt::Target> pbt::targets() { return {{"reject", reject, 250000, 6000000, V_ALL}}; }
