// C15: matrix products
#include "linalg.hpp"
namespace pbt {
const char* const kProperty = "C15";
const char* const kRule =
    "two random tensors of one type (10 types) with 1-16 dimensions whose contracted extents agree and "
    "whose leading dimensions broadcast (equal, 1, or missing), zero extents included, one tensor on both sides included, and non-square "
    "matrices with extents up to 40, now and then an extent, a vector or a batch of up to 70000 (big: 130000 to 2 million elements), and infinities and NaNs; non-trivial: two or more "
    "products are summed and the output has two or more elements";
}
static void matmul(Case& c) {
  int dt = gen_dt(c);
  int64_t e[3];
  for (auto& x : e) {
    switch (c.weighted({15, 65, 15, 5})) {
      case 0: x = 1; break;
      case 1: x = c.i(2, 6); break;
      case 2: x = c.i(5, 12); break;
      default: x = c.i(10, 40); break;
    }
  }
  if (c.chance(3)) e[c.i(0, 2)] = 0;
  if (c.chance(1)) e[1] = c.i(40, 3000);
  int64_t limit = 20000;
  if (c.chance(1)) {  // one very large extent
    for (auto& x : e) x = std::min<int64_t>(x, 2);
    e[c.i(0, 2)] = c.chance(40) ? c.pick<int64_t>({127, 128, 256, 257, 32767, 32768, 65535, 65536, 65537}) : c.i(50, 70000);
    limit = 150000;
  }
  bool many = !g_big && c.chance(1);  // very many matrices
  int na = (int)c.weighted({20, 35, 25, 12, 8, 5}) + 1, nb = (int)c.weighted({20, 35, 25, 12, 8, 5}) + 1;
  if (c.chance(3)) (c.chance(50) ? na : nb) = (int)c.i(6, 12);  // very many batch dimensions
  Dims A, B;
  bool spread = !g_big && !many && c.chance(1);  // many matrices under another batch dimension
  if (spread) {
    na = nb = (int)c.i(4, 6);
    e[0] = c.i(1, 2); e[1] = c.i(1, 2); e[2] = c.i(1, 2);
  }
  bool twos = !g_big && !many && !spread && c.chance(1) && c.chance(30);  // more batch dimensions still
  if (twos) {
    na = nb = (int)c.i(12, 16);
    if (c.chance(30)) (c.chance(50) ? na : nb) = (int)c.i(2, 12);
    e[0] = c.i(1, 2); e[1] = c.i(1, 2); e[2] = 1;
  }
  int ba = std::max(0, na - 2), bb = std::max(0, nb - 2);
  int64_t budget = std::max<int64_t>(1, limit / std::max<int64_t>(1, e[0] * e[1] * e[2]));
  for (int k = 0; k < std::max(ba, bb); k++) {
    int64_t x = c.chance(25) ? 1 : c.i(2, 4);
    if (c.chance(1)) x = 0;
    if (twos) x = c.chance(10) ? 1 : 2;
    if (many && k == 0) { x = c.pick<int64_t>({127, 129, 256, 300, 32769, 65537}); budget = std::max<int64_t>(budget, 80000 / std::max<int64_t>(1, e[0] * e[1] * e[2])); x = std::min(x, budget); }
    if (spread && k == std::max(ba, bb) - 1) { budget = 150000; x = c.pick<int64_t>({127, 128, 129, 256, 257, 300, 20000, 32767, 32768, 32769, 40000}); }
    if (x > budget) x = 1;
    budget /= std::max<int64_t>(1, x);
    A.push_back(x);
    B.push_back(x);
  }
  if (ba > bb) B.erase(B.begin(), B.begin() + (ba - bb));
  else A.erase(A.begin(), A.begin() + (bb - ba));
  for (int k = 0; k < std::min(ba, bb); k++)  // broadcast one side
    switch (c.weighted({50, 25, 25})) {
      case 1: A[A.size() - 1 - k] = 1; break;
      case 2: B[B.size() - 1 - k] = 1; break;
    }
  if (na >= 2) A.push_back(e[0]);
  A.push_back(e[1]);
  B.push_back(e[1]);
  if (nb >= 2) B.push_back(e[2]);
  if (nb < 2 && na < 2 && c.chance(20)) { A[0] = B[0] = c.chance(5) ? c.i(5000, 70000) : c.i(1, 5000); }
  if (g_big) {
    int64_t n = std::min(g_big, c.chance(50) ? c.pick<int64_t>({1 << 17, 1 << 18, 1 << 20, 1000000, 1 << 21}) + c.i(-2, 5000) : c.i(1 << 17, g_big));
    switch (c.i(0, 6)) {
      case 0: A = {n}; B = {n}; break;
      case 1: A = {n / 4, 4}; B = {4}; break;
      case 2: A = {3, n / 3}; B = {n / 3}; break;
      case 3: A = {2, n / 4}; B = {n / 4, 2}; break;
      case 4: A = {n / 4, 2}; B = {2, 2}; break;
      case 5: A = {2, 1}; B = {1, n / 2}; break;
      default: A = {n / 12, 2, 2}; B = {n / 12, 2, 1}; if (c.chance(40)) B[0] = 1; break;
    }
    na = (int)A.size();
    nb = (int)B.size();
    e[1] = A.back();
  }
  bool self = !g_big && c.chance(4);  // a tensor times itself
  if (self) {
    if (A.size() >= 2) A[A.size() - 2] = A.back() = std::min<int64_t>(A.back(), 40);
    if (prod(A) > 5000) A = {e[1] % 40, e[1] % 40};
    B = A;
    e[1] = A.back();
    na = nb = (int)A.size();
  }
  TV a = gen_factor(c, dt, A, A.back()), b = gen_factor(c, dt, B, A.back());
  if (c.chance(8)) {
    sprinkle(c, a);
    if (c.chance(60)) sprinkle(c, b);
  }
  if (c.chance(20)) a.dev.id = b.dev.id = 3;
  if (self) b = a;
  c.note("%s x %s", str(a).c_str(), str(b).c_str());
  Prod want;
  if (!matmul_model(a, b, want)) c.fail("generator: shapes do not match");
  if (want.v.size() > 1 && e[1] > 1) c.nontrivial();
  Tensor ta = mk(c, a), tb = self ? ta : mk(c, b), out = kUntouched;
  Status s = LIB(aitisa_matmul(ta, tb, &out));
  want_ok(c, "matmul", s, out);
  want_prod(c, "matmul", rd(c, out), dt, want);
  want_same(c, "the first operand", ta, a);
  want_same(c, "the second operand", tb, b);
  char nm[32];
  snprintf(nm, sizeof nm, "%dD x %dD", std::min(na, 3), std::min(nb, 3));
  c.cls(nm);
  bool br = false;
  for (size_t k = 0; k + 2 < A.size() && k + 2 < B.size(); k++) br |= A[A.size() - 3 - k] != B[B.size() - 3 - k];
  if (br) c.cls("batch dimensions broadcast");
  drop(c, ta);
  if (!self) drop(c, tb);
  else c.cls("one tensor twice");
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"matmul", matmul, 150000, 4000000, V_ALL}, {"big", big<matmul>, 90, 4000, V_ALL}}; }
