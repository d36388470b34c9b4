// C21: softmax
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C21";
const char* const kRule =
    "a random float or double tensor (0-8 dimensions, zero extents, finite values of any magnitude, "
    "now and then thousands of elements) and an axis: -1 (all elements) or one of the dimensions; or "
    "an axis outside; non-trivial: the axis has two or more positions with different values";
}
static void softmax(Case& c) {
  int dt = c.chance(50) ? F32 : F64;
  ShapeOpt o;
  o.max_nd = 7;
  o.zero = true;
  o.max_elems = gen_budget(c, 200, 70000, 1);
  TV v = gen_tv(c, dt, gen_dims(c, o), (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_EDGE}));
  v.dev = gen_dev(c);
  int64_t n = v.n(), nd = (int64_t)v.dims.size();
  if (c.chance(40)) {
    pbt::Rng g(c.bulk_seed());
    double sc = c.pick<double>({10, 80, 1000, 1e30}), base = c.pick<double>({0, 1e4, -1e4, 700, -700});
    for (int64_t k = 0; k < n; k++) {
      double x = base + (g.unit() * 2 - 1) * sc;
      if (dt == F32) v.set<float>(k, (float)x); else v.set<double>(k, x);
    }
  }
  int64_t axis = c.i(-1, nd - 1);
  bool bad = c.chance(12);
  if (bad) axis = c.pick<int64_t>({nd, nd + 1, -2, -nd - 1 < -1 ? -nd - 1 : -3, INT32_MAX, INT32_MIN});
  c.note("%s axis %d", str(v).c_str(), (int)axis);
  Tensor t = mk(c, v), out = kUntouched;
  uint64_t live = alloc::live();
  Status s = LIB(aitisa_softmax(t, (int)axis, &out));
  want_same(c, "softmax: the input", t, v);
  if (bad) {
    c.cls("rejected axis");
    c.nontrivial();
    want_status(c, "softmax along an axis the tensor does not have", s, STATUS_NOT_SUPPORTED);
    if (out != kUntouched) c.fail("a rejected softmax set the output");
    if (alloc::live() != live) c.fail("a rejected softmax left memory behind");
    drop(c, t);
    return;
  }
  want_ok(c, "softmax", s, out);
  TV got = rd(c, out);
  want_shape(c, "softmax", got, dt, v.dims);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("softmax lost the device");
  int64_t len = axis < 0 ? n : v.dims[axis], inner = axis < 0 ? 1 : prod(v.dims, axis + 1, nd);
  int64_t groups = len ? n / len : 0;
  for (int64_t g = 0; g < groups; g++) {
    int64_t base = axis < 0 ? 0 : (g / inner) * len * inner + g % inner;
    long double mx = v.num(base), total = 0, sum = 0;
    for (int64_t k = 0; k < len; k++) mx = std::max(mx, v.num(base + k * inner));
    for (int64_t k = 0; k < len; k++) total += expl(v.num(base + k * inner) - mx);
    for (int64_t k = 0; k < len; k++) {
      long double d = v.num(base + k * inner) - mx, w = expl(d) / total, y = got.num(base + k * inner);
      if (d != 0) c.nontrivial();
      long double tol = eps_of(dt) * ((long double)len + 16 + 2 * std::min<long double>(-d, 2000)) * w + 2 * tiny_of(dt);
      if (!(fabsl(y - w) <= tol) || y < 0 || y > 1 + 8 * eps_of(dt))
        c.fail("softmax: element %" PRId64 " is %s, expected %.17Lg", base + k * inner, elem_str(got, base + k * inner).c_str(), w);
      sum += y;
    }
    if (!(fabsl(sum - 1) <= eps_of(dt) * (2.0L * len + 16))) c.fail("softmax: the values along the axis add up to %.17Lg", sum);
  }
  c.cls(axis < 0 ? "all elements" : inner == 1 ? "last axis" : axis == 0 ? "first axis" : "middle axis");
  if (n) {
    memset(aitisa_tensor_data(out), 0x5A, v.b.size());
    want_same(c, "the input after the output was overwritten", t, v);
  }
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"softmax", softmax, 150000, 5000000, V_ALL}, {"big", big<softmax>, 90, 4000, V_ALL}}; }
