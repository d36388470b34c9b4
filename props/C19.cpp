// C19: square roots
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C19";
const char* const kRule =
    "a random tensor of any of the 10 types (0-20 dimensions, zero extents, up to 70000 elements) with "
    "non-negative values over the whole range, or with negative ones planted at random positions; "
    "non-trivial: a value above 1 that is not a perfect square, or a negative value that is not first";
}
static void root(Case& c) {
  int dt = gen_dt(c);
  ShapeOpt o;
  o.max_nd = 8;
  o.zero = true;
  o.max_elems = gen_budget(c, 200, 70000, 1);
  TV v = gen_tv(c, dt, gen_dims(c, o), (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_EDGE, P_BYTES}));
  v.dev = gen_dev(c);
  int64_t n = v.n(), first = n;
  bool neg = n && (is_float(dt) || is_signed_int(dt)) && c.chance(25);
  with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    for (int64_t k = 0; k < n; k++) {
      T x = v.get<T>(k);
      if (x < 0) x = x == std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::max() : (T)(0 - x);
      v.set<T>(k, x);
    }
    if (neg)
      for (int j = (int)c.small(1, 3); j > 0; j--) {
        int64_t p = c.chance(30) ? n - 1 : c.i(0, n - 1);
        first = std::min(first, p);
        T x;
        if (std::is_floating_point<T>::value) x = (T)c.pick<double>({-1.0, -0.5, -1e-30, -1e30, -INFINITY, -(double)std::numeric_limits<T>::denorm_min()});
        else x = c.chance(50) ? (T)-1 : (T)(0 - (T)c.i(1, 100));
        v.set<T>(p, x);
      }
    return 0;
  });
  c.note("%s", str(v).c_str());
  Tensor t = mk(c, v), out = kUntouched;
  uint64_t live = alloc::live();
  Status s = LIB(aitisa_sqrt(t, &out));
  want_same(c, "sqrt: the input", t, v);
  if (neg) {
    c.cls("negative");
    if (first > 0) c.nontrivial();
    want_status(c, "the square root of a negative number", s, STATUS_MATH_ERROR);
    if (out != kUntouched) c.fail("a failed sqrt set the output");
    if (alloc::live() != live) c.fail("a failed sqrt left memory behind");
    drop(c, t);
    return;
  }
  want_ok(c, "sqrt", s, out);
  TV got = rd(c, out);
  want_shape(c, "sqrt", got, dt, v.dims);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("sqrt lost the device");
  for (int64_t k = 0; k < n; k++) {
    long double x = v.num(k), y = got.num(k), r = sqrtl(x);
    bool ok;
    if (is_float(dt)) {
      if (std::isnan(x)) ok = std::isnan(y);
      else if (std::isinf(x)) ok = std::isinf(y) && y > 0;
      else ok = fabsl(y - r) <= eps_of(dt) * r + (dt == F32 ? 1e-45L : 5e-324L) * (x != 0);
    } else {
      uint64_t f = (uint64_t)r;
      while ((unsigned __int128)f * f > (unsigned __int128)(uint64_t)x) f--;
      while ((unsigned __int128)(f + 1) * (f + 1) <= (unsigned __int128)(uint64_t)x) f++;
      ok = x < 4503599627370496.0L ? y == (long double)f : fabsl(y - r) <= 1.0L;
    }
    if (x > 1 && r != floorl(r)) c.nontrivial();
    if (!ok) c.fail("the square root of %s is given as %s", elem_str(v, k).c_str(), elem_str(got, k).c_str());
  }
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"root", root, 250000, 8000000, V_ALL}, {"big", big<root>, 90, 4000, V_ALL}}; }
