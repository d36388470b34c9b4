// C03: constant-filled tensors
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C03";
const char* const kRule =
    "a random type, shape (0-8 dimensions, zero extents, up to 70000 elements), device and value "
    "(integers over the whole range of the type, fractions, for float types also infinities, NaN, "
    "signed zero, subnormals); non-trivial: two or more elements and a value other than 0";
}
static void full(Case& c) {
  int dt = gen_dt(c);
  ShapeOpt o;
  o.max_nd = 8;
  o.zero = true;
  o.max_elems = gen_budget(c, 400, 70000, 2);
  Dims d = gen_dims(c, o);
  Device dev = gen_dev(c);
  double val;
  if (is_float(dt)) {
    if (c.chance(50)) {
      uint64_t b = c.bits();
      memcpy(&val, &b, 8);
      if (dt == F32 && std::isfinite(val) && std::fabs(val) > FLT_MAX) val = std::ldexp(val, -900);
      if (dt == F32 && std::isfinite(val) && std::fabs(val) > FLT_MAX) val = 1.5;
    } else {
      val = c.pick<double>({0.0, 1.0, -1.0, 0.1, -0.0, INFINITY, -INFINITY, NAN, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45, 16777217.0, 1.0 / 3, 1e-300, 0.5, 2.5});
    }
  } else {
    val = with_type(dt, [&](auto z) {
      typedef decltype(z) T;
      typedef std::numeric_limits<T> L;
      double lo = (double)L::min(), hi = sizeof(T) == 8 ? std::nextafter((double)L::max(), 0) : (double)L::max();
      double x;
      switch (c.i(0, 4)) {
        case 4:  // just beside an integer
          x = c.chance(30) ? c.pick<double>({lo, hi, 0, -0.0, 1, -1}) : (double)c.i(-40000, 40000);
          x = std::nextafter(x, c.chance(50) ? -1e300 : 1e300);
          if (sizeof(T) < 8 && c.chance(70)) return std::max(lo - 0.999, std::min(hi + 0.999, x + (c.chance(20) ? c.pick<double>({0.5, -0.5, 0.998, -0.998}) : 0)));
          break;
        case 0: x = (double)c.i(-200, 200); break;
        case 1: x = c.pick<double>({lo, hi, hi - 1, lo + 1, 0.5, 0.999, 127, 128, 255, 32767, 2147483647.0, 2147483648.0, 4294967295.0}); break;
        case 2: { uint64_t r = c.bits(); x = (double)(T)r; break; }
        default: x = (double)c.i(-100000, 100000) / 8; break;
      }
      if (x > hi) x = hi;
      if (x < lo) x = lo;
      return x;
    });
  }
  c.note("%s%s value %.17g", kDtName[dt], str(d).c_str(), val);
  TV want(dt, d);
  want.dev = dev;
  with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    T x = (T)val;
    for (int64_t k = 0; k < want.n(); k++) want.set<T>(k, x);
    return 0;
  });
  Dims arg = d;
  Tensor t = kUntouched;
  Status s = LIB(aitisa_full(dtype_of(dt), dev, arg.empty() ? nullptr : arg.data(), (int64_t)d.size(), val, &t));
  want_ok(c, "aitisa_full", s, t);
  if (arg != d) c.fail("aitisa_full changed its extents argument");
  for (auto& x : arg) x = -3;
  want_nums(c, "aitisa_full", rd(c, t), want, true);
  TV got = rd(c, t);
  if (got.dev.type != dev.type || got.dev.id != dev.id) c.fail("aitisa_full lost the device");
  if (want.n() > 1 && val != 0) c.nontrivial();
  if (want.n() > 65535) c.cls("more than 65535 elements");
  drop(c, t);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"full", full, 120000, 4000000, V_ALL}, {"big", big<full>, 90, 4000, V_ALL}}; }
