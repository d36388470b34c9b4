// C06: type conversion
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C06";
const char* const kRule =
    "a random tensor (0-20 dimensions, up to 70000 elements) and one of the 100 pairs of source and "
    "target type; integers over the whole range, floating-point values to integer types within the "
    "target's range; non-trivial: different types and two or more elements";
}
// conversion of one number, independent of the library's
static void conv1(const TV& in, int64_t k, TV& out) {
  with_type(out.dt, [&](auto z) {
    typedef decltype(z) O;
    if (is_float(in.dt)) {
      long double x = in.num(k);
      if constexpr (std::is_floating_point<O>::value) {
        out.set<O>(k, (O)x);
      } else {
        out.set<O>(k, (O)(__int128)truncl(x));
      }
    } else {
      __int128 x = with_type(in.dt, [&](auto y) {
        typedef decltype(y) I;
        if constexpr (std::is_floating_point<I>::value) return (__int128)0;
        else return (__int128)in.get<I>(k);
      });
      if constexpr (std::is_floating_point<O>::value) {
        out.set<O>(k, (O)(long double)x);  // one rounding: long double holds every 64-bit integer
      } else {
        unsigned __int128 m = (unsigned __int128)x & ((((unsigned __int128)1) << (8 * sizeof(O))) - 1);
        uint64_t b = (uint64_t)m;
        O o;
        memcpy(&o, &b, sizeof o);
        out.set<O>(k, o);
      }
    }
    return 0;
  });
}
static void cast(Case& c) {
  int a = gen_dt(c), b = gen_dt(c);
  ShapeOpt o;
  o.max_nd = 7;
  o.zero = true;
  o.max_elems = gen_budget(c, 200, 70000, 1);
  Dims d = gen_dims(c, o);
  TV v = gen_tv(c, a, d, (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_EDGE, P_BYTES}));
  v.dev = gen_dev(c);
  if (is_float(a) && v.n() && c.chance(25)) {  // just beside an integer, a limit of the target, or half-way between two floats
    for (int q = (int)c.i(1, 4); q > 0; q--) {
      double x = c.chance(40) ? c.pick<double>({0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0})
                              : (double)c.i(-70000, 70000);
      if (c.chance(50)) x = -x;
      if (a == F64 && b == F32 && c.chance(70)) {
        float f = (float)(x * c.pick<double>({1, 1.1, 1e-30, 1e-44, 1e20}));
        x = ((double)f + (double)std::nextafterf(f, FLT_MAX)) / 2;
      }
      int way = (int)c.i(-1, 1);
      int64_t at = c.i(0, v.n() - 1);
      if (a == F32) v.set<float>(at, way ? std::nextafterf((float)x, way * FLT_MAX) : (float)x);
      else v.set<double>(at, way ? std::nextafter(x, way * 1e308) : x);
    }
  }
  if (is_float(a)) {  // bring values into the range of the target
    long double lo, hi;
    with_type(b, [&](auto z) {
      typedef decltype(z) T;
      lo = (long double)std::numeric_limits<T>::lowest();
      hi = (long double)std::numeric_limits<T>::max();
      return 0;
    });
    for (int64_t k = 0; k < v.n(); k++) {
      long double x = v.num(k);
      bool ok = std::isnan(x) || std::isinf(x) ? is_float(b) : is_float(b) ? x >= lo && x <= hi : truncl(x) >= lo && truncl(x) <= hi;
      if (ok) continue;
      double y = std::isfinite((double)x) ? (double)fmodl(x, b == U64 || b == I64 ? 9.0e18L : b >= I32 ? 2.1e9L : hi + 1) : 1.5;
      if (!is_float(b) && lo == 0 && y < 0) y = -y;
      if (is_float(b)) y = std::ldexp((double)x, -900);
      if (is_float(b) && std::fabs(y) > FLT_MAX) y = 2.5;
      if (a == F32) v.set<float>(k, (float)y); else v.set<double>(k, y);
      x = v.num(k);
      if (!(is_float(b) ? x >= lo && x <= hi : truncl(x) >= lo && truncl(x) <= hi)) { if (a == F32) v.set<float>(k, 1.75f); else v.set<double>(k, 1.75); }
    }
  }
  c.note("%s -> %s", str(v).c_str(), kDtName[b]);
  Tensor t = mk(c, v), out = kUntouched;
  uint64_t calls = alloc::calls();
  Status s = LIB(aitisa_cast(t, dtype_of(b), &out));
  want_same(c, "cast: the input", t, v);
  if (a == b) {
    want_status(c, "a cast to the tensor's own type", s, STATUS_SUCCESS);
    if (out != kUntouched) c.fail("a cast to the tensor's own type set the output");
    if (alloc::live() && alloc::calls() != calls) c.fail("a cast to the tensor's own type allocated memory");
    c.cls("same type");
    drop(c, t);
    if (alloc::live()) c.fail("memory is left behind");
    return;
  }
  want_ok(c, "cast", s, out);
  TV want(b, d);
  for (int64_t k = 0; k < v.n(); k++) conv1(v, k, want);
  TV got = rd(c, out);
  want_nums(c, "cast", got, want, true);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("cast lost the device");
  if (v.n()) {
    memset(aitisa_tensor_data(out), 0x5A, want.b.size());
    want_same(c, "cast: the input after the output was overwritten", t, v);
  }
  if (v.n() >= 2) c.nontrivial();
  c.cls(is_float(a) ? (is_float(b) ? "float to float" : "float to integer") : (is_float(b) ? "integer to float" : "integer to integer"));
  if (v.n() > 65535) c.cls("more than 65535 elements");
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("memory is left behind");
}
static void unknown(Case& c) {
  TV v = gen_tv(c, gen_dt(c), gen_dims(c, ShapeOpt()), P_BYTES);
  DataType t = dtype_of(gen_dt(c));
  t.code = (decltype(t.code))(int)c.pick<int64_t>({10, 11, 64, 255, -1, INT32_MAX, INT32_MIN});
  c.note("%s -> code %d", str(v, 4).c_str(), (int)t.code);
  Tensor x = mk(c, v), out = kUntouched;
  Status s = LIB(aitisa_cast(x, t, &out));
  want_status(c, "a cast to an unknown type", s, STATUS_NOT_SUPPORTED);
  if (out != kUntouched) c.fail("a rejected cast set the output");
  want_same(c, "a rejected cast: the input", x, v);
  drop(c, x);
  if (alloc::live()) c.fail("memory is left behind");
  if (v.n() > 1) c.nontrivial();
}
std::vector<pbt::Target> pbt::targets() {
  return {{"cast", cast, 150000, 5000000, V_ALL}, {"big", big<cast>, 90, 4000, V_ALL}, {"unknown_type", unknown, 20000, 200000, V_ALL}};
}
