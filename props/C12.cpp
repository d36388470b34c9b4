// C12: elementwise arithmetic
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C12";
const char* const kRule =
    "two random tensors of one type and shape (10 types, 0-20 dimensions, zero extents, up to 70000 "
    "elements; small values, extremes, any bit pattern; now and then the same tensor twice) under "
    "add, sub, mul and div; signed 32- and 64-bit pairs whose exact result does not fit, and undefined "
    "integer quotients, are replaced; non-trivial: two or more elements, not all equal";
}
template <class T>
static bool fits(__int128 x) {
  return x >= (__int128)std::numeric_limits<T>::min() && x <= (__int128)std::numeric_limits<T>::max();
}
// The value of a op b; false when the pair is outside the property.
template <class T>
static bool apply(int op, T a, T b, T& r) {
  if constexpr (std::is_floating_point<T>::value) {
    volatile T x = a, y = b;
    r = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
    return true;
  } else {
    if (op == 3) {
      if (b == 0) return false;
      __int128 q = (__int128)a / (__int128)b;
      if (!fits<T>(q)) return false;
      r = (T)q;
      return true;
    }
    __int128 x = op == 0 ? (__int128)a + b : op == 1 ? (__int128)a - b : (__int128)a * b;
    if (std::is_signed<T>::value && sizeof(T) >= 4 && !fits<T>(x)) return false;
    unsigned __int128 m = (unsigned __int128)x;
    uint64_t bits = (uint64_t)m;
    memcpy(&r, &bits, sizeof r);  // modulo 2^bits
    return true;
  }
}
static Status call(int op, Tensor a, Tensor b, Tensor* o) {
  switch (op) {
    case 0: return LIB(aitisa_add(a, b, o));
    case 1: return LIB(aitisa_sub(a, b, o));
    case 2: return LIB(aitisa_mul(a, b, o));
    default: return LIB(aitisa_div(a, b, o));
  }
}
static const char* const kOp[] = {"add", "sub", "mul", "div"};
static void arith(Case& c) {
  int dt = gen_dt(c), op = (int)c.i(0, 3);
  ShapeOpt o;
  o.max_nd = 8;
  o.zero = true;
  o.max_elems = gen_budget(c, 300, 70000, 1);
  Dims d = gen_dims(c, o);
  Profile ps[] = {P_SMALL, P_UNIT, P_WIDE, P_EDGE, P_BYTES};
  TV a = gen_tv(c, dt, d, ps[c.i(0, 4)]), b = gen_tv(c, dt, d, ps[c.i(0, 4)]), want(dt, d);
  a.dev = gen_dev(c, true);
  b.dev = c.chance(50) ? a.dev : gen_dev(c, true);
  bool same = c.chance(4);
  with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    for (int64_t k = 0; k < a.n(); k++) {
      if (same) b.set<T>(k, a.get<T>(k));
      T r = 0;
      if (!apply<T>(op, a.get<T>(k), b.get<T>(k), r)) {  // outside the property: shrink the values
        T x = (T)fmod((double)a.get<T>(k), 50), y = (T)fmod((double)b.get<T>(k), 50);
        if (y == 0 || (std::is_signed<T>::value && y == (T)-1 && op == 3)) y = 7;
        if (same) x = y;
        a.set<T>(k, x);
        b.set<T>(k, y);
        apply<T>(op, x, y, r);
      }
      want.set<T>(k, r);
    }
    return 0;
  });
  c.note("%s %s %s%s", kOp[op], str(a).c_str(), str(b).c_str(), same ? " (one tensor)" : "");
  Tensor ta = mk(c, a), tb = same ? ta : mk(c, b), out = kUntouched;
  Status s = call(op, ta, tb, &out);
  want_ok(c, kOp[op], s, out);
  TV got = rd(c, out);
  want_nums(c, kOp[op], got, want, true);
  want_same(c, "the first operand", ta, a);
  if (!same) want_same(c, "the second operand", tb, b);
  if (got.dev.type != DEVICE_CPU) c.fail("the output is not on the CPU");
  if (a.n()) {
    memset(aitisa_tensor_data(out), 0x5A, want.b.size());
    want_same(c, "the first operand after the output was overwritten", ta, a);
    if (!same) want_same(c, "the second operand after the output was overwritten", tb, b);
  }
  if (a.n() >= 2) {
    bool eq = true;
    int es = kDtSize[dt];
    for (int64_t k = 1; k < a.n(); k++) eq &= !memcmp(&want.b[0], &want.b[(size_t)(k * es)], (size_t)es);
    if (!eq) c.nontrivial();
  }
  if (same) c.cls("one tensor twice");
  if (a.n() > 65536) c.cls("more than 65536 elements");
  drop(c, ta);
  if (!same) drop(c, tb);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"arith", arith, 300000, 8000000, V_ALL}, {"big", big<arith>, 90, 4000, V_ALL}}; }
