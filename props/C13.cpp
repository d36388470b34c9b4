// C13: integer quotients that do not exist
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C13";
const char* const kRule =
    "two random integer tensors of one type and shape where one or more positions have a zero divisor "
    "or, for 32 and 64 bits, the smallest value divided by -1; also floating-point tensors with zeros, infinities and other extremes as "
    "divisors; non-trivial: the undefined quotient is not in the first position";
}
static void undefined(Case& c) {
  int dt = (int)c.i(0, 7);
  ShapeOpt o;
  o.max_elems = gen_budget(c, 200, 70000, 1);
  Dims d = gen_dims(c, o);
  Profile ps[] = {P_SMALL, P_WIDE, P_EDGE};
  TV a = gen_tv(c, dt, d, ps[c.i(0, 2)]), b = gen_tv(c, dt, d, ps[c.i(0, 2)]);
  int64_t n = a.n(), first = n;
  int k = (int)c.small(1, std::min<int64_t>(3, n));
  bool minus = (dt == I32 || dt == I64) && c.chance(50);
  with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    for (int64_t j = 0; j < n; j++) {
      if (b.get<T>(j) == 0) b.set<T>(j, (T)3);
      if (std::is_signed<T>::value && b.get<T>(j) == (T)-1) b.set<T>(j, (T)5);
    }
    for (int j = 0; j < k; j++) {
      int64_t p = c.chance(30) ? n - 1 : c.i(0, n - 1);
      first = std::min(first, p);
      if (minus) { a.set<T>(p, std::numeric_limits<T>::min()); b.set<T>(p, (T)-1); }
      else { b.set<T>(p, (T)0); if (c.chance(20)) a.set<T>(p, (T)0); }
    }
    return 0;
  });
  c.note("%s / %s", str(a).c_str(), str(b).c_str());
  Tensor ta = mk(c, a), tb = mk(c, b), out = kUntouched;
  uint64_t live = alloc::live();
  Status s = LIB(aitisa_div(ta, tb, &out));
  want_status(c, minus ? "the smallest integer divided by -1" : "an integer divided by zero", s, STATUS_MATH_ERROR);
  if (out != kUntouched) c.fail("a failed division set the output");
  if (alloc::live() != live) c.fail("a failed division left memory behind");
  want_same(c, "the dividend", ta, a);
  want_same(c, "the divisor", tb, b);
  if (first > 0) c.nontrivial();
  c.cls(minus ? "smallest by -1" : "zero divisor");
  drop(c, ta);
  drop(c, tb);
}
static void floating(Case& c) {
  int dt = c.chance(50) ? F32 : F64;
  ShapeOpt o;
  o.max_elems = 100;
  Dims d = gen_dims(c, o);
  TV a = gen_tv(c, dt, d, P_EDGE), b = gen_tv(c, dt, d, c.chance(50) ? P_SMALL : P_EDGE);
  if (c.chance(30)) {
    sprinkle(c, a);
    sprinkle(c, b);
  }
  int64_t n = a.n(), p = c.i(0, n - 1);
  TV want(dt, d);
  with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    b.set<T>(p, c.chance(50) ? (T)0.0 : (T)-0.0);
    for (int64_t j = 0; j < n; j++) {
      T x = a.get<T>(j), y = b.get<T>(j), r;
      if (y == 0) r = x == 0 || std::isnan(x) ? (T)NAN : std::signbit(x) != std::signbit(y) ? -(T)INFINITY : (T)INFINITY;
      else r = x / y;
      want.set<T>(j, r);
    }
    return 0;
  });
  c.note("%s / %s", str(a).c_str(), str(b).c_str());
  Tensor ta = mk(c, a), tb = mk(c, b), out = kUntouched;
  Status s = LIB(aitisa_div(ta, tb, &out));
  want_ok(c, "a floating-point division", s, out);
  want_nums(c, "a floating-point division", rd(c, out), want, true);
  if (p > 0) c.nontrivial();
  drop(c, ta);
  drop(c, tb);
  drop(c, out);
}
std::vector<pbt::Target> pbt::targets() {
  return {{"undefined", undefined, 200000, 6000000, V_ALL}, {"big", big<undefined>, 90, 4000, V_ALL}, {"floating", floating, 60000, 1000000, V_ALL}};
}
