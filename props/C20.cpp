// C20: relu, sigmoid and tanh
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C20";
const char* const kRule =
    "a random tensor (0-20 dimensions, zero extents, up to 70000 elements) under relu (10 types, no "
    "NaN), sigmoid and tanh (float and double over the whole range, infinities, NaN, and around the "
    "arguments where exp overflows); the integer types under sigmoid and tanh are rejected; "
    "non-trivial: both signs occur";
}
static void activation(Case& c) {
  int op = (int)c.i(0, 2), dt = gen_dt(c);
  if (op > 0 && c.chance(85)) dt = c.chance(50) ? F32 : F64;
  ShapeOpt o;
  o.max_nd = 8;
  o.zero = true;
  o.max_elems = gen_budget(c, 200, 70000, 1);
  TV v = gen_tv(c, dt, gen_dims(c, o), (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_EDGE, P_BYTES}));
  v.dev = gen_dev(c);
  int64_t n = v.n();
  bool pos = false, neg = false;
  if (is_float(dt)) with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    if (c.chance(30)) {
      pbt::Rng g(c.bulk_seed());
      T scale = (T)c.pick<double>({100, 800, 30, 1e-3, 1e-9});
      for (int64_t k = 0; k < n; k++) v.set<T>(k, (T)((g.unit() * 2 - 1) * scale));
    }
    for (int64_t k = 0; k < n; k++) {
      T x = v.get<T>(k);
      if (op == 0 && std::isnan(x)) v.set<T>(k, (T)-3);
    }
    if (n && c.chance(10)) v.set<T>(c.i(0, n - 1), (T)c.pick<double>({INFINITY, -INFINITY, -0.0}));
    return 0;
  });
  static const char* const kOp[] = {"relu", "sigmoid", "tanh"};
  c.note("%s %s", kOp[op], str(v).c_str());
  Tensor t = mk(c, v), out = kUntouched;
  uint64_t live = alloc::live();
  Status s = op == 0 ? LIB(aitisa_relu(t, &out)) : op == 1 ? LIB(aitisa_sigmoid(t, &out)) : LIB(aitisa_tanh(t, &out));
  want_same(c, "the input", t, v);
  if (op > 0 && !is_float(dt)) {
    c.cls("rejected type");
    want_status(c, "sigmoid or tanh of integers", s, STATUS_NOT_SUPPORTED);
    if (out != kUntouched) c.fail("a rejected call set the output");
    if (alloc::live() != live) c.fail("a rejected call left memory behind");
    drop(c, t);
    return;
  }
  want_ok(c, kOp[op], s, out);
  TV got = rd(c, out);
  want_shape(c, kOp[op], got, dt, v.dims);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("%s lost the device", kOp[op]);
  for (int64_t k = 0; k < n; k++) {
    long double x = v.num(k), y = got.num(k), w, tol;
    pos |= x > 0;
    neg |= x < 0;
    if (op == 0) {
      w = x > 0 ? x : 0;
      tol = 0;
    } else if (op == 1) {
      w = std::isnan(x) ? x : 1 / (1 + expl(-x));
      tol = 16 * eps_of(dt) * w + tiny_of(dt);
    } else {
      w = tanhl(x);
      tol = 16 * eps_of(dt) * fabsl(w) + 1e-15L;
    }
    bool ok = std::isnan(w) ? std::isnan(y) : std::isinf(w) ? y == w : fabsl(y - w) <= tol;
    if (op == 1) ok = ok && !(y < 0 || y > 1);
    if (op == 2) ok = ok && !(y < -1 || y > 1);
    if (!ok) c.fail("%s of %s is %s, expected %.17Lg", kOp[op], elem_str(v, k).c_str(), elem_str(got, k).c_str(), w);
  }
  if (pos && neg) c.nontrivial();
  c.cls(kOp[op]);
  if (n) {
    memset(aitisa_tensor_data(out), 0x5A, v.b.size());
    want_same(c, "the input after the output was overwritten", t, v);
  }
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"activation", activation, 250000, 8000000, V_ALL}, {"big", big<activation>, 90, 4000, V_ALL}}; }
