// C09: reshaping
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C09";
const char* const kRule =
    "a random tensor (10 types, 0-20 dimensions, zero extents, up to 80000 elements) and a random "
    "target shape: a re-factorisation of its size with ones and zeros inserted, a shape of another "
    "size, or one with negative extents; non-trivial: an accepted reshape of two or more elements to a "
    "different shape, or a rejected one";
}
static void reshape(Case& c) {
  ShapeOpt o;
  o.max_nd = 8;
  o.zero = true;
  o.max_elems = gen_budget(c, 500, 80000, 1);
  TV v = gen_tv(c, gen_dt(c), gen_dims(c, o), c.chance(50) ? P_BYTES : P_IOTA);
  v.dev = gen_dev(c);
  Dims d;
  int64_t n = v.n();
  if (n == 0) {
    d = gen_dims(c, o);
    if (d.empty()) d.push_back(0);
    else d[c.i(0, (int64_t)d.size() - 1)] = 0;
  } else {  // distribute the prime factors of n
    int nd = (int)c.i(0, 7);
    d.assign(nd, 1);
    int64_t m = n;
    for (int64_t p = 2; m > 1; p++) {
      if (p * p > m) p = m;
      while (m % p == 0) {
        m /= p;
        if (nd == 0) { d.push_back(1); nd = 1; }
        d[c.i(0, nd - 1)] *= p;
      }
    }
  }
  enum { OK, SIZE, NEG } kind = OK;
  if (c.chance(25)) {
    if (!d.empty() && c.chance(40)) {
      kind = NEG;
      int k = (int)c.small(1, std::min<int64_t>(3, d.size()));
      for (int j = 0; j < k; j++) { auto& x = d[c.i(0, (int64_t)d.size() - 1)]; x = x > 0 ? -x : -1; }
      bool any = false;
      for (auto x : d) any |= x < 0;
      if (!any) d[0] = -1;
      if (c.chance(15)) d[c.i(0, (int64_t)d.size() - 1)] = c.pick<int64_t>({INT64_MIN, -(1LL << 32), INT32_MIN});
    } else {
      kind = SIZE;
      int64_t want = n;
      for (int tries = 0; tries < 10; tries++) {
        if (d.empty()) { d.push_back(c.i(0, 5)); }
        else { auto& x = d[c.i(0, (int64_t)d.size() - 1)]; x = c.chance(15) ? c.pick<int64_t>({0, INT32_MAX, 1LL << 31, 1LL << 32}) : x + c.i(1, 3); }
        bool over = false;
        __int128 p = 1;
        for (auto x : d) { p *= x; if (p > INT64_MAX / 8) { over = true; break; } }
        if (over) { d.resize(1); d[0] = n + 1; p = n + 1; }
        if (p != want) break;
        d[0] = n + 1 + tries; d.resize(1);
        if (d[0] != want) break;
      }
      if (prod(d) == n) { d = {n + 1}; }
    }
  }
  c.note("%s -> %s", str(v).c_str(), str(d).c_str());
  Tensor t = mk(c, v), out = kUntouched;
  Dims arg = d;
  Status s = LIB(aitisa_reshape(t, arg.empty() ? nullptr : arg.data(), (int64_t)d.size(), &out));
  if (arg != d) c.fail("reshape changed its extents argument");
  want_same(c, "reshape: the input", t, v);
  if (kind != OK) {
    c.cls(kind == NEG ? "rejected: negative extent" : "rejected: another size");
    if (kind == SIZE) want_status(c, "a reshape to another number of elements", s, STATUS_DIMENSIONS_MISMATCH);
    else want_rejected(c, "a reshape to a negative extent", s);
    if (out != kUntouched) c.fail("a rejected reshape set the output");
    c.nontrivial();
    drop(c, t);
    if (alloc::live()) c.fail("memory is left behind");
    return;
  }
  want_ok(c, "reshape", s, out);
  for (auto& x : arg) x = -5;
  TV want = v;
  want.dims = d;
  TV got = rd(c, out);
  want_bits(c, "reshape", got, want);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("reshape lost the device");
  if (n) {
    memset(aitisa_tensor_data(out), 0x5A, want.b.size());
    want_same(c, "reshape: the input after the output was overwritten", t, v);
    memcpy(aitisa_tensor_data(out), want.b.data(), want.b.size());
  }
  // and back again
  Tensor back = kUntouched;
  Dims orig = v.dims;
  s = LIB(aitisa_reshape(out, orig.empty() ? nullptr : orig.data(), (int64_t)orig.size(), &back));
  want_ok(c, "reshape back", s, back);
  drop(c, c.chance(50) ? out : t);
  want_bits(c, "reshape there and back", rd(c, back), v);
  if (n > 1 && d != v.dims) c.nontrivial();
  if (n > 65536) c.cls("more than 65536 elements");
  drop(c, t);
  drop(c, out);
  drop(c, back);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"reshape", reshape, 150000, 5000000, V_ALL}, {"big", big<reshape>, 90, 4000, V_ALL}}; }
