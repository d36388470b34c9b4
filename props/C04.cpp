// C04: index arithmetic
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C04";
const char* const kRule =
    "small: every coordinate of a random shape (0-20 dimensions, up to 800 elements) is enumerated; "
    "large: random coordinates of a shape of up to 2^46 bytes and 300 dimensions; non-trivial: two or more dimensions "
    "with an extent above 1";
}
static const int64_t G = 0x7171717171717171LL;
static void one(Case& c, Tensor t, const Dims& d, const Dims& st, const Dims& x) {
  int nd = (int)d.size();
  int64_t want = 0;
  for (int k = 0; k < nd; k++) want += x[k] * st[k];
  Dims a = x;
  a.push_back(G);
  int64_t lin = aitisa_coords_to_linidx(t, a.data(), nd);
  if (lin != want) c.fail("coordinates %s of %s have linear index %" PRId64 ", expected %" PRId64, str(x).c_str(), str(d).c_str(), lin, want);
  int64_t off = aitisa_coords_to_offset(t, a.data(), nd);
  if (off != want) c.fail("coordinates %s of %s have offset %" PRId64 ", expected %" PRId64, str(x).c_str(), str(d).c_str(), off, want);
  a.pop_back();
  if (a != x) c.fail("a conversion changed its coordinates");
  for (int which = 0; which < 2; which++) {
    Dims r((size_t)nd + 2, G);
    if (which == 0) aitisa_linidx_to_coords(t, want, r.data() + 1);
    else aitisa_offset_to_coords(t, want, r.data() + 1);
    if (r[0] != G || r[(size_t)nd + 1] != G) c.fail("a conversion wrote outside the coordinates");
    Dims y(r.begin() + 1, r.end() - 1);
    if (y != x) c.fail("%s %" PRId64 " of %s has coordinates %s, expected %s", which ? "offset" : "linear index", want, str(d).c_str(), str(y).c_str(), str(x).c_str());
  }
}
static void strides(Case& c, Tensor t, const Dims& d, const Dims& st) {
  int nd = (int)d.size();
  Dims r((size_t)nd + 2, G);
  aitisa_get_all_strides(t, r.data() + 1);
  if (r[0] != G || r[(size_t)nd + 1] != G) c.fail("the strides were written outside their array");
  for (int k = 0; k < nd; k++) {
    if (r[(size_t)k + 1] != st[k]) c.fail("stride %d of %s is %" PRId64 ", expected %" PRId64, k, str(d).c_str(), r[(size_t)k + 1], st[k]);
    int64_t s = aitisa_get_stride(t, k);
    if (s != st[k]) c.fail("stride %d of %s is given as %" PRId64 ", expected %" PRId64, k, str(d).c_str(), s, st[k]);
  }
}
static void small(Case& c) {
  ShapeOpt o;
  o.max_nd = 8;
  o.max_elems = 800;
  o.zero = true;
  Dims d = gen_dims(c, o);
  TV v = gen_tv(c, gen_dt(c), d, P_BYTES);
  c.note("%s%s", kDtName[v.dt], str(d).c_str());
  Tensor t = mk(c, v);
  Dims st = strides_of(d);
  strides(c, t, d, st);
  if (!v.n()) c.cls("strides without elements");
  for (int64_t k = 0; k < v.n(); k++) {
    Dims x = unravel(d, k);
    one(c, t, d, st, x);
  }
  want_same(c, "index arithmetic: the tensor", t, v);
  int big = 0;
  for (auto x : d) big += x > 1;
  if (big >= 2) c.nontrivial();
  drop(c, t);
  if (alloc::live()) c.fail("memory is left behind");
}
static void large(Case& c) {
  int dt = gen_dt(c);
  int64_t budget = ((int64_t)1 << c.i(12, 46)) / kDtSize[dt];
  int nd = (int)c.i(1, 7);
  Dims d;
  if (c.chance(15)) {  // very many dimensions
    nd = c.chance(10) ? (int)c.i(60, 300) : (int)c.i(8, 60);
    int ones = c.chance(50) ? 30 : 92;
    for (int k = 0; k < nd; k++) {
      int64_t e = std::min<int64_t>(budget, c.chance(ones) ? 1 : c.i(1, 4));
      d.push_back(e);
      budget /= e;
    }
    std::swap(d[(size_t)c.i(0, nd - 1)], d[0]);
    std::swap(d[(size_t)c.i(0, nd - 1)], d[(size_t)nd - 1]);
    size_t at = (size_t)c.i(0, nd - 1);
    if (c.chance(60)) d[at] *= c.chance(50) ? budget : std::max<int64_t>(1, c.i(1, budget));
  } else for (int k = 0; k < nd; k++) {
    int64_t e = c.small(1, c.chance(30) ? budget : std::min<int64_t>(budget, 100000));
    d.push_back(e);
    budget /= e;
  }
  if (c.chance(50)) std::reverse(d.begin(), d.end());
  c.note("%s%s", kDtName[dt], str(d).c_str());
  alloc::virtual_from(1 << 16);
  Tensor t = nullptr;
  Device dev = {DEVICE_CPU, 0};
  Status s = LIB(aitisa_create(dtype_of(dt), dev, d.data(), nd, nullptr, 0, &t));
  if (s == STATUS_ALLOC_FAILED && alloc::failed()) return;
  want_ok(c, "aitisa_create", s, t);
  Dims st = strides_of(d);
  strides(c, t, d, st);
  int n = (int)c.i(1, 8);
  for (int k = 0; k < n; k++) {
    Dims x;
    for (auto e : d) x.push_back(c.chance(25) ? e - 1 : c.i(0, e - 1));
    one(c, t, d, st, x);
  }
  int big = 0;
  for (auto x : d) big += x > 1;
  if (big >= 2) c.nontrivial();
  if (prod(d) > INT32_MAX) c.cls("more than 2^31 elements");
  drop(c, t);
}
std::vector<pbt::Target> pbt::targets() {
  return {{"small", small, 40000, 1500000, V_ALL}, {"large", large, 80000, 3000000, V_ALL}};
}
