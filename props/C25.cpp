// C25: pooling
#include "nnmodel.hpp"
namespace pbt {
const char* const kProperty = "C25";
const char* const kRule =
    "a random tensor of any of the 10 types with 1-3 spatial dimensions, max or average pooling with windows "
    "of 1-5, strides of 1-40, padding of 0-9 and dilation of 1-4 chosen independently per dimension (rarely "
    "strides, paddings and dilations up to INT_MAX, and extents, channels or batches up to 70000), and "
    "(values) windows of up to 130 over a constant, windows of up to 70000 cells (windows), windows with negative numbers only and windows wholly on the padding; inputs of up to 2^38 bytes of address space (huge), or a relation between "
    "two poolings; non-trivial: two or more windows of two or more cells";
}
struct Pool {
  Geo g;
  TV x;
  bool avg;
};
static Pool gen(Case& c, Profile p, int dt, bool wide = false, bool window_big = false) {
  Pool v;
  v.g = gen_geo(c, (int)c.weighted({25, 45, 30}) + 1, 300, true, wide);
  v.avg = c.chance(50);
  bool level = c.chance(4);  // a wide window over a constant, or nearly constant, input
  if (level) {
    size_t a = (size_t)c.i(0, (int64_t)v.g.n() - 1);
    for (size_t q = 0; q < v.g.n(); q++) {
      v.g.k[q] = q == a ? (int)c.i(5, 130) : (int)c.i(1, 3);
      v.g.d[q] = (int)c.i(1, 2);
      v.g.s[q] = (int)c.i(1, 9);
      v.g.p[q] = (int)c.small(0, 2);
      v.g.in[q] = std::max<int64_t>(1, v.g.d[q] * (v.g.k[q] - 1) + 1 - 2 * v.g.p[q]) + c.i(0, 3);
      v.g.out[q] = out_extent(v.g.in[q], v.g.k[q], v.g.s[q], v.g.p[q], v.g.d[q]);
    }
  }
  if (window_big) {  // thousands of cells in a window
    int n = (int)v.g.n();
    int64_t cells = c.chance(60) ? c.pick<int64_t>({255, 256, 4096, 32767, 32768, 65535, 65536, 65537, 70000}) : c.i(200, 70000);
    for (int q = 0; q < n; q++) {
      int64_t k = q == n - 1 ? cells : n == 1 ? cells : c.i(1, std::max<int64_t>(1, std::min<int64_t>(cells, n == 2 ? 400 : 60)));
      if (q < n - 1) cells = std::max<int64_t>(1, cells / k);
      v.g.k[q] = (int)k;
      v.g.d[q] = 1;
      v.g.s[q] = (int)c.i(1, 3);
      v.g.p[q] = (int)c.small(0, 3);
      v.g.in[q] = std::max<int64_t>(1, k - 2 * v.g.p[q]) + c.i(0, 2);
      v.g.out[q] = out_extent(v.g.in[q], v.g.k[q], v.g.s[q], v.g.p[q], v.g.d[q]);
    }
  }
  Dims d = {(int64_t)c.weighted({50, 35, 15}) + 1, (int64_t)c.weighted({40, 35, 25}) + 1};
  if (window_big) d = {c.i(1, 2), 1};
  if (c.chance(1)) d[(size_t)c.i(0, 1)] = 0;
  if (c.chance(1)) {
    int64_t most = 70000 / std::max<int64_t>(1, std::max(prod(v.g.in), prod(v.g.out)));
    d[0] = d[1] = 1;
    d[(size_t)c.i(0, 1)] = std::max<int64_t>(1, std::min(c.small(5, 70000), most));
  }
  if (!window_big && c.chance(3)) {  // several samples of several channels
    int64_t most = std::max<int64_t>(1, 20000 / std::max<int64_t>(1, std::max(prod(v.g.in), prod(v.g.out))));
    d[0] = c.i(1, std::min<int64_t>(24, most));
    d[1] = c.i(1, std::max<int64_t>(1, std::min<int64_t>(24, most / d[0])));
  }
  d.insert(d.end(), v.g.in.begin(), v.g.in.end());
  v.x = gen_tv(c, dt, d, p);
  if (level && v.x.n() > 1) {
    size_t es = (size_t)kDtSize[dt];
    int64_t other = c.chance(30) ? c.i(0, v.x.n() - 1) : -1;
    for (int64_t k = 1; k < v.x.n(); k++)
      if (k != other) memcpy(&v.x.b[(size_t)k * es], &v.x.b[0], es);
  }
  // all negative
  if (c.chance(20) && (is_float(dt) || is_signed_int(dt)))
    with_type(dt, [&](auto z) {
      typedef decltype(z) T;
      for (int64_t k = 0; k < v.x.n(); k++) {
        T t = v.x.get<T>(k);
        if (t == 0) t = 1;
        if (t > 0) v.x.set<T>(k, (T)(0 - t));
      }
      return 0;
    });
  // what is averaged is represented exactly enough in a double
  int64_t lim = 1LL << (v.avg ? (window_big ? 34 : 40) : 53);
  for (int64_t k = 0; k < v.x.n(); k++) {
    if (dt == I64) v.x.set<int64_t>(k, v.x.get<int64_t>(k) % lim);
    if (dt == U64) v.x.set<uint64_t>(k, v.x.get<uint64_t>(k) % (uint64_t)lim);
  }
  if (dt == F64 && v.avg)
    for (int64_t k = 0; k < v.x.n(); k++)
      if (fabs(v.x.get<double>(k)) > 1e290) v.x.set<double>(k, v.x.get<double>(k) * 1e-30);
  int64_t cells = 1;
  for (int k : v.g.k) cells *= k;
  if (prod(v.g.out) >= 2 && cells >= 2) c.nontrivial();
  return v;
}
static Status run(Tensor t, const Pool& v, Tensor* out) {
  return LIB(aitisa_pooling(t, v.avg ? "avg" : "max", v.g.k.data(), v.g.s.data(), v.g.p.data(), v.g.d.data(), out));
}
static TV pool_tv(Case& c, const Pool& v) {
  Tensor t = mk(c, v.x), out = kUntouched;
  Status s = run(t, v, &out);
  want_ok(c, "pooling", s, out);
  TV r = rd(c, out);
  drop(c, t);
  drop(c, out);
  return r;
}
static void describe(Case& c, const Pool& v) {
  c.note("%s pooling, %s: %s", v.avg ? "avg" : "max", str(v.g).c_str(), str(v.x).c_str());
}
static void check_values(Case& c, bool window_big) {
  Pool v = gen(c, (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_EDGE, P_IOTA}), gen_dt(c), !window_big, window_big);
  v.x.dev = gen_dev(c);
  describe(c, v);
  Pool keep = v;
  Tensor t = mk(c, v.x), out = kUntouched;
  Status st = run(t, v, &out);
  want_ok(c, "pooling", st, out);
  TV got = rd(c, out);
  int dt = v.x.dt;
  Dims od = {v.x.dims[0], v.x.dims[1]};
  od.insert(od.end(), v.g.out.begin(), v.g.out.end());
  want_shape(c, "pooling", got, dt, od);
  if (got.dev.type != v.x.dev.type || got.dev.id != v.x.dev.id) c.fail("pooling lost the device");
  int64_t osp = prod(v.g.out), isp = prod(v.g.in), cells = 1;
  for (int k : v.g.k) cells *= k;
  for (int64_t q = 0; q < osp; q++) {
    Dims o = unravel(v.g.out, q);
    std::vector<int64_t> offs;
    int64_t pad = window(v.g, o, [&](int64_t off, int64_t) { offs.push_back(off); });
    if (pad) c.cls(offs.empty() ? "a window wholly on the padding" : "a window partly on the padding");
    for (int64_t nc = 0; nc < od[0] * od[1]; nc++) {
      long double m = pad ? 0.0L : -INFINITY, s = 0, a = 0;
      for (auto off : offs) {
        long double e = v.x.num(nc * isp + off);
        m = std::max(m, e);
        s += e;
        a += fabsl(e);
      }
      int64_t k = nc * osp + q;
      long double y = got.num(k);
      bool ok;
      long double want;
      if (!v.avg) {
        want = m;
        ok = y == m;
      } else {
        want = s / cells;
        long double tol = (cells + 3) * (long double)DBL_EPSILON * a / cells;
        if (is_float(dt)) {
          ok = fabsl(y - want) <= tol + eps_of(dt) * fabsl(want) + tiny_of(dt);
        } else {  // the sum is exact, and the quotient goes towards zero
          want = truncl(want);
          ok = y == want;
        }
      }
      if (!ok)
        c.fail("%s pooling: element %" PRId64 " is %s, expected %.17Lg", v.avg ? "avg" : "max", k, elem_str(got, k).c_str(), want);
    }
  }
  want_same(c, "the input", t, v.x);
  if (keep.g.k != v.g.k || keep.g.s != v.g.s || keep.g.p != v.g.p || keep.g.d != v.g.d) c.fail("pooling changed its parameter arrays");
  c.cls(v.avg ? "avg" : "max");
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static void want_eq(Case& c, const char* what, const TV& a, const TV& b) {
  want_nums(c, what, a, b);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static void pad_relation(Case& c) {
  Pool v = gen(c, P_SMALL, gen_dt(c)), w = v;
  describe(c, v);
  Dims d = v.x.dims;
  for (size_t a = 0; a < v.g.n(); a++) {
    d[a + 2] += 2 * v.g.p[a];
    w.g.in[a] = d[a + 2];
    w.g.p[a] = 0;
  }
  w.x = TV(v.x.dt, d);
  Dims st = strides_of(d);
  size_t es = (size_t)kDtSize[v.x.dt];
  for (int64_t k = 0; k < v.x.n(); k++) {
    Dims x = unravel(v.x.dims, k);
    int64_t o = x[0] * st[0] + x[1] * st[1];
    for (size_t a = 0; a < v.g.n(); a++) o += (x[a + 2] + v.g.p[a]) * st[a + 2];
    memcpy(&w.x.b[(size_t)o * es], &v.x.b[(size_t)k * es], es);
  }
  want_eq(c, "padding against an explicit border of zeros", pool_tv(c, v), pool_tv(c, w));
}
static void stride_relation(Case& c) {
  Pool v = gen(c, P_UNIT, gen_dt(c)), w = v;
  describe(c, v);
  for (auto& s : w.g.s) s = 1;
  TV a = pool_tv(c, v), b = pool_tv(c, w), r(a.dt, a.dims);
  Dims st = strides_of(b.dims);
  size_t es = (size_t)kDtSize[a.dt];
  for (int64_t k = 0; k < r.n(); k++) {
    Dims x = unravel(r.dims, k);
    int64_t o = x[0] * st[0] + x[1] * st[1];
    for (size_t q = 0; q < v.g.n(); q++) o += x[q + 2] * v.g.s[q] * st[q + 2];
    if ((size_t)(o + 1) * es > b.b.size()) c.fail("pooling with stride 1 gives the shape %s", str(b.dims).c_str());
    memcpy(&r.b[(size_t)k * es], &b.b[(size_t)o * es], es);
  }
  want_eq(c, "a stride against every n-th element of stride 1", a, r);
}
static void avg_as_conv(Case& c) {  // the average is a convolution with ones
  Pool v = gen(c, P_SMALL, F32);
  v.avg = true;
  describe(c, v);
  TV a = pool_tv(c, v), x = v.x;
  x.dims[0] *= x.dims[1];
  x.dims[1] = 1;
  Dims wd = {1, 1};
  int64_t cells = 1;
  for (int k : v.g.k) { wd.push_back(k); cells *= k; }
  TV w(F32, wd);
  for (int64_t k = 0; k < w.n(); k++) w.set<float>(k, 1.0f);
  TV b = conv_tv(c, x, w, v.g, 1);
  b.dims = a.dims;
  if (a.n() != (int64_t)(b.b.size() / 4)) c.fail("pooling and convolution give different numbers of elements");
  for (int64_t k = 0; k < b.n(); k++) b.set<float>(k, (float)((double)b.get<float>(k) / cells));
  want_eq(c, "average pooling against a convolution with ones", a, b);
}
static void values(Case& c) { check_values(c, false); }
static void windows(Case& c) { check_values(c, true); }
static void huge(Case& c) {
  int nsp = (int)c.weighted({45, 40, 15}) + 1, dt = gen_dt(c);
  HugeGeo h = gen_huge_geo(c, nsp);
  Pool v;
  v.g = h.g;
  v.avg = c.chance(50);
  Dims dx = {c.i(1, 2), c.i(1, 2)};
  dx.insert(dx.end(), v.g.in.begin(), v.g.in.end());
  uint64_t seed = c.bulk_seed();
  c.note("%s pooling, %s, input %s%s", v.avg ? "avg" : "max", str(v.g).c_str(), kDtName[dt], str(dx).c_str());
  alloc::sparse_from(1 << 16);
  Tensor t = nullptr, out = kUntouched;
  Device dev = {DEVICE_CPU, 0};
  Status s = LIB(aitisa_create(dtype_of(dt), dev, dx.data(), nsp + 2, nullptr, 0, &t));
  if (s == STATUS_ALLOC_FAILED && alloc::failed()) return;
  want_ok(c, "aitisa_create", s, t);
  char* data = (char*)aitisa_tensor_data(t);
  int64_t isp = prod(v.g.in), osp = prod(v.g.out), cells = 1;
  for (int k : v.g.k) cells *= k;
  Dims od = {dx[0], dx[1]};
  od.insert(od.end(), v.g.out.begin(), v.g.out.end());
  TV want(dt, od);
  with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    for (int64_t q = 0; q < osp; q++)
      for (int64_t nc = 0; nc < dx[0] * dx[1]; nc++) {
        double m = -1e9, sum = 0;
        int64_t pad = window(v.g, unravel(v.g.out, q), [&](int64_t off, int64_t) {
          int64_t at = nc * isp + off, e = (int64_t)(pbt::mix(seed ^ (uint64_t)at) % 17);
          if (std::is_signed<T>::value) e -= 12;
          ((T*)data)[at] = (T)e;
          m = std::max(m, (double)e);
          sum += (double)e;
        });
        if (pad) m = std::max(m, 0.0);
        want.set<T>(nc * osp + q, v.avg ? (T)(sum / (double)cells) : (T)m);
      }
    return 0;
  });
  s = run(t, v, &out);
  want_ok(c, "pooling", s, out);
  TV got = rd(c, out);
  if (v.avg && is_float(dt)) {  // however the quotient is rounded
    want_shape(c, "pooling of a huge input", got, dt, od);
    for (int64_t k = 0; k < want.n(); k++)
      if (!(fabsl(got.num(k) - want.num(k)) <= 4 * eps_of(dt) * fabsl(want.num(k))))
        c.fail("pooling of a huge input: element %" PRId64 " is %s, expected %s", k, elem_str(got, k).c_str(), elem_str(want, k).c_str());
  } else want_nums(c, "pooling of a huge input", got, want);
  if (want.n() > 1) c.nontrivial();
  if (prod(dx) > INT32_MAX) c.cls("more than 2^31 elements");
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() {
  return {{"values", values, 60000, 2000000, V_ALL},
          {"windows", windows, 400, 15000, V_ALL},
          {"padding", pad_relation, 25000, 800000, V_ALL},
          {"stride", stride_relation, 25000, 800000, V_ALL},
          {"huge", huge, 12000, 300000, V_ALL},
          {"average", avg_as_conv, 20000, 800000, V_ALL}};
}
