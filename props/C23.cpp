// C23: algebraic relations of convolution
#include "nnmodel.hpp"
namespace pbt {
const char* const kProperty = "C23";
const char* const kRule =
    "a random float input and filter of small integers (so that every sum is exact) with 1-3 spatial "
    "dimensions, strides, padding, dilation and groups as in C22; each case checks one relation between "
    "two or more calls of the library; non-trivial: the compared outputs have two or more elements, not "
    "all zero";
}
static void want_eq(Case& c, const char* what, const TV& a, const TV& b) {
  bool nz = false;
  for (int64_t k = 0; k < b.n(); k++) nz |= b.num(k) != 0;
  if (nz && b.n() > 1) c.nontrivial();
  want_nums(c, what, a, b);
}
static ConvCase gen(Case& c) {
  ConvCase v = gen_conv(c, (int)c.weighted({20, 50, 30}) + 1, P_SMALL, P_SMALL);
  c.note("%s groups %d: %s * %s", str(v.g).c_str(), (int)v.groups, str(v.x).c_str(), str(v.w).c_str());
  return v;
}
static TV map2(const TV& a, const TV& b, float p, float q) {
  TV r = a;
  for (int64_t k = 0; k < r.n(); k++) r.set<float>(k, p * a.get<float>(k) + q * b.get<float>(k));
  return r;
}
static void end(Case& c) {
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static void linear(Case& c) {
  ConvCase v = gen(c);
  float p = (float)c.i(-3, 3), q = (float)c.i(-3, 3);
  if (c.chance(50)) {
    TV y = gen_tv(c, F32, v.x.dims, P_SMALL);
    want_eq(c, "conv(p*x + q*y, w) against p*conv(x, w) + q*conv(y, w)", conv_tv(c, map2(v.x, y, p, q), v.w, v.g, v.groups),
            map2(conv_tv(c, v.x, v.w, v.g, v.groups), conv_tv(c, y, v.w, v.g, v.groups), p, q));
  } else {
    TV w = gen_tv(c, F32, v.w.dims, P_SMALL);
    want_eq(c, "conv(x, p*v + q*w) against p*conv(x, v) + q*conv(x, w)", conv_tv(c, v.x, map2(v.w, w, p, q), v.g, v.groups),
            map2(conv_tv(c, v.x, v.w, v.g, v.groups), conv_tv(c, v.x, w, v.g, v.groups), p, q));
  }
  end(c);
}
// Elements of src placed at start + step * coordinate of a zero tensor of shape d.
static TV embed(const TV& src, const Dims& d, const Dims& start, const Dims& step) {
  TV r(src.dt, d);
  Dims st = strides_of(d);
  for (int64_t k = 0; k < src.n(); k++) {
    Dims x = unravel(src.dims, k);
    int64_t o = 0;
    for (size_t a = 0; a < d.size(); a++) o += (start[a] + x[a] * step[a]) * st[a];
    r.set<float>(o, src.get<float>(k));
  }
  return r;
}
static TV take(const TV& src, const Dims& d, const Dims& start, const Dims& step) {
  TV r(src.dt, d);
  Dims st = strides_of(src.dims);
  for (int64_t k = 0; k < r.n(); k++) {
    Dims x = unravel(d, k);
    int64_t o = 0;
    for (size_t a = 0; a < d.size(); a++) o += (start[a] + x[a] * step[a]) * st[a];
    r.set<float>(k, src.get<float>(o));
  }
  return r;
}
static void padding(Case& c) {
  ConvCase v = gen(c);
  size_t nd = v.x.dims.size();
  Dims d = v.x.dims, start(nd, 0), one(nd, 1);
  Geo g = v.g;
  for (size_t a = 0; a < g.n(); a++) {
    start[a + 2] = g.p[a];
    d[a + 2] += 2 * g.p[a];
    g.in[a] += 2 * g.p[a];
    g.p[a] = 0;
  }
  want_eq(c, "padding against an explicit border of zeros", conv_tv(c, v.x, v.w, v.g, v.groups),
          conv_tv(c, embed(v.x, d, start, one), v.w, g, v.groups));
  end(c);
}
static void dilation(Case& c) {
  ConvCase v = gen(c);
  size_t nd = v.x.dims.size();
  Dims d = v.w.dims, start(nd, 0), step(nd, 1);
  Geo g = v.g;
  for (size_t a = 0; a < g.n(); a++) {
    step[a + 2] = g.d[a];
    g.k[a] = g.d[a] * (g.k[a] - 1) + 1;
    d[a + 2] = g.k[a];
    g.d[a] = 1;
  }
  want_eq(c, "dilation against a filter spread out with zeros", conv_tv(c, v.x, v.w, v.g, v.groups),
          conv_tv(c, v.x, embed(v.w, d, start, step), g, v.groups));
  end(c);
}
static void stride(Case& c) {
  ConvCase v = gen(c);
  size_t nd = v.x.dims.size();
  Dims start(nd, 0), step(nd, 1);
  Geo g = v.g;
  for (size_t a = 0; a < g.n(); a++) {
    step[a + 2] = g.s[a];
    g.s[a] = 1;
  }
  TV s = conv_tv(c, v.x, v.w, v.g, v.groups);
  want_eq(c, "a stride against every n-th element of stride 1", s,
          take(conv_tv(c, v.x, v.w, g, v.groups), s.dims, start, step));
  end(c);
}
static void groups(Case& c) {
  ConvCase v = gen(c);
  size_t nd = v.x.dims.size();
  TV all = conv_tv(c, v.x, v.w, v.g, v.groups);
  int64_t cg = v.w.dims[1], og = v.w.dims[0] / v.groups;
  Dims one(nd, 1);
  for (int64_t q = 0; q < v.groups; q++) {
    Dims dx = v.x.dims, dw = v.w.dims, dout = all.dims, sx(nd, 0), sw(nd, 0), so(nd, 0);
    dx[1] = cg; sx[1] = q * cg;
    dw[0] = og; sw[0] = q * og;
    dout[1] = og; so[1] = q * og;
    want_eq(c, "one group against a convolution of its own channels", take(all, dout, so, one),
            conv_tv(c, take(v.x, dx, sx, one), take(v.w, dw, sw, one), v.g, 1));
  }
  end(c);
}
static void parts(Case& c) {
  ConvCase v = gen(c);
  size_t nd = v.x.dims.size();
  TV all = conv_tv(c, v.x, v.w, v.g, v.groups);
  Dims one(nd, 1), z(nd, 0);
  if (v.x.dims[0] > 0 && c.chance(50)) {  // one sample of the batch
    int64_t k = c.i(0, v.x.dims[0] - 1);
    Dims d = v.x.dims, o = all.dims, s = z;
    d[0] = o[0] = 1;
    s[0] = k;
    want_eq(c, "one sample of the batch against a convolution of its own", take(all, o, s, one),
            conv_tv(c, take(v.x, d, s, one), v.w, v.g, v.groups));
  } else if (v.groups == 1) {  // some of the output channels
    int64_t n = v.w.dims[0], k = c.i(0, n - 1), m = c.i(1, n - k);
    Dims d = v.w.dims, o = all.dims, s = z, so = z;
    d[0] = o[1] = m;
    s[0] = so[1] = k;
    want_eq(c, "some output channels against a convolution with their filters", take(all, o, so, one),
            conv_tv(c, v.x, take(v.w, d, s, one), v.g, 1));
  } else {
    want_eq(c, "the same convolution twice", conv_tv(c, v.x, v.w, v.g, v.groups), all);
  }
  end(c);
}
static void depth(Case& c) {  // a dimension of extent 1 adds nothing
  ConvCase v = gen_conv(c, (int)c.weighted({40, 60}) + 1, P_SMALL, P_SMALL);
  c.note("%s groups %d: %s * %s", str(v.g).c_str(), (int)v.groups, str(v.x).c_str(), str(v.w).c_str());
  size_t at = (size_t)c.i(0, (int64_t)v.g.n());
  Geo g = v.g;
  TV x = v.x, w = v.w;
  g.in.insert(g.in.begin() + at, 1);
  g.k.insert(g.k.begin() + at, 1);
  g.s.insert(g.s.begin() + at, (int)c.i(1, 3));
  g.p.insert(g.p.begin() + at, 0);
  g.d.insert(g.d.begin() + at, (int)c.i(1, 3));
  x.dims.insert(x.dims.begin() + 2 + at, 1);
  w.dims.insert(w.dims.begin() + 2 + at, 1);
  TV a = conv_tv(c, x, w, g, v.groups, 1), b = conv_tv(c, v.x, v.w, v.g, v.groups, 1);
  b.dims.insert(b.dims.begin() + 2 + at, 1);
  want_eq(c, "with a dimension of extent 1 against without", a, b);
  end(c);
}
static void pointwise(Case& c) {  // a window of one cell is a product of matrices
  ConvCase v;
  v.g = gen_geo(c, (int)c.i(1, 3), 200, false);
  for (size_t a = 0; a < v.g.n(); a++) {
    v.g.k[a] = v.g.s[a] = 1;
    v.g.p[a] = 0;
    v.g.out[a] = v.g.in[a];
  }
  int64_t n = c.i(1, 3), ci = c.i(1, 5), co = c.i(1, 5);
  Dims dx = {n, ci}, dw = {co, ci};
  for (auto e : v.g.in) { dx.push_back(e); dw.push_back(1); }
  TV x = gen_tv(c, F32, dx, P_SMALL), w = gen_tv(c, F32, dw, P_SMALL);
  c.note("%s: %s * %s", str(v.g).c_str(), str(x).c_str(), str(w).c_str());
  TV r = conv_tv(c, x, w, v.g, 1);
  TV mx = x, mw = w;
  mx.dims = {n, ci, prod(v.g.in)};
  mw.dims = {co, ci};
  Tensor tx = mk(c, mx), tw = mk(c, mw), out = kUntouched;
  want_ok(c, "matmul", LIB(aitisa_matmul(tw, tx, &out)), out);
  TV m = rd(c, out);
  m.dims = r.dims;
  want_eq(c, "a 1x1 convolution against the matrix product", r, m);
  drop(c, tx);
  drop(c, tw);
  drop(c, out);
  end(c);
}
std::vector<pbt::Target> pbt::targets() {
  return {{"linear", linear, 12000, 300000, V_ALL},     {"padding", padding, 14000, 300000, V_ALL},
          {"dilation", dilation, 14000, 300000, V_ALL}, {"stride", stride, 14000, 300000, V_ALL},
          {"groups", groups, 14000, 300000, V_ALL},     {"parts", parts, 12000, 300000, V_ALL},
          {"depth", depth, 14000, 300000, V_ALL},       {"pointwise", pointwise, 14000, 300000, V_ALL}};
}
