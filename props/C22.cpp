// C22: convolution values
#include "nnmodel.hpp"
namespace pbt {
const char* const kProperty = "C22";
const char* const kRule =
    "a random float input and filter with 1-8 spatial dimensions, windows of 1-5, strides of 1-40, "
    "padding of 0-9 and dilation of 1-4 chosen independently per dimension so that the window fits, 1-4 "
    "groups of 1-3 channels each (rarely no input channel or an empty batch, strides, paddings and dilations "
    "up to INT_MAX, a tensor as its own filter, or 70000 samples, channels, groups or cells, and infinities and NaNs; huge: inputs of up to 2^38 bytes of address space of which the windows reach few cells), through aitisa_conv, "
    "aitisa_conv2d and aitisa_conv3d; non-trivial: two or more output elements, and a window of two or "
    "more cells or two or more channels summed";
}
static void conv(Case& c) {
  int nsp = c.chance(2) ? (int)c.i(4, 8) : (int)c.weighted({15, 50, 32, 3}) + 1;
  Profile p = (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_IOTA});
  Profile q = (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_IOTA});
  ConvCase v = gen_conv(c, nsp, p, q, true);
  if (c.chance(8)) {
    sprinkle(c, v.x);
    if (c.chance(60)) sprinkle(c, v.w);
  }
  bool self = c.chance(3) && v.x.n() && v.x.n() <= 300;  // a tensor under itself
  if (self) {
    Geo& h = v.g;
    v.groups = 1;
    for (size_t a = 0; a < h.n(); a++) {
      h.k[a] = (int)h.in[a];
      h.d[a] = 1;
      h.s[a] = std::min(h.s[a], 4);
      h.p[a] = std::min(h.p[a], 2);
      h.out[a] = 2 * h.p[a] / h.s[a] + 1;
    }
    if (v.x.dims[0] * prod(h.out) * v.x.n() > 100000) for (size_t a = 0; a < h.n(); a++) h.p[a] = 0, h.out[a] = 1;
    v.w = v.x;
    c.cls("one tensor twice");
  }
  int entry = (int)c.weighted({60, 40});
  v.x.dev = v.w.dev = gen_dev(c);
  c.note("%s groups %d: %s * %s", str(v.g).c_str(), (int)v.groups, str(v.x).c_str(), str(v.w).c_str());
  Prod want = conv_model(v.x, v.w, v.g, v.groups);
  Geo g = v.g;
  Tensor tx = mk(c, v.x), tw = self ? tx : mk(c, v.w), out = kUntouched;
  Status s = run_conv(tx, tw, v.g, v.groups, entry, &out);
  want_ok(c, "conv", s, out);
  TV got = rd(c, out);
  want_prod(c, "conv", got, F32, want);
  if (got.dev.type != v.x.dev.type || got.dev.id != v.x.dev.id) c.fail("conv lost the device");
  want_same(c, "the input", tx, v.x);
  want_same(c, "the filter", tw, v.w);
  if (g.s != v.g.s || g.p != v.g.p || g.d != v.g.d) c.fail("conv changed its parameter arrays");
  int64_t per = v.w.dims[1];
  for (int k : g.k) per *= k;
  if (got.n() >= 2 && per >= 2) c.nontrivial();
  char nm[48];
  snprintf(nm, sizeof nm, "%d spatial dimensions", nsp);
  c.cls(nm);
  if (v.groups > 1) c.cls("grouped");
  for (size_t a = 0; a + 1 < g.n(); a++)
    if (g.s[a] != g.s[a + 1] || g.p[a] != g.p[a + 1] || g.d[a] != g.d[a + 1]) { c.cls("anisotropic"); break; }
  drop(c, tx);
  if (!self) drop(c, tw);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
// Inputs that are mostly address space, with strides that reach few of their cells.
static void huge(Case& c) {
  int nsp = (int)c.weighted({45, 40, 15}) + 1;
  HugeGeo h = gen_huge_geo(c, nsp);
  const Geo& g = h.g;
  int64_t groups = c.i(1, 2), cg = c.i(1, 2), og = c.i(1, 2), n = c.i(1, 2);
  Dims dx = {n, groups * cg}, dw = {groups * og, cg};
  for (int a = 0; a < nsp; a++) { dx.push_back(g.in[a]); dw.push_back(g.k[a]); }
  TV w = gen_tv(c, F32, dw, P_SMALL);
  uint64_t seed = c.bulk_seed();
  c.note("%s groups %d, input %s, filter %s", str(g).c_str(), (int)groups, str(dx).c_str(), str(w).c_str());
  int entry = (int)c.weighted({60, 40});
  alloc::sparse_from(1 << 16);
  Tensor tx = nullptr, out = kUntouched;
  Status s = LIB(aitisa_create(kFloat, w.dev, dx.data(), nsp + 2, nullptr, 0, &tx));
  if (s == STATUS_ALLOC_FAILED && alloc::failed()) return;
  want_ok(c, "aitisa_create", s, tx);
  float* data = (float*)aitisa_tensor_data(tx);
  int64_t isp = prod(g.in), osp = prod(g.out), ksp = prod(dw, 2, dw.size());
  Prod want;
  want.dims = {n, groups * og};
  want.dims.insert(want.dims.end(), g.out.begin(), g.out.end());
  want.v.assign((size_t)prod(want.dims), Sum());
  TV one(F32, {1});
  for (int64_t q = 0; q < osp; q++)
    window(g, unravel(g.out, q), [&](int64_t off, int64_t wi) {
      for (int64_t b = 0; b < n; b++)
        for (int64_t oc = 0; oc < groups * og; oc++)
          for (int64_t ic = 0; ic < cg; ic++) {
            int64_t at = (b * groups * cg + oc / og * cg + ic) * isp + off;
            data[at] = (float)((int64_t)(pbt::mix(seed ^ (uint64_t)at) % 17) - 8);
            one.set<float>(0, data[at]);
            add_prod(want.v[(size_t)((b * groups * og + oc) * osp + q)], one, 0, w, (oc * cg + ic) * ksp + wi);
          }
    });
  Tensor tw = mk(c, w);
  s = run_conv(tx, tw, g, groups, entry, &out);
  want_ok(c, "conv", s, out);
  want_prod(c, "conv of a huge input", rd(c, out), F32, want);
  if (want.v.size() > 1) c.nontrivial();
  if (prod(dx) > INT32_MAX) c.cls("more than 2^31 elements");
  drop(c, tx);
  drop(c, tw);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() {
  return {{"conv", conv, 60000, 2000000, V_ALL}, {"huge", huge, 12000, 300000, V_ALL}};
}
