// Reference models and generators of convolution and pooling.
#pragma once
#include "linalg.hpp"

struct Geo {  // the spatial geometry of a sliding window
  std::vector<int> k, s, p, d;
  Dims in, out;
  size_t n() const { return k.size(); }
};
static inline int64_t out_extent(int64_t in, int k, int s, int p, int d) {
  return (in + 2 * (int64_t)p - ((int64_t)d * (k - 1) + 1)) / s + 1;
}
// One to three (rarely four) spatial dimensions whose windows fit.
static inline Geo gen_geo(Case& c, int nsp, int64_t budget, bool zero_in, bool wide = false) {
  Geo g;
  int64_t cells = 1;
  for (int a = 0; a < nsp; a++) {
    int k = (int)c.weighted({25, 35, 30, 6, 4}) + 1;
    if (nsp > 4 && (cells *= k) > 64) k = 1;
    int d = (int)c.weighted({65, 22, 10, 3}) + 1;
    int s = (int)c.weighted({50, 30, 14, 6}) + 1;
    if (c.chance(1)) s = (int)c.i(5, 40);
    int p = (int)c.weighted({50, 30, 14, 6});
    if (c.chance(1)) p = (int)c.i(4, 9);
    int64_t win = (int64_t)d * (k - 1) + 1;
    int64_t lo = std::max<int64_t>(zero_in && c.chance(3) ? 0 : 1, win - 2 * p);
    int64_t extra = c.small(0, nsp == 1 ? 24 : nsp == 2 ? 9 : 4);
    if (c.chance(1)) extra = c.i(10, 60);
    int64_t in = lo + std::min(extra, std::max<int64_t>(0, budget - lo));
    budget = std::max<int64_t>(1, budget / std::max<int64_t>(1, in));
    if (wide && c.chance(2)) {  // magnitudes at which a narrower integer would wrap around
      auto big = [&] {
        static const int64_t edge[] = {128, 256, 32768, 65536, 1 << 20, 1 << 30, INT_MAX};
        return std::min<int64_t>(INT_MAX, edge[c.i(0, 6)] + c.i(-3, 3));
      };
      switch (c.i(0, 5)) {
        case 0: s = (int)big(); break;
        case 4: case 5: {  // wide steps that stay on a long input
          int64_t cap = nsp == 1 ? 30000 : nsp == 2 ? 9000 : 2000;
          auto wide_step = [&] { return c.chance(50) ? c.pick<int64_t>({127, 128, 129, 255, 256, 257, 258, 300, 512, 513}) : c.i(100, cap / 4); };
          k = (int)c.i(1, 3);
          d = c.chance(50) ? (int)wide_step() : d;
          p = c.chance(40) ? (int)wide_step() : p;
          s = c.chance(60) ? (int)wide_step() : s;
          int64_t w2 = (int64_t)d * (k - 1) + 1;
          in = std::max<int64_t>(1, w2 - 2 * (int64_t)p + s * c.i(0, 4) + c.i(0, 3));
          if (in > cap) { in = std::min(in, cap); if (w2 > in + 2 * (int64_t)p) { k = 1; } }
          int64_t steps = (in + 2 * (int64_t)p - ((int64_t)d * (k - 1) + 1)) / s;
          if (steps > 2000) s = (int)std::max<int64_t>(s, wide_step());
          budget = 1;
          break;
        }
        case 1:
          if (k == 1) d = (int)big();
          else s = (int)big();
          break;
        case 2: {  // a wide dilation over a wide padding
          k = (int)c.i(2, 3);
          p = (int)std::min<int64_t>(big(), 1 << 30);
          in = std::max<int64_t>(1, in);
          d = (int)std::min<int64_t>(INT_MAX, (in + 2 * (int64_t)p - 1 - c.i(0, 3)) / (k - 1));
          int64_t steps = in + 2 * (int64_t)p - 1 - (int64_t)d * (k - 1);
          if (d < 1) { d = 1; k = 1; p = 0; }
          else if (steps > 6) s = (int)std::min<int64_t>(INT_MAX, steps / 3);
          break;
        }
        default:  // a long input
          if (nsp == 1) {
            in = c.chance(30) ? std::min<int64_t>(big(), 70000) : c.i(300, 70000);
            in = std::max<int64_t>(in, win);
          }
      }
    }
    g.k.push_back(k);
    g.d.push_back(d);
    g.s.push_back(s);
    g.p.push_back(p);
    g.in.push_back(in);
    g.out.push_back(out_extent(in, k, s, p, d));
  }
  return g;
}
// Windows that reach few cells of an input of up to 2^36 cells.
struct HugeGeo { Geo g; };
static inline HugeGeo gen_huge_geo(Case& c, int nsp) {
  HugeGeo h;
  Geo& g = h.g;
  int64_t budget = (int64_t)1 << c.i(20, 34), room = 40;
  int at = (int)c.i(0, nsp - 1);  // the longest extent
  for (int a = 0; a < nsp; a++) {
    int64_t in = c.small(1, std::min<int64_t>(budget, c.chance(30) ? 3000000 : 70000));
    if (a == at) in = c.chance(60) ? budget : c.i(1, budget);
    budget = std::max<int64_t>(1, budget / in);
    int k = (int)c.i(1, 3), p = c.chance(60) ? 0 : c.chance(50) ? (int)c.i(1, 3) : (int)c.i(0, std::min<int64_t>(in, 1 << 28));
    int64_t span = in + 2 * (int64_t)p;
    if (k > span) k = 1;
    int64_t most = k > 1 ? std::min<int64_t>(INT_MAX, (span - 1) / (k - 1)) : INT_MAX;
    int d = (int)(c.chance(50) ? std::min<int64_t>(most, c.i(1, 3)) : c.i(std::max<int64_t>(1, most / 2), most));
    int64_t rest = span - ((int64_t)d * (k - 1) + 1);
    int64_t want = c.i(1, std::max<int64_t>(1, std::min<int64_t>(5, room)));  // so many windows
    int64_t s = std::max(rest / want + 1, want > 1 ? rest / (want - 1) : 1);
    if (want > 1 && s * (want - 1) > rest) s = std::max<int64_t>(1, rest / (want - 1));
    s = std::max<int64_t>(1, std::min<int64_t>(INT_MAX, s));
    if (rest / s + 1 > 60) {  // an extent far above 2^31
      p = 0;
      span = in = std::min<int64_t>(in, ((int64_t)1 << 32) + c.i(0, 100));
      k = 1;
      d = 1;
      rest = in - 1;
      s = INT_MAX - c.i(0, 2);
    }
    g.k.push_back(k);
    g.s.push_back((int)s);
    g.p.push_back(p);
    g.d.push_back(d);
    g.in.push_back(in);
    g.out.push_back(out_extent(in, k, (int)s, p, d));
    room = std::max<int64_t>(1, room / g.out.back());
  }
  return h;
}
static inline std::string str(const Geo& g) {
  return "in " + str(g.in) + " k " + str(g.k) + " stride " + str(g.s) + " pad " + str(g.p) + " dil " + str(g.d);
}
// Calls f(offset of the input element in its channel, index in the window) for
// each cell of the window of output position o that lies on the input, and
// returns the number of cells that lie on the padding.
template <class F>
static inline int64_t window(const Geo& g, const Dims& o, F f) {
  int64_t cells = 1, pad = 0;
  for (int x : g.k) cells *= x;
  for (int64_t w = 0; w < cells; w++) {
    int64_t r = w, off = 0, st = 1;
    bool in = true;
    for (size_t a = g.n(); a-- > 0;) {
      int64_t x = o[a] * g.s[a] - g.p[a] + (r % g.k[a]) * g.d[a];
      r /= g.k[a];
      if (x < 0 || x >= g.in[a]) in = false;
      off += x * st;
      st *= g.in[a];
    }
    if (in) f(off, w);
    else pad++;
  }
  return pad;
}
static inline Prod conv_model(const TV& x, const TV& w, const Geo& g, int64_t groups) {
  Prod r;
  int64_t N = x.dims[0], C = x.dims[1], O = w.dims[0], cg = groups ? C / groups : 0, og = O / groups;
  r.dims = {N, O};
  r.dims.insert(r.dims.end(), g.out.begin(), g.out.end());
  int64_t isp = prod(g.in), osp = prod(g.out), ksp = 1;
  for (int k : g.k) ksp *= k;
  r.v.assign((size_t)prod(r.dims), Sum());
  for (int64_t q = 0; q < osp; q++) {
    Dims o = unravel(g.out, q);
    window(g, o, [&](int64_t off, int64_t wi) {
      for (int64_t n = 0; n < N; n++)
        for (int64_t oc = 0; oc < O; oc++)
          for (int64_t ic = 0; ic < cg; ic++)
            add_prod(r.v[(size_t)((n * O + oc) * osp + q)], x, (n * C + oc / og * cg + ic) * isp + off,
                     w, (oc * cg + ic) * ksp + wi);
    });
  }
  return r;
}
struct ConvCase {
  Geo g;
  int64_t groups = 1;
  TV x, w;
};
static inline ConvCase gen_conv(Case& c, int nsp, Profile px, Profile pw, bool wide = false) {
  ConvCase v;
  v.g = gen_geo(c, nsp, 400, true, wide);
  v.groups = (int64_t)c.weighted({55, 20, 15, 10}) + 1;
  int64_t cg = (int64_t)c.weighted({40, 35, 25}) + 1, og = (int64_t)c.weighted({40, 35, 25}) + 1;
  int64_t n = (int64_t)c.weighted({50, 35, 15}) + 1;
  if (c.chance(1)) cg = 0;
  if (c.chance(1)) n = 0;
  int64_t ksp = 1;
  for (int k : v.g.k) ksp *= k;
  if (wide && c.chance(1)) {  // very many of one kind
    int64_t many = c.chance(30) ? c.pick<int64_t>({127, 128, 129, 255, 256, 257, 300, 65537}) : c.small(5, 70000);
    many = std::max<int64_t>(1, std::min(many, 70000 / std::max<int64_t>(1, std::max(prod(v.g.in), prod(v.g.out)))));
    n = std::min<int64_t>(n, 1);
    v.groups = og = 1;
    cg = std::min<int64_t>(cg, 1);
    switch (c.i(0, 3)) {
      case 0: n = many; break;
      case 1: v.groups = many; break;
      case 2: cg = many; break;
      default: og = many; break;
    }
  }
  // keep the work of one case bounded
  auto work = [&] { return n * v.groups * og * prod(v.g.out) * cg * ksp; };
  if (c.chance(5)) {  // several of several kinds
    int64_t* kinds[] = {&n, &v.groups, &cg, &og};
    for (auto q : kinds)
      if (c.chance(60)) *q = c.i(2, c.pick<int64_t>({5, 9, 14, 24}));
    while (work() > 60000) {
      auto q = kinds[0];
      for (auto r : kinds) if (*r > *q) q = r;
      if (*q <= 1) break;
      *q = *q * 2 / 3;
    }
  }
  if (work() > 250000) n = std::min<int64_t>(n, 1);
  if (work() > 250000) v.groups = 1;
  if (work() > 250000) cg = std::min<int64_t>(cg, 1);
  if (work() > 250000) og = 1;
  Dims dx = {n, v.groups * cg}, dw = {v.groups * og, cg};
  for (size_t a = 0; a < v.g.n(); a++) {
    dx.push_back(v.g.in[a]);
    dw.push_back(v.g.k[a]);
  }
  v.x = gen_tv(c, F32, dx, px);
  v.w = gen_tv(c, F32, dw, pw);
  return v;
}
// How the convolution is entered: 0 aitisa_conv, 1 aitisa_conv2d / aitisa_conv3d.
static inline Status run_conv(Tensor x, Tensor w, const Geo& g, int64_t groups, int entry, Tensor* out) {
  int n = (int)g.n();
  if (entry == 1 && n == 2)
    return LIB(aitisa_conv2d(x, w, g.s.data(), 2, g.p.data(), 2, g.d.data(), 2, (int)groups, out));
  if (entry == 1 && n == 3)
    return LIB(aitisa_conv3d(x, w, g.s.data(), 3, g.p.data(), 3, g.d.data(), 3, (int)groups, out));
  return LIB(aitisa_conv(x, w, g.s.data(), g.p.data(), g.d.data(), (int)groups, out));
}
static inline TV conv_tv(Case& c, const TV& x, const TV& w, const Geo& g, int64_t groups, int entry = 0) {
  Tensor tx = mk(c, x), tw = mk(c, w), out = kUntouched;
  Status s = run_conv(tx, tw, g, groups, entry, &out);
  want_ok(c, "conv", s, out);
  TV r = rd(c, out);
  drop(c, tx);
  drop(c, tw);
  drop(c, out);
  return r;
}
