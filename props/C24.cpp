// C24: malformed convolutions and poolings are rejected
#include "nnmodel.hpp"
namespace pbt {
const char* const kProperty = "C24";
const char* const kRule =
    "a valid random convolution or pooling in which one thing (70%) or several are made wrong: rank, types, "
    "channels against groups, a stride, padding, dilation or window extent out of range, a window that "
    "exceeds the padded input by one or by a lot (32-bit overflowing products included), an unknown pooling "
    "mode, or the lengths given to aitisa_conv2d and aitisa_conv3d; non-trivial: the wrong entry is not the "
    "first of its array, or the window exceeds the input by one";
}
struct Want { int n = 0; Status s = STATUS_SUCCESS; };
static void add(Want& w, Status s) { w.n++; w.s = s; }
static void bad_ext(Case& c, std::vector<int>& v, int lo) {
  size_t k = (size_t)c.i(0, (int64_t)v.size() - 1);
  if (k) c.nontrivial();
  v[k] = c.pick<int>({lo - 1, lo - 2, -5, INT_MIN, INT_MIN + 1});
}
// Makes the window exceed the padded input in one dimension.
static void too_large(Case& c, Geo& g, bool by_kernel) {
  size_t a = (size_t)c.i(0, (int64_t)g.n() - 1);
  int64_t room = g.in[a] + 2 * (int64_t)g.p[a];
  if (by_kernel && c.chance(60)) {
    if (c.chance(70)) {  // by one
      g.d[a] = 1;
      g.k[a] = (int)room + 1;
      c.nontrivial();
    } else if (c.chance(50)) {
      g.k[a] = (int)room + 2 + (int)c.i(0, 50);
    } else {
      g.k[a] = c.pick<int>({INT_MAX, 65537, 1 << 30, 46341});
      g.d[a] = c.pick<int>({65536, INT_MAX, 1 << 16, 46341, 4});
    }
  } else {
    g.k[a] = std::max(g.k[a], 2);
    int64_t d = (room - 1) / (g.k[a] - 1) + 1;  // the least dilation that does not fit
    if (c.chance(70)) {
      g.d[a] = (int)d;
      if (d * (g.k[a] - 1) + 1 == room + 1) c.nontrivial();
    } else {
      g.d[a] = c.pick<int>({INT_MAX, 1 << 30, 1 << 16, (int)d + 1});
    }
  }
}
static void finish(Case& c, const char* what, Status s, const Want& w, Tensor out, uint64_t live) {
  if (w.n == 1) want_status(c, what, s, w.s);
  else want_rejected(c, what, s);
  if (out != kUntouched) c.fail("%s was rejected but set the output", what);
  if (alloc::live() != live) c.fail("%s was rejected but left memory behind", what);
}
static void conv(Case& c) {
  int nsp = (int)c.weighted({15, 50, 35}) + 1;
  ConvCase v = gen_conv(c, nsp, P_SMALL, P_SMALL);
  Geo& g = v.g;
  int64_t groups = v.groups;
  int entry = nsp == 1 ? 0 : (int)c.weighted({50, 50});
  int ls = nsp, lp = nsp, ld = nsp;
  Want w;
  int faults = c.chance(70) ? 1 : (int)c.i(2, 3);
  bool rank_bad = false;
  Dims wd = v.w.dims, xd = v.x.dims;
  int xt = F32, wt = F32;
  for (int f = 0; f < faults; f++) {
    switch (c.i(0, 9)) {
      case 0:  // the filter has another type
        c.cls("filter type");
        do wt = gen_dt(c); while (wt == xt && c.n < 200);
        if (wt == xt) wt = xt == F64 ? I32 : F64;
        add(w, STATUS_TYPE_MISMATCH);
        break;
      case 1:  // a type that is not supported
        c.cls("type");
        xt = (int)c.i(0, NDT - 2);
        if (xt == F32) xt = F64;
        wt = xt;
        add(w, STATUS_NOT_SUPPORTED);
        break;
      case 2: {  // ranks differ
        c.cls("filter rank");
        if (rank_bad) { add(w, STATUS_DIMENSIONS_MISMATCH); break; }
        rank_bad = true;
        if (c.chance(50)) wd.push_back(1);
        else if (wd.size() > 1) wd.pop_back();
        if (c.chance(15)) wd.clear();
        add(w, STATUS_DIMENSIONS_MISMATCH);
        break;
      }
      case 3:
        c.cls("groups out of range");
        groups = c.pick<int64_t>({0, -1, -3, INT_MIN});
        add(w, STATUS_INVALID_ARGUMENT);
        break;
      case 4: {  // channels are not divisible by the groups
        c.cls("groups do not divide the channels");
        if (rank_bad) { add(w, STATUS_DIMENSIONS_MISMATCH); break; }
        int64_t q = c.i(2, 4), cg = c.i(1, 3), og = c.i(1, 3);
        groups = q;
        wd[1] = cg;
        xd[1] = q * cg;
        wd[0] = q * og;
        if (c.chance(50)) xd[1] += c.i(1, q - 1);
        else wd[0] = (c.chance(30) ? 0 : wd[0]) + c.i(1, q - 1);
        if (c.chance(20)) { xd[1] = wd[0] = 1; wd[1] = 1; }
        add(w, STATUS_INVALID_ARGUMENT);
        break;
      }
      case 5:  // the filter has another number of channels than a group
        c.cls("filter channels");
        if (rank_bad) { add(w, STATUS_DIMENSIONS_MISMATCH); break; }
        wd[1] += c.chance(60) || wd[1] == 0 ? c.i(1, 3) : -1;
        if (groups > 1 && c.chance(30) && wd[1] != xd[1]) wd[1] = xd[1] == v.w.dims[1] ? xd[1] + 1 : xd[1];
        if (wd[1] == v.w.dims[1]) wd[1]++;
        add(w, STATUS_DIMENSIONS_MISMATCH);
        break;
      case 6:
        c.cls("stride, padding or dilation out of range");
        switch (c.i(0, 2)) {
          case 0: bad_ext(c, g.s, 1); break;
          case 1: bad_ext(c, g.p, 0); break;
          default: bad_ext(c, g.d, 1); break;
        }
        add(w, STATUS_INVALID_ARGUMENT);
        break;
      case 7: {  // the window is larger than the padded input
        c.cls("window too large");
        if (rank_bad) { add(w, STATUS_DIMENSIONS_MISMATCH); break; }
        if (faults > 1) { g = gen_geo(c, nsp, 40, false); for (int a = 0; a < nsp; a++) xd[2 + a] = g.in[a]; }
        too_large(c, g, true);
        for (int a = 0; a < nsp; a++) {
          if (g.k[a] > 5000) { g.k[a] = 5; g.d[a] = 1 << 30; }
          wd[2 + a] = g.k[a];
        }
        if (prod(wd) > 50000) wd[0] = wd[1] = 1, xd[1] = groups = 1;
        add(w, STATUS_INVALID_ARGUMENT);
        break;
      }
      case 8: {  // an empty window
        c.cls("empty window");
        if (rank_bad) { add(w, STATUS_DIMENSIONS_MISMATCH); break; }
        size_t k = (size_t)c.i(0, nsp - 1);
        if (k) c.nontrivial();
        wd[2 + k] = 0;
        add(w, STATUS_INVALID_ARGUMENT);
        break;
      }
      default:
        c.cls("lengths or rank of conv2d and conv3d");
        if (nsp == 1) {
          if (rank_bad) { add(w, STATUS_DIMENSIONS_MISMATCH); break; }
          // too few dimensions for a convolution
          xd.resize((size_t)c.i(0, 2));
          wd = xd;
          rank_bad = true;
          add(w, STATUS_DIMENSIONS_MISMATCH);
          break;
        }
        if (c.chance(50)) {  // the other of the two functions
          entry = 2;
          add(w, STATUS_DIMENSIONS_MISMATCH);
        } else {
          if (entry == 0) entry = 1;
          int* l[] = {&ls, &lp, &ld};
          *l[c.i(0, 2)] = c.pick<int>({nsp - 1, nsp + 1, 0, -1, 5 - nsp});
          add(w, STATUS_INVALID_ARGUMENT);
        }
        break;
    }
  }
  for (auto& e : wd) e = std::min<int64_t>(e, 6000);
  if (prod(wd) > 200000) wd = v.w.dims.size() == wd.size() ? v.w.dims : wd, w.n = 2;
  // several wrong things may cancel out: judge by the documented conditions
  if (w.n > 1) {
    bool bad = xt != wt || xt != F32 || xd.size() != wd.size() || xd.size() < 3 || groups < 1 || entry == 2 ||
               (entry == 1 && (ls != nsp || lp != nsp || ld != nsp));
    if (!bad) bad = xd[1] % groups || wd[0] % groups || wd[1] != xd[1] / groups;
    for (size_t a = 0; a < g.n() && !bad; a++)
      bad = g.s[a] < 1 || g.p[a] < 0 || g.d[a] < 1 || wd[2 + a] < 1 ||
            (wd[2 + a] - 1) * g.d[a] + 1 > xd[2 + a] + 2 * (int64_t)g.p[a];
    if (!bad) { c.cls("cancelled out"); return; }
  }
  TV x = gen_tv(c, xt, xd, P_SMALL), k = gen_tv(c, wt, wd, P_SMALL);
  c.note("entry %d: %s%s * %s%s stride %s pad %s dil %s lengths %d %d %d groups %d (%d faults)", entry, kDtName[xt], str(xd).c_str(),
         kDtName[wt], str(wd).c_str(), str(g.s).c_str(), str(g.p).c_str(), str(g.d).c_str(), ls, lp, ld, (int)groups, w.n);
  Tensor tx = mk(c, x), tk = mk(c, k), out = kUntouched;
  uint64_t live = alloc::live();
  // the arrays end exactly where they are said to end
  auto arr = [&](const std::vector<int>& a, int len) {
    size_t n = (size_t)std::max(0, std::min<int>(len, (int)a.size()));
    int* p = (int*)malloc(n * sizeof(int) + (n == 0));
    memcpy(p, a.data(), n * sizeof(int));
    return p;
  };
  int *s = arr(g.s, ls), *p = arr(g.p, lp), *d = arr(g.d, ld);
  Status st;
  bool two = (nsp == 2) != (entry == 2);
  if (entry == 0) st = LIB(aitisa_conv(tx, tk, s, p, d, (int)groups, &out));
  else if (two) st = LIB(aitisa_conv2d(tx, tk, s, entry == 2 ? 2 : ls, p, entry == 2 ? 2 : lp, d, entry == 2 ? 2 : ld, (int)groups, &out));
  else st = LIB(aitisa_conv3d(tx, tk, s, entry == 2 ? 3 : ls, p, entry == 2 ? 3 : lp, d, entry == 2 ? 3 : ld, (int)groups, &out));
  free(s);
  free(p);
  free(d);
  finish(c, "the malformed convolution", st, w, out, live);
  want_same(c, "the input", tx, x);
  want_same(c, "the filter", tk, k);
  drop(c, tx);
  drop(c, tk);
}
static void pool(Case& c) {
  int nsp = (int)c.i(1, 3);
  Geo g = gen_geo(c, nsp, 200, false);
  Dims xd = {c.i(1, 2), c.i(1, 3)};
  xd.insert(xd.end(), g.in.begin(), g.in.end());
  const char* mode = c.chance(50) ? "avg" : "max";
  Want w;
  bool rank_bad = false;
  int faults = c.chance(75) ? 1 : (int)c.i(2, 3);
  for (int f = 0; f < faults; f++) {
    switch (c.i(0, 3)) {
      case 0: {
        c.cls("pooling mode");
        static const char* const m[] = {"", "min", "Max", "AVG", "avg ", "maxx", "ma", "average", "mean", " max", "a"};
        mode = m[c.i(0, 10)];
        add(w, STATUS_INVALID_ARGUMENT);
        break;
      }
      case 1:
        c.cls("pooling rank");
        if (c.chance(50)) xd.resize((size_t)c.i(0, 2));
        else { xd.resize(5, 1); xd.resize((size_t)c.i(6, 8), 1); }
        rank_bad = true;
        add(w, STATUS_DIMENSIONS_MISMATCH);
        break;
      case 2:
        c.cls("pooling parameter out of range");
        switch (c.i(0, 3)) {
          case 0: bad_ext(c, g.s, 1); break;
          case 1: bad_ext(c, g.p, 0); break;
          case 2: bad_ext(c, g.d, 1); break;
          default: bad_ext(c, g.k, 1); break;
        }
        add(w, STATUS_INVALID_ARGUMENT);
        break;
      default:
        c.cls("pooling window too large");
        if (f) break;
        too_large(c, g, true);
        add(w, STATUS_INVALID_ARGUMENT);
        break;
    }
  }
  // pooling is given arrays of the length of the spatial dimensions
  std::vector<int> k = g.k, s = g.s, p = g.p, d = g.d;
  if (rank_bad)
    for (auto* a : {&k, &s, &p, &d}) a->resize(8, a == &p ? 0 : 1);
  TV x = gen_tv(c, gen_dt(c), xd, P_SMALL);
  c.note("%s%s '%s' k %s stride %s pad %s dil %s (%d faults)", kDtName[x.dt], str(xd).c_str(), mode, str(k).c_str(),
         str(s).c_str(), str(p).c_str(), str(d).c_str(), w.n);
  Tensor tx = mk(c, x), out = kUntouched;
  uint64_t live = alloc::live();
  Status st = LIB(aitisa_pooling(tx, mode, k.data(), s.data(), p.data(), d.data(), &out));
  finish(c, "the malformed pooling", st, w, out, live);
  want_same(c, "the input", tx, x);
  drop(c, tx);
}
std::vector<pbt::Target> pbt::targets() {
  return {{"conv", conv, 120000, 4000000, V_ALL}, {"pool", pool, 120000, 4000000, V_ALL}};
}
