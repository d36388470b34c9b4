// C07: slicing
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C07";
const char* const kRule =
    "a random tensor (10 types, 0-6 dimensions, extents 1-40, now and then one of up to 3000 or a "
    "total above 65536; huge: up to 2^40 bytes of address space of which the slice takes a few elements) and a random begin/size/step; non-trivial: an accepted slice of a tensor of "
    "two or more dimensions that takes some but not all elements, or a rejected one";
}
static void slice(Case& c) {
  int dt = gen_dt(c);
  ShapeOpt o;
  o.max_elems = gen_budget(c, 600, 80000, 1);
  Dims d = gen_dims(c, o);
  TV v = gen_tv(c, dt, d, c.chance(50) ? P_BYTES : P_IOTA);
  v.dev = gen_dev(c);
  int nd = (int)d.size();
  std::vector<int> b(nd), s(nd), st(nd);
  bool bad = false;
  int badk = nd > 0 && c.chance(12) ? (int)c.i(0, nd - 1) : -1;
  for (int k = 0; k < nd; k++) {
    int64_t e = d[k];
    b[k] = (int)c.small(0, e - 1);
    s[k] = (int)(e - b[k] - c.small(0, e - b[k]));
    switch (c.weighted({50, 30, 15, 5})) {
      case 0: st[k] = 1; break;
      case 1: st[k] = (int)c.i(2, 4); break;
      case 2: st[k] = (int)c.i(1, std::max<int64_t>(1, e + 2)); break;
      default: st[k] = (int)c.pick<int64_t>({INT32_MAX, INT32_MAX - 1, 1 << 30, 65536}); break;
    }
    if (k == badk) {
      switch (c.i(0, 6)) {
        case 0: b[k] = (int)c.pick<int64_t>({-1, -2, INT32_MIN, -e}); break;
        case 1: b[k] = (int)c.pick<int64_t>({e, e + 1, INT32_MAX, 2 * e}); if (c.chance(30)) s[k] = 0; break;
        case 2: s[k] = (int)c.pick<int64_t>({-1, INT32_MIN, -e}); break;
        case 3: s[k] = (int)c.pick<int64_t>({e - b[k] + 1, INT32_MAX, INT32_MAX - b[k], e + 1 + b[k]}); break;
        case 4: st[k] = 0; break;
        case 5: st[k] = (int)c.pick<int64_t>({-1, INT32_MIN, -e}); break;
        default: b[k] = (int)c.pick<int64_t>({(int64_t)1 << 30, INT32_MAX}); s[k] = INT32_MAX; break;
      }
    }
    if (b[k] < 0 || b[k] >= e || s[k] < 0 || (int64_t)b[k] + s[k] > e || st[k] < 1) bad = true;
  }
  c.note("%s dev=%d/%d begin=%s size=%s step=%s", str(v).c_str(), v.dev.type, v.dev.id,
         str(b).c_str(), str(s).c_str(), str(st).c_str());
  Tensor t = mk(c, v), out = kUntouched;
  auto b0 = b, s0 = s, st0 = st;
  Status r = LIB(aitisa_slice(t, b.data(), s.data(), st.data(), &out));
  want_same(c, "slice: the input", t, v);
  if (b != b0 || s != s0 || st != st0) c.fail("slice changed its argument arrays");
  if (bad) {
    c.cls("rejected");
    c.nontrivial();
    want_status(c, "slice with a range outside the tensor", r, STATUS_INVALID_ARGUMENT);
    if (out != kUntouched) c.fail("a rejected slice set the output");
    drop(c, t);
    return;
  }
  want_ok(c, "slice", r, out);
  Dims full, od;
  for (int k = 0; k < nd; k++) {
    int64_t e = s[k] == 0 ? 0 : ((int64_t)s[k] + st[k] - 1) / st[k];
    full.push_back(e == 0 ? 1 : e);
    if (e) od.push_back(e);
  }
  TV want(dt, od);
  want.dev = v.dev;
  Dims is = strides_of(d);
  int es = kDtSize[dt];
  int64_t n = want.n();
  Dims x(nd, 0);
  for (int64_t k = 0; k < n; k++) {
    int64_t off = 0;
    for (int a = 0; a < nd; a++) off += (b[a] + x[a] * st[a]) * is[a];
    memcpy(&want.b[k * es], &v.b[off * es], es);
    for (int a = nd - 1; a >= 0; a--) {
      if (++x[a] < full[a]) break;
      x[a] = 0;
    }
  }
  TV got = rd(c, out);
  want_bits(c, "slice", got, want);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("slice lost the device");
  // The output shares no memory with the input.
  if (n) {
    memset(aitisa_tensor_data(out), 0x5A, want.b.size());
    want_same(c, "slice: the input after the output was overwritten", t, v);
  }
  if (nd >= 2 && n < v.n() && n > 1) c.nontrivial();
  if ((int)od.size() < nd) c.cls("drops a dimension");
  if (n > 65536) c.cls("more than 65536 elements");
  bool stp = false;
  for (int k = 0; k < nd; k++) stp |= st[k] > 1 && s[k] > st[k];
  if (stp) c.cls("real step");
  if (nd == 0) c.cls("scalar");
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
// Slices of tensors that are mostly address space: only the selected elements are ever written.
static void huge(Case& c) {
  int dt = gen_dt(c), es = kDtSize[dt], nd = (int)c.i(1, 4);
  int64_t budget = ((int64_t)1 << c.i(20, 40)) / es;
  Dims d;
  for (int k = 0; k < nd; k++) {
    int64_t e = k == nd - 1 && c.chance(60) ? budget : c.small(1, c.chance(40) ? budget : std::min<int64_t>(budget, 70000));
    d.push_back(e);
    budget /= e;
  }
  if (c.chance(50)) std::reverse(d.begin(), d.end());
  std::vector<int> b(nd), s(nd), st(nd);
  Dims cnt, od, is = strides_of(d);
  int64_t room = 200;
  for (int k = 0; k < nd; k++) {
    int64_t most = std::min<int64_t>(d[k], INT32_MAX);
    int64_t n = std::min(c.i(1, 6), std::min(most, room));  // so many elements
    room /= n;
    int64_t step = c.chance(50) ? std::max<int64_t>(1, (most - c.small(0, std::max<int64_t>(0, most / n))) / n) : c.i(1, std::max<int64_t>(1, most / n));
    int64_t lo = (n - 1) * step + 1, size = c.chance(40) ? lo : lo + c.i(0, step - 1);
    if (size > most) size = lo;
    int64_t top = std::min<int64_t>(d[k] - size, INT32_MAX - 1);
    int64_t begin = c.chance(40) ? std::max<int64_t>(0, top - c.i(0, 3)) : c.i(0, top);
    // the stride of a step stays far from 2^63, so that an implementation may form it
    st[k] = (int)std::min<int64_t>(INT32_MAX, n == 1 && c.chance(30) ? std::max(step, std::min<int64_t>(INT32_MAX, ((int64_t)1 << 60) / is[k])) : step);
    if (n == 1 && size > st[k]) size = st[k];
    b[k] = (int)begin;
    s[k] = (int)size;
    cnt.push_back(n);
  }
  if (c.chance(10) && nd > 1) { int k = (int)c.i(0, nd - 1); s[k] = 0; cnt[k] = 0; }
  for (auto n : cnt) if (n) od.push_back(n);
  TV want = gen_tv(c, dt, od, P_BYTES);
  c.note("%s%s begin=%s size=%s step=%s", kDtName[dt], str(d).c_str(), str(b).c_str(), str(s).c_str(), str(st).c_str());
  alloc::sparse_from(1 << 16);
  Tensor t = nullptr, out = kUntouched;
  Status r = LIB(aitisa_create(dtype_of(dt), want.dev, d.data(), nd, nullptr, 0, &t));
  if (r == STATUS_ALLOC_FAILED && alloc::failed()) return;
  want_ok(c, "aitisa_create", r, t);
  Dims full;
  for (auto n : cnt) full.push_back(std::max<int64_t>(1, n));
  char* data = (char*)aitisa_tensor_data(t);
  for (int64_t k = 0; k < want.n(); k++) {
    Dims x = unravel(full, k);
    int64_t off = 0;
    for (int a = 0; a < nd; a++) off += (b[a] + x[a] * st[a]) * is[a];
    memcpy(data + off * es, &want.b[(size_t)(k * es)], (size_t)es);
  }
  r = LIB(aitisa_slice(t, b.data(), s.data(), st.data(), &out));
  want_ok(c, "slice", r, out);
  want_bits(c, "slice of a huge tensor", rd(c, out), want);
  if (want.n() > 1 && prod(d) > INT32_MAX) c.nontrivial();
  if (prod(d) > INT32_MAX) c.cls("more than 2^31 elements");
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() {
  return {{"slice", slice, 60000, 3000000, V_ALL}, {"big", big<slice>, 90, 4000, V_ALL}, {"huge", huge, 15000, 400000, V_ALL}};
}
