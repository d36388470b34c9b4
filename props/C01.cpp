// C01: creating, inspecting and destroying tensors
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C01";
const char* const kRule =
    "a random history of creating (10 types, 0-20 dimensions, zero extents, with or without a data "
    "buffer, CPU and CUDA device ids), inspecting, overwriting and destroying up to 6 tensors, and "
    "single tensors of up to 2^46 bytes of address space, and up to 4000 tensors at a time; non-trivial: a history with two or more live "
    "tensors, or a tensor of more than 2^31 bytes";
}
struct Live {
  Tensor t = nullptr;
  TV v;
  void* adopted = nullptr;
};
static void inspect(Case& c, Live& l, const char* when) {
  Tensor t = l.t;
  const TV& v = l.v;
  int64_t nd = (int64_t)v.dims.size();
  DataType dt = aitisa_tensor_data_type(t);
  if (dt.code != dtype_of(v.dt).code || dt.size != kDtSize[v.dt])
    c.fail("%s: data type %d/%d, created as %s", when, (int)dt.code, dt.size, kDtName[v.dt]);
  if (aitisa_tensor_ndim(t) != nd) c.fail("%s: ndim is %" PRId64, when, aitisa_tensor_ndim(t));
  for (int64_t k = 0; k < nd; k++) {
    if (aitisa_tensor_dim(t, k) != v.dims[k] || aitisa_tensor_dims(t)[k] != v.dims[k])
      c.fail("%s: dimension %" PRId64 " is %" PRId64 ", created as %s", when, k,
             aitisa_tensor_dim(t, k), str(v.dims).c_str());
  }
  Shape sh = aitisa_tensor_shape(t);
  if (sh.ndim != nd || (nd && memcmp(sh.dims, v.dims.data(), sizeof(int64_t) * nd)))
    c.fail("%s: the shape is not %s", when, str(v.dims).c_str());
  if (aitisa_tensor_layout_type(t) != LAYOUT_DENSE || sh.layout.type != LAYOUT_DENSE)
    c.fail("%s: the layout is not dense", when);
  for (int64_t k = 0; k < nd; k++)
    if (sh.layout.min2maj[k] != nd - 1 - k) c.fail("%s: dimension %" PRId64 " comes at place %" PRId64 " of the layout", when, sh.layout.min2maj[k], k);
  if (aitisa_tensor_size(t) != prod(v.dims))
    c.fail("%s: size %" PRId64 " of shape %s", when, aitisa_tensor_size(t), str(v.dims).c_str());
  Device d = aitisa_tensor_device(t);
  if (d.type != v.dev.type || d.id != v.dev.id)
    c.fail("%s: device %d/%d, created on %d/%d", when, d.type, d.id, v.dev.type, v.dev.id);
  Storage st = aitisa_tensor_storage(t);
  if (st->size != prod(v.dims) || st->data != aitisa_tensor_data(t) ||
      st->dtype.code != dt.code || st->device.id != d.id)
    c.fail("%s: the storage disagrees with the tensor", when);
  if (l.adopted && aitisa_tensor_data(t) != l.adopted)
    c.fail("%s: the tensor does not use the buffer it was given", when);
  // resolve gives back the description
  DataType rdt; Device rdv; int64_t* rd_ = nullptr; int64_t rn = -1; void* rp = nullptr; unsigned rl = 77;
  memset(&rdt, 0x55, sizeof rdt);
  memset(&rdv, 0x55, sizeof rdv);
  Status s = LIB(aitisa_resolve(t, &rdt, &rdv, &rd_, &rn, &rp, &rl));
  want_status(c, "aitisa_resolve", s, STATUS_SUCCESS);
  if (rdt.code != dt.code || rdt.size != dt.size || rdv.type != d.type || rdv.id != d.id || rn != nd ||
      rp != aitisa_tensor_data(t))
    c.fail("%s: resolve does not give the description of the tensor back", when);
  for (int64_t k = 0; k < nd; k++)
    if (rd_[k] != v.dims[k]) c.fail("%s: resolve gives extent %" PRId64 " for dimension %" PRId64 " of %s", when, rd_[k], k, str(v.dims).c_str());
  int64_t bytes = prod(v.dims) * kDtSize[v.dt];
  if (bytes <= (int64_t)UINT32_MAX && (int64_t)rl != bytes)
    c.fail("%s: resolve gives length %u for %" PRId64 " bytes", when, rl, bytes);
}
static void history(Case& c) {
  Live L[6];
  int n = (int)c.small(1, 14), most = 0;
  for (int k = 0; k < n; k++) {
    Live& l = L[c.i(0, 5)];
    if (!l.t) {
      int dt = gen_dt(c);
      ShapeOpt o;
      o.max_nd = 8;
      o.zero = true;
      o.max_elems = gen_budget(c, 300, 70000, 1);
      Dims d = gen_dims(c, o);
      TV v = gen_tv(c, dt, d, P_BYTES);
      v.dev = gen_dev(c);
      bool give = c.chance(60);
      c.note("create %s dev=%d/%d data=%d; ", str(v, 4).c_str(), v.dev.type, v.dev.id, give);
      void* buf = nullptr;
      if (give) {
        buf = alloc::take(v.b.size());
        memcpy(buf, v.b.data(), v.b.size());
      }
      Dims arg = d;
      uint64_t before = alloc::live();
      l.t = c.chance(50) ? nullptr : kUntouched;
      Status s = LIB(aitisa_create(dtype_of(dt), v.dev, arg.empty() ? nullptr : arg.data(), (int64_t)arg.size(), buf,
                                   give ? (unsigned)v.b.size() : (unsigned)c.pick<int64_t>({0, 0, 1, 4096}), &l.t));
      want_ok(c, "aitisa_create", s, l.t);
      if (arg != d) c.fail("aitisa_create changed its extents argument");
      for (auto& x : arg) x = -7777;  // the tensor keeps its own copy
      l.v = v;
      l.adopted = buf;
      if (!give) {
        if (v.n() && !aitisa_tensor_data(l.t)) c.fail("a tensor without data");
        memcpy(aitisa_tensor_data(l.t), v.b.data(), v.b.size());  // every byte is writable
      }
      if (alloc::live() <= before) c.fail("creating a tensor took no memory");
    } else {
      switch (c.weighted({30, 40, 30})) {
        case 0:
          c.note("write; ");
          fill_tv(c, l.v, P_BYTES);
          memcpy(aitisa_tensor_data(l.t), l.v.b.data(), l.v.b.size());
          break;
        case 1:
          c.note("destroy; ");
          drop(c, l.t);
          if (l.adopted && alloc::is_live(l.adopted) && l.adopted) {
            // the block may only be live again if something else got it
            bool other = false;
            for (auto& m : L) if (m.t && aitisa_tensor_data(m.t) == l.adopted) other = true;
            if (!other) c.fail("the adopted buffer was not freed with the tensor");
          }
          l = Live();
          break;
        default:
          c.note("inspect; ");
          break;
      }
    }
    int m = 0;
    for (auto& x : L)
      if (x.t) {
        m++;
        inspect(c, x, "in a history");
        want_same(c, "in a history", x.t, x.v);
      }
    most = std::max(most, m);
    if (m == 0 && alloc::live()) c.fail("%d blocks are left when no tensor is", (int)alloc::live());
  }
  if (most >= 2) c.nontrivial();
  for (auto& x : L) drop(c, x.t);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
  Tensor none = nullptr;
  Status s = LIB(aitisa_destroy(&none));
  want_status(c, "destroying a null tensor", s, STATUS_SUCCESS);
  if (none) c.fail("destroying a null tensor set the handle");
}
// Tensors far beyond what a test allocates; their data is address space only.
static void huge(Case& c) {
  int dt = gen_dt(c);
  int64_t budget = (int64_t)1 << c.i(20, 46);
  budget /= kDtSize[dt];
  int nd = (int)c.i(1, 6);
  Live l;
  l.v.dt = dt;
  for (int k = 0; k < nd; k++) {
    int64_t e = k == nd - 1 && c.chance(60) ? budget : c.small(1, c.chance(30) ? budget : std::min<int64_t>(budget, 70000));
    l.v.dims.push_back(e);
    budget /= e;
  }
  if (c.chance(50)) std::reverse(l.v.dims.begin(), l.v.dims.end());
  if (c.chance(15)) {  // among very many dimensions
    nd += (int)(c.chance(20) ? c.i(50, 300) : c.i(1, 50));
    while ((int)l.v.dims.size() < nd) l.v.dims.insert(l.v.dims.begin() + c.i(0, (int64_t)l.v.dims.size()), 1);
  }
  l.v.dev = gen_dev(c);
  int64_t bytes = prod(l.v.dims) * kDtSize[dt];
  c.note("%s%s %" PRId64 " bytes", kDtName[dt], str(l.v.dims).c_str(), bytes);
  alloc::virtual_from(1 << 16);
  Status s = LIB(aitisa_create(dtype_of(dt), l.v.dev, l.v.dims.data(), nd, nullptr, 0, &l.t));
  if (s == STATUS_ALLOC_FAILED && alloc::failed()) return;  // no address space
  want_ok(c, "aitisa_create", s, l.t);
  if (alloc::block_size(aitisa_tensor_data(l.t)) < bytes)
    c.fail("a tensor of %" PRId64 " bytes has a buffer of %" PRId64, bytes, alloc::block_size(aitisa_tensor_data(l.t)));
  inspect(c, l, "huge");
  if (bytes > INT32_MAX) { c.nontrivial(); c.cls("more than 2^31 bytes"); }
  if (prod(l.v.dims) > INT32_MAX) c.cls("more than 2^31 elements");
  drop(c, l.t);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
// Very many tensors at a time.
static void crowd(Case& c) {
  int n = c.chance(70) ? (int)c.small(2, 300) : (int)c.i(200, 4000);
  uint64_t x = c.bits() | 1;
  auto next = [&](uint64_t m) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x % m; };
  int rounds = (int)c.i(1, 3);
  c.note("%d tensors, some of them replaced %d times", n, rounds);
  std::vector<Live> L((size_t)n);
  auto fresh = [&](Live& l) {
    l.v.dt = (int)next(NDT);
    l.v.dims.clear();
    for (int k = (int)next(4); k > 0; k--) l.v.dims.push_back((int64_t)next(5));
    l.v.dev = {DEVICE_CPU, (int)next(4)};
    l.v.b.resize((size_t)(prod(l.v.dims) * kDtSize[l.v.dt]));
    for (auto& b : l.v.b) b = (uint8_t)next(256);
    l.t = kUntouched;
    Status s = LIB(aitisa_create(dtype_of(l.v.dt), l.v.dev, l.v.dims.empty() ? nullptr : l.v.dims.data(), (int64_t)l.v.dims.size(), nullptr, 0, &l.t));
    want_ok(c, "aitisa_create", s, l.t);
    if (l.v.b.size()) memcpy(aitisa_tensor_data(l.t), l.v.b.data(), l.v.b.size());
  };
  for (auto& l : L) fresh(l);
  for (int r = 0; r < rounds; r++) {
    for (int k = 0; k < n / 2; k++) {
      Live& l = L[next((uint64_t)n)];
      if (next(2) && l.t) { drop(c, l.t); l.t = nullptr; }
      else if (!l.t) fresh(l);
    }
    for (auto& l : L)
      if (l.t) {
        inspect(c, l, "among many");
        want_same(c, "among many", l.t, l.v);
      }
  }
  c.nontrivial();
  if (n > 256) c.cls("more than 256 tensors at a time");
  for (auto& l : L) if (l.t) drop(c, l.t);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() {
  return {{"history", history, 120000, 4000000, V_ALL}, {"huge", huge, 40000, 1000000, V_ALL}, {"crowd", crowd, 3000, 60000, V_ALL}};
}
