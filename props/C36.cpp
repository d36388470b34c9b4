// C36: the auto-test fillers and handles
// @extra_src: REPO/auto_test/basic.cpp REPO/auto_test/sample.cpp
// @link: -lgtest
#include <memory>
#include "auto_test/basic.h"
#include "auto_test/sample.h"
#include "model.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISONED(p) __asan_address_is_poisoned(p)
#endif
#endif
#ifndef POISONED
#define POISONED(p) false
#endif
using namespace aitisa_api;
namespace pbt {
const char* const kProperty = "C36";
const char* const kRule =
    "filling buffers of 0 to 4000 bytes, some up to 66000 elements, of the 10 types (and of type numbers that do not exist) between guard bytes, "
    "and histories of up to 30 steps over up to 8 handles of inputs, results and samples that are made, copied, moved, "
    "assigned, set and destroyed in any order, the buffers watched by the address sanitizer; non-trivial: 2 or more "
    "elements, or a buffer with two owners at one time";
}
// ------------------------------------------------------------------ fillers
static void fill(Case& c) {
  int dt = (int)c.i(0, NDT - 1);
  bool natural = c.chance(50);
  unsigned len = (unsigned)(c.chance(20) ? c.small(0, 4000) : c.small(0, 500) * kDtSize[dt] % 4001);
  if (c.chance(2)) {  // around a power of two, in elements
    len = (unsigned)(std::max<int64_t>(0, (1LL << c.i(9, pbt::thorough_tier() ? 20 : 16)) + c.i(-3, 3) + c.pick<int64_t>({0, 0, 1000})) * kDtSize[dt]);
    c.cls("large");
  }
  int code = c.chance(5) ? c.pick<int>({10, -1, 11, 255}) : dt;
  c.note("%s_assign of %u bytes as type %d", natural ? "natural" : "random", len, code);
  c.cls(natural ? "natural" : "random");
  uint64_t seed = c.bits();
  auto noise = [&](size_t k) { return (uint8_t)(pbt::mix(seed + k) >> 7); };
  std::unique_ptr<uint64_t[]> mem(new uint64_t[(len + 7) / 8 + 8]);
  uint8_t* p = (uint8_t*)(mem.get() + 4);
  uint8_t* base = (uint8_t*)mem.get();
  size_t total = ((len + 7) / 8 + 8) * 8;
  for (size_t k = 0; k < total; k++) base[k] = noise(k);
  auto call = [&] { (natural ? natural_assign : random_assign)(p, len, code); };
  call();
  size_t used = code == dt ? len / (unsigned)kDtSize[dt] * (unsigned)kDtSize[dt] : 0;
  for (size_t k = 0; k < total; k++)
    if ((k < 32 || k >= 32 + used) && base[k] != noise(k)) c.fail("byte %d around the elements was changed", (int)k - 32);
  TV v(dt, {(int64_t)used / kDtSize[dt]});
  if (used) memcpy(v.b.data(), p, used);
  if (v.n() > 1) c.nontrivial();
  for (int64_t k = 0; k < v.n(); k++)
    with_type(dt, [&](auto z) {
      typedef decltype(z) T;
      T x = v.get<T>(k);
      if (natural) {
        bool ok = std::is_floating_point<T>::value ? fabsl((long double)x - (0.1L * k + 0.1L)) <= 4 * (long double)eps_of(dt) * (0.1L * k + 0.1L)
                                                   : x == (T)(uint64_t)(k + 1);
        if (!ok) c.fail("element %d of natural_assign is %s", (int)k, elem_str(v, k).c_str());
      } else if (std::is_floating_point<T>::value) {
        if (!(fabsl((long double)x) < 12)) c.fail("element %d of random_assign is %s", (int)k, elem_str(v, k).c_str());
      } else if (!((long double)x >= 0 && (long double)x <= 10))
        c.fail("element %d of random_assign is %s", (int)k, elem_str(v, k).c_str());
      return 0;
    });
  if (!natural && v.n() >= 60) {  // not constant
    bool same = true;
    for (int64_t k = 1; k < v.n(); k++) same &= v.num(k) == v.num(0);
    if (same) c.fail("random_assign made all %d elements equal", (int)v.n());
  }
  // samples are reproducible: the same again, and a longer fill starts alike
  for (size_t k = 0; k < total; k++) base[k] = noise(k + 977);
  call();
  if (used && memcmp(p, v.b.data(), used)) c.fail("the same fill gave other elements");
  unsigned less = len / 2 / (unsigned)kDtSize[dt] * (unsigned)kDtSize[dt];
  if (code == dt && less) {
    len = less;
    call();
    if (memcmp(p, v.b.data(), less)) c.fail("a shorter fill gave other elements");
  }
}
static void tables(Case& c) {
  int n = (int)c.i(0, NDT - 1), d = (int)c.i(0, 1);
  c.note("type %d device %d", n, d);
  c.nontrivial();
  DataType t = aitisa_int_to_dtype(n), w = dtype_of(n);
  if (t.code != w.code || t.size != w.size) c.fail("type number %d is type %d of size %d", n, (int)t.code, (int)t.size);
  if (aitisa_dtype_to_int(t) != n) c.fail("type number %d comes back as %d", n, aitisa_dtype_to_int(t));
  if (elem_size(n) != (unsigned)kDtSize[n]) c.fail("type number %d has element size %u", n, elem_size(n));
  if (aitisa_device_to_int(aitisa_int_to_device(d)) != d) c.fail("device number %d comes back as %d", d, aitisa_device_to_int(aitisa_int_to_device(d)));
  if (aitisa_int_to_device(d).type != (d ? DEVICE_CUDA : DEVICE_CPU)) c.fail("device number %d is device type %d", d, (int)aitisa_int_to_device(d).type);
}
// ------------------------------------------------------------------ handles
struct Half {
  std::vector<int64_t> dims;
  int dtype = 0, device = 0;
  unsigned len = 0;
  std::vector<uint8_t> b;
  int64_t* pd = nullptr;
  uint8_t* p = nullptr;
};
struct Body {  // what a group of handles shares
  Half h[2];
  int parts = 0;
  int owners = 0;
};
static Half new_half(Case& c) {
  Half h;
  int nd = (int)c.i(1, c.chance(10) ? 12 : 4);
  for (int k = 0; k < nd; k++) h.dims.push_back(c.chance(5) ? c.i(1, 1LL << 50) : c.i(1, 9));
  h.dtype = (int)c.i(0, 9);
  h.device = (int)c.i(0, 1);
  h.len = (unsigned)c.i(1, 40);
  if (c.chance(4)) h.len = c.chance(20) ? (unsigned)((1 << c.i(10, 17)) + c.i(-9, 9)) : (unsigned)c.i(41, 5000);
  h.b.resize(h.len);
  if (h.len <= 40) for (auto& x : h.b) x = (uint8_t)c.i(0, 255);
  else {
    uint64_t s = c.bits();
    for (size_t k = 0; k < h.b.size(); k++) h.b[k] = (uint8_t)(pbt::mix(s + k) >> 9);
  }
  h.p = (uint8_t*)new char[h.len];
  memcpy(h.p, h.b.data(), h.len);
  return h;
}
static void want_half(Case& c, const char* what, const Half& h, int64_t nd, int64_t* dims, int dtype, int device, void* data, unsigned len) {
  if (nd != (int64_t)h.dims.size() || dtype != h.dtype || len != h.len) c.fail("%s: number of dimensions %d, type %d, length %u", what, (int)nd, dtype, len);
  if (device != h.device) c.fail("%s: device %d, expected %d", what, device, h.device);
  if (POISONED(dims) || POISONED(data)) c.fail("%s: its buffers were freed", what);
  for (size_t k = 0; k < h.dims.size(); k++) if (dims[k] != h.dims[k]) c.fail("%s: extent %d is %d", what, (int)k, (int)dims[k]);
  if (memcmp(data, h.b.data(), h.len)) c.fail("%s: its data changed", what);
}
static void want_freed(Case& c, const Half& h) {
#ifdef __SANITIZE_ADDRESS__
  if (!POISONED(h.p)) c.fail("the data was not freed with its last owner");
  if (h.pd && !POISONED(h.pd)) c.fail("the extents were not freed with their last owner");
#else
  if (&h && POISONED(&h)) return;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
  if (!POISONED(h.p)) c.fail("the data was not freed with its last owner");
  if (h.pd && !POISONED(h.pd)) c.fail("the extents were not freed with their last owner");
#endif
#endif
  (void)c;
#endif
}
struct UnaryT {
  typedef Unary_Input H;
  static const int parts = 1;
  static H* make(Case& c, Half* h) {
    if (c.chance(50)) {
      h[0].pd = new int64_t[h[0].dims.size()];
      std::copy(h[0].dims.begin(), h[0].dims.end(), h[0].pd);
      return new H((int64_t)h[0].dims.size(), h[0].pd, h[0].dtype, h[0].device, h[0].p, h[0].len);
    }
    H* r = new H((int64_t)h[0].dims.size(), h[0].dims, h[0].dtype, h[0].device, h[0].p, h[0].len);
    h[0].pd = r->dims();
    return r;
  }
  static void want(Case& c, H& x, const Half* h) { want_half(c, "a unary input", h[0], x.ndim(), x.dims(), x.dtype(), x.device(), x.data(), x.len()); }
  static void set(H& x, int, Half& h) { x.set_data(h.p, h.len); }
};
struct BinaryT {
  typedef Binary_Input H;
  static const int parts = 2;
  static H* make(Case& c, Half* h) {
    if (c.chance(50)) {
      for (int k = 0; k < 2; k++) {
        h[k].pd = new int64_t[h[k].dims.size()];
        std::copy(h[k].dims.begin(), h[k].dims.end(), h[k].pd);
      }
      return new H((int64_t)h[0].dims.size(), h[0].pd, h[0].dtype, h[0].device, h[0].p, h[0].len, (int64_t)h[1].dims.size(), h[1].pd, h[1].dtype, h[1].device, h[1].p, h[1].len);
    }
    H* r = new H((int64_t)h[0].dims.size(), h[0].dims, h[0].dtype, h[0].device, h[0].p, h[0].len, (int64_t)h[1].dims.size(), h[1].dims, h[1].dtype, h[1].device, h[1].p, h[1].len);
    h[0].pd = r->dims1();
    h[1].pd = r->dims2();
    return r;
  }
  static void want(Case& c, H& x, const Half* h) {
    want_half(c, "the first part of a binary input", h[0], x.ndim1(), x.dims1(), x.dtype1(), x.device1(), x.data1(), x.len1());
    want_half(c, "the second part of a binary input", h[1], x.ndim2(), x.dims2(), x.dtype2(), x.device2(), x.data2(), x.len2());
  }
  static void set(H& x, int part, Half& h) {
    if (part) x.set_data2(h.p, h.len);
    else x.set_data1(h.p, h.len);
  }
};
template <class K>
static void inputs(Case& c) {
  typedef typename K::H H;
  struct Item {
    H* h;
    std::shared_ptr<Body> b;  // null: made without arguments
    int dev;                  // -1: as made
  };
  std::vector<Item> pool;
  auto release = [&](Item& it) {
    if (it.b && --it.b->owners == 0)
      for (int k = 0; k < K::parts; k++) want_freed(c, it.b->h[k]);
  };
  auto check = [&] {
    for (auto& it : pool)
      if (it.b) {
        Half h[2] = {it.b->h[0], it.b->h[1]};
        if (it.dev >= 0) h[0].device = h[1].device = it.dev;
        K::want(c, *it.h, h);
      }
  };
  int steps = (int)c.small(1, 30);
  for (int st = 0; st < steps; st++) {
    int what = pool.empty() ? (int)c.i(0, 1) : (int)c.i(0, 7);
    if (pool.size() >= 8 && what < 4) what = 7;
    size_t q = pool.empty() ? 0 : (size_t)c.i(0, (int64_t)pool.size() - 1);
    switch (what) {
      case 0: {
        auto b = std::make_shared<Body>();
        b->owners = 1;
        for (int k = 0; k < K::parts; k++) b->h[k] = new_half(c);
        pool.push_back({K::make(c, b->h), b, -1});
        c.note("make %d; ", (int)pool.size() - 1);
        break;
      }
      case 1:
        c.note("make empty %d; ", (int)pool.size());
        pool.push_back({new H(), nullptr, -1});
        break;
      case 2:
        c.note("copy %d; ", (int)q);
        pool.push_back({new H(*pool[q].h), pool[q].b, pool[q].dev});
        if (pool[q].b && ++pool[q].b->owners > 1) c.nontrivial();
        c.cls("copy");
        break;
      case 3: {  // the source is destroyed, as a temporary would be
        c.note("move %d; ", (int)q);
        H* n = new H(std::move(*pool[q].h));
        delete pool[q].h;
        pool[q].h = n;
        c.cls("move");
        break;
      }
      case 4: case 5: {
        size_t r = (size_t)c.i(0, (int64_t)pool.size() - 1);
        if (r == q) break;  // known finding: assignment to itself
        if (pool[q].b == pool[r].b && !pool[q].b) { }
        c.note("assign %d to %d; ", (int)r, (int)q);
        bool shared = pool[q].b && pool[q].b == pool[r].b;
        *pool[q].h = *pool[r].h;
        if (pool[r].b) if (++pool[r].b->owners > 1) c.nontrivial();
        release(pool[q]);
        pool[q].b = pool[r].b;
        pool[q].dev = pool[r].dev;
        c.cls(shared ? "assign within a group" : "assign");
        break;
      }
      case 6:
        if (!pool[q].b || c.chance(50)) {
          int d = (int)c.i(0, 1);
          c.note("%d to %s; ", (int)q, d ? "cuda" : "cpu");
          if (d) pool[q].h->to_CUDA();
          else pool[q].h->to_CPU();
          pool[q].dev = d;
        } else if (pool[q].b->owners == 1) {
          int part = (int)c.i(0, K::parts - 1);
          c.note("set data of %d; ", (int)q);
          Half& h = pool[q].b->h[part];
          Half n = new_half(c);
          delete[] (char*)h.p;
          h.p = n.p;
          h.len = n.len;
          h.b = n.b;
          K::set(*pool[q].h, part, h);
          c.cls("set data");
        }
        break;
      default:
        c.note("destroy %d; ", (int)q);
        delete pool[q].h;
        release(pool[q]);
        pool.erase(pool.begin() + (long)q);
        c.cls("destroy");
        break;
    }
    check();
  }
  while (!pool.empty()) {
    size_t q = (size_t)c.i(0, (int64_t)pool.size() - 1);
    delete pool[q].h;
    release(pool[q]);
    pool.erase(pool.begin() + (long)q);
    check();
  }
}
static void unary(Case& c) { inputs<UnaryT>(c); }
static void binary(Case& c) { inputs<BinaryT>(c); }
// Samples: an input and a result, shared by copies of the sample.
static void samples(Case& c) {
  struct Item {
    Sample<Unary_Input>* s;
    std::shared_ptr<Body> in, out;
  };
  std::vector<Item> pool;
  auto drop_body = [&](std::shared_ptr<Body>& b) {  // parts: whether there are buffers
    if (--b->owners == 0 && b->parts) want_freed(c, b->h[0]);
  };
  auto fresh = [] {
    auto b = std::make_shared<Body>();
    b->owners = 1;
    return b;
  };
  auto check = [&] {
    for (auto& it : pool) {
      Unary_Input& x = it.s->input();
      Result& r = it.s->result();
      want_half(c, "the input of a sample", it.in->h[0], x.ndim(), x.dims(), x.dtype(), x.device(), x.data(), x.len());
      if (it.out->parts) want_half(c, "the result of a sample", it.out->h[0], r.ndim(), r.dims(), r.dtype(), r.device(), r.data(), r.len());
    }
  };
  int steps = (int)c.small(1, 25);
  for (int st = 0; st < steps; st++) {
    int what = pool.empty() ? 0 : (int)c.i(0, 4);
    if (pool.size() >= 8 && what < 2) what = 4;
    size_t q = pool.empty() ? 0 : (size_t)c.i(0, (int64_t)pool.size() - 1);
    switch (what) {
      case 0: {
        auto b = fresh();
        b->parts = 1;
        b->h[0] = new_half(c);
        Unary_Input* in = UnaryT::make(c, b->h);
        c.note("make %d; ", (int)pool.size());
        if (c.chance(50)) pool.push_back({new Sample<Unary_Input>(*in), b, fresh()});
        else {
          auto* s = new Sample<Unary_Input>();
          s->set_input(*in);
          pool.push_back({s, b, fresh()});
        }
        delete in;  // the sample keeps the buffers
        break;
      }
      case 1:
        c.note("copy %d; ", (int)q);
        pool.push_back({new Sample<Unary_Input>(*pool[q].s), pool[q].in, pool[q].out});
        c.nontrivial();
        pool[q].in->owners++;
        pool[q].out->owners++;
        break;
      case 2: {
        if (pool[q].out->parts) break;       // setting a result twice loses the first
        if (pool[q].out->owners > 1) break;  // copies share the result as it was when they were made
        Half h = new_half(c);
        c.note("set result of %d; ", (int)q);
        pool[q].s->set_result((int64_t)h.dims.size(), h.dims.data(), h.dtype, h.device, h.p, h.len);
        // it is a copy
        memset(h.p, 0xEE, h.len);
        delete[] (char*)h.p;
        h.p = (uint8_t*)pool[q].s->result().data();
        h.pd = pool[q].s->result().dims();
        pool[q].out->h[0] = h;
        pool[q].out->parts = 1;
        c.cls("result");
        break;
      }
      case 3: {
        size_t r = (size_t)c.i(0, (int64_t)pool.size() - 1);
        if (r == q) break;
        c.note("set input of %d to that of %d; ", (int)q, (int)r);
        pool[q].s->set_input(pool[r].s->input());
        pool[r].in->owners++;
        c.nontrivial();
        drop_body(pool[q].in);
        pool[q].in = pool[r].in;
        break;
      }
      default:
        c.note("destroy %d; ", (int)q);
        delete pool[q].s;
        drop_body(pool[q].in);
        drop_body(pool[q].out);
        pool.erase(pool.begin() + (long)q);
        break;
    }
    check();
  }
  while (!pool.empty()) {
    size_t q = (size_t)c.i(0, (int64_t)pool.size() - 1);
    delete pool[q].s;
    drop_body(pool[q].in);
    drop_body(pool[q].out);
    pool.erase(pool.begin() + (long)q);
    check();
  }
}
std::vector<pbt::Target> pbt::targets() {
  return {{"fill", fill, 60000, 1000000, V_ALL}, {"tables", tables, 1000, 10000, V_ALL}, {"unary", unary, 40000, 1000000, V_ALL},
          {"binary", binary, 40000, 1000000, V_ALL}, {"samples", samples, 40000, 1000000, V_ALL}};
}
