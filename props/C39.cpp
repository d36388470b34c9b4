// C39: the parts of a tensor, made and used directly
#include "model.hpp"
extern "C" {
#include "src/core/shape.h"
#include "src/core/storage.h"
#include "src/core/utils.h"
}
namespace pbt {
const char* const kProperty = "C39";
const char* const kRule =
    "a random history of making, inspecting and destroying up to 5 storages and shapes (10 types, any number of "
    "elements up to 70000, with or without a buffer; 0 to 70 extents of any value; dense and sparse layouts; refused "
    "allocations), partial products of 0 to 70 extents, and single element-wise results; non-trivial: two or more parts "
    "at a time, a product of two or more extents other than 1, or a result that is neither operand";
}
struct Part {
  int kind = 0;  // 1: storage, 2: shape
  Storage st = nullptr;
  Shape sh;
  int dt = 0;
  Device dev;
  int64_t n = 0;
  void* given = nullptr;
  std::vector<uint8_t> bytes;
  Dims d;
};
static void look(Case& c, const Part& p) {
  if (p.kind == 1) {
    if (p.st->dtype.code != dtype_of(p.dt).code || p.st->dtype.size != kDtSize[p.dt]) c.fail("the storage has another type");
    if (p.st->device.type != p.dev.type || p.st->device.id != p.dev.id)
      c.fail("the storage is on device %d/%d, made on %d/%d", p.st->device.type, p.st->device.id, p.dev.type, p.dev.id);
    if (p.st->size != p.n) c.fail("the storage has %" PRId64 " elements, made with %" PRId64, p.st->size, p.n);
    if (p.given && p.st->data != p.given) c.fail("the storage does not use the buffer it was given");
    if (p.bytes.size() && memcmp(p.st->data, p.bytes.data(), p.bytes.size())) c.fail("the contents of the storage changed");
  } else if (p.kind == 2) {
    int64_t nd = (int64_t)p.d.size();
    if (p.sh.ndim != nd) c.fail("the shape has %" PRId64 " dimensions, made with %" PRId64, p.sh.ndim, nd);
    if (p.sh.layout.type != LAYOUT_DENSE) c.fail("the layout is not dense");
    for (int64_t k = 0; k < nd; k++) {
      if (p.sh.dims[k] != p.d[(size_t)k]) c.fail("extent %" PRId64 " is %" PRId64 ", made with %" PRId64, k, p.sh.dims[k], p.d[(size_t)k]);
      if (p.sh.layout.min2maj[k] != nd - 1 - k) c.fail("dimension %" PRId64 " comes at place %" PRId64 " of the layout", p.sh.layout.min2maj[k], k);
    }
  }
}
static void parts(Case& c) {
  Part P[5];
  int steps = (int)c.small(1, 14), most = 0;
  for (int k = 0; k < steps; k++) {
    Part& p = P[c.i(0, 4)];
    if (!p.kind) {
      p = Part();
      bool refuse = c.chance(10);
      uint64_t before = alloc::live();
      if (c.chance(50)) {
        p.dt = gen_dt(c);
        p.dev = gen_dev(c);
        p.n = c.chance(4) ? c.i(1000, 70000) : c.small(0, 300);
        size_t bytes = (size_t)(p.n * kDtSize[p.dt]);
        bool give = c.chance(50);
        c.note("storage %s of %" PRId64 " on %d/%d%s%s; ", kDtName[p.dt], p.n, p.dev.type, p.dev.id, give ? " with a buffer" : "", refuse ? " refused" : "");
        p.bytes.resize(bytes);
        for (size_t q = 0; q < bytes && q < 64; q++) p.bytes[q * (bytes / 64 ? bytes / 64 : 1)] = (uint8_t)c.i(0, 255);
        if (give) {
          p.given = alloc::take(bytes);
          memcpy(p.given, p.bytes.data(), bytes);
          before++;
        }
        if (refuse) alloc::fail_at(c.i(0, 1));
        p.st = (Storage)kUntouched;
        uint64_t f0 = alloc::failed();
        Status s = LIB(aitisa_create_storage(dtype_of(p.dt), p.dev, p.n, p.given, &p.st));
        bool failed = alloc::failed() > f0;
        alloc::fail_at(-1);
        if (failed) {
          c.cls("refused storage");
          want_status(c, "making a storage without memory", s, STATUS_ALLOC_FAILED);
          if (alloc::live() != before) c.fail("a storage that could not be made left %d blocks", (int)(alloc::live() - before));
          if (p.given) {
            if (!alloc::is_live(p.given)) c.fail("a storage that could not be made freed the buffer it was given");
            if (memcmp(p.given, p.bytes.data(), bytes)) c.fail("a storage that could not be made changed the buffer it was given");
            alloc::give(p.given);
          }
          p = Part();
          continue;
        }
        want_status(c, "making a storage", s, STATUS_SUCCESS);
        if (!p.st || p.st == (Storage)kUntouched) c.fail("no storage was made");
        if (!give) {
          if (bytes && !p.st->data) c.fail("a storage without data");
          if (bytes) memcpy(p.st->data, p.bytes.data(), bytes);  // every byte is writable
        }
        c.cls(give ? "storage with a buffer" : "storage");
        p.kind = 1;
      } else {
        ShapeOpt o;
        o.max_nd = 8;
        o.zero = true;
        Dims d = gen_dims(c, o);
        if (c.chance(3)) d.resize((size_t)c.i(20, 70), 1);
        for (auto& x : d) if (c.chance(15)) x = (int64_t)c.bits();
        bool sparse = c.chance(8);
        c.note("shape %s%s%s; ", str(d).c_str(), sparse ? " sparse" : "", refuse ? " refused" : "");
        Dims arg = d;
        memset(&p.sh, 0x5a, sizeof p.sh);
        if (refuse) alloc::fail_at(c.i(0, 1));
        uint64_t f0 = alloc::failed();
        Status s = LIB(aitisa_create_shape(sparse ? LAYOUT_SPARSE : LAYOUT_DENSE, arg.empty() ? nullptr : arg.data(), (int64_t)arg.size(), &p.sh));
        bool failed = alloc::failed() > f0;
        alloc::fail_at(-1);
        if (arg != d) c.fail("making a shape changed the extents it was given");
        if (failed || sparse) {
          if (!failed) want_status(c, "making a sparse shape", s, STATUS_NOT_SUPPORTED);
          else if (!sparse) want_status(c, "making a shape without memory", s, STATUS_ALLOC_FAILED);
          else if (s == STATUS_SUCCESS) c.fail("a sparse shape was made without memory");
          if (alloc::live() != before) c.fail("a shape that was not made left %d blocks", (int)(alloc::live() - before));
          c.cls(failed ? "refused shape" : "sparse shape");
          p = Part();
          continue;
        }
        want_status(c, "making a shape", s, STATUS_SUCCESS);
        for (auto& x : arg) x = -7777;  // the shape keeps its own copy
        p.d = d;
        p.kind = 2;
        c.cls("shape");
      }
    } else if (c.chance(45)) {
      c.note("destroy; ");
      if (p.kind == 1) {
        Status s = LIB(aitisa_destroy_storage(&p.st));
        want_status(c, "destroying a storage", s, STATUS_SUCCESS);
        if (p.st) c.fail("destroying a storage left its handle");
        s = LIB(aitisa_destroy_storage(&p.st));
        want_status(c, "destroying no storage", s, STATUS_SUCCESS);
        if (p.st) c.fail("destroying no storage set its handle");
      } else {
        Status s = LIB(aitisa_destroy_shape(&p.sh));
        want_status(c, "destroying a shape", s, STATUS_SUCCESS);
        if (p.sh.dims || p.sh.layout.min2maj) c.fail("destroying a shape left its arrays");
      }
      p = Part();
    } else if (p.kind == 1 && p.bytes.size()) {
      c.note("write; ");
      size_t at = (size_t)c.i(0, (int64_t)p.bytes.size() - 1);
      p.bytes[at] = ((uint8_t*)p.st->data)[at] = (uint8_t)c.i(0, 255);
    }
    int m = 0;
    for (auto& x : P) {
      look(c, x);
      m += x.kind != 0;
    }
    most = std::max(most, m);
    if (!m && alloc::live()) c.fail("%d blocks are left when no part is", (int)alloc::live());
  }
  if (most >= 2) c.nontrivial();
  for (auto& p : P) {
    if (p.kind == 1) LIB(aitisa_destroy_storage(&p.st));
    if (p.kind == 2) LIB(aitisa_destroy_shape(&p.sh));
  }
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static void products(Case& c) {
  int nd = c.chance(5) ? (int)c.i(10, 70) : (int)c.small(0, 9);
  Dims d;
  int64_t room = (int64_t)1 << 62;
  int other = 0;
  for (int k = 0; k < nd; k++) {
    int64_t x = c.chance(25) ? 1 : c.chance(3) ? 0 : c.chance(10) ? c.i(1, std::min<int64_t>(room, (int64_t)1 << 40)) : c.i(2, 40);
    if (x > room) x = 1;
    if (x) room /= x;
    other += x != 1;
    d.push_back(x);
  }
  int a = (int)c.i(0, nd), b = (int)c.i(0, nd);
  c.note("%s %d %d", str(d).c_str(), a, b);
  Dims arg = d;
  int64_t* p = arg.empty() ? nullptr : arg.data();
  struct { const char* what; int64_t got, want; } r[] = {
      {"all extents", size_of_dims(p, nd), prod(d)},
      {"the extents from one on", size_from_dim(a, p, nd), prod(d, (size_t)a, (size_t)nd)},
      {"the extents before one", size_to_dim(a, p, nd), prod(d, 0, (size_t)a)},
      {"the extents between two", size_between_dim(a, b, p, nd), std::abs(a - b) < 2 ? 1 : prod(d, (size_t)std::min(a, b) + 1, (size_t)std::max(a, b))},
  };
  for (auto& x : r)
    if (x.got != x.want) c.fail("the product of %s is %" PRId64 ", expected %" PRId64, x.what, x.got, x.want);
  if (arg != d) c.fail("a product changed the extents");
  if (other >= 2) c.nontrivial();
}
template <class T>
static bool fits(__int128 x) {
  return x >= (__int128)std::numeric_limits<T>::min() && x <= (__int128)std::numeric_limits<T>::max();
}
static void scalar(Case& c) {
  int dt = gen_dt(c), op = (int)c.i(0, 3);
  Profile ps[] = {P_SMALL, P_UNIT, P_WIDE, P_EDGE, P_BYTES};
  TV a = gen_tv(c, dt, {1}, ps[c.i(0, 4)]), b = gen_tv(c, dt, {1}, ps[c.i(0, 4)]), want(dt, {1});
  static const char* const name[] = {"+", "-", "*", "/"};
  bool ok = with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    T x = a.get<T>(0), y = b.get<T>(0);
    if constexpr (std::is_floating_point<T>::value) {
      volatile T u = x, v = y;
      want.set<T>(0, op == 0 ? u + v : op == 1 ? u - v : op == 2 ? u * v : u / v);
    } else {
      if (op == 3 && y == 0) return false;
      __int128 e = op == 0 ? (__int128)x + y : op == 1 ? (__int128)x - y : op == 2 ? (__int128)x * y : (__int128)x / y;
      if (std::is_signed<T>::value && (op == 3 || sizeof(T) >= 4) && !fits<T>(e)) return false;
      want.set<T>(0, (T)(unsigned __int128)e);
    }
    return true;
  });
  if (!ok) {
    c.cls("outside");
    return;
  }
  c.note("%s %s %s", str(a).c_str(), name[op], str(b).c_str());
  c.cls(std::string(kDtName[dt]) + " " + name[op]);
  struct { uint64_t g0, x, g1; } A, B, C;
  uint64_t rest = 0x2222222222222222ULL;
  A = B = C = {0x1111111111111111ULL, rest, 0x3333333333333333ULL};
  size_t es = (size_t)kDtSize[dt];
  memcpy(&A.x, a.b.data(), es);
  memcpy(&B.x, b.b.data(), es);
  auto A0 = A, B0 = B;
  aitisa_binary_op_func(dtype_of(dt))(&A.x, &B.x, (OpCode)op, &C.x);
  if (memcmp(&A, &A0, sizeof A) || memcmp(&B, &B0, sizeof B)) c.fail("a binary function changed an operand");
  TV got(dt, {1});
  memcpy(got.b.data(), &C.x, es);
  if (!same_num(got.num(0), want.num(0), true)) c.fail("%s %s %s is %s, expected %s", elem_str(a, 0).c_str(), name[op], elem_str(b, 0).c_str(), elem_str(got, 0).c_str(), elem_str(want, 0).c_str());
  if (C.g0 != 0x1111111111111111ULL || C.g1 != 0x3333333333333333ULL || memcmp((char*)&C.x + es, (char*)&rest + es, 8 - es))
    c.fail("a binary function wrote more than one element");
  if (!(got == a) && !(got == b)) c.nontrivial();
}
std::vector<pbt::Target> pbt::targets() {
  return {{"parts", parts, 60000, 2000000, V_ALL}, {"products", products, 60000, 2000000, V_ALL}, {"scalar", scalar, 60000, 2000000, V_ALL}};
}
