// C05: typed element access
#include <map>
#include <set>
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C05";
const char* const kRule =
    "random sequences of typed reads, writes and double-to-type conversions (by pointer, by array "
    "index and through a tensor's set-item) on a random tensor, mirrored on plain bytes; far: the same on "
    "tensors of up to 2^40 bytes, few pages of which exist; non-trivial: two or more writes to a tensor of two or "
    "more elements, or a write at or above position 65536";
}
static void access(Case& c) {
  int dt = gen_dt(c);
  DataType T = dtype_of(dt);
  int es = kDtSize[dt];
  if (T.code != dt || T.size != es) c.fail("the description of %s is %d/%d", kDtName[dt], (int)T.code, T.size);
  ShapeOpt o;
  o.max_elems = 60;
  if (c.chance(3)) o.max_elems = 9000;
  Dims d = gen_dims(c, o);
  TV v = gen_tv(c, dt, d, P_BYTES);
  c.note("%s ", str(v, 6).c_str());
  Tensor t = mk(c, v);
  char* data = (char*)aitisa_tensor_data(t);
  int n = (int)c.small(1, 12), writes = 0;
  struct { uint64_t g0, x, g1; } cell;
  for (int k = 0; k < n; k++) {
    int64_t idx = c.chance(25) ? v.n() - 1 : c.i(0, v.n() - 1);
    uint64_t val = c.bits();
    cell = {0x1111111111111111ULL, 0x2222222222222222ULL, 0x3333333333333333ULL};
    int op = (int)c.i(0, 5);
    c.note("op%d[%" PRId64 "]; ", op, idx);
    switch (op) {
      case 0:
        aitisa_get_typed_value_func(T)(data + idx * es, &cell.x);
        break;
      case 1:
        aitisa_get_typed_array_value_func(T)(data, idx, &cell.x);
        break;
      case 2:
        cell.x = val;
        aitisa_set_typed_value_func(T)(data + idx * es, &cell.x);
        break;
      case 3:
        cell.x = val;
        aitisa_set_typed_array_value_func(T)(data, idx, &cell.x);
        break;
      case 4:
        cell.x = val;
        aitisa_tensor_set_item(t, idx, &cell.x);
        break;
      default: {
        double x = with_type(dt, [&](auto z) {
          typedef decltype(z) U;
          typedef std::numeric_limits<U> L;
          if (std::is_floating_point<U>::value) return c.pick<double>({0.0, 1.5, -2.25, 0.1, -0.0, INFINITY, 1e-300, 3e38, 16777217.0, -1e30, 1.0 / 3});
          double lo = (double)L::min(), hi = sizeof(U) == 8 ? std::nextafter((double)L::max(), 0) : (double)L::max();
          double y = c.chance(30) ? c.pick<double>({lo, hi}) : (double)c.i(-4000000, 4000000) / 16;
          if (c.chance(20)) y = std::nextafter(std::trunc(y), c.chance(50) ? -1e300 : 1e300);
          return y < lo ? lo : y > hi ? hi : y;
        });
        double x0 = x;
        c.note("(%.17g) ", x);
        aitisa_castto_typed_value_func(T)(data + idx * es, &x);
        if (memcmp(&x, &x0, 8)) c.fail("the conversion changed its source");
        with_type(dt, [&](auto z) { typedef decltype(z) U; v.set<U>(idx, (U)x0); return 0; });
        writes++;
        break;
      }
    }
    if (op <= 1) {
      if (memcmp(&cell.x, &v.b[(size_t)(idx * es)], (size_t)es)) c.fail("reading element %" PRId64 " gave other bytes", idx);
      uint64_t rest = 0x2222222222222222ULL;
      if (memcmp((char*)&cell.x + es, (char*)&rest + es, (size_t)(8 - es))) c.fail("reading a %s wrote more than %d bytes", kDtName[dt], es);
    } else if (op <= 4) {
      if (cell.x != val) c.fail("writing changed the source");
      memcpy(&v.b[(size_t)(idx * es)], &val, (size_t)es);
      writes++;
    }
    if (cell.g0 != 0x1111111111111111ULL || cell.g1 != 0x3333333333333333ULL) c.fail("typed access wrote around the value");
    want_same(c, "after typed access", t, v);
  }
  if (writes >= 2 && v.n() >= 2) c.nontrivial();
  drop(c, t);
  if (alloc::live()) c.fail("memory is left behind");
}
// Positions of a tensor of up to 2^40 bytes, of which few pages exist.
static void far(Case& c) {
  int dt = gen_dt(c), es = kDtSize[dt];
  DataType T = dtype_of(dt);
  int64_t n = (((int64_t)1 << c.i(18, 40)) + c.i(-3, 3)) / es;
  Dims d;
  int64_t left = n;
  for (int k = (int)c.i(0, 4); k > 0 && left > 1; k--) {
    int64_t e = c.i(1, std::min<int64_t>(left, 100000));
    d.push_back(e);
    left /= e;
  }
  d.push_back(left);
  if (c.chance(50)) std::reverse(d.begin(), d.end());
  n = prod(d);
  c.note("%s%s ", kDtName[dt], str(d).c_str());
  alloc::sparse_from(1 << 16);
  Tensor t = nullptr;
  Device dev = {DEVICE_CPU, 0};
  Status s = LIB(aitisa_create(T, dev, d.data(), (int64_t)d.size(), nullptr, 0, &t));
  if (s == STATUS_ALLOC_FAILED && alloc::failed()) { c.cls("refused"); return; }
  want_ok(c, "aitisa_create", s, t);
  if (n < (1 << 16)) { drop(c, t); return; }
  char* data = (char*)aitisa_tensor_data(t);
  std::map<int64_t, std::string> m;
  static const int bits[] = {7, 8, 15, 16, 31, 32, 33};
  std::vector<int64_t> seen;
  int steps = (int)c.i(2, 8);
  for (int k = 0; k < steps; k++) {
    int64_t idx;
    int kind = (int)c.i(0, 3);
    if (kind == 0) idx = c.i(0, n - 1);
    else if (kind == 1) idx = n - 1 - c.i(0, 3);
    else if (kind == 2) idx = ((int64_t)1 << bits[c.i(0, 6)]) / (c.chance(50) ? 1 : es) + c.i(-1, 1);
    else idx = seen.empty() ? 0 : seen[(size_t)c.i(0, (int64_t)seen.size() - 1)] ^ ((int64_t)1 << bits[c.i(0, 6)]);
    idx = std::max<int64_t>(0, std::min(idx, n - 1));
    uint64_t val = c.bits();
    double x = (double)c.i(0, 127);
    int op = (int)c.i(0, 5);
    c.note("op%d[%" PRId64 "]; ", op, idx);
    auto content = [&](int64_t q) { auto it = m.find(q); return it == m.end() ? std::string((size_t)es, '\0') : it->second; };
    uint64_t got = 0;
    switch (op) {
      case 0: aitisa_get_typed_value_func(T)(data + idx * es, &got); break;
      case 1: aitisa_get_typed_array_value_func(T)(data, idx, &got); break;
      case 2: aitisa_set_typed_value_func(T)(data + idx * es, &val); break;
      case 3: aitisa_set_typed_array_value_func(T)(data, idx, &val); break;
      case 4: aitisa_tensor_set_item(t, idx, &val); break;
      default:
        aitisa_castto_typed_value_func(T)(data + idx * es, &x);
        with_type(dt, [&](auto z) { typedef decltype(z) U; U u = (U)x; val = 0; memcpy(&val, &u, sizeof u); return 0; });
    }
    if (op <= 1) {
      if (memcmp(&got, content(idx).data(), (size_t)es)) c.fail("reading element %" PRId64 " gave other bytes", idx);
    } else {
      m[idx] = std::string((char*)&val, (size_t)es);
      if (idx >= 65536) c.nontrivial();
      if (idx > INT32_MAX) c.cls("above 2^31");
    }
    seen.push_back(idx);
    std::set<int64_t> look;
    for (int64_t q : seen)
      for (int64_t e = -1; e <= 1; e++) look.insert(q + e);
    for (int b : bits) { look.insert(idx & (((int64_t)1 << b) - 1)); look.insert(((idx * es) & (((int64_t)1 << b) - 1)) / es); }
    for (int64_t q : look)
      if (q >= 0 && q < n && memcmp(data + q * es, content(q).data(), (size_t)es))
        c.fail("after access to element %" PRId64 " element %" PRId64 " is not what it should be", idx, q);
  }
  drop(c, t);
  if (alloc::live()) c.fail("memory is left behind");
}
std::vector<pbt::Target> pbt::targets() { return {{"access", access, 150000, 5000000, V_ALL}, {"far", far, 20000, 600000, V_ALL}}; }
