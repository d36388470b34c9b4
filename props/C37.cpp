// C37: the verdict of the conformance tests
// @extra_src: REPO/auto_test/basic.cpp REPO/auto_test/sample.cpp
// @link: -lgtest
// @variants: rel asan
// @workers: rel=6 asan=2
#include <memory>
#include "auto_test/basic.h"
#include "auto_test/sample.h"
extern "C" {
#include "src/math/binary_op.h"
#include "src/math/matmul.h"
#include "src/nn/conv.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/tanh.h"
}
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C37";
const char* const kRule =
    "an implementation under test that answers as the library does, or with one deviation in one of the answers: an element "
    "anywhere in it (a bigger or smaller value, NaN, an infinity, a value one representable step away), an extent, two extents, the number of "
    "dimensions, the type, the device, the length, each run through the four conformance suites; non-trivial: every case "
    "with a deviation";
}
// What the library is asked during one run, and what the implementation under
// test has to answer.
struct Asked {
  const char* op;
  Tensor in[2], out;
};
static std::vector<Asked> g_asked;
static std::vector<const char*> g_answered;
static const char* g_wrong;  // a complaint of ours, not of the suite
static void asked(const char* op, Tensor a, Tensor b, Tensor out) { g_asked.push_back({op, {a, b}, out}); }
// The big products are not computed: the suites compare answers, they do not
// care what they are.
static void filler(Tensor t, uint64_t s) {
  int64_t n = aitisa_tensor_size(t);
  for (int64_t k = 0; k < n; k++) {
    double x = (double)((int64_t)((uint64_t)(k + 1) * 0x9e3779b97f4a7c15ULL + s >> 44)) / 65536 - 8;
    if (aitisa_tensor_data_type(t).code == TYPE_DOUBLE) ((double*)aitisa_tensor_data(t))[k] = x;
    else ((float*)aitisa_tensor_data(t))[k] = (float)x;
  }
}
static Status plain(Tensor like, const std::vector<int64_t>& d, Tensor* out) {
  Status st = aitisa_full(aitisa_tensor_data_type(like), aitisa_tensor_device(like), (int64_t*)d.data(), (int64_t)d.size(), 0, out);
  if (st == STATUS_SUCCESS) filler(*out, 12345);
  return st;
}
static std::vector<int64_t> dims_of(Tensor t) { return {aitisa_tensor_dims(t), aitisa_tensor_dims(t) + aitisa_tensor_ndim(t)}; }
#define REC2(op)                                                    \
  static Status rec_##op(Tensor a, Tensor b, Tensor* o) {           \
    Status st = aitisa_##op(a, b, o);                               \
    asked(#op, a, b, *o);                                           \
    return st;                                                      \
  }
#define REC1(op)                                                    \
  static Status rec_##op(Tensor a, Tensor* o) {                     \
    Status st = aitisa_##op(a, o);                                  \
    asked(#op, a, nullptr, *o);                                     \
    return st;                                                      \
  }
REC2(add) REC2(sub) REC2(mul) REC2(div) REC1(relu) REC1(sigmoid) REC1(tanh)
static Status rec_matmul(Tensor a, Tensor b, Tensor* o) {
  Status st;
  if (aitisa_tensor_size(a) > 100000) st = plain(a, {dims_of(a)[0], dims_of(b)[1]}, o);
  else st = aitisa_matmul(a, b, o);
  asked("matmul", a, b, *o);
  return st;
}
static int g_conv[7];
static Status rec_conv2d(Tensor a, Tensor b, const int* s, int, const int* p, int, const int* d, int, int groups, Tensor* o) {
  auto x = dims_of(a), f = dims_of(b);
  std::vector<int64_t> r = {x[0], f[0]};
  for (int k = 0; k < 2; k++) r.push_back((x[2 + k] + 2 * p[k] - (d[k] * (f[2 + k] - 1) + 1)) / s[k] + 1);
  Status st = plain(a, r, o);
  asked("conv2d", a, b, *o);
  int v[7] = {s[0], s[1], p[0], p[1], d[0], d[1], groups};
  memcpy(g_conv, v, sizeof v);
  return st;
}
// The large operands are filled by something cheap.
namespace aitisa_api {
static void quick_assign(void* data, unsigned int len, int dtype) {
  unsigned n = len / elem_size(dtype);
  uint32_t s = 1;
  for (unsigned k = 0; k < n; k++) {
    s = s * 1664525u + 1013904223u;
    double x = (int32_t)s / 500000000.0;
    if (dtype == 9) ((double*)data)[k] = x;
    else ((float*)data)[k] = (float)x;
  }
}
}
#define random_assign quick_assign
#define aitisa_add rec_add
#define aitisa_sub rec_sub
#define aitisa_mul rec_mul
#define aitisa_div rec_div
#define aitisa_matmul rec_matmul
#define aitisa_conv2d rec_conv2d
#define aitisa_relu rec_relu
#define aitisa_sigmoid rec_sigmoid
#define aitisa_tanh rec_tanh
#include "auto_test/auto_test.h"

// The implementation under test.
struct Ut {
  int dtype = 0, device = 0;
  int64_t ndim = 0;
  int64_t* dims = nullptr;
  void* data = nullptr;
  unsigned len = 0;
};
static int ut_to_dtype(int n) { return n + 100; }
static int dtype_from_ut(int n) { return n - 100; }
static int ut_to_device(int n) { return 7 - n; }
static int device_from_ut(int n) { return 7 - n; }
static void ut_create(int dtype, int device, int64_t* dims, int64_t ndim, void* data, unsigned len, Ut* t) { *t = Ut{dtype, device, ndim, dims, data, len}; }
static void ut_resolve(Ut t, int* dtype, int* device, int64_t** dims, int64_t* ndim, void** data, unsigned* len) {
  *dtype = t.dtype;
  *device = t.device;
  *dims = t.dims;
  *ndim = t.ndim;
  *data = t.data;
  *len = t.len;
}
static std::vector<std::vector<int64_t>> g_dims;
static std::vector<std::unique_ptr<uint64_t[]>> g_mem;

enum Dev { NONE, STEP, UP, DOWN, ANAN, EXTENT, SWAP, NDIM, TYPE, DEVICE, LEN };
static const char* const kDev[] = {"no deviation", "one element a step away", "one element too big", "one element too small", "one element not finite",
                                   "an extent", "two extents exchanged", "the number of dimensions", "the type", "the device", "the length"};
struct Plan {
  int sample;
  Dev dev;
  uint64_t where;
  enum { FRONT, BACK } from;
  int by;
};
static Plan g_plan;
static void complain(const char* what) {
  if (!g_wrong) g_wrong = what;
}
static void same_operand(Tensor a, const Ut& u) {
  if (aitisa_tensor_ndim(a) != u.ndim || memcmp(aitisa_tensor_dims(a), u.dims, (size_t)u.ndim * 8)) complain("operands of different shapes");
  if (aitisa_tensor_data_type(a).code != dtype_from_ut(u.dtype)) complain("operands of different types");
  size_t len = (size_t)aitisa_tensor_size(a) * aitisa_tensor_data_type(a).size;
  if (u.len != len) complain("an operand of a wrong length");
  else if (aitisa_tensor_data(a) != u.data && memcmp(aitisa_tensor_data(a), u.data, len)) complain("operands of different values");
  int d = device_from_ut(u.device);
  if (d != 0 && d != 1) complain("an operand of no device");
}
template <class T>
static T step(T x) { return std::nextafter(x, (T)INFINITY); }
static void answer(const char* op, const Ut* a, const Ut* b, Ut* out) {
  int k = (int)g_answered.size();
  g_answered.push_back(op);
  if (g_asked.size() != g_answered.size()) return complain("asked the library and the implementation different numbers of times");
  Asked& q = g_asked.back();
  if (strcmp(q.op, op)) complain("asked the library and the implementation for different operations");
  same_operand(q.in[0], *a);
  if (b) same_operand(q.in[1], *b);
  Ut r;
  r.device = a->device;
  r.ndim = aitisa_tensor_ndim(q.out);
  g_dims.push_back(dims_of(q.out));
  g_dims.back().push_back(1);
  r.dims = g_dims.back().data();
  int dt = (int)aitisa_tensor_data_type(q.out).code;
  int64_t n = aitisa_tensor_size(q.out);
  r.len = (unsigned)(n * kDtSize[dt]);
  r.dtype = ut_to_dtype(dt);
  g_mem.emplace_back(new uint64_t[r.len / 8 + 2]);
  r.data = g_mem.back().get();
  memcpy(r.data, aitisa_tensor_data(q.out), r.len);
  if (k == g_plan.sample) {
    int64_t at = (int64_t)(g_plan.where % (uint64_t)n);
    if (g_plan.from == Plan::BACK) at = n - 1 - at;
    switch (g_plan.dev) {
      case NONE: break;
      case STEP: case UP: case DOWN: case ANAN:
        with_type(dt, [&](auto z) {
          typedef decltype(z) T;
          T* p = (T*)r.data + at;
          if (std::is_floating_point<T>::value) {
            double d = g_plan.by == 0 ? 0.01 + fabs((double)*p) * 0.01 : g_plan.by == 1 ? 1 + fabs((double)*p) : 1e9;
            if (g_plan.dev == STEP) *p = std::is_same<T, double>::value ? (T)step((double)*p) : (T)step((float)*p);
            else if (g_plan.dev == ANAN) *p = (T)(g_plan.by == 0 ? NAN : g_plan.by == 1 ? INFINITY : -INFINITY);
            else *p = (T)(g_plan.dev == UP ? *p + d : *p - d);
          } else if (g_plan.dev != STEP) {
            T d = (T)(g_plan.by == 0 ? 1 : g_plan.by == 1 ? 256 : 65536);
            *p = (T)(g_plan.dev == DOWN ? (uint64_t)*p - (uint64_t)d : (uint64_t)*p + (uint64_t)d);
          }
          return 0;
        });
        break;
      case EXTENT: r.dims[g_plan.where % (uint64_t)r.ndim] += g_plan.by - 1 ? g_plan.by - 1 : 5; break;
      case SWAP: {
        // the same number of elements in another shape, if there is one
        uint64_t x = g_plan.where % (uint64_t)r.ndim;
        for (int64_t y = 0; y < r.ndim; y++)
          if (r.dims[y] != r.dims[x]) {
            std::swap(r.dims[x], r.dims[y]);
            break;
          } else if (y == r.ndim - 1) {
            r.dims[x] *= 2;
          }
        break;
      }
      case NDIM: r.ndim += g_plan.by ? 1 : -1; break;
      case TYPE: r.dtype = ut_to_dtype((dt + 1 + (int)(g_plan.where % 9)) % 10); break;
      case DEVICE: r.device = ut_to_device(1 - device_from_ut(r.device)); break;
      case LEN: r.len += g_plan.by == 0 ? -1 : g_plan.by == 1 ? 1 : 8; break;
    }
  }
  *out = r;
}
#define UT2(op) static void ut_##op(Ut a, Ut b, Ut* r) { answer(#op, &a, &b, r); }
#define UT1(op) static void ut_##op(Ut a, Ut* r) { answer(#op, &a, nullptr, r); }
UT2(add) UT2(sub) UT2(mul) UT2(div) UT2(matmul) UT1(relu) UT1(sigmoid) UT1(tanh)
REGISTER_BASIC(Ut, int, ut_to_dtype, dtype_from_ut, int, ut_to_device, device_from_ut, ut_create, ut_resolve)
REGISTER_BINARY_OP(ut_add, ut_sub, ut_mul, ut_div)
REGISTER_MATMUL(ut_matmul)
// REGISTER_CONV2D does not fit the suite it registers, so the class is written
// out.
class Conv2d : public Basic {
 public:
  static void user_conv2d(Ut a, Ut b, const int* s, const int* p, const int* d, int groups, Ut* r) {
    int v[7] = {s[0], s[1], p[0], p[1], d[0], d[1], groups};
    if (memcmp(v, g_conv, sizeof v)) complain("asked the library and the implementation for different convolutions");
    answer("conv2d", &a, &b, r);
  }
};
namespace aitisa_api {
INSTANTIATE_TYPED_TEST_CASE_P(aitisa_api, Conv2dTest, Conv2d);
}
REGISTER_ACTIVATION(ut_relu, ut_sigmoid, ut_tanh)

struct Listener : testing::EmptyTestEventListener {
  int ran = 0, failures = 0;
  void OnTestStart(const testing::TestInfo&) override { ran++; }
  void OnTestPartResult(const testing::TestPartResult& r) override { failures += r.failed(); }
};
struct Nowhere : std::streambuf {
  int overflow(int c) override { return c; }
};
static void suite(Case& c, const char* filter, std::vector<const char*> ops) {
  static Listener* listener;
  if (!listener) {
    static int argc = 1;
    static char name[] = "x", *argv[] = {name, nullptr};
    testing::InitGoogleTest(&argc, argv);
    auto& ls = testing::UnitTest::GetInstance()->listeners();
    delete ls.Release(ls.default_result_printer());
    ls.Append(listener = new Listener);
    testing::GTEST_FLAG(catch_exceptions) = false;
  }
  int samples = (int)ops.size();
  g_plan.sample = (int)c.i(0, samples - 1);
  g_plan.dev = c.chance(12) ? NONE : (Dev)c.i(STEP, LEN);
  switch (c.i(0, 3)) {  // from the front, from the back, around a power of two, anywhere
    case 0: g_plan.from = Plan::FRONT; g_plan.where = (uint64_t)c.small(0, 64); break;
    case 1: g_plan.from = Plan::BACK; g_plan.where = (uint64_t)(c.chance(50) ? c.i(0, 7) : c.small(0, 64)); break;
    case 2: g_plan.from = Plan::FRONT; g_plan.where = (uint64_t)std::max<int64_t>(0, (1LL << c.i(0, 20)) + c.i(-2, 2)); break;
    default: g_plan.from = Plan::FRONT; g_plan.where = c.bits(); break;
  }
  g_plan.by = (int)c.i(0, 2);
  c.note("%s, sample %d: %s (%d, place %llu from the %s)", filter, g_plan.sample, kDev[g_plan.dev], g_plan.by, (unsigned long long)g_plan.where, g_plan.from ? "back" : "front");
  c.cls(std::string(filter) + ": " + kDev[g_plan.dev]);
  if (g_plan.dev != NONE) c.nontrivial();
  alloc::uninstall();
  g_asked.clear();
  g_answered.clear();
  g_wrong = nullptr;
  listener->ran = listener->failures = 0;
  testing::GTEST_FLAG(filter) = std::string("aitisa_api/") + filter + "*";
  static Nowhere nowhere;
  auto* old = std::cout.rdbuf(&nowhere);
  int rc = RUN_ALL_TESTS();
  std::cout.rdbuf(old);
  for (auto& q : g_asked) aitisa_destroy(&q.out);
  g_mem.clear();
  g_dims.clear();
  alloc::install();
  if (g_wrong) c.fail("the suite %s", g_wrong);
  if (listener->ran != 1) c.fail("%d tests ran", listener->ran);
  bool want = g_plan.dev == NONE || g_plan.dev == STEP;
  bool passed = rc == 0;
  if (passed != (listener->failures == 0)) c.fail("the verdict and the reported failures differ");
  if (want && !passed) c.fail("reported a conforming implementation");
  if (!want && passed) c.fail("did not report a wrong answer");
  if (want && (int)g_answered.size() != samples) c.fail("passed after %d samples", (int)g_answered.size());
  if (!want && (int)g_answered.size() <= g_plan.sample) c.fail("stopped after %d samples", (int)g_answered.size());
  for (size_t k = 0; k < g_answered.size() && k < ops.size(); k++)
    if (strcmp(g_answered[k], ops[k])) c.fail("sample %d asked for %s", (int)k, g_answered[k]);
}
static void binary(Case& c) { suite(c, "BinaryOPTest", {"add", "sub", "mul", "div"}); }
static void matmul(Case& c) { suite(c, "MatmulTest", std::vector<const char*>(7, "matmul")); }
static void conv(Case& c) { suite(c, "Conv2dTest", {"conv2d", "conv2d"}); }
static void activation(Case& c) { suite(c, "ActivationTest", {"relu", "sigmoid", "tanh"}); }
std::vector<pbt::Target> pbt::targets() {
  // the optimised build is an order of magnitude faster
  return {{"binary", binary, 1600, 30000, V_REL}, {"matmul", matmul, 700, 14000, V_REL}, {"conv", conv, 1000, 30000, V_REL}, {"activation", activation, 160, 3000, V_REL},
          {"binary_sanitized", binary, 50, 1500, V_ASAN}, {"matmul_sanitized", matmul, 50, 1500, V_ASAN}, {"conv_sanitized", conv, 100, 3000, V_ASAN}, {"activation_sanitized", activation, 16, 400, V_ASAN}};
}
