// C27: dropout
// @link: -Wl,--wrap=time
#include <time.h>

#include "model.hpp"
namespace pbt {
const char* const kProperty = "C27";
const char* const kRule =
    "(keep) a random tensor of any of the 10 types, any bit pattern, any rate from 0 to 1 at any "
    "clock time; (share) a tensor of 4000-20000 non-zero elements, of which the share of dropped elements is "
    "counted over the whole and over halves, odd and even positions; (reject) rates outside 0 to 1; "
    "non-trivial: the rate is neither 0 nor 1 and there are two or more elements, or the rate is out of range";
}
static time_t g_time;
extern "C" time_t __wrap_time(time_t* p) {
  if (p) *p = g_time;
  return g_time;
}
static double gen_rate(Case& c) {
  switch (c.weighted({50, 20, 15, 15})) {
    case 0: return (double)c.i(1, 99) / 100;
    case 1: return (double)c.i(0, 1000000) / 1000000;
    case 2: return 1;
    default: return 0;
  }
}
static void keep(Case& c) {
  ShapeOpt o;
  o.zero = true;
  o.max_elems = gen_budget(c, 200, 70000, 1);
  TV v = gen_tv(c, gen_dt(c), gen_dims(c, o), (Profile)c.pick<int64_t>({P_UNIT, P_BYTES, P_EDGE}));
  v.dev = gen_dev(c);
  double rate = gen_rate(c);
  g_time = (time_t)c.i(0, 2000000000);
  c.note("%s rate %g time %lld", str(v).c_str(), rate, (long long)g_time);
  Tensor t = mk(c, v), out = kUntouched;
  Status s = LIB(aitisa_dropout(t, rate, &out));
  want_ok(c, "dropout", s, out);
  TV got = rd(c, out);
  want_same(c, "the input", t, v);
  want_shape(c, "dropout", got, v.dt, v.dims);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("dropout lost the device");
  if (v.n() && aitisa_tensor_data(out) == aitisa_tensor_data(t)) c.fail("the output shares the data of the input");
  size_t es = (size_t)kDtSize[v.dt];
  static const uint8_t zero[8] = {0};
  for (int64_t k = 0; k < v.n(); k++) {
    const uint8_t *g = &got.b[(size_t)k * es], *w = &v.b[(size_t)k * es];
    bool same = !memcmp(g, w, es), z = !memcmp(g, zero, es);
    if (rate == 0 ? !same : rate == 1 ? !z : !same && !z)
      c.fail("dropout with rate %g: element %" PRId64 " was %s and is %s", rate, k, elem_str(v, k).c_str(), elem_str(got, k).c_str());
  }
  if (rate > 0 && rate < 1 && v.n() > 1) c.nontrivial();
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static void share(Case& c) {
  int64_t n = c.i(4000, 20000);
  TV v = gen_tv(c, gen_dt(c), c.chance(50) ? Dims{n} : Dims{n / 50, 5, 10}, P_POS);
  double rate = (double)c.i(0, 100) / 100;
  g_time = (time_t)c.i(0, 2000000000);
  c.note("%s rate %g time %lld", str(v, 4).c_str(), rate, (long long)g_time);
  if (rate > 0 && rate < 1) c.nontrivial();
  Tensor t = mk(c, v), out = kUntouched;
  want_ok(c, "dropout", LIB(aitisa_dropout(t, rate, &out)), out);
  TV got = rd(c, out);
  want_shape(c, "dropout", got, v.dt, v.dims);
  n = v.n();
  for (int part = 0; part < 5; part++) {
    static const char* const nm[] = {"all", "the first half", "the second half", "the even positions", "the odd positions"};
    int64_t m = 0, z = 0;
    for (int64_t k = 0; k < n; k++) {
      bool in = part == 0 || (part == 1 && k < n / 2) || (part == 2 && k >= n / 2) || (part == 3 && k % 2 == 0) || (part == 4 && k % 2);
      if (!in) continue;
      m++;
      z += got.num(k) == 0;
    }
    double f = (double)z / (double)m, sd = std::sqrt(rate * (1 - rate) / (double)m);
    if (fabs(f - rate) > 7 * sd + 0.021)
      c.fail("dropout with rate %g zeroed %" PRId64 " of %" PRId64 " elements (%s)", rate, z, m, nm[part]);
  }
  drop(c, t);
  drop(c, out);
}
// Over a large tensor no position, residue or neighbour decides what is dropped.
static void even(Case& c) {
  int64_t n = c.i(1 << 20, 1 << 21);
  int dt = c.chance(60) ? U8 : gen_dt(c);
  TV v(dt, c.chance(50) ? Dims{n} : c.chance(50) ? Dims{n / 64, 64} : Dims{8, n / 8});
  with_type(dt, [&](auto z) {
    for (int64_t k = 0; k < v.n(); k++) v.set(k, (decltype(z))1);
    return 0;
  });
  n = v.n();
  double rate = (double)c.i(5, 95) / 100;
  g_time = (time_t)c.i(0, 2000000000);
  c.note("%s%s of ones, rate %g time %lld", kDtName[dt], str(v.dims).c_str(), rate, (long long)g_time);
  c.nontrivial();
  Tensor t = mk(c, v), out = kUntouched;
  want_ok(c, "dropout", LIB(aitisa_dropout(t, rate, &out)), out);
  TV got = rd(c, out);
  want_shape(c, "dropout", got, dt, v.dims);
  drop(c, t);
  drop(c, out);
  std::vector<uint8_t> z((size_t)n);
  int64_t total = 0;
  for (int64_t k = 0; k < n; k++) total += z[(size_t)k] = got.num(k) == 0;
  double p = (double)total / (double)n;
  if (fabs(p - rate) > 0.025) c.fail("dropout with rate %g zeroed %" PRId64 " of %" PRId64 " elements", rate, total, n);
  auto sd = [&](double q, double m) { return std::sqrt(q * (1 - q) / m); };
  for (int64_t per : {2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096}) {
    std::vector<int64_t> cnt((size_t)per);
    for (int64_t k = 0; k < n; k++) cnt[(size_t)(k % per)] += z[(size_t)k];
    for (int64_t r = 0; r < per; r++) {
      double m = (double)((n - r + per - 1) / per), f = (double)cnt[(size_t)r] / m;
      // at most one in 10^10 by Bernstein's inequality, for the tails of small counts too
      if (fabs(f - p) > 7.5 * sd(p, m) + 16 / m)
        c.fail("dropout with rate %g zeroed the share %g of all, and %g of the positions %" PRId64 " modulo %" PRId64, rate, p, f, r, per);
    }
  }
  int64_t blk = n / 64;
  for (int64_t q = 0; q < 64; q++) {
    int64_t m = 0;
    for (int64_t k = q * blk; k < (q + 1) * blk; k++) m += z[(size_t)k];
    double f = (double)m / (double)blk;
    if (fabs(f - p) > 7.5 * sd(p, (double)blk) + 16.0 / (double)blk)
      c.fail("dropout with rate %g zeroed the share %g of all, and %g of the positions from %" PRId64 " on", rate, p, f, q * blk);
  }
  for (int64_t lag : {1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 64, 128, 256, 1024, 4096, 65536}) {
    int64_t m = 0;
    for (int64_t k = lag; k < n; k++) m += z[(size_t)k] & z[(size_t)(k - lag)];
    double f = (double)m / (double)(n - lag);
    if (fabs(f - p * p) > 8 * 1.8 * sd(p * p, (double)(n - lag)) + 1e-4)
      c.fail("dropout with rate %g: of the pairs %" PRId64 " apart the share %g is zeroed together, expected %g", rate, lag, f, p * p);
  }
}
static void reject(Case& c) {
  ShapeOpt o;
  TV v = gen_tv(c, gen_dt(c), gen_dims(c, o), P_UNIT);
  double rate = c.pick<double>({-0.5, 1.5, -1e-9, 1.0000000001, -1, 2, 100, -INFINITY, INFINITY, -1e300, 1e300, -5e-324,
                                1.0000000000000002});
  if (c.chance(30)) rate = c.chance(50) ? 1 + (double)c.i(1, 1000000) / 1e6 : -(double)c.i(1, 1000000) / 1e6;
  c.note("%s rate %g", str(v).c_str(), rate);
  c.nontrivial();
  Tensor t = mk(c, v), out = kUntouched;
  uint64_t live = alloc::live();
  want_status(c, "dropout with a rate outside 0 to 1", LIB(aitisa_dropout(t, rate, &out)), STATUS_INVALID_ARGUMENT);
  if (out != kUntouched) c.fail("a rejected dropout set the output");
  if (alloc::live() != live) c.fail("a rejected dropout left memory behind");
  want_same(c, "the input", t, v);
  drop(c, t);
}
std::vector<pbt::Target> pbt::targets() {
  return {{"keep", keep, 80000, 2000000, V_ALL}, {"big", big<keep>, 90, 4000, V_ALL}, {"share", share, 4000, 100000, V_ALL}, {"even", even, 60, 2000, V_ALL}, {"reject", reject, 60000, 1500000, V_ALL}};
}
