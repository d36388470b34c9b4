// C26: batch normalisation
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C26";
const char* const kRule =
    "(values) a random non-empty input of rank 2-5 and any of the 10 types, the channel axis being 1 or the "
    "last one, with random scale, bias, mean and variance and epsilon from 0 to 1, now and then one tensor for several of them; (layout) the same data "
    "with the channels second and last; (reject) one or several conditions on rank, axis, types, parameter "
    "shapes and epsilon broken, or a variance that is negative in one channel; non-trivial: two or more "
    "channels of two or more elements each, or a fault that is not in the first parameter or channel";
}
struct BN {
  TV x, s, b, m, v;
  int axis;
  double eps;
};
static BN gen(Case& c, int dt, bool second = false) {
  BN r;
  int nd = (int)c.weighted({25, 25, 30, 20}) + 2;
  Dims d;
  int64_t budget = gen_budget(c, 400, 100000, 1);
  int large = budget > 400 && (g_big || c.chance(5)) ? (int)c.i(0, nd - 1) : -1;  // one large extent
  for (int k = 0; k < nd; k++) {
    int64_t e = std::min<int64_t>(budget, c.chance(25) ? 1 : c.chance(4) ? c.i(6, 40) : c.i(2, 5));
    if (k == large) e = c.i(budget / 8, budget / 2);
    if (e < 1) e = 1;
    budget /= e;
    d.push_back(e);
  }
  r.axis = second || c.chance(50) ? 1 : nd - 1;
  if (g_big || !c.chance(15)) {  // not too many parts
    auto parts = [&]() { return d[0] * (nd == 2 ? 1 : d[(size_t)r.axis]); };
    size_t other = nd == 2 || r.axis != 1 ? 1 : 2;
    if (parts() > 4000) std::swap(nd > 2 && d[0] < d[(size_t)r.axis] ? d[(size_t)r.axis] : d[0], d[other]);
    if (parts() > 4000) (nd > 2 && d[0] < d[(size_t)r.axis] ? d[(size_t)r.axis] : d[0]) = c.i(500, 2000);
  }
  if (g_big && c.chance(10)) {  // very many channels
    r.axis = second || c.chance(50) ? 1 : 2;
    d = {1, 1, 1};
    d[(size_t)r.axis] = c.pick<int64_t>({32769, 65536, 65537, 66000});
    nd = 3;
  }
  int64_t C = d[(size_t)r.axis];
  Profile p = P_SMALL;
  if (is_float(dt)) p = (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE});
  r.x = gen_tv(c, dt, d, p);
  r.s = gen_tv(c, dt, {C}, p);
  r.b = gen_tv(c, dt, {C}, p);
  r.m = gen_tv(c, dt, {C}, p);
  r.v = gen_tv(c, dt, {C}, p);
  r.eps = c.pick<double>({0.001, 0, 1e-5, 1e-8, 0.25, 1, 2.0});
  bool tiny = is_float(dt) && c.chance(6);  // all that the variance of some channels has to offer
  if (tiny) r.eps = dt == F32 ? c.pick<double>({1e-12, 1e-20, 1e-30, 1e-37}) : c.pick<double>({1e-16, 1e-30, 1e-40, 1e-60, 1e-150, 1e-300});
  with_type(dt, [&](auto z) {
    typedef decltype(z) T;
    for (int64_t k = 0; k < C; k++) {
      T t = r.v.get<T>(k);
      if (t < 0) t = (T)(0 - t);
      if (!is_float(dt)) t = (T)(t * t);
      r.v.set<T>(k, t);
    }
    if (!std::is_signed<T>::value) {  // the difference stays in the type
      for (int64_t k = 0; k < C; k++) r.m.set<T>(k, (T)((int)r.m.get<T>(k) % 4));
      for (int64_t k = 0; k < r.x.n(); k++) r.x.set<T>(k, (T)(r.x.get<T>(k) + 4));
    }
    if (tiny)
      for (int64_t k = 0; k < C; k++)
        if (c.chance(50)) r.v.set<T>(k, (T)(c.chance(60) ? 0.0 : r.eps));
    if (!is_float(dt) || (r.eps == 0 && !c.chance(10)))  // no division by zero
      for (int64_t k = 0; k < C; k++) {
        T t = r.v.get<T>(k);
        if (t == 0) r.v.set<T>(k, (T)1);
      }
    return 0;
  });
  if (C >= 2 && r.x.n() / C >= 2) c.nontrivial();
  c.note("%s axis %d scale %s bias %s mean %s variance %s epsilon %g", str(r.x).c_str(), r.axis, str(r.s, 6).c_str(),
         str(r.b, 6).c_str(), str(r.m, 6).c_str(), str(r.v, 6).c_str(), r.eps);
  return r;
}
struct Params {
  Tensor x, s, b, m, v;
};
static Params make(Case& c, const BN& r, int self = 0) {
  Params p;
  p.x = mk(c, r.x); p.v = mk(c, r.v);
  p.s = self & 1 ? p.v : mk(c, r.s);
  p.b = self & 2 ? p.v : mk(c, r.b);
  p.m = self & 4 ? p.v : mk(c, r.m);
  return p;
}
static void done(Case& c, Params& p, const BN& r) {
  want_same(c, "the input", p.x, r.x);
  want_same(c, "the scale", p.s, r.s);
  want_same(c, "the bias", p.b, r.b);
  want_same(c, "the mean", p.m, r.m);
  want_same(c, "the variance", p.v, r.v);
  for (Tensor* t : {&p.s, &p.b, &p.m}) {
    if (*t != p.v) drop(c, *t);
  }
  drop(c, p.x);
  drop(c, p.v);
}
static int64_t channel(const BN& r, int64_t k) { return unravel(r.x.dims, k)[(size_t)r.axis]; }
static void values(Case& c) {
  int dt = c.chance(60) ? (int)c.i(F32, F64) : gen_dt(c);
  BN r = gen(c, dt);
  r.x.dev = gen_dev(c, true);
  r.s.dev = r.b.dev = r.m.dev = r.v.dev = r.x.dev;
  int self = is_float(dt) && c.chance(8) ? (int)c.i(1, 7) : 0;  // parameters that are one tensor
  if (self & 1) r.s = r.v;
  if (self & 2) r.b = r.v;
  if (self & 4) r.m = r.v;
  if (self) c.cls("one tensor for several parameters");
  Params p = make(c, r, self);
  Tensor out = kUntouched;
  Status st = LIB(aitisa_batch_norm(p.x, r.axis, p.s, p.b, p.m, p.v, r.eps, &out));
  want_ok(c, "batch_norm", st, out);
  TV got = rd(c, out);
  want_shape(c, "batch_norm", got, dt, r.x.dims);
  if (got.dev.type != r.x.dev.type || got.dev.id != r.x.dev.id) c.fail("batch_norm lost the device");
  for (int64_t k = 0; k < got.n(); k++) {
    int64_t ch = channel(r, k);
    long double want;
    bool ok;
    if (is_float(dt)) {
      long double e = dt == F32 ? (long double)(float)r.eps : (long double)r.eps;
      long double q = r.s.num(ch) * ((r.x.num(k) - r.m.num(ch)) / sqrtl(r.v.num(ch) + e));
      want = q + r.b.num(ch);
      if (!std::isfinite(want)) ok = same_num(got.num(k), want);
      else ok = fabsl(got.num(k) - want) <= 8 * eps_of(dt) * (fabsl(q) + fabsl(r.b.num(ch))) + 4 * tiny_of(dt);
    } else {
      int64_t var = (int64_t)r.v.num(ch) + (int64_t)r.eps, den = (int64_t)sqrt((double)var);
      int64_t q = ((int64_t)r.x.num(k) - (int64_t)r.m.num(ch)) / den;
      want = (long double)(q * (int64_t)r.s.num(ch) + (int64_t)r.b.num(ch));
      ok = got.num(k) == want;
    }
    if (!ok) c.fail("batch_norm: element %" PRId64 " (channel %" PRId64 ") is %s, expected %.17Lg", k, ch, elem_str(got, k).c_str(), want);
  }
  c.cls(r.axis == 1 ? "channels second" : "channels last");
  c.cls(is_float(dt) ? "float" : "integer");
  done(c, p, r);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static TV bn_tv(Case& c, const BN& r) {
  Params p = make(c, r);
  Tensor out = kUntouched;
  Status st = LIB(aitisa_batch_norm(p.x, r.axis, p.s, p.b, p.m, p.v, r.eps, &out));
  want_ok(c, "batch_norm", st, out);
  TV got = rd(c, out);
  done(c, p, r);
  drop(c, out);
  return got;
}
static TV channels_last(const TV& x) {
  Dims d = {x.dims[0]};
  d.insert(d.end(), x.dims.begin() + 2, x.dims.end());
  d.push_back(x.dims[1]);
  TV r(x.dt, d);
  Dims st = strides_of(d);
  size_t es = (size_t)kDtSize[x.dt];
  for (int64_t k = 0; k < x.n(); k++) {
    Dims i = unravel(x.dims, k);
    int64_t o = i[0] * st[0] + i[1];
    for (size_t a = 2; a < i.size(); a++) o += i[a] * st[a - 1];
    memcpy(&r.b[(size_t)o * es], &x.b[(size_t)k * es], es);
  }
  return r;
}
static void layout(Case& c) {
  BN r = gen(c, (int)c.i(F32, F64), true);
  size_t nd = r.x.dims.size();
  int64_t C = r.x.dims[1];
  for (TV* t : {&r.s, &r.b, &r.m, &r.v}) {
    TV n(t->dt, {C});
    for (int64_t k = 0; k < C; k++) memcpy(&n.b[(size_t)k * kDtSize[t->dt]], &t->b[(size_t)(k % t->n()) * kDtSize[t->dt]], (size_t)kDtSize[t->dt]);
    *t = n;
  }
  TV a = bn_tv(c, r);
  BN q = r;
  switch (c.i(0, 2)) {
    case 0:
      if (nd > 2) {
        q.x = channels_last(r.x);
        q.axis = (int)nd - 1;
        want_bits(c, "channels last against channels second", bn_tv(c, q), channels_last(a));
        break;
      }
      // fall through
    case 1: {  // one sample of the batch
      int64_t n = r.x.dims[0], k = c.i(0, n - 1), per = r.x.n() / n * kDtSize[r.x.dt];
      Dims d = r.x.dims;
      d[0] = 1;
      q.x = TV(r.x.dt, d);
      memcpy(q.x.b.data(), r.x.b.data() + k * per, (size_t)per);
      TV e(r.x.dt, d);
      memcpy(e.b.data(), a.b.data() + k * per, (size_t)per);
      want_bits(c, "one sample against the same one in a batch", bn_tv(c, q), e);
      break;
    }
    default: {  // the spatial dimensions only count by their product
      if (nd < 4) break;
      q.x.dims = {r.x.dims[0], C, r.x.n() / (r.x.dims[0] * C)};
      TV e = a;
      e.dims = q.x.dims;
      want_bits(c, "flattened spatial dimensions", bn_tv(c, q), e);
    }
  }
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
static void reject(Case& c) {
  int dt = c.chance(70) ? (int)c.i(F32, F64) : gen_dt(c);
  BN r = gen(c, dt);
  c.nontrivial_ = false;
  int faults = c.chance(75) ? 1 : (int)c.i(2, 3), n = 0;
  Status want = STATUS_SUCCESS;
  TV* ps[] = {&r.s, &r.b, &r.m, &r.v};
  static const char* const pn[] = {"scale", "bias", "mean", "variance"};
  std::string what;
  for (int f = 0; f < faults; f++) {
    int which = (int)c.i(0, 3);
    if (which) c.nontrivial();
    TV& t = *ps[which];
    n++;
    switch (c.i(0, 5)) {
      case 0:
        what += " rank";
        if (c.chance(50)) {
          r.x = gen_tv(c, dt, Dims((size_t)c.i(0, 1), 2), P_SMALL);
        } else {
          Dims d(6 + (size_t)c.i(0, 2), 1);
          d[1] = r.s.n();
          r.x = gen_tv(c, dt, d, P_SMALL);
          r.axis = 1;
        }
        want = STATUS_DIMENSIONS_MISMATCH;
        break;
      case 1: {
        what += " axis";
        int nd = (int)r.x.dims.size();
        r.axis = c.pick<int>({0, -1, nd, nd + 1, -nd, INT_MAX, INT_MIN, nd > 3 ? 2 : 0, 1 - nd});
        if (r.axis == 1) r.axis = 0;
        want = STATUS_INVALID_ARGUMENT;
        break;
      }
      case 2: {
        what += std::string(" type of ") + pn[which];
        int o = gen_dt(c);
        if (o == dt) o = (dt + 1) % NDT;
        t = gen_tv(c, o, t.dims, P_POS);
        want = STATUS_TYPE_MISMATCH;
        break;
      }
      case 3: {
        what += std::string(" shape of ") + pn[which];
        Dims d = t.dims;
        int64_t C = r.s.n();
        switch (c.i(0, 4)) {
          case 0: d = {C + c.i(1, 3)}; break;
          case 1: d = {C > 1 ? C - 1 : C + 1}; break;
          case 2: d = {1, C}; break;
          case 3: d = {C, 1}; break;
          default: d = C == 1 ? Dims{} : Dims{1}; break;
        }
        t = gen_tv(c, t.dt, d, P_POS);
        want = STATUS_DIMENSIONS_MISMATCH;
        break;
      }
      case 4:
        what += " epsilon";
        r.eps = c.pick<double>({-1e-9, -1.0, -1e-300, -INFINITY, -5e-324});
        want = STATUS_INVALID_ARGUMENT;
        break;
      default: {
        if (!is_float(dt) && !is_signed_int(dt)) { n--; break; }
        if (t.dt != dt || r.v.dt != dt || r.v.n() == 0) { n--; break; }
        what += " negative variance";
        int64_t k = c.i(0, r.v.n() - 1);
        if (k) c.nontrivial();
        with_type(dt, [&](auto z) { typedef decltype(z) T; r.v.set<T>(k, (T)-5); return 0; });
        want = STATUS_MATH_ERROR;
      }
    }
  }
  if (!n) return;
  if (n > 1) {  // several may cancel out
    int nd = (int)r.x.dims.size();
    bool bad = nd < 2 || nd > 5 || (r.axis != 1 && r.axis != nd - 1) || !(r.eps >= 0);
    for (TV* t : ps) bad = bad || t->dt != r.x.dt || t->dims.size() != 1 || t->dims[0] != r.x.dims[(size_t)r.axis];
    for (int64_t k = 0; k < r.v.n() && !bad; k++) bad = r.v.num(k) + r.eps < 0;
    if (!bad) { c.cls("cancelled out"); return; }
  }
  c.note(" broken:%s: %s axis %d", what.c_str(), str(r.x.dims).c_str(), r.axis);
  c.cls(n == 1 ? what.substr(1) : "several");
  Params p = make(c, r);
  Tensor out = kUntouched;
  uint64_t live = alloc::live();
  Status st = LIB(aitisa_batch_norm(p.x, r.axis, p.s, p.b, p.m, p.v, r.eps, &out));
  if (n == 1) want_status(c, "the malformed batch_norm", st, want);
  else want_rejected(c, "the malformed batch_norm", st);
  if (out != kUntouched) c.fail("a failed batch_norm set the output");
  if (alloc::live() != live) c.fail("a failed batch_norm left %d blocks behind", (int)(alloc::live() - live));
  done(c, p, r);
}
std::vector<pbt::Target> pbt::targets() {
  return {{"values", values, 50000, 1500000, V_ALL},
          {"big", big<values, 1000000>, 45, 2500, V_ALL},
          {"layout", layout, 20000, 600000, V_ALL},
          {"reject", reject, 60000, 2000000, V_ALL}};
}
