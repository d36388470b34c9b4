// Reference model of the products: exact sums of products.
#pragma once
#include "model.hpp"

struct Sum {
  uint64_t m = 0;           // integers: the sum modulo 2^64
  long double s = 0, a = 0; // floats: the sum, and the sum of magnitudes
  int64_t n = 0;
};
static inline void add_prod(Sum& r, const TV& a, int64_t i, const TV& b, int64_t j) {
  r.n++;
  if (is_float(a.dt)) {
    long double p = a.num(i) * b.num(j);
    r.s += p;
    r.a += fabsl(p);
  } else {
    uint64_t x = with_type(a.dt, [&](auto z) { typedef decltype(z) T; return (uint64_t)(int64_t)a.get<T>(i); });
    uint64_t y = with_type(b.dt, [&](auto z) { typedef decltype(z) T; return (uint64_t)(int64_t)b.get<T>(j); });
    r.m += x * y;
  }
}
struct Prod {
  Dims dims;
  std::vector<Sum> v;
};
static inline void want_prod(Case& c, const char* what, const TV& got, int dt, const Prod& p) {
  want_shape(c, what, got, dt, p.dims);
  for (int64_t k = 0; k < got.n(); k++) {
    const Sum& s = p.v[(size_t)k];
    if (is_float(dt)) {
      long double tol = (long double)(s.n + 2) * eps_of(dt) * s.a * 1.01L + (long double)(s.n + 1) * tiny_of(dt);
      long double g = got.num(k);
      if (!std::isfinite(s.s)) {  // an infinity or a NaN among the products
        if (!same_num(g, s.s)) c.fail("%s: element %" PRId64 " is %s, expected %Lg", what, k, elem_str(got, k).c_str(), s.s);
        continue;
      }
      if (!(fabsl(g - s.s) <= tol))
        c.fail("%s: element %" PRId64 " is %s, expected %.17Lg", what, k, elem_str(got, k).c_str(), s.s);
    } else {
      with_type(dt, [&](auto z) {
        typedef decltype(z) T;
        T w;
        memcpy(&w, &s.m, sizeof w);
        if (got.get<T>(k) != w)
          c.fail("%s: element %" PRId64 " is %s, expected %lld", what, k, elem_str(got, k).c_str(), (long long)w);
        return 0;
      });
    }
  }
}
// The matrix product with one-dimensional operands as a row or a column, and
// the leading dimensions broadcast. False: the shapes do not match.
static inline bool matmul_model(const TV& a, const TV& b, Prod& r) {
  Dims da = a.dims, db = b.dims;
  if (da.empty() || db.empty()) return false;
  bool row = da.size() == 1, col = db.size() == 1;
  if (row) da.insert(da.begin(), 1);
  if (col) db.push_back(1);
  size_t na = da.size() - 2, nb = db.size() - 2, nr = std::max(na, nb);
  int64_t M = da[na], K = da[na + 1], N = db[nb + 1];
  if (db[nb] != K) return false;
  Dims batch(nr);
  for (size_t k = 0; k < nr; k++) {
    int64_t x = k + na >= nr ? da[k + na - nr] : 1, y = k + nb >= nr ? db[k + nb - nr] : 1;
    if (x != y && x != 1 && y != 1) return false;
    batch[k] = x == 1 ? y : x;
  }
  Dims sa(nr, 0), sb(nr, 0);
  int64_t st = M * K;
  for (size_t k = nr; k-- > 0;) {
    if (k + na < nr) break;
    int64_t e = da[k + na - nr];
    sa[k] = e == 1 ? 0 : st;
    st *= e;
  }
  st = K * N;
  for (size_t k = nr; k-- > 0;) {
    if (k + nb < nr) break;
    int64_t e = db[k + nb - nr];
    sb[k] = e == 1 ? 0 : st;
    st *= e;
  }
  r.dims = batch;
  if (row && col && nr == 0) r.dims = {1};
  else {
    if (!row) r.dims.push_back(M);
    if (!col) r.dims.push_back(N);
  }
  int64_t nbatch = prod(batch);
  r.v.assign((size_t)(nbatch * M * N), Sum());
  for (int64_t q = 0; q < nbatch; q++) {
    Dims x = unravel(batch, q);
    int64_t oa = 0, ob = 0;
    for (size_t k = 0; k < nr; k++) { oa += x[k] * sa[k]; ob += x[k] * sb[k]; }
    for (int64_t i = 0; i < M; i++)
      for (int64_t j = 0; j < N; j++)
        for (int64_t k = 0; k < K; k++)
          add_prod(r.v[(size_t)((q * M + i) * N + j)], a, oa + i * K + k, b, ob + k * N + j);
  }
  return true;
}
// Values whose sums of K products stay defined: any bits for the types that
// wrap, bounded ones for signed 32 and 64 bits, finite ones for floats.
static inline TV gen_factor(Case& c, int dt, const Dims& d, int64_t K) {
  if (is_float(dt)) return gen_tv(c, dt, d, (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_IOTA}));
  if (dt == I32 || dt == I64) {
    TV v = gen_tv(c, dt, d, (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_IOTA}));
    int64_t lim = (int64_t)std::sqrt((dt == I32 ? 2147483000.0 : 9.2e18) / (double)std::max<int64_t>(1, K));
    bool large = c.chance(30);  // as large as stays defined
    pbt::Rng g(large ? c.bulk_seed() : 0);
    for (int64_t k = 0; k < v.n(); k++) {
      if (dt == I32) v.set<int32_t>(k, (int32_t)(large ? (int64_t)g.below((uint64_t)(2 * lim + 1)) - lim : v.get<int32_t>(k) % (lim + 1)));
      else v.set<int64_t>(k, large ? (int64_t)g.below((uint64_t)(2 * lim + 1)) - lim : v.get<int64_t>(k) % (lim + 1));
    }
    return v;
  }
  return gen_tv(c, dt, d, (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_EDGE, P_BYTES, P_IOTA}));
}
