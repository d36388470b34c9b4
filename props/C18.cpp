// C18: relations between products
#include "linalg.hpp"
namespace pbt {
const char* const kProperty = "C18";
const char* const kRule =
    "random tensors of small integers (exact in every type) with extents up to 90 (one of them now and then up "
    "to 6000), batches of up to 4 dimensions broadcast against each other, under relations that need no model: identity, "
    "associativity, distributivity, agreement of dot and matmul, a batch against its slices, splitting "
    "the contracted dimension; non-trivial: every matrix has two or more rows and columns";
}
static TV gen(Case& c, int dt, const Dims& d) {
  TV v(dt, d);
  pbt::Rng g(c.bulk_seed());
  int lo = is_float(dt) || is_signed_int(dt) ? -2 : 0;
  bool tiny = dt == I8 || dt == U8;  // wraps, which is fine: the relations hold modulo 2^8
  (void)tiny;
  for (int64_t k = 0; k < v.n(); k++)
    with_type(dt, [&](auto z) { typedef decltype(z) T; v.set<T>(k, (T)(lo + (int)g.below(5))); return 0; });
  return v;
}
static Tensor mm(Case& c, Tensor a, Tensor b) {
  Tensor o = kUntouched;
  Status rc = LIB(aitisa_matmul(a, b, &o));
  want_ok(c, "matmul", rc, o);
  return o;
}
static Tensor dt_(Case& c, Tensor a, Tensor b) {
  Tensor o = kUntouched;
  Status rc = LIB(aitisa_dot(a, b, &o));
  want_ok(c, "dot", rc, o);
  return o;
}
static Tensor plus(Case& c, Tensor a, Tensor b) {
  Tensor o = kUntouched;
  Status rc = LIB(aitisa_add(a, b, &o));
  want_ok(c, "add", rc, o);
  return o;
}
static Tensor cut(Case& c, Tensor t, std::vector<int> b, std::vector<int> s) {
  std::vector<int> st(b.size(), 1);
  Tensor o = kUntouched;
  Status rc = LIB(aitisa_slice(t, b.data(), s.data(), st.data(), &o));
  want_ok(c, "slice", rc, o);
  return o;
}
static Tensor shaped(Case& c, Tensor t, Dims d) {
  Tensor o = kUntouched;
  Status rc = LIB(aitisa_reshape(t, d.data(), (int64_t)d.size(), &o));
  want_ok(c, "reshape", rc, o);
  return o;
}
static void same(Case& c, const char* what, Tensor a, Tensor b) { want_nums(c, what, rd(c, a), rd(c, b)); }
static int64_t ext(Case& c) {
  switch (c.weighted({10, 50, 30, 10})) {
    case 0: return 1;
    case 1: return c.i(2, 8);
    case 2: return c.i(8, 30);
    default: return c.i(30, 90);
  }
}
static void relation(Case& c) {
  int dt = gen_dt(c);
  int64_t M = ext(c), K = ext(c), N = ext(c), L = c.i(1, 12);
  bool longer = c.chance(4);  // one long dimension
  if (longer) {
    int64_t e = c.chance(50) ? c.pick<int64_t>({127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 4097}) : c.i(90, 6000);
    M = std::min<int64_t>(M, 4), K = std::min<int64_t>(K, 4), N = std::min<int64_t>(N, 4);
    (c.chance(60) ? K : c.chance(50) ? M : N) = e;
  }
  std::vector<Tensor> bin;
  auto keep = [&](Tensor t) { bin.push_back(t); return t; };
  int kind = (int)c.i(0, 7);
  if (longer && K > 90 && (kind == 0 || kind == 1 || kind == 2)) kind = 3 + 2 * (kind & 1);
  if (longer && M > 90 && kind == 0) kind = 3;
  c.note("%s M=%d K=%d N=%d L=%d relation %d", kDtName[dt], (int)M, (int)K, (int)N, (int)L, kind);
  if (M > 1 && K > 1 && N > 1) c.nontrivial();
  switch (kind) {
    case 0: {
      c.cls("identity");
      TV a = gen(c, dt, {M, K}), i(dt, {K, K}), j(dt, {M, M});
      with_type(dt, [&](auto z) { typedef decltype(z) T; for (int64_t k = 0; k < K; k++) i.set<T>(k * K + k, (T)1); for (int64_t k = 0; k < M; k++) j.set<T>(k * M + k, (T)1); return 0; });
      Tensor ta = keep(mk(c, a));
      Tensor r = keep(mm(c, ta, keep(mk(c, i))));
      want_nums(c, "A times the identity", rd(c, r), a);
      r = keep(mm(c, keep(mk(c, j)), ta));
      want_nums(c, "the identity times A", rd(c, r), a);
      break;
    }
    case 1: {
      c.cls("associativity");
      if (dt == F32 || dt == F64 || dt >= I32) { K = std::min<int64_t>(K, 40); N = std::min<int64_t>(N, 40); }
      Tensor a = keep(mk(c, gen(c, dt, {M, K}))), b = keep(mk(c, gen(c, dt, {K, N}))), d = keep(mk(c, gen(c, dt, {N, L})));
      same(c, "(AB)D against A(BD)", keep(mm(c, keep(mm(c, a, b)), d)), keep(mm(c, a, keep(mm(c, b, d)))));
      break;
    }
    case 2: {
      c.cls("distributivity");
      Tensor a = keep(mk(c, gen(c, dt, {M, K}))), b = keep(mk(c, gen(c, dt, {K, N}))), d = keep(mk(c, gen(c, dt, {K, N})));
      same(c, "A(B+D) against AB+AD", keep(mm(c, a, keep(plus(c, b, d)))), keep(plus(c, keep(mm(c, a, b)), keep(mm(c, a, d)))));
      break;
    }
    case 3: {
      c.cls("dot and matmul");
      Tensor a = keep(mk(c, gen(c, dt, {M, K}))), b = keep(mk(c, gen(c, dt, {K, N}))), v = keep(mk(c, gen(c, dt, {K})));
      same(c, "dot against matmul", keep(dt_(c, a, b)), keep(mm(c, a, b)));
      same(c, "dot against matmul with a vector", keep(dt_(c, a, v)), keep(mm(c, a, v)));
      same(c, "a vector as a column", keep(mm(c, a, v)), keep(shaped(c, keep(mm(c, a, keep(shaped(c, v, {K, 1})))), {M})));
      same(c, "a vector as a row", keep(mm(c, v, b)), keep(shaped(c, keep(mm(c, keep(shaped(c, v, {1, K})), b)), {N})));
      same(c, "two vectors", keep(dt_(c, v, v)), keep(mm(c, v, v)));
      break;
    }
    case 4: {  // a batch is its slices
      c.cls("batch");
      M = std::min<int64_t>(M, 20), K = std::min<int64_t>(K, 20), N = std::min<int64_t>(N, 20);
      int nb = (int)c.weighted({25, 40, 25, 10}) + 1;  // batch dimensions of the product
      Dims r, da, db;
      int fa = c.chance(30) ? (int)c.i(0, nb) : 0, fb = fa || !c.chance(30) ? 0 : (int)c.i(0, nb);  // missing in one
      for (int i = 0; i < nb; i++) {
        int64_t e = c.i(1, nb > 2 ? 3 : 4);
        bool one = c.chance(25), two = !one && c.chance(30);
        r.push_back(one && i < fb ? 1 : two && i < fa ? 1 : e);
        if (i >= fa) da.push_back(one ? 1 : e);
        if (i >= fb) db.push_back(two ? 1 : e);
      }
      Dims A = da, B = db;
      A.push_back(M), A.push_back(K), B.push_back(K), B.push_back(N);
      Tensor a = keep(mk(c, gen(c, dt, A))), b = keep(mk(c, gen(c, dt, B)));
      Tensor t = keep(mm(c, a, b));
      Dims R = r;
      R.push_back(M), R.push_back(N);
      want_shape(c, "batch", rd(c, t), dt, R);
      int64_t total = prod(r), tries = std::min<int64_t>(total, 12);
      for (int64_t n = 0; n < tries; n++) {
        Dims at = unravel(r, total <= 12 ? n : c.i(0, total - 1));
        auto sub = [&](Tensor from, const Dims& have, int64_t h, int64_t w) {
          std::vector<int> bg, sz;
          for (size_t k = 0; k < have.size(); k++) {
            bg.push_back(have[k] == 1 ? 0 : (int)at[at.size() - have.size() + k]);
            sz.push_back(1);
          }
          bg.push_back(0), bg.push_back(0), sz.push_back((int)h), sz.push_back((int)w);
          return keep(shaped(c, keep(cut(c, from, bg, sz)), {h, w}));
        };
        same(c, "a matrix of a batch", sub(t, r, M, N), keep(mm(c, sub(a, da, M, K), sub(b, db, K, N))));
      }
      break;
    }
    case 5: {  // splitting the contracted dimension
      c.cls("split");
      K = std::max<int64_t>(2, K);
      int64_t h = c.i(1, K - 1);
      Tensor a = keep(mk(c, gen(c, dt, {M, K}))), b = keep(mk(c, gen(c, dt, {K, N})));
      Tensor a1 = keep(shaped(c, keep(cut(c, a, {0, 0}, {(int)M, (int)h})), {M, h})), a2 = keep(shaped(c, keep(cut(c, a, {0, (int)h}, {(int)M, (int)(K - h)})), {M, K - h}));
      Tensor b1 = keep(shaped(c, keep(cut(c, b, {0, 0}, {(int)h, (int)N})), {h, N})), b2 = keep(shaped(c, keep(cut(c, b, {(int)h, 0}, {(int)(K - h), (int)N})), {K - h, N}));
      same(c, "AB against the sum over the halves", keep(mm(c, a, b)), keep(plus(c, keep(mm(c, a1, b1)), keep(mm(c, a2, b2)))));
      break;
    }
    case 6: {  // stacking rows
      c.cls("stacked dot");
      M = std::min<int64_t>(M, 30), K = std::min<int64_t>(K, 30);
      int64_t p = c.i(1, 4);
      Tensor a = keep(mk(c, gen(c, dt, {p, M, K}))), v = keep(mk(c, gen(c, dt, {K})));
      Tensor flat = keep(shaped(c, a, {p * M, K}));
      same(c, "tensor dot vector", keep(shaped(c, keep(dt_(c, a, v)), {p * M})), keep(mm(c, flat, v)));
      same(c, "tensor times vector", keep(shaped(c, keep(mm(c, a, v)), {p * M})), keep(mm(c, flat, v)));
      N = std::min<int64_t>(N, 12);
      M = std::min<int64_t>(M, 10);
      a = keep(mk(c, gen(c, dt, {p, M, K})));
      flat = keep(shaped(c, a, {p * M, K}));
      Tensor b = keep(mk(c, gen(c, dt, {1, K, N})));
      same(c, "tensor dot tensor", keep(shaped(c, keep(dt_(c, a, b)), {p * M, N})), keep(mm(c, flat, keep(shaped(c, b, {K, N})))));
      break;
    }
    default: {  // scaling
      c.cls("scaling");
      TV s(dt, {});
      with_type(dt, [&](auto z) { typedef decltype(z) T; s.set<T>(0, (T)c.i(0, 4)); return 0; });
      Tensor a = keep(mk(c, gen(c, dt, {M, K}))), b = keep(mk(c, gen(c, dt, {K, N}))), f = keep(mk(c, s));
      same(c, "(sA)B against s(AB)", keep(mm(c, keep(dt_(c, f, a)), b)), keep(dt_(c, keep(mm(c, a, b)), f)));
      break;
    }
  }
  for (auto& t : bin) drop(c, t);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"relation", relation, 40000, 1000000, V_ALL}}; }
