// C31: no arguments make the library touch memory that is not its own
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C31";
const char* const kRule =
    "calls of the 22 operations with unrelated operands of any type, shape (up to 20 dimensions, zero extents) and "
    "content (any bit pattern, NaN and infinities included) and with parameters drawn from small numbers, boundaries "
    "and the extremes of their type; address sanitizer, guarded blocks, and a limit on the size of a block; "
    "non-trivial: an operand has an element and at least one parameter or shape is not the valid one";
}
static Profile any_profile(Case& c) { return (Profile)c.pick<int64_t>({P_SMALL, P_UNIT, P_WIDE, P_EDGE, P_BYTES, P_POS}); }
static void wild(Case& c, std::vector<int>& v) {
  for (auto& x : v)
    if (c.chance(35)) x = (int)c.pick<int64_t>({0, 1, 2, 3, 4, 5, 7, 8, 16, 100, -1, -2, -3, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 65536, 1 << 30});
}
static void wild64(Case& c, Dims& v) {
  for (auto& x : v)
    if (c.chance(35)) x = c.pick<int64_t>({0, 1, 2, 3, 4, 5, 7, 8, 16, 100, -1, -2, INT64_MAX, INT64_MIN, INT_MAX, INT_MIN, 1LL << 32, 1LL << 62, 1LL << 61, (1LL << 32) + 1});
}
static void hostile(Case& c) {
  CallOpt o;
  o.dropout_random = true;
  o.max_elems = 40;
  Call k = gen_call(c, o);
  bool changed = false;
  // operands that have nothing to do with each other
  for (size_t q = 0; q < k.in.size(); q++) {
    if (c.chance(25)) {
      ShapeOpt so;
      so.max_elems = 30;
      so.zero = true;
      int dt = c.chance(60) ? k.in[q].dt : gen_dt(c);
      k.in[q] = gen_tv(c, dt, gen_dims(c, so), any_profile(c));
      k.in[q].dev = gen_dev(c);
      changed = true;
    } else if (c.chance(30))
      k.in[q] = gen_tv(c, k.in[q].dt, k.in[q].dims, any_profile(c));
  }
  // one of the operands in several places
  if (k.in.size() > 1 && c.chance(10)) k.in[(size_t)c.i(1, (int64_t)k.in.size() - 1)] = k.in[0];
  Call before = k;
  if (c.chance(70)) {
    wild(c, k.a);
    wild(c, k.b);
    wild(c, k.c);
    wild(c, k.d);
    wild64(c, k.dims);
    if (k.op == O_SQUEEZE || k.op == O_RESHAPE)
      while (k.dims.size() < 9 && c.chance(15)) { Dims x = {c.i(0, 5)}; wild64(c, x); k.dims.push_back(x[0]); }
    if (k.op <= O_FULL || k.op == O_RESHAPE || k.op == O_SQUEEZE) k.n = c.chance(10) ? c.pick<int64_t>({-1, INT64_MIN}) : (int64_t)k.dims.size();
    std::vector<int> s = {k.axis, k.groups, k.code};
    wild(c, s);
    k.axis = s[0];
    k.groups = s[1];
    if (k.op == O_CREATE || k.op == O_FULL || k.op == O_CAST) k.code = s[2];
    if (c.chance(20)) k.x = c.pick<double>({-1, 2, INFINITY, -INFINITY, NAN, 1e300, -0.0, 5e-324});
    if (k.op == O_POOL && c.chance(20)) k.mode = c.pick<const char*>({"", "max ", "MAX", "avgavg", "a", "m", "maxmaxmaxmaxmaxmaxmaxmaxmaxmax"});
    if (k.op == O_CONV && c.chance(20)) { k.entry = c.pick<int>({0, 2, 3}); }
    if (k.entry) {
      k.la = (int)k.a.size(); k.lb = (int)k.b.size(); k.lc = (int)k.c.size();
      if (c.chance(20)) { int* l[] = {&k.la, &k.lb, &k.lc}; *l[c.i(0, 2)] = c.pick<int>({0, 1, -1, INT_MIN}); }
    }
    changed = true;
  }
  // arrays have the length that the interface asks for, except where it takes a length
  size_t nd = k.in.empty() ? 0 : k.in[0].dims.size();
  if (k.op == O_SLICE) for (auto* v : {&k.a, &k.b, &k.c}) v->resize(nd, 1);
  if (k.op == O_POOL || (k.op == O_CONV && !k.entry)) for (auto* v : {&k.a, &k.b, &k.c, &k.d}) if (v->size() + 2 < nd) v->resize(nd - 2, 1);
  if (!arithmetic_defined(k)) { c.cls("outside: undefined arithmetic"); return; }
  Expect e = expect(k);
  const size_t kLimit = 1 << 18;
  bool big = spread(e.dims) * kDtSize[e.dt >= 0 && e.dt < NDT ? e.dt : 0] > kLimit;
  // larger results are refused by the allocator, smaller ones may not take too long
  if (e.ok && ((e.work > 300000 && !big) || (big && prod(e.dims) == 0))) { c.cls("outside: large"); return; }
  c.note("%s", str(k).c_str());
  c.cls(std::string(e.ok ? "valid " : "invalid ") + kOpName[k.op]);
  if (changed && (k.in.empty() || k.in[0].n() > 0)) c.nontrivial();
  std::vector<Tensor> in = mk_all(c, k);
  bool shared = false;
  if (k.in.size() > 1 && c.chance(10)) {  // the same tensor, not only an equal one
    for (size_t q = 1; q < k.in.size(); q++)
      if (k.in[q] == k.in[0] && k.in[q].dev.type == k.in[0].dev.type && k.in[q].dev.id == k.in[0].dev.id) {
        drop(c, in[q]);
        in[q] = in[0];
        shared = true;
      }
  }
  if (shared) c.cls("one tensor as several operands");
  alloc::limit(kLimit);
  alloc::fill_seed(c.bits());
  uint64_t live = alloc::live();
  Tensor out = kUntouched;
  Status s = run(k, in.data(), &out);
  if ((int)s < 0 || (int)s > (int)STATUS_MATH_ERROR) c.fail("%s returned %d, not a status", kOpName[k.op], (int)s);
  if (s == STATUS_SUCCESS && !e.none) {
    if (specified(k) && !e.ok) c.fail("the invalid call %s was accepted", kOpName[k.op]);
    if (!out || out == kUntouched) c.fail("%s succeeded without an output", kOpName[k.op]);
    TV v = rd(c, out);  // reads every byte of it
    if (e.ok) want_shape(c, kOpName[k.op], v, e.dt, e.dims);
    if (v.n()) memset(aitisa_tensor_data(out), 0x5a, v.b.size());  // and writes it
    drop(c, out);
  } else if (s != STATUS_SUCCESS) {
    if (specified(k) && e.ok && !big) c.fail("the valid call %s gave %s", kOpName[k.op], status_name(s));
    if (out != kUntouched) c.fail("a failed %s set the output", kOpName[k.op]);
  }
  if (alloc::live() != live) c.fail("%s left %d blocks behind", kOpName[k.op], (int)(alloc::live() - live));
  for (size_t q = 0; q < in.size(); q++) want_same(c, "an operand", in[q], k.in[q]);
  for (size_t q = 1; q < in.size(); q++)
    if (in[q] != in[0]) drop(c, in[q]);
  if (!in.empty()) drop(c, in[0]);
}
std::vector<pbt::Target> pbt::targets() { return {{"hostile", hostile, 200000, 5000000, V_ALL}}; }
