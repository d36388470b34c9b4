// C34: every allocation failure is reported and undone
// @level: fault_enumeration
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C34";
const char* const kRule =
    "a random call of the 22 operations (valid or made invalid, and creations from a buffer), run once to count its n allocations, then once for "
    "every k < n with the k-th allocation refused, once for every k with all from the k-th on refused, and once more "
    "without a fault (beyond 48 allocations: 48 of them); non-trivial: at least 3 allocations were refused in turn";
}
static void faults(Case& c) {
  CallOpt o;
  o.max_elems = gen_budget(c, 40, 40);
  Call k = gen_call(c, o);
  if (c.chance(8)) damage(c, k);
  if (!defined(k)) { c.cls("outside"); return; }
  Expect e = expect(k);
  if (e.ok && (e.work > cap(5000) || spread(e.dims) > cap(2000))) { c.cls("outside: large"); return; }
  c.note("%s", str(k).c_str());
  std::vector<Tensor> in = mk_all(c, k);
  if (!g_big) alloc::virtual_from(1 << 20);
  uint64_t live = alloc::live(), bytes = alloc::live_bytes();
  int64_t plain = alloc::plain_net();
  auto once = [&](Status& s, TV& v, const char* how) {
    Tensor out = kUntouched;
    s = run(k, in.data(), &out);
    if (s == STATUS_SUCCESS && !e.none) {
      if (!out || out == kUntouched) c.fail("%s: %s succeeded without an output", how, kOpName[k.op]);
      v = rd(c, out);
      drop(c, out);
    } else if (out != kUntouched)
      c.fail("%s: %s without a result set the output", how, kOpName[k.op]);
    if (alloc::live() != live || alloc::live_bytes() != bytes || alloc::plain_net() != plain)
      c.fail("%s: %s left %d blocks behind", how, kOpName[k.op], (int)(alloc::live() - live));
    for (size_t q = 0; q < in.size(); q++) want_same(c, "an operand", in[q], k.in[q]);
    alloc::check();
  };
  Status ref_s, s;
  TV ref, v;
  uint64_t before = alloc::calls();
  once(ref_s, ref, "without a fault");
  if ((ref_s == STATUS_SUCCESS) != e.ok) c.fail("%s gave %s", kOpName[k.op], status_name(ref_s));
  int n = (int)(alloc::calls() - before);
  c.cls(std::string(e.ok ? "" : "invalid ") + kOpName[k.op]);
  if (n >= 3) c.nontrivial();
  int most = g_big && n > 300 ? 2 : 48;
  for (int q = 0; q < n && q < most; q++) {
    int at = n <= most ? q : (int)c.i(0, n - 1);
    for (int every = 0; every < 2; every++) {
      char how[80];
      snprintf(how, sizeof how, every ? "allocation %d and later refused" : "allocation %d refused", at);
      uint64_t refused = alloc::failed();
      if (every) alloc::fail_from(at);
      else alloc::fail_at(at);
      once(s, v, how);
      refused = alloc::failed() - refused;
      alloc::fail_at(-1);
      alloc::fail_from(-1);
      if ((int)s < 0 || (int)s > (int)STATUS_MATH_ERROR) c.fail("%s: %s returned %d, not a status", how, kOpName[k.op], (int)s);
      if (s == STATUS_SUCCESS) {
        if (!e.ok) c.fail("%s: the invalid call %s was accepted", how, kOpName[k.op]);
        if (e.none || k.op == O_CREATE) continue;
        want_nums(c, "the result in spite of a refused allocation", v, ref, true);
      } else if (s != STATUS_ALLOC_FAILED && s != ref_s)
        c.fail("%s: %s gave %s", how, kOpName[k.op], status_name(s));
      if (refused && e.ok && s == STATUS_SUCCESS) c.cls("succeeded in spite of a refused allocation");
    }
  }
  if (c.chance(50)) {  // as if nothing had happened
    once(s, v, "again without a fault");
    if (s != ref_s) c.fail("after refused allocations %s gave %s, before %s", kOpName[k.op], status_name(s), status_name(ref_s));
    if (s == STATUS_SUCCESS && !e.none && k.op != O_CREATE) want_nums(c, "the result after refused allocations", v, ref, true);
  }
  for (auto& t : in) drop(c, t);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
// A creation that fails leaves the caller's buffer with the caller.
static void adopt(Case& c) {
  TV v = gen_tv(c, gen_dt(c), gen_dims(c, ShapeOpt()), P_SMALL);
  c.note("create with a buffer: %s", str(v, 4).c_str());
  void* data = alloc::take(v.b.size());
  memcpy(data, v.b.data(), v.b.size());
  uint64_t live = alloc::live();
  for (int at = 0; at < 12; at++) {
    uint64_t f = alloc::failed();
    if (c.chance(50)) alloc::fail_at(at);
    else alloc::fail_from(at);
    Tensor t = kUntouched;
    Dims d = v.dims;
    Status s = LIB(aitisa_create(dtype_of(v.dt), v.dev, d.empty() ? nullptr : d.data(), (int64_t)d.size(), data, (unsigned)v.b.size(), &t));
    alloc::fail_at(-1);
    alloc::fail_from(-1);
    bool hit = alloc::failed() != f;
    if (s == STATUS_SUCCESS) {
      want_bits(c, "a tensor with an adopted buffer", rd(c, t), v);
      drop(c, t);
      if (alloc::live() != live - 1) c.fail("%d blocks are left after the tensor was destroyed", (int)alloc::live());
      if (at >= 3) c.nontrivial();
      return;
    }
    if (!hit) c.fail("a valid creation gave %s", status_name(s));
    if (s != STATUS_ALLOC_FAILED) c.fail("a creation without memory gave %s", status_name(s));
    if (t != kUntouched) c.fail("a failed creation set the output");
    if (alloc::live() != live) c.fail("a failed creation changed the number of live blocks by %d", (int)(alloc::live() - live));
    if (!alloc::is_live(data) || memcmp(data, v.b.data(), v.b.size())) c.fail("a failed creation took the caller's buffer");
  }
  c.fail("a creation makes more than 12 allocations");
}
// Faults in the middle of a history: surviving tensors stay what they were.
static void histories(Case& c) {
  std::vector<std::pair<Tensor, TV>> pool;
  CallOpt o;
  o.max_elems = 30;
  int steps = (int)c.small(2, 14), refused = 0;
  for (int st = 0; st < steps; st++) {
    if (!pool.empty() && c.chance(15)) {
      size_t q = (size_t)c.i(0, (int64_t)pool.size() - 1);
      c.note("%d: destroy %d; ", st, (int)q);
      drop(c, pool[q].first);
      pool.erase(pool.begin() + (long)q);
      continue;
    }
    Call k;
    int from = -1;
    if (!pool.empty() && c.chance(75)) {
      static const int any[] = {O_DUP, O_RESHAPE, O_SQUEEZE, O_SLICE, O_CAST, O_RELU, O_ADD, O_SUB, O_MUL, O_DOT, O_SQRT, O_DROPOUT};
      from = (int)c.i(0, (int64_t)pool.size() - 1);
      k = gen_call(c, o, &pool[(size_t)from].second, any[c.i(0, 11)]);
    } else
      k = gen_call(c, o);
    if (!defined(k)) continue;
    Expect e = expect(k);
    if (e.ok && (e.work > 5000 || spread(e.dims) > 1000)) continue;
    c.note("%d: %s", st, str(k).c_str());
    std::vector<Tensor> in;
    for (size_t q = 0; q < k.in.size(); q++) in.push_back(q == 0 && from >= 0 ? pool[(size_t)from].first : mk(c, k.in[q]));
    alloc::virtual_from(1 << 20);
    uint64_t live = alloc::live(), f0 = alloc::failed();
    bool fault = c.chance(50);
    if (fault) {
      int at = (int)c.i(0, 12);
      c.note(" with allocation %d refused", at);
      if (c.chance(50)) alloc::fail_at(at);
      else alloc::fail_from(at);
    }
    c.note("; ");
    Tensor out = kUntouched;
    Status s = run(k, in.data(), &out);
    alloc::fail_at(-1);
    alloc::fail_from(-1);
    bool hit = alloc::failed() != f0;
    refused += hit;
    if (s != STATUS_SUCCESS) {
      if (out != kUntouched) c.fail("a failed %s set the output", kOpName[k.op]);
      if (alloc::live() != live) c.fail("a failed %s left %d blocks behind", kOpName[k.op], (int)(alloc::live() - live));
      if (e.ok && !hit) c.fail("the valid call %s gave %s", kOpName[k.op], status_name(s));
    } else {
      if (!e.ok) c.fail("the invalid call %s was accepted", kOpName[k.op]);
      if (!e.none) {
        TV v = rd(c, out);
        want_shape(c, kOpName[k.op], v, e.dt, e.dims);
        if (k.op == O_CREATE || pool.size() >= 6) drop(c, out);
        else pool.push_back({out, v});
      }
    }
    for (size_t q = 0; q < in.size(); q++)
      if (!(q == 0 && from >= 0)) drop(c, in[q]);
    for (auto& p : pool) want_same(c, "a tensor of the pool", p.first, p.second);
    alloc::check();
  }
  if (refused) c.nontrivial();
  c.cls(refused > 1 ? "several faults" : refused ? "one fault" : "no fault");
  for (auto& p : pool) drop(c, p.first);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() {
  return {{"faults", faults, 30000, 800000, V_ALL}, {"big", big<faults, 400000>, 150, 4000, V_ALL}, {"histories", histories, 30000, 800000, V_ALL},
          {"adopt", adopt, 10000, 100000, V_ALL}};
}
