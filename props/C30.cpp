// C30: a failed call has no effect
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C30";
const char* const kRule =
    "a random call of one of the 22 operations (every type, up to 5-20 dimensions, zero extents, other "
    "devices) of which one to three arguments were then changed (boundary values, extremes of int, other "
    "types, shapes, devices), judged by an independent model of validity; non-trivial: the call is invalid";
}
static void atomic(Case& c) {
  CallOpt o;
  o.dropout_random = true;
  o.max_elems = gen_budget(c, o.max_elems, o.max_elems);
  Call k = gen_call(c, o);
  int n = c.chance(80) ? 1 : (int)c.i(0, 3);
  for (int q = 0; q < n; q++) damage(c, k);
  if (!defined(k)) { c.cls("outside: undefined arithmetic"); return; }
  Expect e = expect(k);
  if (e.ok && (e.work > cap(200000) || spread(e.dims) > cap(1000000))) { c.cls("outside: large"); return; }
  c.note("%s", str(k).c_str());
  std::vector<Tensor> in = mk_all(c, k);
  if (!g_big) alloc::virtual_from(1 << 20);
  uint64_t live = alloc::live(), bytes = alloc::live_bytes();
  Tensor out = kUntouched;
  Status s = run(k, in.data(), &out);
  if (e.ok) {
    c.cls("valid");
    if (s != STATUS_SUCCESS) c.fail("the valid call %s gave %s", kOpName[k.op], status_name(s));
    if (e.none) out = nullptr;
  } else {
    c.cls(std::string("invalid ") + kOpName[k.op]);
    c.nontrivial();
    want_rejected(c, "the invalid call", s);
    if (out != kUntouched) c.fail("a failed %s set the output", kOpName[k.op]);
    out = nullptr;
    if (alloc::live() != live || alloc::live_bytes() != bytes) c.fail("a failed %s left %d blocks behind", kOpName[k.op], (int)(alloc::live() - live));
  }
  for (size_t q = 0; q < in.size(); q++) want_same(c, "an operand", in[q], k.in[q]);
  if (out) drop(c, out);
  // the operands are as usable as before
  if (!e.ok && !in.empty() && k.in[0].n() > 0) {
    Tensor dup = kUntouched;
    Status d = LIB(aitisa_duplicate(in[0], &dup));
    want_ok(c, "duplicating an operand of a failed call", d, dup);
    want_bits(c, "a duplicate of an operand of a failed call", rd(c, dup), k.in[0]);
    drop(c, dup);
  }
  for (auto& t : in) drop(c, t);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"atomic", atomic, 150000, 4000000, V_ALL}, {"big", big<atomic, 400000>, 300, 8000, V_ALL}}; }
