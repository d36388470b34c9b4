// C10: squeezing
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C10";
const char* const kRule =
    "a random tensor in which about half of the extents are 1 (10 types, 0-20 dimensions, zero "
    "extents) and a random list of axes: all, none, some, repeated, in any order, or with one outside "
    "the tensor; non-trivial: a dimension of 1 that is kept next to one that is dropped, a repeated "
    "axis, or a rejected list";
}
static void squeeze(Case& c) {
  ShapeOpt o;
  o.max_nd = 8;
  o.zero = true;
  o.max_elems = gen_budget(c, 300, 70000, 1);
  Dims d = gen_dims(c, o);
  for (auto& x : d) if (c.chance(40)) x = 1;
  TV v = gen_tv(c, gen_dt(c), d, P_BYTES);
  v.dev = gen_dev(c);
  int64_t nd = (int64_t)d.size();
  Dims ax;
  if (nd > 0 && c.chance(75)) {
    int n = (int)c.i(1, std::min<int64_t>(nd + 2, 12));
    if (c.chance(4)) n = (int)c.i(nd, 2 * nd + 30);  // a long list
    for (int k = 0; k < n; k++) ax.push_back(c.i(0, nd - 1));
  }
  int64_t num = (int64_t)ax.size();
  bool bad = false;
  if (c.chance(15)) {
    bad = true;
    if (c.chance(20)) num = c.pick<int64_t>({-1, -2, INT64_MIN, INT32_MIN});
    else {
      int64_t x = c.pick<int64_t>({-1, nd, nd + 1, -nd - 1, INT64_MAX, INT64_MIN, 1LL << 32, (int64_t)UINT32_MAX});
      if (ax.empty()) ax.push_back(x); else ax[c.i(0, num - 1)] = x;
      num = (int64_t)ax.size();
    }
  }
  c.note("%s axes %s%s", str(v, 8).c_str(), str(ax).c_str(), num < 0 ? " negative count" : "");
  Tensor t = mk(c, v), out = kUntouched;
  Dims arg = ax;
  Status s = LIB(aitisa_squeeze(t, arg.empty() ? nullptr : arg.data(), num, &out));
  if (arg != ax) c.fail("squeeze changed its axis list");
  want_same(c, "squeeze: the input", t, v);
  if (bad) {
    c.cls("rejected");
    c.nontrivial();
    want_status(c, "squeeze with an axis outside the tensor", s, STATUS_INVALID_ARGUMENT);
    if (out != kUntouched) c.fail("a rejected squeeze set the output");
    drop(c, t);
    if (alloc::live()) c.fail("memory is left behind");
    return;
  }
  want_ok(c, "squeeze", s, out);
  TV want = v;
  want.dims.clear();
  bool kept = false, dropped = false, rep = false;
  for (int64_t k = 0; k < nd; k++) {
    int named = 0;
    for (auto a : ax) named += a == k;
    rep |= named > 1;
    if (d[k] == 1 && (ax.empty() || named)) dropped = true;
    else { want.dims.push_back(d[k]); kept |= d[k] == 1; }
  }
  TV got = rd(c, out);
  want_bits(c, "squeeze", got, want);
  if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("squeeze lost the device");
  if (v.n()) {
    memset(aitisa_tensor_data(out), 0x5A, want.b.size());
    want_same(c, "squeeze: the input after the output was overwritten", t, v);
  }
  if ((kept && dropped) || rep) c.nontrivial();
  if (rep) c.cls("repeated axis");
  if (ax.empty()) c.cls("all axes");
  if (dropped) c.cls("drops a dimension");
  drop(c, t);
  drop(c, out);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"squeeze", squeeze, 200000, 6000000, V_ALL}, {"big", big<squeeze>, 90, 4000, V_ALL}}; }
