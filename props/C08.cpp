// C08: duplicating tensors
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C08";
const char* const kRule =
    "a random tensor (10 types, 0-20 dimensions, up to 80000 elements, any bit pattern, any "
    "device), duplicated one to three times, then both sides overwritten and destroyed in random order; "
    "non-trivial: two or more elements";
}
static void duplicate(Case& c) {
  ShapeOpt o;
  o.max_nd = 8;
  o.zero = true;
  o.max_elems = gen_budget(c, 400, 80000, 1);
  TV v = gen_tv(c, gen_dt(c), gen_dims(c, o), P_BYTES);
  v.dev = gen_dev(c);
  c.note("%s dev=%d/%d", str(v).c_str(), v.dev.type, v.dev.id);
  std::vector<Tensor> ts{mk(c, v)};
  std::vector<TV> vs{v};
  int n = (int)c.small(1, 3);
  for (int k = 0; k < n; k++) {
    size_t from = (size_t)c.i(0, (int64_t)ts.size() - 1);
    Tensor out = kUntouched;
    Status s = LIB(aitisa_duplicate(ts[from], &out));
    want_ok(c, "duplicate", s, out);
    TV got = rd(c, out);
    want_bits(c, "duplicate", got, vs[from]);
    if (got.dev.type != v.dev.type || got.dev.id != v.dev.id) c.fail("duplicate lost the device");
    want_same(c, "duplicate: the input", ts[from], vs[from]);
    for (size_t j = 0; j < ts.size(); j++)
      if (ts[j] == out || (v.n() && aitisa_tensor_data(ts[j]) == aitisa_tensor_data(out))) c.fail("a duplicate shares its data with another tensor");
    ts.push_back(out);
    vs.push_back(vs[from]);
    if (c.chance(60)) {  // overwrite one, the others keep their values
      size_t w = (size_t)c.i(0, (int64_t)ts.size() - 1);
      fill_tv(c, vs[w], P_BYTES);
      memcpy(aitisa_tensor_data(ts[w]), vs[w].b.data(), vs[w].b.size());
      for (size_t j = 0; j < ts.size(); j++) want_same(c, "a tensor whose duplicate was overwritten", ts[j], vs[j]);
    }
  }
  while (!ts.empty()) {
    size_t w = (size_t)c.i(0, (int64_t)ts.size() - 1);
    drop(c, ts[w]);
    ts.erase(ts.begin() + w);
    vs.erase(vs.begin() + w);
    for (size_t j = 0; j < ts.size(); j++) want_same(c, "a tensor whose duplicate was destroyed", ts[j], vs[j]);
  }
  if (v.n() > 1) c.nontrivial();
  if (!v.n()) c.cls("without elements");
  if (v.dims.empty()) c.cls("scalar");
  if (v.n() > 65536) c.cls("more than 65536 elements");
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
}
std::vector<pbt::Target> pbt::targets() { return {{"duplicate", duplicate, 100000, 4000000, V_ALL}, {"big", big<duplicate>, 90, 4000, V_ALL}}; }
