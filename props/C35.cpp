// C35: every result has the type, shape and device the operation defines, and storage of its own
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C35";
const char* const kRule =
    "random valid calls of the 22 operations, of every type, up to 20 dimensions, zero extents and other devices; "
    "type, element size, shape, device, element count and storage of the result against an independent shape "
    "calculus; non-trivial: the result has another shape, type or device than a CPU copy of the first operand";
}
static void metadata(Case& c) {
  CallOpt o;
  o.dropout_random = true;
  o.max_elems = gen_budget(c, 60, 2000, 10);
  Call k = gen_call(c, o);
  if (c.chance(10)) damage(c, k);
  if (!defined(k)) { c.cls("outside"); return; }
  Expect e = expect(k);
  if (!e.ok) { c.cls("invalid"); return; }
  bool huge = (k.op == O_CREATE) && spread(e.dims) > 1e6L;
  if (!huge && (e.work > cap(100000) || spread(e.dims) > cap(50000))) { c.cls("outside: large"); return; }
  c.note("%s", str(k).c_str());
  c.cls(std::string(huge ? "huge " : "") + kOpName[k.op]);
  std::vector<Tensor> in = mk_all(c, k);
  if (huge) alloc::virtual_from(1 << 20);
  Tensor out = kUntouched;
  Status s = run(k, in.data(), &out);
  if (huge && s == STATUS_ALLOC_FAILED) return;
  if (s != STATUS_SUCCESS) c.fail("the valid call %s gave %s", kOpName[k.op], status_name(s));
  if (e.none) {
    if (out != kUntouched) c.fail("a cast to the same type set the output");
    for (auto& t : in) drop(c, t);
    return;
  }
  if (!out || out == kUntouched) c.fail("%s succeeded without an output", kOpName[k.op]);
  for (auto t : in) if (t == out) c.fail("%s returned its operand", kOpName[k.op]);
  DataType t = aitisa_tensor_data_type(out);
  if ((int)t.code != e.dt || t.size != kDtSize[e.dt]) c.fail("%s: the result has type %d of size %d, expected %s", kOpName[k.op], (int)t.code, (int)t.size, kDtName[e.dt]);
  Dims d;
  for (int64_t q = 0; q < aitisa_tensor_ndim(out) && q < 4096; q++) d.push_back(aitisa_tensor_dim(out, q));
  if (d != e.dims || aitisa_tensor_ndim(out) != (int64_t)e.dims.size()) c.fail("%s: the result has shape %s, expected %s", kOpName[k.op], str(d).c_str(), str(e.dims).c_str());
  for (size_t q = 0; q < d.size(); q++) if (aitisa_tensor_dims(out)[q] != d[q]) c.fail("%s: the accessors of the shape of the result disagree", kOpName[k.op]);
  if (aitisa_tensor_size(out) != prod(e.dims)) c.fail("%s: the result has %" PRId64 " elements, expected %" PRId64, kOpName[k.op], aitisa_tensor_size(out), prod(e.dims));
  Device v = aitisa_tensor_device(out);
  if (v.type != e.dev.type) c.fail("%s: the result is on device type %d, expected %d", kOpName[k.op], (int)v.type, (int)e.dev.type);
  if (v.id != e.dev.id) c.fail("%s: the result is on device %d, expected %d", kOpName[k.op], v.id, e.dev.id);
  if (prod(e.dims)) {
    uint8_t* p = (uint8_t*)aitisa_tensor_data(out);
    int64_t nb = prod(e.dims) * kDtSize[e.dt];
    if (!p) c.fail("%s: the result has no data", kOpName[k.op]);
    if (alloc::block_size(p) >= 0 && alloc::block_size(p) < nb) c.fail("%s: the data of the result has %d bytes, expected %d", kOpName[k.op], (int)alloc::block_size(p), (int)nb);
    if ((uintptr_t)p % (uintptr_t)kDtSize[e.dt]) c.fail("%s: the data of the result is not aligned", kOpName[k.op]);
    for (size_t q = 0; q < in.size(); q++) {
      uint8_t* x = (uint8_t*)aitisa_tensor_data(in[q]);
      if (k.in[q].n() && p < x + k.in[q].b.size() && x < p + nb) c.fail("%s: the result shares data with operand %d", kOpName[k.op], (int)q);
    }
    if (!huge) memset(p, 0x77, (size_t)nb);
  }
  for (size_t q = 0; q < in.size(); q++) {
    if (e.dims.size() && aitisa_tensor_dims(in[q]) == aitisa_tensor_dims(out)) c.fail("%s: the result shares its shape with operand %d", kOpName[k.op], (int)q);
    want_same(c, "an operand", in[q], k.in[q]);
  }
  if (k.in.empty() || e.dims != k.in[0].dims || e.dt != k.in[0].dt || e.dev.type != DEVICE_CPU) c.nontrivial();
  // each can be destroyed first
  if (c.chance(50)) {
    for (auto& x : in) drop(c, x);
    if (prod(e.dims) && !huge) {
      uint8_t* p = (uint8_t*)aitisa_tensor_data(out);
      for (int64_t q = 0; q < prod(e.dims) * kDtSize[e.dt]; q++) if (p[q] != 0x77) c.fail("%s: destroying an operand changed the result", kOpName[k.op]);
    }
    drop(c, out);
  } else {
    drop(c, out);
    for (size_t q = 0; q < in.size(); q++) {
      want_same(c, "an operand after the result was destroyed", in[q], k.in[q]);
      drop(c, in[q]);
    }
  }
}
std::vector<pbt::Target> pbt::targets() { return {{"metadata", metadata, 120000, 3000000, V_ALL}, {"big", big<metadata, 1500000>, 300, 8000, V_ALL}}; }
