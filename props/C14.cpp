// C14: elementwise operands that do not match
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C14";
const char* const kRule =
    "two random tensors under add, sub, mul or div that differ in type, in shape (including shapes of "
    "equal size, broadcastable shapes and shapes that are a prefix of the other), or of which one is "
    "on another device; non-trivial: shapes of equal size, or two or more dimensions";
}
static Status call(int op, Tensor a, Tensor b, Tensor* o) {
  switch (op) {
    case 0: return LIB(aitisa_add(a, b, o));
    case 1: return LIB(aitisa_sub(a, b, o));
    case 2: return LIB(aitisa_mul(a, b, o));
    default: return LIB(aitisa_div(a, b, o));
  }
}
static const char* const kOp[] = {"add", "sub", "mul", "div"};
static void mismatch(Case& c) {
  int da = gen_dt(c), db = da, op = (int)c.i(0, 3);
  ShapeOpt o;
  o.zero = true;
  o.max_elems = 300;
  Dims d1 = gen_dims(c, o), d2 = d1;
  Device v1 = {DEVICE_CPU, (int)c.i(0, 3)}, v2 = {DEVICE_CPU, (int)c.i(0, 3)};
  unsigned faults = c.chance(85) ? 1u << c.i(0, 2) : (unsigned)c.i(1, 7);
  if (faults & 1) {  // type
    db = (da + (int)c.i(1, 9)) % NDT;
    if (c.chance(40)) {  // a type of the same size
      static const int twin[] = {U8, I8, U16, I16, U32, I32, F64, F64, I32, U64};
      db = twin[da];
    }
  }
  if (faults & 2) {  // shape
    for (int tries = 0; d1 == d2; tries++) {
      switch (tries > 5 ? 3 : c.chance(1) ? 7 : c.i(0, 6)) {
        case 7:  // equal in a narrower integer
          if (!d2.empty()) {
            size_t k = (size_t)c.i(0, (int64_t)d2.size() - 1);
            int64_t rest = d2[k] ? prod(d2) / d2[k] : 0;
            int64_t add = rest <= 4 ? 65536 : 256;
            if (rest <= 300) d2[k] += add;
          }
          break;
        case 0: if (d2.size() >= 2) std::reverse(d2.begin(), d2.end()); break;
        case 1: d2.push_back(1); break;
        case 2: if (!d2.empty()) d2.pop_back(); break;
        case 3: if (d2.empty()) d2.push_back(2); else d2[c.i(0, (int64_t)d2.size() - 1)] += c.i(1, 2); break;
        case 4: d2.insert(d2.begin(), 1); break;
        case 5: if (!d2.empty()) d2[c.i(0, (int64_t)d2.size() - 1)] = 1; break;
        default: d2 = gen_dims(c, o); break;
      }
    }
  }
  if (faults & 4) {
    if (c.chance(50)) v1.type = DEVICE_CUDA; else v2.type = DEVICE_CUDA;
    if (c.chance(30)) v1.type = v2.type = DEVICE_CUDA;
  }
  TV a = gen_tv(c, da, d1, P_POS), b = gen_tv(c, db, d2, P_POS);
  a.dev = v1;
  b.dev = v2;
  if (c.chance(50)) std::swap(a, b);
  c.note("%s %s dev %d, %s dev %d", kOp[op], str(a, 3).c_str(), a.dev.type, str(b, 3).c_str(), b.dev.type);
  Tensor ta = mk(c, a), tb = mk(c, b), out = kUntouched;
  uint64_t live = alloc::live();
  Status s = call(op, ta, tb, &out);
  if (faults == 1) want_status(c, "operands of different types", s, STATUS_TYPE_MISMATCH);
  else if (faults == 2) want_status(c, "operands of different shapes", s, STATUS_INVALID_ARGUMENT);
  else if (faults == 4) want_status(c, "an operand on another device", s, STATUS_NOT_SUPPORTED);
  else want_rejected(c, "operands that do not match", s);
  if (out != kUntouched) c.fail("a rejected operation set the output");
  if (alloc::live() != live) c.fail("a rejected operation left memory behind");
  want_same(c, "the first operand", ta, a);
  want_same(c, "the second operand", tb, b);
  if (a.n() == b.n() || (d1.size() >= 2 && d2.size() >= 2)) c.nontrivial();
  if (faults & 1) c.cls("types");
  if (faults & 2) c.cls("shapes");
  if (faults & 4) c.cls("device");
  if ((faults & 2) && a.n() == b.n()) c.cls("shapes of equal size");
  drop(c, ta);
  drop(c, tb);
  if (alloc::live()) c.fail("memory is left behind");
}
std::vector<pbt::Target> pbt::targets() { return {{"mismatch", mismatch, 250000, 6000000, V_ALL}}; }
