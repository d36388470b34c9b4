// C28: tensors are independent values throughout any history of calls
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C28";
const char* const kRule =
    "histories of up to 25 steps over a pool of up to 7 live tensors, built by the 22 operations from each "
    "other's results, written element by element, and destroyed; after each step every tensor is read in full; "
    "non-trivial: an operation took the result of another as its operand";
}
struct Ent {
  Tensor t;
  TV v;
  int depth;
};
struct Pool {
  std::vector<Ent> e;
};
static void check_all(Case& c, const Pool& p, const char* after) {
  for (size_t q = 0; q < p.e.size(); q++) {
    std::string w = "tensor " + std::to_string(q) + " of the pool after " + after;
    want_same(c, w.c_str(), p.e[q].t, p.e[q].v);
  }
}
static void history(Case& c) {
  Pool p;
  std::vector<std::pair<Tensor, TV>> tmp;
  CallOpt o;
  o.max_elems = gen_budget(c, 40, 300, 10);
  int steps = (int)c.small(1, pbt::thorough_tier() ? 40 : 25);
  for (int st = 0; st < steps; st++) {
    int what = p.e.empty() ? 0 : (int)c.weighted({70, 14, 8, 8});
    if (what == 0) {  // an operation
      Call k;
      bool chained = !p.e.empty() && c.chance(80);
      std::vector<int> from;  // pool index of each operand, -1: new
      if (chained) {
        int f = (int)c.i(0, (int64_t)p.e.size() - 1);
        const TV& x = p.e[(size_t)f].v;
        size_t nd = x.dims.size();
        int op = (int)c.i(O_CAST, O_DROPOUT);
        // operations this operand allows
        for (int tries = 0; tries < 6; tries++) {
          bool bad = (op == O_CONV && (nd < 3 || nd > 5 || x.dt != F32)) || (op == O_POOL && (nd < 3 || nd > 5)) ||
                     (op == O_BN && (nd < 2 || nd > 5)) || (op == O_MATMUL && nd == 0) ||
                     ((op == O_SIGMOID || op == O_TANH) && !is_float(x.dt)) || (op == O_SOFTMAX && !is_float(x.dt));
          if (!bad) break;
          op = (int)c.i(O_CAST, O_DROPOUT);
        }
        k = gen_call(c, o, &x, op);
        from.assign(k.in.size(), -1);
        from[0] = f;
        // other operands out of the pool, where one has the right type and shape
        for (size_t q = 1; q < k.in.size(); q++)
          for (size_t r = 0; r < p.e.size(); r++)
            if (p.e[r].v.dt == k.in[q].dt && p.e[r].v.dims == k.in[q].dims && c.chance(40)) {
              k.in[q] = p.e[r].v;
              from[q] = (int)r;
              break;
            }
      } else {
        k = gen_call(c, o);
        from.assign(k.in.size(), -1);
      }
      if (c.chance(6)) damage(c, k);
      for (size_t q = 0; q < k.in.size(); q++)
        if (from[q] >= 0 && !(k.in[q] == p.e[(size_t)from[q]].v && k.in[q].dev.type == p.e[(size_t)from[q]].v.dev.type &&
                              k.in[q].dev.id == p.e[(size_t)from[q]].v.dev.id)) from[q] = -1;
      if (!defined(k)) { c.cls("skipped: undefined arithmetic"); continue; }
      Expect e = expect(k);
      if (e.ok && (e.work > cap(20000) || spread(e.dims) > cap(4000))) { c.cls("skipped: large"); continue; }
      c.note("%d: %s; ", st, str(k).c_str());
      c.cls(kOpName[k.op]);
      std::vector<Tensor> in, fresh = mk_all(c, k);
      int depth = 0;
      for (size_t q = 0; q < k.in.size(); q++) {
        in.push_back(from[q] >= 0 ? p.e[(size_t)from[q]].t : mk(c, k.in[q]));
        if (from[q] >= 0) depth = std::max(depth, p.e[(size_t)from[q]].depth);
      }
      if (depth) c.nontrivial();
      if (depth >= 4) c.cls("operand of depth 4 or more");
      Tensor out = kUntouched, ref = kUntouched;
      Status s = run(k, in.data(), &out), r = run(k, fresh.data(), &ref);
      check_all(c, p, kOpName[k.op]);
      for (size_t q = 0; q < in.size(); q++) {
        want_same(c, "an operand", in[q], k.in[q]);
        want_same(c, "an operand", fresh[q], k.in[q]);
        drop(c, fresh[q]);
        if (from[q] < 0) {
          if (c.chance(30) && p.e.size() < 7) p.e.push_back({in[q], k.in[q], 0});
          else drop(c, in[q]);
        }
      }
      if (s != r) c.fail("%s of tensors with a history gave %s, of new tensors with the same content %s", kOpName[k.op], status_name(s), status_name(r));
      if (!e.ok) {
        if (s == STATUS_SUCCESS) c.fail("the invalid call %s was accepted", str(k).c_str());
        if (out != kUntouched || ref != kUntouched) c.fail("a failed %s set the output", kOpName[k.op]);
        continue;
      }
      if (s != STATUS_SUCCESS) c.fail("the valid call %s gave %s", str(k).c_str(), status_name(s));
      if (e.none) continue;
      TV a = rd(c, out), b = rd(c, ref);
      want_shape(c, kOpName[k.op], a, e.dt, e.dims);
      if (k.op == O_CREATE) {  // contents are up to the library
        for (int64_t q = 0; q < (int64_t)a.b.size(); q++) ((uint8_t*)aitisa_tensor_data(out))[q] = (uint8_t)(q + st);
        a = rd(c, out);
      } else
        want_nums(c, "the result on tensors with a history", a, b, true);
      drop(c, ref);
      check_all(c, p, "a result was destroyed");
      want_same(c, "the result", out, a);
      if (p.e.size() < 7 || c.chance(70)) {
        Ent n = {out, a, depth + 1};
        if (p.e.size() < 7) p.e.push_back(n);
        else {
          size_t q = (size_t)c.i(0, (int64_t)p.e.size() - 1);
          drop(c, p.e[q].t);
          p.e[q] = n;
        }
      } else
        drop(c, out);
    } else if (what == 1) {  // a write
      size_t q = (size_t)c.i(0, (int64_t)p.e.size() - 1);
      Ent& x = p.e[q];
      if (!x.v.n()) continue;
      int64_t at = c.i(0, x.v.n() - 1);
      uint64_t bits = c.bits();
      int sz = kDtSize[x.v.dt];
      c.note("%d: write element %d of tensor %d; ", st, (int)at, (int)q);
      c.cls("write");
      if (is_float(x.v.dt)) bits = x.v.dt == F32 ? 0x40490fdb : 0x400921fb54442d18ULL;
      memcpy((uint8_t*)aitisa_tensor_data(x.t) + at * sz, &bits, (size_t)sz);
      memcpy(&x.v.b[(size_t)(at * sz)], &bits, (size_t)sz);
    } else if (what == 2) {  // every byte
      size_t q = (size_t)c.i(0, (int64_t)p.e.size() - 1);
      Ent& x = p.e[q];
      c.note("%d: overwrite tensor %d; ", st, (int)q);
      c.cls("overwrite");
      for (int64_t j = 0; j < x.v.n(); j++)
        with_type(x.v.dt, [&](auto z) { typedef decltype(z) T; x.v.set<T>(j, (T)((j + st) % 5 + 1)); return 0; });
      if (x.v.b.size()) memcpy(aitisa_tensor_data(x.t), x.v.b.data(), x.v.b.size());
    } else {
      size_t q = (size_t)c.i(0, (int64_t)p.e.size() - 1);
      c.note("%d: destroy tensor %d; ", st, (int)q);
      c.cls("destroy");
      drop(c, p.e[q].t);
      p.e.erase(p.e.begin() + (long)q);
    }
    check_all(c, p, "the step");
    alloc::check();
  }
  while (!p.e.empty()) {
    size_t q = (size_t)c.i(0, (int64_t)p.e.size() - 1);
    drop(c, p.e[q].t);
    p.e.erase(p.e.begin() + (long)q);
    check_all(c, p, "another was destroyed");
  }
}
std::vector<pbt::Target> pbt::targets() { return {{"history", history, 40000, 1500000, V_ALL}, {"big", big<history, 200000>, 60, 1500, V_ALL}}; }
