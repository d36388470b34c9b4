// C32: results depend on the arguments only
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C32";
const char* const kRule =
    "a random call of the 22 operations (dropout with rates 0 and 1), or up to four calls most of which vary one another "
    "(other values in the same shape, other arguments, another operation on the same operands), made up to nine times in "
    "any order on the same or equal operands, each time with other noise in fresh heap blocks, in the stack and in the "
    "output variable, and with other calls in between; non-trivial: a result of at least 2 elements was compared with an earlier one of the same call";
}
__attribute__((noinline)) static void dirty_stack(uint64_t s) {
  volatile uint64_t a[4096];
  for (auto& x : a) x = s = s * 6364136223846793005ULL + 1442695040888963407ULL;
}
static void deterministic(Case& c) {
  CallOpt o;
  o.max_elems = gen_budget(c, 80, 3000, 10);
  struct Known {
    Call k;
    std::vector<Tensor> in;
    bool ran = false;
    Status s = STATUS_SUCCESS;
    Expect e;
    TV first;
  };
  std::vector<Known> family;
  int members = c.chance(45) ? 1 : (int)c.i(2, 4);
  for (int m = 0; m < members; m++) {
    Known n;
    if (m == 0 || c.chance(25)) {
      n.k = gen_call(c, o);
      for (auto& t : n.k.in) if (c.chance(15)) t = [&] { TV x = gen_tv(c, t.dt, t.dims, (Profile)c.pick<int64_t>({P_WIDE, P_EDGE, P_BYTES})); x.dev = t.dev; return x; }();
    } else
      n.k = vary(c, family[(size_t)c.i(0, (int64_t)family.size() - 1)].k, o);
    if (c.chance(8)) damage(c, n.k);
    bool wild = n.k.op == O_CREATE || !arithmetic_defined(n.k);
    if (!wild) {
      n.e = expect(n.k);
      wild = n.e.ok && (n.e.work > cap(100000) || spread(n.e.dims) > cap(20000));
    }
    if (wild) {
      if (family.empty()) { c.cls("outside"); return; }
      continue;
    }
    c.note("%c: %s; ", 'A' + (int)family.size(), str(n.k).c_str());
    n.in = mk_all(c, n.k);
    family.push_back(n);
  }
  if (family.size() > 1) c.cls("related calls");
  int times = family.size() == 1 ? (int)c.small(2, 4) : (int)c.i(3, 9);
  for (int r = 0; r < times; r++) {
    uint64_t noise = c.bits();
    alloc::fill_seed(noise);
    size_t which = family.size() == 1 ? 0 : (size_t)c.i(0, (int64_t)family.size() - 1);
    Known& f = family[which];
    const Call& k = f.k;
    if (r && c.chance(25)) {  // another call in between, mostly of the same operation
      Call b = gen_call(c, o, nullptr, c.chance(65) ? k.op : -1);
      if (b.op != O_CREATE && arithmetic_defined(b)) {
        Expect eb = expect(b);
        if (!eb.ok || (eb.work < cap(20000) && spread(eb.dims) < cap(4000))) {
          c.note("(%s)", str(b).c_str());
          std::vector<Tensor> bi = mk_all(c, b);
          Tensor bo = nullptr;
          run(b, bi.data(), &bo);
          drop(c, bo);
          for (auto& t : bi) drop(c, t);
        }
      }
    }
    c.note("%c", 'A' + (int)which);
    bool equal = c.chance(30);
    std::vector<Tensor> in2;
    if (equal) in2 = mk_all(c, k);
    dirty_stack(noise);
    Tensor out = f.ran ? (Tensor)(uintptr_t)(noise & ~7ULL) : kUntouched, was = out;
    Status s = run(k, (equal ? in2 : f.in).data(), &out);
    if (equal) for (auto& t : in2) drop(c, t);
    if (!f.ran) f.s = s;
    else if (s != f.s) c.fail("%s gave %s once and %s once", kOpName[k.op], status_name(f.s), status_name(s));
    if (s != STATUS_SUCCESS || f.e.none) {
      if (out != was) c.fail("%s without a result changed the output", kOpName[k.op]);
      f.ran = true;
      continue;
    }
    TV v = rd(c, out);
    if (!f.ran) f.first = v;
    else {
      if (v.dev.type != f.first.dev.type || v.dev.id != f.first.dev.id) c.fail("%s gave results on different devices", kOpName[k.op]);
      want_nums(c, "the result of the same call", v, f.first, true);
      if (v.n() > 1) c.nontrivial();
    }
    f.ran = true;
    drop(c, out);
  }
  for (auto& f : family) {
    if (f.ran) c.cls(std::string(f.s == STATUS_SUCCESS ? "" : "failed ") + kOpName[f.k.op]);
    for (auto& t : f.in) drop(c, t);
  }
}
std::vector<pbt::Target> pbt::targets() { return {{"deterministic", deterministic, 70000, 2000000, V_ALL}, {"big", big<deterministic, 400000>, 150, 4000, V_ALL}}; }
