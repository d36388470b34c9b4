// C29: memory comes from the configured allocator and all of it goes back
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C29";
const char* const kRule =
    "sequences of up to 8 random calls of the 22 operations, a third of them made invalid, with the results "
    "used as operands; live blocks and bytes of a recording allocator (and malloc and free inside the library) "
    "are compared around each call; the allocator changes between sequences (turns), tensors of up to 400000 elements (big); non-trivial: a call took an operand of 2 or more elements or was invalid";
}
struct Live {
  uint64_t n, bytes;
  int64_t plain;
};
static Live now() { return {alloc::live(), alloc::live_bytes(), alloc::plain_net()}; }
static void same(Case& c, const Live& a, const char* what, const char* op) {
  Live b = now();
  if (b.n != a.n || b.bytes != a.bytes)
    c.fail("%s %s: %d blocks and %d bytes more than before", op, what, (int)(b.n - a.n), (int)(b.bytes - a.bytes));
  if (b.plain != a.plain) c.fail("%s %s: malloc was called %d times more than free", op, what, (int)(b.plain - a.plain));
}
static void calls(Case& c) {
  CallOpt o;
  o.dropout_random = true;
  o.max_elems = gen_budget(c, 50, 50);
  Tensor keep = nullptr;
  TV kv;
  int n = (int)c.small(1, 8);
  for (int st = 0; st < n; st++) {
    bool chained = keep && c.chance(60);
    Call k;
    if (chained) {
      static const int any[] = {O_DUP, O_RESHAPE, O_SQUEEZE, O_SLICE, O_CAST, O_RELU, O_ADD, O_SUB, O_MUL, O_DIV,
                                O_SQRT, O_SIGMOID, O_TANH, O_SOFTMAX, O_DOT, O_DROPOUT};
      k = gen_call(c, o, &kv, any[c.i(0, 15)]);
    } else
      k = gen_call(c, o);
    bool dm = c.chance(33);
    if (dm) damage(c, k);
    if (!defined(k)) continue;
    Expect e = expect(k);
    if (e.ok && (e.work > cap(20000) || spread(e.dims) > cap(4000))) continue;
    c.note("%s; ", str(k).c_str());
    std::vector<Tensor> in = mk_all(c, k);
    if (!g_big) alloc::virtual_from(1 << 20);
    if ((!k.in.empty() && k.in[0].n() > 1) || !e.ok) c.nontrivial();
    Live before = now();
    int64_t mallocs = alloc::plain_calls();
    Tensor out = kUntouched;
    Status s = run(k, in.data(), &out);
    if (s != STATUS_SUCCESS || e.none) {
      c.cls(std::string(s ? "failed " : "no-op ") + kOpName[k.op]);
      if (alloc::plain_calls() != mallocs) c.fail("%s: took memory from malloc instead of the configured allocator", kOpName[k.op]);
      same(c, before, s ? "failed" : "succeeded without an output", kOpName[k.op]);
      out = nullptr;
    } else {
      c.cls(kOpName[k.op]);
      if (out == kUntouched || !out) c.fail("%s succeeded without an output", kOpName[k.op]);
      TV v = rd(c, out);
      if (alloc::plain_net() != before.plain) c.fail("%s: its result holds memory from malloc instead of the configured allocator", kOpName[k.op]);
      if (alloc::plain_calls() != mallocs) c.fail("%s: took memory from malloc instead of the configured allocator", kOpName[k.op]);
      if (!alloc::is_live(out)) c.fail("%s: the result is not memory of the configured allocator", kOpName[k.op]);
      if (v.n() && alloc::block_size(aitisa_tensor_data(out)) < (int64_t)v.b.size()) c.fail("%s: the data of the result is not memory of the configured allocator", kOpName[k.op]);
      Live after = now();
      // what a tensor of this description takes
      Tensor like = nullptr;
      Status l = LIB(aitisa_create(dtype_of(v.dt), v.dev, v.dims.empty() ? nullptr : v.dims.data(), (int64_t)v.dims.size(), nullptr, 0, &like));
      want_ok(c, "aitisa_create", l, like);
      uint64_t blocks = now().n - after.n;
      drop(c, like);
      same(c, after, "and aitisa_create", "aitisa_destroy");
      if (after.n - before.n > blocks) c.fail("%s: %d blocks live after it, its result needs %d", kOpName[k.op], (int)(after.n - before.n), (int)blocks);
      if (c.chance(40) && prod(v.dims) < 200) {
        drop(c, keep);
        keep = out;
        kv = v;
        out = nullptr;
      } else {
        drop(c, out);
        same(c, before, "and the destruction of its result", kOpName[k.op]);
      }
    }
    for (auto& t : in) drop(c, t);
    alloc::check();
  }
  drop(c, keep);
  if (alloc::live()) c.fail("%d blocks are left after everything was destroyed", (int)alloc::live());
  if (alloc::plain_net()) c.fail("malloc was called %d times more than free", (int)alloc::plain_net());
}
// Two allocators take turns: what is made and destroyed under one of them
// never touches the other.
struct Tally { int64_t allocs, frees, live; };
static Tally g_tally[2];
template <int W> static void* tally_alloc(size_t n) {
  char* p = (char*)malloc(n + 32);
  if (!p) return nullptr;
  g_tally[W].allocs++;
  g_tally[W].live++;
  *(uint64_t*)p = 0xA110C000 + W;
  return p + 32;
}
static int64_t g_foreign;
template <int W> static void tally_free(void* q) {
  if (!q) return;
  char* p = (char*)q - 32;
  g_tally[W].frees++;
  if (*(uint64_t*)p != 0xA110C000 + W) { g_foreign++; return; }  // leaked, as nobody knows whose it is
  *(uint64_t*)p = 0;
  g_tally[W].live--;
  free(p);
}
static void turns(Case& c) {
  struct Scope {
    ~Scope() { alloc::install(); }
  } scope;
  CallOpt o;
  o.dropout_random = true;
  int n = (int)c.small(2, 5);
  memset(g_tally, 0, sizeof g_tally);
  g_foreign = 0;
  int last = -1, changes = 0;
  for (int st = 0; st < n; st++) {
    Call k = gen_call(c, o);
    if (c.chance(20)) damage(c, k);
    if (!defined(k)) continue;
    Expect e = expect(k);
    if (e.ok && (e.work > 20000 || spread(e.dims) > 4000)) continue;
    if (!e.ok && (k.op == O_CREATE || k.op == O_FULL)) continue;
    int w = (int)c.i(0, 1);
    changes += last >= 0 && w != last;
    last = w;
    c.note("allocator %d: %s; ", w, str(k).c_str());
    aitisa_set_default_cpu_raw_alloc(w ? tally_alloc<1> : tally_alloc<0>);
    aitisa_set_default_cpu_raw_dealloc(w ? tally_free<1> : tally_free<0>);
    Tally other = g_tally[1 - w], own = g_tally[w];
    std::vector<Tensor> in;
    for (auto& t : k.in) {
      Tensor x = nullptr;
      Dims d = t.dims;
      want_ok(c, "aitisa_create", LIB(aitisa_create(dtype_of(t.dt), t.dev, d.empty() ? nullptr : d.data(), (int64_t)d.size(), nullptr, 0, &x)), x);
      if (t.b.size()) memcpy(aitisa_tensor_data(x), t.b.data(), t.b.size());
      in.push_back(x);
    }
    Tensor out = kUntouched;
    Status s = run(k, in.data(), &out);
    if ((s == STATUS_SUCCESS) != e.ok) c.fail("%s gave %s", kOpName[k.op], status_name(s));
    if (s == STATUS_SUCCESS && !e.none) {
      rd(c, out);
      drop(c, out);
    }
    for (auto& t : in) drop(c, t);
    if (g_foreign) c.fail("%s: a block went to another allocator than it came from", kOpName[k.op]);
    if (memcmp(&other, &g_tally[1 - w], sizeof other)) c.fail("%s: the allocator that is not configured was called %d times to allocate and %d times to free", kOpName[k.op], (int)(g_tally[1 - w].allocs - other.allocs), (int)(g_tally[1 - w].frees - other.frees));
    if (g_tally[w].live != own.live) c.fail("%s: %d blocks did not go back", kOpName[k.op], (int)(g_tally[w].live - own.live));
    c.cls(kOpName[k.op]);
  }
  if (changes) c.nontrivial();
}
// The allocator a program gets that configures none: malloc and free (counted
// and checked by the address sanitizer).
static void plain(Case& c) {
  struct Scope {
    Scope() { alloc::uninstall(); }
    ~Scope() { alloc::install(); }
  } scope;
  CallOpt o;
  o.dropout_random = true;
  o.max_elems = gen_budget(c, 60, 60);
  Call k = gen_call(c, o);
  if (c.chance(33)) damage(c, k);
  if (!defined(k)) return;
  Expect e = expect(k);
  if (e.ok && (e.work > cap(20000) || spread(e.dims) > cap(4000))) return;
  c.note("%s", str(k).c_str());
  if ((!k.in.empty() && k.in[0].n() > 1) || !e.ok) c.nontrivial();
  c.cls(e.ok ? kOpName[k.op] : std::string("invalid ") + kOpName[k.op]);
  int64_t start = alloc::plain_net();
  std::vector<Tensor> in;
  for (auto& t : k.in) {
    Tensor x = nullptr;
    Dims d = t.dims;
    Status s = LIB(aitisa_create(dtype_of(t.dt), t.dev, d.empty() ? nullptr : d.data(), (int64_t)d.size(), nullptr, 0, &x));
    want_ok(c, "aitisa_create", s, x);
    if (t.b.size()) memcpy(aitisa_tensor_data(x), t.b.data(), t.b.size());
    in.push_back(x);
  }
  if (e.ok || (k.op != O_CREATE && k.op != O_FULL)) {  // a gigantic creation would only test malloc
    int64_t before = alloc::plain_net();
    Tensor out = kUntouched;
    Status s = run(k, in.data(), &out);
    if ((s == STATUS_SUCCESS) != e.ok) c.fail("%s gave %s", kOpName[k.op], status_name(s));
    if (s == STATUS_SUCCESS && !e.none) {
      TV v = rd(c, out);
      drop(c, out);
    }
    if (alloc::plain_net() != before) c.fail("%s: malloc was called %d times more than free", kOpName[k.op], (int)(alloc::plain_net() - before));
  }
  for (auto& t : in) drop(c, t);
  if (alloc::plain_net() != start) c.fail("malloc was called %d times more than free", (int)(alloc::plain_net() - start));
}
std::vector<pbt::Target> pbt::targets() {
  return {{"calls", calls, 60000, 1500000, V_ALL}, {"big", big<calls, 400000>, 300, 8000, V_ALL}, {"turns", turns, 30000, 800000, V_ALL}, {"plain", plain, 60000, 1500000, V_ASAN},
          {"plain_big", big<plain, 400000>, 150, 4000, V_ASAN}};
}
