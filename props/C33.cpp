// C33: calls on different threads do not disturb each other
// @variants: tsan asan rel dbg
// @workers: tsan=3 asan=2 rel=2 dbg=1
// @cap_quick: 60
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "ops.hpp"
namespace pbt {
const char* const kProperty = "C33";
const char* const kRule =
    "2 to 4 threads, each with its own list of up to 6 calls of the 21 operations other than dropout and repeated up "
    "to 3 times, on private tensors and on tensors that all threads read; results compared with those of the same "
    "calls made by one thread, data races found by the thread sanitizer; and pairs of calls, the one held at chosen "
    "allocations and releases of memory while another thread makes the other in full; non-trivial: two threads make the "
    "same operation or read the same tensor, or a call was held while another was made";
}
struct Job {
  Call k;
  Expect e;
  std::vector<Tensor> in;
  Status ref_s = STATUS_SUCCESS;
  TV ref;
};
static Tensor make(const TV& t) {
  Tensor x = nullptr;
  Dims d = t.dims;
  if (aitisa_create(dtype_of(t.dt), t.dev, d.empty() ? nullptr : d.data(), (int64_t)d.size(), nullptr, 0, &x) != STATUS_SUCCESS) abort();
  if (t.b.size()) memcpy(aitisa_tensor_data(x), t.b.data(), t.b.size());
  return x;
}
static bool same_result(Tensor out, const TV& want) {
  bool same = aitisa_tensor_ndim(out) == (int64_t)want.dims.size() && aitisa_tensor_size(out) == want.n() &&
              (int)aitisa_tensor_data_type(out).code == want.dt;
  for (size_t q = 0; same && q < want.dims.size(); q++) same = aitisa_tensor_dim(out, (int64_t)q) == want.dims[q];
  if (same && want.b.size()) {
    TV v = want;
    memcpy(v.b.data(), aitisa_tensor_data(out), v.b.size());
    for (int64_t q = 0; same && q < v.n(); q++) same = v.b == want.b || same_num(v.num(q), want.num(q), true);
  }
  return same;
}
// Runs the job once; what is wrong with the answer, or nothing.
static std::string once(Job& j) {
  Tensor out = kUntouched;
  Status s = invoke(j.k, j.in.data(), &out);
  if (s != j.ref_s) return std::string(kOpName[j.k.op]) + " gave " + status_name(s) + " beside other threads and " + status_name(j.ref_s) + " alone";
  if (s != STATUS_SUCCESS || j.e.none) {
    if (out != kUntouched) return std::string(kOpName[j.k.op]) + " without a result set the output";
    return "";
  }
  bool same = same_result(out, j.ref);
  if (aitisa_destroy(&out) != STATUS_SUCCESS) same = false;
  if (!same) return std::string(kOpName[j.k.op]) + " gave another result beside other threads than alone";
  return "";
}
static void alone(Case& c, Job& j) {
  Tensor out = kUntouched;
  j.ref_s = invoke(j.k, j.in.data(), &out);
  if ((j.ref_s == STATUS_SUCCESS) != j.e.ok) c.fail("%s gave %s", str(j.k).c_str(), status_name(j.ref_s));
  if (j.e.ok && !j.e.none) {
    j.ref = rd(c, out);
    drop(c, out);
  }
}
static void threads(Case& c) {
  struct Scope {
    Scope() { alloc::uninstall(); }
    ~Scope() { alloc::install(); }
  } scope;
  CallOpt o;
  o.max_elems = c.chance(88) ? 30 : c.chance(85) ? 300 : 6000;
  int64_t most = o.max_elems > 300 ? 100000 : o.max_elems > 30 ? 20000 : 5000;
  int nt = (int)c.i(2, 4), ncommon = (int)c.small(0, 2), reps = (int)c.i(1, 3);
  std::vector<TV> common;
  std::vector<Tensor> ct;
  for (int q = 0; q < ncommon; q++) {
    ShapeOpt so;
    so.max_elems = o.max_elems;
    common.push_back(gen_tv(c, c.chance(50) ? F32 : gen_dt(c), gen_dims(c, so), gen_profile(c)));
    ct.push_back(make(common.back()));
  }
  std::vector<std::vector<Job>> jobs((size_t)nt);
  // the threads often do the same kind of thing
  int theme = c.chance(60) ? (int)c.i(0, O_BN) : -1;
  std::vector<int> used(NOPS_, 0);
  int shared = 0;
  for (int t = 0; t < nt; t++) {
    int n = (int)c.i(1, 6);
    c.note("[thread %d] ", t);
    for (int q = 0; q < n; q++) {
      Job j;
      int op = theme >= 0 && c.chance(70) ? theme : (int)c.i(0, O_BN);
      int sh = -1;
      if (ncommon && op > O_FULL && c.chance(50)) {
        sh = (int)c.i(0, ncommon - 1);
        const TV& x = common[(size_t)sh];
        size_t nd = x.dims.size();
        if ((op == O_CONV && (nd < 3 || nd > 5 || x.dt != F32)) || (op == O_POOL && (nd < 3 || nd > 5)) || (op == O_BN && (nd < 2 || nd > 5)) ||
            (op == O_MATMUL && nd == 0) || (op == O_SOFTMAX && !is_float(x.dt)))
          op = (int)c.pick<int64_t>({O_DUP, O_SLICE, O_RESHAPE, O_SQUEEZE, O_ADD, O_RELU});
        j.k = gen_call(c, o, &x, op);
      } else
        j.k = gen_call(c, o, nullptr, op);
      if (c.chance(8)) { damage(c, j.k); if (sh >= 0 && !(j.k.in[0] == common[(size_t)sh])) sh = -1; }
      if (sh >= 0) j.k.in[0].dev = {DEVICE_CPU, 0};
      if (j.k.op == O_CREATE || !defined(j.k)) continue;
      j.e = expect(j.k);
      if (j.e.ok && (j.e.work > most || spread(j.e.dims) > 20000)) continue;
      if (!j.e.ok && j.k.op <= O_FULL) continue;  // only a test of malloc
      for (size_t r = 0; r < j.k.in.size(); r++) j.in.push_back(r == 0 && sh >= 0 ? ct[(size_t)sh] : make(j.k.in[r]));
      if (sh >= 0) shared++;
      c.note("%s; ", str(j.k).c_str());
      c.cls(kOpName[j.k.op]);
      used[(size_t)j.k.op] |= 1 << t;
      jobs[(size_t)t].push_back(j);
    }
  }
  for (auto& l : jobs) for (auto& j : l) alone(c, j);
  for (auto u : used) if (u & (u - 1)) c.nontrivial();
  if (shared > 1) c.nontrivial();
  std::atomic<int> ready{0};
  std::vector<std::string> err((size_t)nt);
  auto body = [&](int t) {
    ready.fetch_add(1, std::memory_order_relaxed);  // no ordering: it must not hide a race
    while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
    std::string& e = err[(size_t)t];
    for (int r = 0; r < reps && e.empty(); r++)
      for (auto& j : jobs[(size_t)t])
        if (e.empty()) e = once(j);
  };
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++) th.emplace_back(body, t);
  for (auto& t : th) t.join();
  for (auto& e : err) if (!e.empty()) c.fail("%s", e.c_str());
  for (int q = 0; q < ncommon; q++) want_same(c, "a tensor read by all threads", ct[(size_t)q], common[(size_t)q]);
  for (auto& l : jobs)
    for (auto& j : l)
      for (size_t q = 0; q < j.in.size(); q++) {
        bool mine = true;
        for (auto t : ct) if (j.in[q] == t) mine = false;
        if (!mine) continue;
        want_same(c, "an operand", j.in[q], j.k.in[q]);
        drop(c, j.in[q]);
      }
  for (auto& t : ct) drop(c, t);
}
// One thread is held at chosen allocations and releases of memory while another
// makes a whole call.
static struct Stage {
  std::mutex m;
  std::condition_variable cv;
  std::thread::id a;
  uint64_t mask = 0;
  int at = 0, turns = 0, served = 0;
  bool given_up = false, done = false;
} g_stage;
static void curtain() {
  Stage& g = g_stage;
  if (std::this_thread::get_id() != g.a || g.given_up || g.turns >= 40) return;
  if (!(g.mask >> (g.at++ & 63) & 1)) return;
  std::unique_lock<std::mutex> l(g.m);
  int me = ++g.turns;
  g.cv.notify_all();
  // the other may need something this thread holds; then nothing is claimed
  if (!g.cv.wait_for(l, std::chrono::milliseconds(500), [&] { return g.served >= me; })) g.given_up = true;
}
static void* staged_alloc(size_t n) {
  curtain();
  return malloc(n);
}
static void staged_free(void* p) {
  curtain();
  free(p);
}
static void preempt(Case& c) {
  struct Scope {
    Scope() {
      aitisa_set_default_cpu_raw_alloc(staged_alloc);
      aitisa_set_default_cpu_raw_dealloc(staged_free);
      g_stage.a = std::thread::id();
    }
    ~Scope() { alloc::install(); }
  } scope;
  CallOpt o;
  o.max_elems = c.chance(92) ? 30 : 300;
  Job j[2];
  bool same_tensors = false;
  for (int q = 0; q < 2; q++) {
    Call k;
    if (q && c.chance(35)) k = vary(c, j[0].k, o);
    else if (q && c.chance(50)) k = gen_call(c, o, nullptr, j[0].k.op);
    else k = gen_call(c, o, nullptr, (int)c.i(O_FULL, O_BN));
    if (c.chance(6)) damage(c, k);
    if (k.op == O_CREATE || k.op == O_DROPOUT || !defined(k)) { c.cls("outside"); return; }
    j[q].k = k;
    j[q].e = expect(k);
    if ((j[q].e.ok && (j[q].e.work > 10000 || spread(j[q].e.dims) > 5000)) || (!j[q].e.ok && k.op <= O_FULL)) { c.cls("outside"); return; }
    for (size_t r = 0; r < k.in.size(); r++) {
      const TV& w = k.in[r];
      bool shared = q && r < j[0].k.in.size() && w == j[0].k.in[r] && w.dev.type == j[0].k.in[r].dev.type && w.dev.id == j[0].k.in[r].dev.id;
      same_tensors |= shared;
      j[q].in.push_back(shared ? j[0].in[r] : make(w));
    }
    c.note("%s: %s; ", q ? "the other" : "held", str(k).c_str());
  }
  uint64_t mask = c.chance(50) ? ~0ULL : c.chance(50) ? 1ULL << c.i(0, 20) : c.bits();
  c.note("at %llx", (unsigned long long)mask);
  c.cls(std::string("held ") + kOpName[j[0].k.op]);
  if (same_tensors) c.cls("common operands");
  for (auto& x : j) alone(c, x);
  Stage& g = g_stage;
  g.mask = mask;
  g.at = g.turns = g.served = 0;
  g.given_up = g.done = false;
  std::string err[2];
  std::thread other([&] {
    std::unique_lock<std::mutex> l(g.m);
    for (;;) {
      g.cv.wait(l, [&] { return g.turns > g.served || g.done; });
      if (g.turns == g.served) return;
      l.unlock();
      std::string e = once(j[1]);
      l.lock();
      if (err[1].empty()) err[1] = e;
      g.served++;
      g.cv.notify_all();
    }
  });
  g.a = std::this_thread::get_id();
  err[0] = once(j[0]);
  g.a = std::thread::id();
  {
    std::lock_guard<std::mutex> l(g.m);
    g.done = true;
    g.cv.notify_all();
  }
  other.join();
  if (g.served) c.nontrivial();
  if (g.given_up) c.cls("gave up waiting");
  for (auto& e : err) if (!e.empty()) c.fail("%s", e.c_str());
  for (int q = 1; q >= 0; q--)
    for (size_t r = 0; r < j[q].in.size(); r++) {
      want_same(c, "an operand", j[q].in[r], j[q].k.in[r]);
      if (q && r < j[0].in.size() && j[0].in[r] == j[1].in[r]) continue;
      drop(c, j[q].in[r]);
    }
}
// Typed access, index maps and the parts of a tensor on several threads.
struct Small {
  int what, dt;
  Dims d, x, y;
  uint64_t bits;
  double value;
};
static const char* const kSmall[] = {"read", "read at", "write", "write at", "convert", "set item", "strides", "coordinates to position",
                                     "position to coordinates", "coordinates to offset", "offset to coordinates", "broadcast", "resolve", "storage", "shape"};
// What is wrong with the call, or nothing.
static std::string small_call(const Small& k) {
  DataType T = dtype_of(k.dt);
  size_t es = (size_t)T.size, nd = k.d.size();
  Dims d = k.d, x = k.x, y = k.y;
  uint64_t cell[3] = {0, 0, 0}, src = k.bits, zero = 0;
  int64_t pos = 0;
  for (size_t a = 0; a < nd && k.what >= 5 && k.what <= 10; a++) pos = pos * d[a] + x[a];
  bool ok = true;
  Tensor t = nullptr;
  if (k.what >= 5 && k.what <= 12 && k.what != 11) {
    TV v(k.dt, d);
    t = make(v);
  }
  switch (k.what) {
    case 0: aitisa_get_typed_value_func(T)(&src, cell); ok = !memcmp(cell, &src, es) && !memcmp((char*)cell + es, &zero, 8 - es); break;
    case 1: aitisa_get_typed_array_value_func(T)(&src, (int)(8 / es - 1), cell); ok = !memcmp(cell, (char*)&src + 8 - es, es); break;
    case 2: aitisa_set_typed_value_func(T)(cell, &src); ok = !memcmp(cell, &src, es) && !memcmp((char*)cell + es, &zero, 8 - es); break;
    case 3: aitisa_set_typed_array_value_func(T)(cell, (int)(8 / es), &src); ok = !cell[0] && !memcmp(cell + 1, &src, es); break;
    case 4: {
      double v = k.value;
      aitisa_castto_typed_value_func(T)(cell, &v);
      ok = with_type(k.dt, [&](auto z) { typedef decltype(z) U; U u; memcpy(&u, cell, sizeof u); return u == (U)k.value; });
      break;
    }
    case 5:
      aitisa_tensor_set_item(t, pos, &src);
      ok = !memcmp((char*)aitisa_tensor_data(t) + (size_t)pos * es, &src, es);
      break;
    case 6: {
      Dims st(nd, -1);
      aitisa_get_all_strides(t, st.data());
      for (size_t a = 0; a < nd; a++) ok &= st[a] == prod(d, a + 1, nd) && aitisa_get_stride(t, (int64_t)a) == st[a];
      break;
    }
    case 7: ok = aitisa_coords_to_linidx(t, x.data(), (int64_t)nd) == pos; break;
    case 8: y.assign(nd, -1); aitisa_linidx_to_coords(t, pos, y.data()); ok = y == x; break;
    case 9: ok = aitisa_coords_to_offset(t, x.data(), (int64_t)nd) == pos; break;
    case 10: y.assign(nd, -1); aitisa_offset_to_coords(t, pos, y.data()); ok = y == x; break;
    case 11: {
      Dims out(nd, -1);
      ok = aitisa_broadcast_array(x.data(), (int64_t)nd, y.data(), (int64_t)nd, out.data(), (int64_t)nd) == STATUS_SUCCESS && out == d;
      break;
    }
    case 12: {
      DataType dt; Device dev; int64_t *rd_, rn; void* p; unsigned len;
      ok = aitisa_resolve(t, &dt, &dev, &rd_, &rn, &p, &len) == STATUS_SUCCESS && dt.code == T.code && rn == (int64_t)nd &&
           p == aitisa_tensor_data(t) && len == (unsigned)(prod(d) * (int64_t)es) && (!nd || !memcmp(rd_, d.data(), nd * 8));
      break;
    }
    case 13: {
      Storage st = nullptr;
      ok = aitisa_create_storage(T, {DEVICE_CPU, 2}, prod(d), nullptr, &st) == STATUS_SUCCESS && st->size == prod(d) && st->dtype.code == T.code && st->device.id == 2;
      if (ok) { memset(st->data, 7, (size_t)prod(d) * es); ok = aitisa_destroy_storage(&st) == STATUS_SUCCESS && !st; }
      break;
    }
    default: {
      Shape sh;
      ok = aitisa_create_shape(LAYOUT_DENSE, d.data(), (int64_t)nd, &sh) == STATUS_SUCCESS && sh.ndim == (int64_t)nd && !memcmp(sh.dims, d.data(), nd * 8);
      for (size_t a = 0; ok && a < nd; a++) ok = sh.layout.min2maj[a] == (int64_t)(nd - 1 - a);
      if (ok) ok = aitisa_destroy_shape(&sh) == STATUS_SUCCESS;
    }
  }
  if (t && aitisa_destroy(&t) != STATUS_SUCCESS) ok = false;
  return ok ? "" : std::string(kSmall[k.what]) + " of " + kDtName[k.dt] + str(k.d) + " was wrong beside other threads";
}
static void basics(Case& c) {
  struct Scope {
    Scope() { alloc::uninstall(); }
    ~Scope() { alloc::install(); }
  } scope;
  int nt = (int)c.i(2, 3), theme = c.chance(70) ? (int)c.i(0, 14) : -1, reps = (int)c.i(1, 6);
  std::vector<std::vector<Small>> jobs((size_t)nt);
  for (int t = 0; t < nt; t++) {
    c.note("[thread %d] ", t);
    for (int q = (int)c.i(1, 5); q > 0; q--) {
      Small k;
      k.what = theme >= 0 && c.chance(80) ? theme : (int)c.i(0, 14);
      k.dt = gen_dt(c);
      k.bits = c.bits();
      k.value = (double)c.i(0, 127);
      ShapeOpt so;
      so.min_nd = 1;
      so.max_elems = 60;
      so.many = 0;
      k.d = gen_dims(c, so);
      k.x = k.y = k.d;
      if (k.what == 11) { for (auto& e : k.x) if (c.chance(30)) e = 1; for (size_t a = 0; a < k.d.size(); a++) if (k.x[a] == k.d[a] && c.chance(30)) k.y[a] = 1; }
      else for (size_t a = 0; a < k.d.size(); a++) k.x[a] = c.i(0, k.d[a] - 1);
      c.note("%s %s%s; ", kSmall[k.what], kDtName[k.dt], str(k.d).c_str());
      c.cls(kSmall[k.what]);
      std::string e = small_call(k);
      if (!e.empty()) c.fail("%s, though there were none yet", e.c_str());
      jobs[(size_t)t].push_back(k);
    }
  }
  if (theme >= 0) c.nontrivial();
  std::atomic<int> ready{0};
  std::vector<std::string> err((size_t)nt);
  std::vector<std::thread> th;
  for (int t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      for (int r = 0; r < reps && err[(size_t)t].empty(); r++)
        for (auto& k : jobs[(size_t)t])
          if (err[(size_t)t].empty()) err[(size_t)t] = small_call(k);
    });
  for (auto& t : th) t.join();
  for (auto& e : err) if (!e.empty()) c.fail("%s", e.c_str());
}
std::vector<pbt::Target> pbt::targets() {
  return {{"threads", threads, 8000, 300000, V_TSAN | V_ALL | V_RACY}, {"basics", basics, 4000, 100000, V_TSAN | V_ALL | V_RACY}, {"preempt", preempt, 24000, 800000, V_ALL}};
}
