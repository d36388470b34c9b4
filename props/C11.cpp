// C11: the broadcast rule
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C11";
const char* const kRule =
    "two random shapes of 0-80 dimensions, related (extents copied, turned into 1 or 0, changed) or "
    "not, with an output array of exactly the longer length or longer; non-trivial: both have two or "
    "more dimensions and differ";
}
static const int64_t G = 0x6161616161616161LL;
static bool model(const Dims& a, const Dims& b, Dims& r) {
  size_t n = std::max(a.size(), b.size());
  r.assign(n, 0);
  for (size_t k = 0; k < n; k++) {  // from the last dimension; a missing one is 1
    int64_t x = k < a.size() ? a[a.size() - 1 - k] : 1;
    int64_t y = k < b.size() ? b[b.size() - 1 - k] : 1;
    if (x != y && x != 1 && y != 1) return false;
    r[n - 1 - k] = x == y ? x : x == 1 ? y : x;
  }
  return true;
}
static void broadcast(Case& c) {
  Dims a, b;
  int na = gen_nd(c, 0, 7), nb = gen_nd(c, 0, 7);
  bool most = false;  // most extents agree
  if (c.chance(3)) na = (int)c.i(0, 20), nb = (int)c.i(0, 20), most = c.chance(50);
  if (c.chance(2)) na = (int)c.i(0, 80), nb = (int)c.i(0, 80), most = c.chance(80);
  auto ext = [&] {
    switch (c.weighted({30, 50, 5, 10, 5})) {
      case 0: return (int64_t)1;
      case 1: return c.i(2, 6);
      case 2: return (int64_t)0;
      case 3: return c.i(2, 300);
      default: return c.pick<int64_t>({INT32_MAX, (int64_t)INT32_MAX + 1, 1LL << 32, (1LL << 32) + 1, 1LL << 40, INT64_MAX});
    }
  };
  for (int k = 0; k < na; k++) a.push_back(ext());
  for (int k = 0; k < nb; k++) {
    int j = na - nb + k;
    int64_t x = ext();
    if (j >= 0 && (most || c.chance(92))) {
      x = a[j];
      switch (most && !c.chance(2) ? (int)c.i(0, 2) : (int)c.weighted({50, 22, 22, 2, 4})) {
        case 0: break;
        case 1: x = 1; break;
        case 2: if (x != 1) a[j] = 1; break;
        case 3: x = x + 1; break;
        default: x = x == 1 ? 0 : x; break;
      }
    }
    b.push_back(x < 0 ? 7 : x);
  }
  if (c.chance(50)) std::swap(a, b);
  c.note("%s with %s", str(a).c_str(), str(b).c_str());
  Dims want;
  bool ok = model(a, b, want);
  Dims a2 = a, b2 = b;
  int64_t n = (int64_t)std::max(a.size(), b.size());
  // The output is written right-aligned.
  int64_t room = n + (c.chance(15) ? c.i(1, 3) : 0);
  Dims out((size_t)room + 2, G);
  Status s = LIB(aitisa_broadcast_array(a2.empty() ? nullptr : a2.data(), (int64_t)a.size(), b2.empty() ? nullptr : b2.data(),
                                        (int64_t)b.size(), out.data() + 1, room));
  if (a2 != a || b2 != b) c.fail("broadcast changed its inputs");
  if (out[0] != G || out[(size_t)room + 1] != G) c.fail("broadcast wrote outside the output");
  if (!ok) {
    c.cls("mismatch");
    want_status(c, "broadcast of mismatched extents", s, STATUS_DIMENSIONS_MISMATCH);
  } else {
    want_status(c, "broadcast", s, STATUS_SUCCESS);
    Dims got(out.begin() + 1 + (room - n), out.end() - 1);
    if (got != want) c.fail("%s with %s gives %s, expected %s", str(a).c_str(), str(b).c_str(), str(got).c_str(), str(want).c_str());
    for (int64_t k = 0; k < room - n; k++) if (out[(size_t)k + 1] != G) c.fail("broadcast wrote to unused output extents");
    // symmetric and idempotent
    Dims o2((size_t)n + 1, G), o3((size_t)n + 1, G);
    s = LIB(aitisa_broadcast_array(b2.data(), (int64_t)b.size(), a2.data(), (int64_t)a.size(), o2.data(), n));
    want_status(c, "broadcast with the inputs swapped", s, STATUS_SUCCESS);
    o2.pop_back();
    if (o2 != want) c.fail("broadcast depends on the order of its inputs");
    s = LIB(aitisa_broadcast_array(want.data(), n, a2.data(), (int64_t)a.size(), o3.data(), n));
    o3.pop_back();
    want_status(c, "broadcast of the result with an input", s, STATUS_SUCCESS);
    if (o3 != want) c.fail("broadcast of the result with an input gives %s", str(o3).c_str());
  }
  if (a.size() >= 2 && b.size() >= 2 && a != b) c.nontrivial();
}
std::vector<pbt::Target> pbt::targets() { return {{"broadcast", broadcast, 300000, 10000000, V_ALL}}; }
