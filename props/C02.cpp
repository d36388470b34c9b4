// C02: creation rejects descriptions that are not one
#include "model.hpp"
namespace pbt {
const char* const kProperty = "C02";
const char* const kRule =
    "a valid description (10 types, 0-8 dimensions) with one thing made wrong: the type code, the "
    "number of dimensions, an extent, the total size, or the length of the buffer; non-trivial: a "
    "description of two or more dimensions or one with a buffer";
}
static void reject(Case& c) {
  int dt = gen_dt(c);
  ShapeOpt o;
  o.max_nd = 8;
  o.max_elems = 300;
  Dims d = gen_dims(c, o);
  TV v = gen_tv(c, dt, d, P_BYTES);
  v.dev = gen_dev(c);
  DataType t = dtype_of(dt);
  int64_t nd = (int64_t)d.size();
  bool give = c.chance(60);
  unsigned len = give ? (unsigned)v.b.size() : 0;
  size_t alloc_len = v.b.size();
  Status want = STATUS_INVALID_ARGUMENT;
  int what = (int)c.i(0, 4);
  if (nd == 0 && (what == 2 || what == 3)) what = 1;
  switch (what) {
    case 0: {
      static const int64_t codes[] = {10, 11, 12, 127, 255, 256, 0x7fffffff, -1, -10};
      int64_t code = codes[c.i(0, 8)];
      if (c.chance(20)) code = (int32_t)c.bits();
      if (code >= 0 && code < 10) code += 10;
      t.code = (decltype(t.code))(int)code;
      if (c.chance(30)) t.size = (uint8_t)c.i(0, 255);
      if (give) { if (t.size != kDtSize[dt]) len = (unsigned)(v.n() * t.size); }
      want = STATUS_NOT_SUPPORTED;
      c.cls("unknown type");
      break;
    }
    case 1:
      nd = c.pick<int64_t>({-1, -2, INT32_MIN, INT64_MIN, -(int64_t)d.size() - 1});
      c.cls("negative number of dimensions");
      break;
    case 2: {
      int m = (int)c.small(1, std::min<int64_t>(nd, 4));
      for (int k = 0; k < m; k++)
        d[c.i(0, nd - 1)] = c.pick<int64_t>({-1, -2, -3, INT64_MIN, INT32_MIN, -(1LL << 32), -5});
      // two negative extents give a positive product
      c.cls("negative extent");
      break;
    }
    case 3: {
      // the byte count exceeds 2^63-1
      give = false;
      len = 0;
      for (int tries = 0; tries < 20; tries++) {
        d[c.i(0, nd - 1)] = c.pick<int64_t>({1LL << 62, INT64_MAX, 1LL << 32, 1LL << 61, 1LL << 60, (1LL << 32) + 1, 3037000500LL, 1LL << 31, 1LL << 40});
        unsigned __int128 p = (unsigned)kDtSize[dt];
        bool over = false;
        for (auto x : d) { p *= (unsigned __int128)x; if (p > (unsigned __int128)INT64_MAX) { over = true; break; } }
        if (over) break;
        if (tries == 19) d[0] = INT64_MAX, d.push_back(2), nd++;
      }
      c.cls("too large to represent");
      break;
    }
    default: {
      give = true;
      int64_t real = (int64_t)v.b.size(), l2 = real;
      bool wraps = false;
      switch (c.i(0, 7)) {
        case 0: l2 = real + 1; break;
        case 1: l2 = real - 1; break;
        case 2: l2 = v.n(); break;                      // elements instead of bytes
        case 3: l2 = 0; break;
        case 4: l2 = real + kDtSize[dt]; break;
        case 5: l2 = real - kDtSize[dt]; break;
        case 6:  // the same length modulo 2^32
          if (nd) {
            int at = (int)c.i(0, nd - 1);
            d[(size_t)at] += c.pick<int64_t>({(int64_t)1 << 32, (int64_t)1 << 33, (int64_t)1 << 35});
            wraps = true;
          }
          break;
        default: l2 = c.i(0, 4000); break;
      }
      if (wraps) {
        len = (unsigned)l2;
        c.cls("buffer of the length modulo 2^32");
        break;
      }
      if (l2 < 0) l2 = 0;
      if (l2 == real) l2 = real + 1 + c.i(0, 7);
      len = (unsigned)l2;
      alloc_len = std::max<size_t>(alloc_len, len);
      c.cls("buffer of another length");
      break;
    }
  }
  c.note("code=%d size=%d ndim=%" PRId64 " dims=%s data=%d len=%u", (int)t.code, t.size, nd, str(d).c_str(), give, len);
  uint8_t* buf = nullptr;
  if (give) {
    buf = (uint8_t*)alloc::take(alloc_len);
    memset(buf, 0x3C, alloc_len);
  }
  alloc::virtual_from(1 << 20);
  uint64_t live = alloc::live();
  Tensor out = kUntouched;
  Dims d0 = d;
  Status s = LIB(aitisa_create(t, v.dev, d.empty() ? nullptr : d.data(), nd, buf, len, &out));
  want_status(c, "aitisa_create of an impossible description", s, want);
  if (out != kUntouched) c.fail("a rejected creation set the output");
  if (d != d0) c.fail("a rejected creation changed the extents");
  if (alloc::live() != live) c.fail("a rejected creation changed the number of live blocks by %d", (int)(alloc::live() - live));
  if (buf) {
    if (!alloc::is_live(buf)) c.fail("a rejected creation freed the caller's buffer");
    for (size_t k = 0; k < alloc_len; k++)
      if (buf[k] != 0x3C) c.fail("a rejected creation wrote to the caller's buffer");
    alloc::give(buf);
  }
  // full goes through the same description
  if (what != 4 && !give && c.chance(50)) {
    s = LIB(aitisa_full(t, v.dev, d.empty() ? nullptr : d.data(), nd, 1.0, &out));
    want_status(c, "aitisa_full of an impossible description", s, want);
    if (out != kUntouched) c.fail("a rejected aitisa_full set the output");
    if (alloc::live()) c.fail("a rejected aitisa_full left memory behind");
  }
  if (d.size() >= 2 || give) c.nontrivial();
}
std::vector<pbt::Target> pbt::targets() { return {{"reject", reject, 200000, 6000000, V_ALL}}; }
