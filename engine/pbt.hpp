// Property-based testing engine used by every check under /verif/props.
//
// A case is a pure function of a tape of choices.  Every random decision of a
// generator goes through Case, which records it; replay, shrinking and
// coverage-guided mutation all work on the recorded tape.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : next(); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

constexpr uint32_t TAPE_MAX = 1u << 15;

class Case {
 public:
  // ---- choices --------------------------------------------------------
  // Integer in [lo, hi]; lo is the simplest value.
  int64_t i(int64_t lo, int64_t hi);
  // As i(), but skewed towards lo.
  int64_t small(int64_t lo, int64_t hi);
  // Any 64-bit pattern; 0 is the simplest.
  uint64_t bits();
  // True with the given probability in percent; false is the simplest.
  bool chance(int percent);
  // Index chosen by weight; index 0 is the simplest.
  size_t weighted(std::initializer_list<int> weights);
  template <class T>
  T pick(std::initializer_list<T> xs) {
    auto k = (size_t)i(0, (int64_t)xs.size() - 1);
    return *(xs.begin() + k);
  }
  template <class T>
  const T& pick(const std::vector<T>& xs) {
    return xs[(size_t)i(0, (int64_t)xs.size() - 1)];
  }
  // 0 to n-1 in turn over the cases of a run; up to all-1 in a replay.
  int64_t turn(int64_t n, int64_t all);
  // A generator for bulk data that is a function of one recorded choice
  // (seed 0 means "the simplest data").
  uint64_t bulk_seed();

  // ---- reporting ------------------------------------------------------
  bool describing() const { return desc_on_; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  void cls(const char* name);          // count a class of cases
  void cls(const std::string& name) { cls(name.c_str()); }
  void nontrivial() { nontrivial_ = true; }
  [[noreturn]] void fail(const char* fmt, ...)
      __attribute__((format(printf, 2, 3)));
  // ---- internal -------------------------------------------------------
  uint64_t draw(uint64_t range_incl, int kind);
  Rng rng;
  uint64_t index = 0;  // of the case
  const std::vector<uint64_t>* in_tape = nullptr;  // replay / mutation source
  bool exhaust_random = true;  // past the end of in_tape: random, else 0
  uint32_t n = 0;
  uint64_t* tape = nullptr;  // recorded (shared memory)
  volatile uint32_t* tape_n = nullptr;
  bool desc_on_ = false;
  char* desc_sink = nullptr;
  bool nontrivial_ = false;
  std::string desc;
};

enum Variant { V_ASAN = 1, V_DBG = 2, V_REL = 4, V_TSAN = 8, V_ALL = 7,
               V_WRAP = 32,
               V_SLOW = 64 /* seconds per case: no shrinking */,
               V_RACY = 16 /* threads run freely: a case need not fail every time */ };

struct Target {
  const char* name;
  void (*fn)(Case&);
  long quick;     // cases in the quick tier (asan variant)
  long thorough;  // cases in the thorough tier
  unsigned variants;
};

// Each harness defines these two.
extern const char* const kProperty;
extern const char* const kRule;
std::vector<Target> targets();

int current_variant();
bool thorough_tier();

}  // namespace pbt
