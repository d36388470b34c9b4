#include "alloc.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>

#include "pbt.hpp"

extern "C" {
#include "src/core/allocator.h"
}

#if defined(__SANITIZE_ADDRESS__)
#define HAS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAS_ASAN 1
#endif
#endif
#ifndef HAS_ASAN
#define HAS_ASAN 0
#endif

#if HAS_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(
    void (*m)(const volatile void*, size_t), void (*f)(const volatile void*));
#endif

namespace alloc {

struct Ent {
  char* p;      // what the library holds; null: free slot
  size_t size;
  void* base;
  size_t mapped;  // address-space-only block of this many bytes
};
static Ent* g_tab;
static size_t g_cap, g_n;
static uint64_t g_calls, g_failed, g_bytes, g_serial, g_seed;
static int64_t g_fail_at = -1, g_fail_from = -1;
static int g_prot;
static size_t g_virtual = SIZE_MAX, g_limit = (size_t)1 << 28;
static char g_err[512];
static int g_scope, g_own;
static int64_t g_plain, g_plain_calls;

static size_t slot_of(const void* p) {
  return (size_t)pbt::mix((uint64_t)(uintptr_t)p) & (g_cap - 1);
}
static void grow() {
  size_t oc = g_cap;
  Ent* o = g_tab;
  g_cap = g_cap ? g_cap * 2 : 4096;
  g_tab = (Ent*)mmap(nullptr, g_cap * sizeof(Ent), PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (size_t k = 0; k < oc; k++) {
    if (!o[k].p) continue;
    size_t s = slot_of(o[k].p);
    while (g_tab[s].p) s = (s + 1) & (g_cap - 1);
    g_tab[s] = o[k];
  }
  if (o) munmap(o, oc * sizeof(Ent));
}
static Ent* find(const void* p) {
  if (!g_cap) return nullptr;
  size_t s = slot_of(p);
  while (g_tab[s].p) {
    if (g_tab[s].p == p) return &g_tab[s];
    s = (s + 1) & (g_cap - 1);
  }
  return nullptr;
}
static void insert(const Ent& e) {
  if ((g_n + 1) * 2 > g_cap) grow();
  size_t s = slot_of(e.p);
  while (g_tab[s].p) s = (s + 1) & (g_cap - 1);
  g_tab[s] = e;
  g_n++;
}
static void remove(Ent* e) {
  size_t s = (size_t)(e - g_tab);
  g_tab[s].p = nullptr;
  g_n--;
  for (size_t k = (s + 1) & (g_cap - 1); g_tab[k].p; k = (k + 1) & (g_cap - 1)) {
    Ent x = g_tab[k];
    g_tab[k].p = nullptr;
    size_t h = slot_of(x.p);
    while (g_tab[h].p) h = (h + 1) & (g_cap - 1);
    g_tab[h] = x;
  }
}

static void problem(const char* what, size_t size) {
  if (!g_err[0]) snprintf(g_err, sizeof g_err, "%s (block of %zu bytes)", what, size);
}

#if HAS_ASAN
static const size_t kGuard = 0;
#else
static const size_t kGuard = 32;
#endif

static void fill(char* p, size_t n) {
  uint64_t s = pbt::mix(g_seed ^ (g_serial * 0x9e3779b97f4a7c15ULL));
  size_t k = 0;
  for (; k + 8 <= n; k += 8) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    memcpy(p + k, &s, 8);
  }
  for (; k < n; k++) p[k] = (char)(s >> (8 * (k & 7)));
}

static void* obtain(size_t size) {
  g_serial++;
  Ent e;
  e.size = size;
  e.mapped = 0;
  if (size >= g_virtual) {
    size_t m = (size + 4095) & ~(size_t)4095;
    void* r = m < size ? MAP_FAILED
                       : mmap(nullptr, m, g_prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (r == MAP_FAILED) return nullptr;
    e.base = r;
    e.p = (char*)r;
    e.mapped = m;
    insert(e);
    return r;
  }
  g_own++;
  char* b = (char*)malloc(size + 2 * kGuard);
  g_own--;
  if (!b) return nullptr;
  memset(b, 0xA7, kGuard);
  memset(b + kGuard + size, 0xA7, kGuard);
  e.base = b;
  e.p = b + kGuard;
  fill(e.p, size);
  insert(e);
  g_bytes += size;
  return e.p;
}
static void guards(const Ent& e) {
  if (e.mapped) return;
  const unsigned char* b = (const unsigned char*)e.base;
  for (size_t k = 0; k < kGuard; k++) {
    if (b[k] != 0xA7) { problem("bytes before a heap block were overwritten", e.size); return; }
    if (b[kGuard + e.size + k] != 0xA7) { problem("bytes after a heap block were overwritten", e.size); return; }
  }
}
static void release(Ent* e) {
  Ent x = *e;
  remove(e);
  if (x.mapped) {
    munmap(x.base, x.mapped);
    return;
  }
  g_bytes -= x.size;
  guards(x);
#if !HAS_ASAN
  memset(x.p, 0xDD, x.size);
#endif
  g_own++;
  free(x.base);
  g_own--;
}

static void* hook_alloc(size_t size) {
  g_calls++;
  if (g_fail_at >= 0 && g_fail_at-- == 0) { g_failed++; return nullptr; }
  if (g_fail_from >= 0 && g_fail_from-- <= 0) { g_fail_from = 0; g_failed++; return nullptr; }
  if (size > g_limit && size < g_virtual) { g_failed++; return nullptr; }
  void* p = obtain(size);
  if (!p) g_failed++;
  return p;
}
static void hook_free(void* p) {
  if (!p) return;
  Ent* e = find(p);
  if (!e) {
    problem("a pointer that is not a live block was given to the de-allocator", 0);
    return;
  }
  release(e);
}

void install() {
  if (!g_cap) grow();
  aitisa_set_default_cpu_raw_alloc(hook_alloc);
  aitisa_set_default_cpu_raw_dealloc(hook_free);
#if HAS_ASAN
  static bool once = false;
  if (!once) {
    once = true;
    __sanitizer_install_malloc_and_free_hooks(
        [](const volatile void*, size_t) { if (g_scope && !g_own) g_plain++, g_plain_calls++; },
        [](const volatile void* p) { if (p && g_scope && !g_own) g_plain--; });
  }
#endif
}
void uninstall() {
  aitisa_set_default_cpu_raw_alloc(malloc);
  aitisa_set_default_cpu_raw_dealloc(free);
}
void reset_case() {
  for (size_t k = 0; g_n && k < g_cap;) {
    if (g_tab[k].p) release(&g_tab[k]);  // backward shift may refill slot k
    else k++;
  }
  g_calls = g_failed = g_serial = g_seed = 0;
  g_bytes = 0;
  g_fail_at = g_fail_from = -1;
  g_virtual = SIZE_MAX;
  g_limit = (size_t)1 << 28;
  g_err[0] = 0;
  g_plain = g_plain_calls = 0;
  g_scope = g_own = 0;
}
void check() {
  for (size_t k = 0; k < g_cap && g_n; k++)
    if (g_tab[k].p) guards(g_tab[k]);
  if (g_err[0]) throw pbt::Fail{std::string("memory: ") + g_err};
}
void end_case() { check(); }

void* take(size_t bytes) {
  void* p = obtain(bytes);
  if (!p) abort();
  return p;
}
void give(void* p) { hook_free(p); }
uint64_t live() { return g_n; }
uint64_t live_bytes() { return g_bytes; }
uint64_t calls() { return g_calls; }
uint64_t failed() { return g_failed; }
int64_t plain_net() { return g_plain; }
int64_t plain_calls() { return g_plain_calls; }
bool is_live(const void* p) { return find(p) != nullptr; }
int64_t block_size(const void* p) {
  Ent* e = find(p);
  return e ? (int64_t)e->size : -1;
}
void fill_seed(uint64_t s) { g_seed = s; }
void fail_at(int64_t k) { g_fail_at = k; }
void fail_from(int64_t k) { g_fail_from = k; }
void virtual_from(size_t b) { g_virtual = b; g_prot = PROT_NONE; }
void sparse_from(size_t b) { g_virtual = b; g_prot = PROT_READ | PROT_WRITE; }
void limit(size_t b) { g_limit = b; }
void enter() { g_scope++; }
void leave() { g_scope--; }
}  // namespace alloc
