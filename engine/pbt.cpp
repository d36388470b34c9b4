#include "pbt.hpp"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>

#include "alloc.hpp"

static int g_variant = 0;
#define PBT_VARIANT g_variant

namespace pbt {

static bool g_thorough = false;
int current_variant() { return PBT_VARIANT; }
bool thorough_tier() { return g_thorough; }
static const char* variant_name() {
  switch (PBT_VARIANT) {
    case V_ASAN: return "asan";
    case V_DBG: return "dbg";
    case V_REL: return "rel";
    case V_WRAP: return "wrap";
    default: return "tsan";
  }
}

// ------------------------------------------------------------------ coverage
static const int kMaxMods = 256;
static uint8_t* g_cnt_b[kMaxMods];
static uint8_t* g_cnt_e[kMaxMods];
static int g_cnt_mods = 0;
static std::vector<uint8_t> g_seen;  // bucket mask per counter
static uint64_t g_dict[512];
static int g_dict_n = 0;
static uint64_t g_dict_tab[2048];  // open addressing; no allocation: it is called inside the library
static bool g_collect = false;

static void add_const(uint64_t c) {
  if (!g_collect || g_dict_n >= 500) return;
  if (c <= 1) return;
  size_t k = (size_t)(mix(c) & 2047);
  while (g_dict_tab[k] && g_dict_tab[k] != c) k = (k + 1) & 2047;
  if (g_dict_tab[k]) return;
  g_dict_tab[k] = c;
  g_dict[g_dict_n++] = c;
}
}  // namespace pbt

extern "C" {
#define NOSAN __attribute__((no_sanitize("all")))
void __sanitizer_cov_8bit_counters_init(uint8_t* b, uint8_t* e) {
  if (b == e || pbt::g_cnt_mods >= pbt::kMaxMods) return;
  for (int i = 0; i < pbt::g_cnt_mods; i++)
    if (pbt::g_cnt_b[i] == b) return;
  pbt::g_cnt_b[pbt::g_cnt_mods] = b;
  pbt::g_cnt_e[pbt::g_cnt_mods++] = e;
}
void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) {}
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { pbt::add_const(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { pbt::add_const(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) {
  pbt::add_const((uint64_t)(int64_t)(int32_t)a);
}
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { pbt::add_const(a); }
void __sanitizer_cov_trace_switch(uint64_t, uint64_t*) {}
}

namespace pbt {

static bool coverage_new() {
  bool fresh = false;
  size_t off = 0;
  for (int m = 0; m < g_cnt_mods; m++) {
    size_t len = (size_t)(g_cnt_e[m] - g_cnt_b[m]);
    if (g_seen.size() < off + len) g_seen.resize(off + len);
    for (size_t k = 0; k < len; k++) {
      uint8_t c = g_cnt_b[m][k];
      if (!c) continue;
      uint8_t bucket = c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8
                       : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128;
      if (!(g_seen[off + k] & bucket)) {
        g_seen[off + k] |= bucket;
        fresh = true;
      }
      g_cnt_b[m][k] = 0;
    }
    off += len;
  }
  return fresh;
}
static size_t coverage_points() {
  size_t r = 0;
  for (auto b : g_seen) r += b != 0;
  return r;
}
static size_t coverage_total() {
  size_t r = 0;
  for (int m = 0; m < g_cnt_mods; m++) r += (size_t)(g_cnt_e[m] - g_cnt_b[m]);
  return r;
}

// --------------------------------------------------------------------- Case
static std::map<std::string, uint64_t> g_classes;
static bool g_count = false;

uint64_t Case::draw(uint64_t range, int kind) {
  uint64_t v;
  uint32_t k = n;
  if (in_tape && k < in_tape->size()) {
    v = (*in_tape)[k];
    if (range != UINT64_MAX && v > range) v %= (range + 1);
  } else if (in_tape && !exhaust_random) {
    v = 0;
  } else {
    v = range == UINT64_MAX ? rng.next() : rng.below(range + 1);
    if (kind == 1 && range != UINT64_MAX && range > 0) {  // skewed to 0
      int shifts = (int)(rng.next() & 3);
      for (int s = 0; s < shifts; s++) v = std::min(v, rng.below(range + 1));
    }
  }
  if (k < TAPE_MAX) {
    tape[k] = v;
    *tape_n = k + 1;
  }
  n = k + 1;
  return v;
}

int64_t Case::i(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  uint64_t range = (uint64_t)hi - (uint64_t)lo;
  bool replaying = in_tape && (n < in_tape->size() || !exhaust_random);
  if (!replaying && g_dict_n > 0 && range > 3 && rng.below(64) == 0) {
    // A constant the code compares with, or a neighbour of one.
    uint64_t c = g_dict[rng.below((uint64_t)g_dict_n)] + rng.below(3) - 1;
    int64_t sc = (int64_t)c;
    if (sc >= lo && sc <= hi) {
      uint64_t v = (uint64_t)sc - (uint64_t)lo;
      if (n < TAPE_MAX) {
        tape[n] = v;
        *tape_n = n + 1;
      }
      n++;
      return sc;
    }
  }
  return (int64_t)((uint64_t)lo + draw(range, 0));
}
int64_t Case::small(int64_t lo, int64_t hi) {
  if (hi <= lo) return lo;
  return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo, 1));
}
int64_t Case::turn(int64_t m, int64_t all) {
  if (in_tape && (n < in_tape->size() || !exhaust_random)) return (int64_t)draw((uint64_t)all - 1, 0);
  uint64_t v = index % (uint64_t)m;
  if (n < TAPE_MAX) {
    tape[n] = v;
    *tape_n = n + 1;
  }
  n++;
  return (int64_t)v;
}
uint64_t Case::bits() { return draw(UINT64_MAX, 0); }
bool Case::chance(int percent) {
  return draw(99, 0) >= (uint64_t)(100 - percent);
}
size_t Case::weighted(std::initializer_list<int> w) {
  int total = 0;
  for (int x : w) total += x;
  int64_t v = (int64_t)draw((uint64_t)total - 1, 0);
  size_t k = 0;
  for (int x : w) {
    if (v < x) return k;
    v -= x;
    k++;
  }
  return 0;
}
uint64_t Case::bulk_seed() { return draw(UINT32_MAX, 0); }

void Case::note(const char* fmt, ...) {
  if (!desc_on_ || desc.size() > 6000) return;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  desc += buf;
  if (desc_sink) snprintf(desc_sink, 8192, "%s", desc.c_str());
}
void Case::cls(const char* name) {
  if (g_count) g_classes[name]++;
}
void Case::fail(const char* fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Fail{buf};
}

// ------------------------------------------------------------ worker process
struct Slot {  // shared between a worker and the parent
  volatile uint32_t n;
  volatile uint32_t status;  // 0 running, 1 finished, 2 Fail thrown
  volatile uint64_t idx;
  volatile uint64_t done;
  volatile int32_t target;
  char msg[4096];
  char desc[8192];
  uint64_t tape[TAPE_MAX];
};

static uint64_t hash_str(const char* s) {
  uint64_t h = 1469598103934665603ULL;
  for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ULL;
  return h;
}
static uint64_t hash_tape(const uint64_t* t, uint32_t n) {
  uint64_t h = 0x1234567 + n;
  for (uint32_t k = 0; k < n; k++) h = mix(h ^ t[k]);
  return h;
}

static void arm_timer(double cpu_s) {
  struct itimerval tv;
  memset(&tv, 0, sizeof tv);
  tv.it_value.tv_sec = (time_t)cpu_s;
  setitimer(ITIMER_PROF, &tv, nullptr);
}
static double g_case_cpu = 25;

static double now_s() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + ts.tv_nsec * 1e-9;
}

// Runs one case on the slot; throws Fail.
static void run_case(const Target& t, Case& c, Slot* s) {
  s->n = 0;
  c.tape = s->tape;
  c.tape_n = &s->n;
  c.n = 0;
  alloc::reset_case();
  arm_timer(g_case_cpu);
  t.fn(c);
  alloc::end_case();
}

static std::vector<uint64_t> mutate(const std::vector<std::vector<uint64_t>>& corpus,
                                    Rng& r) {
  std::vector<uint64_t> t = corpus[r.below(corpus.size())];
  int ops = 1 + (int)r.below(3);
  for (int o = 0; o < ops; o++) {
    if (t.empty()) break;
    size_t p = r.below(t.size());
    switch (r.below(8)) {
      case 0: t[p] = r.next(); break;
      case 1: t[p] = r.below(8); break;
      case 2: t[p] += 1; break;
      case 3: t[p] -= 1; break;
      case 4: if (g_dict_n) t[p] = g_dict[r.below((uint64_t)g_dict_n)]; break;
      case 5: {
        size_t len = 1 + r.below(4);
        t.erase(t.begin() + (long)p, t.begin() + (long)std::min(t.size(), p + len));
        break;
      }
      case 6: {
        const auto& o2 = corpus[r.below(corpus.size())];
        if (o2.empty()) break;
        size_t q = r.below(o2.size());
        t.resize(p);
        t.insert(t.end(), o2.begin() + (long)q, o2.end());
        break;
      }
      default: t.resize(p); break;  // the rest becomes random
    }
    if (t.size() > TAPE_MAX / 2) t.resize(TAPE_MAX / 2);
  }
  return t;
}

struct Opts {
  uint64_t seed = 1;
  int workers = 4;
  double cap = 120;
  double scale = 1;
  std::string out, replay_dir, only, replay;
};

static std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r;
}

struct WorkerPlan {
  int target, w;
  uint64_t count;  // total over all workers
};

static void worker_main(const std::vector<Target>& ts, int ti, int w, int W,
                        uint64_t count, const Opts& o, Slot* s,
                        const std::string& statfile, double deadline,
                        uint64_t stop_after) {
  const Target& t = ts[(size_t)ti];
  std::vector<std::vector<uint64_t>> corpus;
  std::vector<uint64_t> hashes;
  std::vector<std::string> samples;
  uint64_t evals = 0, nontriv = 0;
  g_count = true;
  g_classes.clear();
  coverage_new();
  std::fill(g_seen.begin(), g_seen.end(), 0);
  uint64_t base = mix(mix(o.seed * 0x9e3779b97f4a7c15ULL + 17) ^ hash_str(kProperty) ^
                      mix(hash_str(t.name)) ^ mix((uint64_t)PBT_VARIANT << 40));
  for (uint64_t idx = (uint64_t)w; idx < count; idx += (uint64_t)W) {
    if (now_s() > deadline) break;
    s->idx = idx;
    s->target = ti;
    Case c;
    c.index = idx;
    c.rng = Rng(mix(base ^ mix(idx)));
    std::vector<uint64_t> src;
    if (corpus.size() >= 4 && c.rng.below(100) < 40) {
      src = mutate(corpus, c.rng);
      c.in_tape = &src;
    }
    uint64_t local = idx / (uint64_t)W;
    c.desc_on_ = local == 5 || local == 37 || local == 101 || (t.variants & V_SLOW);
    g_collect = local < 2000;
    try {
      run_case(t, c, s);
    } catch (const Fail& f) {
      snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
      s->status = 2;
      _exit(77);
    }
    evals++;
    s->done = evals;
    if (c.nontrivial_) {
      nontriv++;
      hashes.push_back(hash_tape(s->tape, std::min(c.n, TAPE_MAX)) ^ hash_str(t.name));
    }
    if (c.desc_on_ && c.nontrivial_ && samples.size() < 3 && !c.desc.empty())
      samples.push_back(c.desc.substr(0, 1500));
    if (g_cnt_mods && coverage_new() && c.n <= 2048 && corpus.size() < 4000)
      corpus.emplace_back(s->tape, s->tape + std::min(c.n, TAPE_MAX));
    if (idx >= stop_after) break;
  }
  arm_timer(0);
  FILE* f = statfile.empty() ? nullptr : fopen(statfile.c_str(), "wb");
  if (f) {
    fprintf(f, "{\"target\":\"%s\",\"evals\":%llu,\"nontrivial\":%llu,\"corpus\":%zu,"
               "\"cov\":%zu,\"cov_total\":%zu,\"classes\":{", t.name,
            (unsigned long long)evals, (unsigned long long)nontriv, corpus.size(),
            coverage_points(), coverage_total());
    bool first = true;
    for (auto& kv : g_classes) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(kv.first).c_str(),
              (unsigned long long)kv.second);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t k = 0; k < samples.size(); k++)
      fprintf(f, "%s\"%s\"", k ? "," : "", json_escape(samples[k]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((statfile + ".h").c_str(), "wb");
    if (f) {
      std::sort(hashes.begin(), hashes.end());
      hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
      fwrite(hashes.data(), 8, hashes.size(), f);
      fclose(f);
    }
  }
  s->status = 1;
  _exit(0);
}

static std::string describe_end(int st) {
  char b[128];
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF)
      snprintf(b, sizeof b, "hang: the case used more than %.0f s of CPU", g_case_cpu);
    else if (WTERMSIG(st) == SIGKILL)
      snprintf(b, sizeof b, "killed (SIGKILL)");
    else
      snprintf(b, sizeof b, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  } else {
    snprintf(b, sizeof b, "aborted with exit code %d (sanitizer report)", WEXITSTATUS(st));
  }
  return b;
}

// Runs a tape in a child. Returns 0 held, 1 failed; fills msg.
static int try_tape(const Target& t, const std::vector<uint64_t>& tape, Slot* s,
                    std::string* msg, std::string* desc, const std::string& errfile,
                    std::vector<uint64_t>* used) {
  s->status = 0;
  s->msg[0] = 0;
  s->desc[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(errfile.empty() ? "/dev/null" : errfile.c_str(),
                  O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) dup2(fd, 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    Case c;
    c.in_tape = &tape;
    c.exhaust_random = false;
    if (desc) {
      c.desc_on_ = true;
      c.desc_sink = s->desc;  // survives a crash
    }
    int code = 0;
    try {
      run_case(t, c, s);
      s->status = 1;
    } catch (const Fail& f) {
      snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
      s->status = 2;
      code = 77;
    }
    _exit(code);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (desc) *desc = s->desc;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->status == 1) return 0;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 0;  // out of memory: no verdict
  if (used) used->assign(s->tape, s->tape + std::min<uint32_t>((uint32_t)s->n, +TAPE_MAX));
  if (msg) *msg = s->status == 2 ? std::string(s->msg) : describe_end(st);
  return 1;
}

static std::vector<uint64_t> shrink(const Target& t, std::vector<uint64_t> best, Slot* s) {
  double end = now_s() + 40;
  int tries = 0;
  auto attempt = [&](std::vector<uint64_t> cand) {
    if (now_s() > end || tries > 3000) return false;
    tries++;
    std::vector<uint64_t> used;
    if (!try_tape(t, cand, s, nullptr, nullptr, "", &used)) return false;
    if (used.size() < cand.size()) cand.resize(used.size());
    if (cand == best) return false;
    best = cand;
    return true;
  };
  {  // trailing zeros are implied
    while (!best.empty() && best.back() == 0) best.pop_back();
  }
  bool progress = true;
  int rounds = 0;
  while (progress && rounds++ < 12 && now_s() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(best.size() / 2, 1); len >= 1; len /= 2) {
      for (size_t p = 0; p + len <= best.size();) {
        auto c = best;
        c.erase(c.begin() + (long)p, c.begin() + (long)(p + len));
        if (attempt(c)) progress = true;
        else {
          c = best;
          bool nz = false;
          for (size_t k = p; k < p + len && k < c.size(); k++) { nz |= c[k] != 0; c[k] = 0; }
          if (nz && attempt(c)) progress = true;
          p += len;
        }
        if (now_s() > end) break;
      }
      if (len == 1) break;
    }
    for (size_t p = 0; p < best.size() && now_s() < end; p++) {
      // minimise one value by bisection
      uint64_t lo = 0, hi = best[p];
      if (hi == 0) continue;
      int guard = 0;
      while (lo < hi && guard++ < 40 && now_s() < end && p < best.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c = best;
        c[p] = mid;
        if (attempt(c)) { progress = true; if (p >= best.size()) break; hi = best[p]; }
        else lo = mid + 1;
      }
    }
    while (!best.empty() && best.back() == 0) best.pop_back();
  }
  return best;
}

static std::string slurp(const std::string& p, size_t max = 6000) {
  std::string r;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return r;
  char b[4096];
  size_t k;
  while (r.size() < max && (k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
  fclose(f);
  return r;
}

static Slot* map_slots(int n) {
  void* p = mmap(nullptr, sizeof(Slot) * (size_t)n, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Slot*)p;
}

static int do_replay(const Opts& o) {
  FILE* f = fopen(o.replay.c_str(), "rb");
  if (!f) { perror("replay"); return 3; }
  char line[1 << 16];
  std::string target;
  std::vector<uint64_t> tape;
  bool have = false;
  while (fgets(line, sizeof line, f)) {
    char b[256];
    if (sscanf(line, "target: %255s", b) == 1) target = b;
    if (!strncmp(line, "tape:", 5)) {
      have = true;
      char* p = line + 5;
      for (;;) {
        char* e;
        uint64_t v = strtoull(p, &e, 10);
        if (e == p) break;
        tape.push_back(v);
        p = e;
      }
    }
  }
  fclose(f);
  if (!have) { fprintf(stderr, "no tape in the replay file\n"); return 3; }
  auto ts = targets();
  for (auto& t : ts) {
    if (target != t.name) continue;
    Slot* s = map_slots(1);
    std::string msg, desc, err = o.out + ".err";
    int r = 0;
    for (int k = t.variants & V_RACY ? 60 : 1; k > 0 && !r; k--) r = try_tape(t, tape, s, &msg, &desc, err, nullptr);
    printf("%s\n%s\n%s\n", desc.c_str(), msg.c_str(), r ? slurp(err).c_str() : "");
    printf(r ? "REPLAY: fails\n" : "REPLAY: holds\n");
    return r;
  }
  fprintf(stderr, "no target %s\n", target.c_str());
  return 3;
}

static int run_all(const Opts& o) {
  auto ts = targets();
  double t0 = now_s();
  double deadline = t0 + o.cap;
  int W = o.workers;
  Slot* slots = map_slots(W + 1);
  std::string stats;
  for (size_t ti = 0; ti < ts.size(); ti++) {
    const Target& t = ts[ti];
    if (!(t.variants & PBT_VARIANT)) continue;
    if (!o.only.empty() && o.only != t.name) continue;
    uint64_t count = (uint64_t)((double)(g_thorough ? t.thorough : t.quick) * o.scale);
    if (count < 1) count = 1;
    std::vector<pid_t> pids((size_t)W);
    double tt = now_s();
    for (int w = 0; w < W; w++) {
      Slot* s = slots + w;
      s->status = 0;
      s->n = 0;
      s->idx = 0;
      s->done = 0;
      s->msg[0] = 0;
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        if (fd >= 0 && !getenv("PBT_STDERR")) dup2(fd, 2);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        char sf[600];
        snprintf(sf, sizeof sf, "%s.%zu.%d", o.out.c_str(), ti, w);
        worker_main(ts, (int)ti, w, W, count, o, s, sf, deadline, UINT64_MAX);
      }
      pids[(size_t)w] = pid;
    }
    int live = W, failed = -1, fst = 0;
    while (live > 0) {
      int st;
      pid_t p = waitpid(-1, &st, 0);
      if (p < 0) { if (errno == EINTR) continue; break; }
      int w = -1;
      for (int k = 0; k < W; k++) if (pids[(size_t)k] == p) w = k;
      if (w < 0) continue;
      pids[(size_t)w] = 0;
      live--;
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && slots[w].status == 1;
      if (ok) continue;
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
        fprintf(stderr, "worker %d of %s was killed from outside\n", w, t.name);
        return 3;
      }
      if (failed < 0) {
        failed = w;
        fst = st;
        for (int k = 0; k < W; k++) if (pids[(size_t)k]) kill(pids[(size_t)k], SIGTERM);
        // keep collecting; only the first failure is used
        while (live > 0) {
          pid_t q = waitpid(-1, &st, 0);
          if (q < 0 && errno != EINTR) break;
          if (q > 0) live--;
        }
      }
    }
    if (failed >= 0) {
      Slot* s = slots + failed;
      std::vector<uint64_t> tape(s->tape, s->tape + std::min<uint32_t>((uint32_t)s->n, +TAPE_MAX));
      std::string msg = s->status == 2 ? std::string(s->msg) : describe_end(fst);
      uint64_t idx = s->idx;
      bool hang = WIFSIGNALED(fst) && WTERMSIG(fst) == SIGPROF;
      std::string m2, desc, err = o.out + ".err";
      Slot* rs = slots + W;
      int again = 0;
      std::string kind = "tape";
      if (t.variants & V_SLOW) {  // a second time, that is all
        again = hang || try_tape(t, tape, rs, &m2, &desc, err, nullptr) ? 3 : 0;
        if (hang) m2 = msg;
      } else
      for (int r = 0; r < 3; r++) again += try_tape(t, tape, rs, &m2, nullptr, "", nullptr);
      if (again < 3 && (t.variants & V_RACY))
        for (int r = 0; r < 40 && again < 2; r++) again += try_tape(t, tape, rs, &m2, nullptr, "", nullptr);
      if (again < 3 && again > 0 && (t.variants & V_RACY)) {
        m2 = msg;  // seen at least twice
        for (int r = 0; r < 40; r++) if (try_tape(t, tape, rs, nullptr, &desc, err, nullptr)) break;
      } else if (again == 3 && (t.variants & V_SLOW)) {
      } else if (again == 3) {
        if (!hang) tape = shrink(t, tape, rs);
        for (int r = 0; r < 2; r++) try_tape(t, tape, rs, &m2, nullptr, "", nullptr);
        try_tape(t, tape, rs, &m2, &desc, err, nullptr);
      } else {
        // Not a function of the case alone: replay the whole history of the worker.
        kind = "history";
        int hist = 0;
        for (int r = 0; r < 3; r++) {
          rs->status = 0;
          fflush(stdout);
          pid_t p = fork();
          if (p == 0) {
            int fd = open("/dev/null", O_WRONLY);
            if (fd >= 0) dup2(fd, 2);
            worker_main(ts, (int)ti, failed, W, count, o, rs, "", now_s() + 300, idx);
          }
          int st;
          waitpid(p, &st, 0);
          bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && rs->status == 1;
          if (!ok && !(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) hist++;
        }
        m2 = msg;
        if (hist < 3) {
          fprintf(stderr, "%s/%s/%s: a failure did not reproduce (%d/3 by tape, %d/3 by history): %s\n",
                  kProperty, t.name, variant_name(), again, hist, msg.c_str());
          FILE* f = fopen((o.out + ".flaky").c_str(), "a");
          if (f) { fprintf(f, "%s: %s\n", t.name, msg.c_str()); fclose(f); }
          continue;
        }
      }
      char name[256];
      snprintf(name, sizeof name, "%s-%s-%s.replay", kProperty, t.name, variant_name());
      std::string path = o.replay_dir + "/" + name;
      FILE* f = fopen(path.c_str(), "wb");
      if (f) {
        fprintf(f, "property: %s\ntarget: %s\nvariant: %s\nkind: %s\nseed: %llu\ncase: %llu\n"
                   "worker: %d of %d\ntape:", kProperty, t.name, variant_name(), kind.c_str(),
                (unsigned long long)o.seed, (unsigned long long)idx, failed, W);
        for (auto v : tape) fprintf(f, " %llu", (unsigned long long)v);
        fprintf(f, "\nfailure: %s\ncase written out:\n%s\n", m2.c_str(), desc.c_str());
        std::string e = slurp(err);
        if (!e.empty()) fprintf(f, "stderr:\n%s\n", e.c_str());
        fclose(f);
      }
      f = fopen((o.out + ".fail").c_str(), "wb");
      if (f) {
        fprintf(f, "%s\n%s: %s\n", path.c_str(), t.name, m2.c_str());
        fclose(f);
      }
      printf("FAIL %s/%s/%s case %llu: %s\n", kProperty, t.name, variant_name(),
             (unsigned long long)idx, m2.c_str());
      return 1;
    }
    if (getenv("PBT_VERBOSE")) {
      uint64_t done = 0;
      for (int w = 0; w < W; w++) done += slots[w].done;
      printf("%s %-28s %8llu/%llu cases %6.2f s\n", variant_name(), t.name,
             (unsigned long long)done, (unsigned long long)count, now_s() - tt);
      fflush(stdout);
    }
  }
  return 0;
}

}  // namespace pbt

int main(int argc, char** argv) {
  using namespace pbt;
  if (!getenv("PBT_NOASLR_DONE")) {
    setenv("PBT_NOASLR_DONE", "1", 1);
    int old = personality(0xffffffff);
    if (old != -1 && personality((unsigned long)old | ADDR_NO_RANDOMIZE) != -1)
      execv("/proc/self/exe", argv);
  }
  Opts o;
  for (int k = 1; k < argc; k++) {
    std::string a = argv[k];
    auto val = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--cap") o.cap = atof(val().c_str());
    else if (a == "--scale") o.scale = atof(val().c_str());
    else if (a == "--out") o.out = val();
    else if (a == "--replay-dir") o.replay_dir = val();
    else if (a == "--target") o.only = val();
    else if (a == "--tier") g_thorough = val() == "thorough";
    else if (a == "--replay") o.replay = val();
    else if (a == "--variant") {
      std::string v = val();
      g_variant = v == "asan" ? V_ASAN : v == "dbg" ? V_DBG : v == "rel" ? V_REL : v == "wrap" ? V_WRAP : V_TSAN;
    }
    else if (a == "--rule") { printf("%s\n", kRule); return 0; }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  if (PBT_VARIANT == V_TSAN) g_case_cpu = 100;
  if (PBT_VARIANT == V_WRAP) g_case_cpu = 400;
  alloc::install();
  if (!o.replay.empty()) return do_replay(o);
  return run_all(o);
}
