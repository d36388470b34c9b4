// C40: selection by data type, logging and checking, on which every operation rests
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "model.hpp"
extern "C" {
#include "src/core/dispatch.h"
#include "src/core/log.h"
#include "src/core/status.h"
}
namespace pbt {
const char* const kProperty = "C40";
const char* const kRule =
    "a selection by one of the four macros for a known or unknown type code (any size field), with 0 to 2 arguments, or "
    "up to 8 selections and status checks one after another; messages of 0 to 300 characters, format directives included, at the three levels, and checks of true "
    "and false conditions, in a process of their own; non-trivial: the code is not the first of the enumeration, or the "
    "message is not empty, or the condition is false, or a status other than the first ends the sequence";
}
template <class T>
static int kind() {
  return (int)sizeof(T) * 4 + (std::is_signed<T>::value ? 2 : 0) + (std::is_floating_point<T>::value ? 1 : 0);
}
static const int kKind[10] = {kind<int8_t>(), kind<uint8_t>(), kind<int16_t>(), kind<uint16_t>(), kind<int32_t>(),
                              kind<uint32_t>(), kind<int64_t>(), kind<uint64_t>(), kind<float>(), kind<double>()};
struct Seen {
  int runs = 0, kind = 0, evals = 0;
  int64_t a = -1, b = -1;
};
static DataType once(Seen& s, DataType d) {
  s.evals++;
  return d;
}
#define K0(typename_t) { s.runs++; s.kind = kind<typename_t>(); }
#define K1(typename_t, x) { s.runs++; s.kind = kind<typename_t>(); s.a = (x); }
#define K2(typename_t, x, y) { s.runs++; s.kind = kind<typename_t>(); s.a = (x); s.b = (y); }
#define FORM(NAME, MACRO)                                                       \
  static Status NAME(Seen& s, DataType d, int args, int64_t p, int64_t q) {     \
    if (args == 0) {                                                            \
      MACRO(once(s, d), K0);                                                    \
    } else if (args == 1) {                                                     \
      MACRO(once(s, d), K1, p);                                                 \
    } else {                                                                    \
      MACRO(once(s, d), K2, p, q);                                              \
    }                                                                           \
    return STATUS_SUCCESS;                                                      \
  }
FORM(all_return, AITISA_DISPATCH_ALL_TYPES_RETURN)
FORM(all_abort, AITISA_DISPATCH_ALL_TYPES_ABORT)
FORM(floating_return, AITISA_DISPATCH_FLOATING_TYPES_RETURN)
FORM(floating_abort, AITISA_DISPATCH_FLOATING_TYPES_ABORT)
typedef Status (*Form)(Seen&, DataType, int, int64_t, int64_t);
static const Form kForm[4] = {all_return, floating_return, all_abort, floating_abort};
static const char* const kFormName[4] = {"all types, returning", "floating types, returning", "all types, aborting", "floating types, aborting"};

// What a piece of code run in a process of its own did.
struct Ran {
  int status = 0;
  std::string out, err;
  int reached = 0;
};
static std::string slurp(int fd) {
  std::string r;
  char b[4096];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) r.append(b, (size_t)n);
  close(fd);
  return r;
}
template <class F>
static Ran apart(Case& c, F f) {
  Ran r;
  static int* shared = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *shared = 0;
  int o = memfd_create("out", 0), e = memfd_create("err", 0);
  if (o < 0 || e < 0) abort();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    signal(SIGABRT, SIG_DFL);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(20);
    dup2(o, 1);
    dup2(e, 2);
    f(shared);
    fflush(stdout);
    _exit(7);
  }
  while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
  r.out = slurp(o);
  r.err = slurp(e);
  r.reached = *shared;
  return r;
}
static void want_abort(Case& c, const char* what, const Ran& r) {
  if (WIFEXITED(r.status)) c.fail("%s did not end the process", what);
  if (!WIFSIGNALED(r.status) || WTERMSIG(r.status) != SIGABRT) c.fail("%s ended the process with signal %d, expected an abort", what, WTERMSIG(r.status));
  if (r.out.size()) c.fail("%s wrote to the standard output", what);
}
static void want_continue(Case& c, const char* what, const Ran& r) {
  if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) != 7) c.fail("%s ended the process", what);
}
static bool contains(const std::string& s, const std::string& t) { return s.find(t) != std::string::npos; }

static DataType gen_code(Case& c, bool known) {
  DataType d;
  d.code = (decltype(d.code))(known ? c.i(0, 9) : c.pick<int64_t>({10, 11, -1, 17, 256, 265, INT32_MAX, INT32_MIN, (int64_t)c.i(10, 100000)}));
  d.size = (decltype(d.size))(known && !c.chance(20) ? kDtSize[(int)d.code] : c.i(0, 255));
  return d;
}
static void select(Case& c) {
  int steps = (int)c.small(1, 8);
  for (int k = 0; k < steps; k++) {
    DataType d = gen_code(c, !c.chance(15));
    int form = (int)c.i(0, 3), args = (int)c.i(0, 2), code = (int)d.code;
    int64_t p = c.i(0, 1000), q = (int64_t)c.bits();
    bool known = code >= 0 && code < 10, ok = known && (!(form & 1) || code >= 8);
    if (!ok && form >= 2) form -= 2;  // the aborting forms have a target of their own
    c.note("%s for code %d with %d; ", kFormName[form], code, args);
    c.cls(std::string(kFormName[form]) + (ok ? "" : " refused"));
    if (code) c.nontrivial();
    Seen s;
    Status st = kForm[form](s, d, args, p, q);
    if (s.evals != 1) c.fail("the type was evaluated %d times", s.evals);
    if (!ok) {
      want_status(c, "a selection for a type that is none of them", st, STATUS_NOT_SUPPORTED);
      if (s.runs) c.fail("code for a type was run for code %d", code);
      continue;
    }
    want_status(c, "a selection", st, STATUS_SUCCESS);
    if (s.runs != 1) c.fail("the code was run %d times", s.runs);
    if (s.kind != kKind[code]) c.fail("the code was run for another type than %s", kDtName[code]);
    if (args >= 1 && s.a != p) c.fail("the first argument did not arrive");
    if (args >= 2 && s.b != q) c.fail("the second argument did not arrive");
  }
}
static Status checked(const std::vector<Status>& v, size_t& n, bool guarded, bool on) {
  for (size_t k = 0; k < v.size(); k++) {
    if (guarded) {
      if (on)
        CHECK_STATUS(v[n++]);
      else
        n += 1000;
    } else {
      CHECK_STATUS(v[n++]);
    }
  }
  return STATUS_SUCCESS;
}
static void statuses(Case& c) {
  std::vector<Status> v;
  int64_t n = c.small(0, 8);
  size_t stop = (size_t)n;
  for (int64_t k = 0; k < n; k++) {
    v.push_back(c.chance(85) ? STATUS_SUCCESS : (Status)c.i(0, STATUS_MATH_ERROR));
    if (v.back() != STATUS_SUCCESS && stop == (size_t)n) stop = (size_t)k;
    c.note("%d ", (int)v.back());
  }
  size_t seen = 0;
  Status st = checked(v, seen, c.chance(50), true);
  bool all = stop == (size_t)n;
  want_status(c, "a sequence of checked calls", st, all ? STATUS_SUCCESS : v[stop]);
  if (seen != stop + !all) c.fail("%d of the checked calls were made, expected %d", (int)seen, (int)stop + !all);
  if (!all && stop) c.nontrivial();
}
static void aborting(Case& c) {
  int form = (int)c.i(2, 3);
  DataType d = gen_code(c, form == 3 && c.chance(50));
  if (form == 3 && d.code >= 8 && d.code < 10) d.code = (decltype(d.code))(d.code - 8);
  int args = (int)c.i(0, 2);
  c.note("%s for code %d with %d", kFormName[form], (int)d.code, args);
  if (d.code) c.nontrivial();
  Ran r = apart(c, [&](int* reached) {
    Seen s;
    kForm[form](s, d, args, 1, 2);
    *reached = 1;
  });
  want_abort(c, "an aborting selection for a type that is none of them", r);
  if (r.reached) c.fail("the code after an aborting selection was run");
  if (r.err.empty()) c.fail("an aborting selection ended the process without a message");
}
static void logs(Case& c) {
  std::string m;
  int64_t n = c.chance(5) ? c.i(60, 300) : c.small(0, 40);
  for (int64_t k = 0; k < n; k++) {
    if (c.chance(15)) m += c.pick<const char*>({"%s", "%d", "%%", "%n", "\n", "%5$s", "\\"});
    else m += (char)c.i(32, 126);
  }
  int level = (int)c.i(0, 2), times = (int)c.i(1, 2);
  const char* name[] = {"INFO", "WARNING", "ERROR"};
  c.note("%s x %d: %s", name[level], times, m.c_str());
  c.cls(name[level]);
  if (m.size()) c.nontrivial();
  Ran r = apart(c, [&](int* reached) {
    for (int k = 0; k < times; k++) {
      if (level == 0) {
        AITISA_LOG(INFO, m.c_str());
      } else if (level == 1) {
        AITISA_LOG(WARNING, m.c_str());
      } else {
        AITISA_LOG(ERROR, m.c_str());
      }
      ++*reached;
    }
  });
  const std::string& got = level == 2 ? r.err : r.out;
  if (level == 2) {
    want_abort(c, "an error message", r);
    if (r.reached) c.fail("the code after an error message was run");
  } else {
    want_continue(c, "a message that is no error", r);
    if (r.reached != times) c.fail("the code after a message was run %d times, expected %d", r.reached, times);
    if (r.err.size()) c.fail("a message that is no error went to the standard error output");
  }
  if (!contains(got, m)) c.fail("the message is not in the output: %s", got.c_str());
  if (!contains(got, name[level])) c.fail("the level is not in the output: %s", got.c_str());
  if (!contains(got, "C40.cpp")) c.fail("the file is not in the output: %s", got.c_str());
}
static void conditions(Case& c) {
  int64_t a = c.i(0, 9), b = c.i(2, 5), k = c.i(0, 4);
  bool ok = a % b == k;
  c.note("%d %% %d == %d", (int)a, (int)b, (int)k);
  c.cls(ok ? "true" : "false");
  if (!ok) c.nontrivial();
  Ran r = apart(c, [&](int* reached) {
    int64_t x = a;
    AITISA_CHECK(x++ % b == k);
    *reached = (int)(x - a);
  });
  if (ok) {
    want_continue(c, "a check of a true condition", r);
    if (r.reached != 1) c.fail("the condition was evaluated %d times", r.reached);
    if (r.out.size() || r.err.size()) c.fail("a check of a true condition wrote a message");
  } else {
    want_abort(c, "a check of a false condition", r);
    if (!contains(r.err, "x++ % b == k")) c.fail("the condition is not in the message: %s", r.err.c_str());
    if (!contains(r.err, "C40.cpp")) c.fail("the file is not in the message: %s", r.err.c_str());
  }
}
std::vector<pbt::Target> pbt::targets() {
  return {{"select", select, 40000, 1000000, V_ALL},
          {"statuses", statuses, 20000, 500000, V_ALL},
          {"aborting", aborting, 1500, 20000, V_ALL},
          {"logs", logs, 1500, 20000, V_ALL},
          {"conditions", conditions, 1000, 10000, V_ALL}};
}
