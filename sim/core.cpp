#include "core.hpp"
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" const char *__asan_default_options() {
  return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:detect_odr_violation=0:symbolize=0:"
         "max_malloc_fill_size=0:malloc_context_size=5:quarantine_size_mb=1:thread_local_quarantine_size_kb=64";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:symbolize=0:exitcode=98"; }

namespace sim {
u64 g_budget_scale = 0;

// ------------------------------------------------------------ shared page
enum { MAXCH = 1 << 16, MAXHASH = 1 << 20, NPROBE = 320, EDGES = 1 << 16 };
struct Named {
  char name[56];
  u64 count;
};
struct Shm {
  u64 seed;
  u32 nchoices;
  u32 overflow;
  u64 choices[MAXCH];
  char kind[64];
  char msg[4096];
  u64 hash, events, api_calls, total_events, total_api, runs, nontrivial_runs, steps, total_steps;
  u64 this_nontrivial;
  double simtime;
  u32 nnamed;
  Named named[NPROBE];
  unsigned char edges[EDGES];
  u32 nhash;
  u64 hashes[MAXHASH];
};
static Shm *S = nullptr;

// ----------------------------------------------------------------- choices
static u64 splitmix(u64 &x) {
  u64 z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static bool g_replay = false;
static std::vector<u64> g_script;
static size_t g_pos = 0;
static u64 g_prng = 1;

u64 pick(u64 n) {
  if (n <= 1)
    return 0;
  u64 v;
  if (g_replay)
    v = g_pos < g_script.size() ? g_script[g_pos] % n : 0;
  else
    v = splitmix(g_prng) % n;
  ++g_pos;
  if (S->nchoices < MAXCH)
    S->choices[S->nchoices++] = v;
  else
    S->overflow = 1;
  return v;
}
bool chance(unsigned num, unsigned den) { return pick(den) >= den - num; }
long range(long lo, long hi) { return lo + (long)pick((u64)(hi - lo + 1)); }
int weighted(std::initializer_list<unsigned> w) {
  unsigned t = 0;
  for (auto x : w)
    t += x;
  unsigned v = (unsigned)pick(t);
  int i = 0;
  for (auto x : w) {
    if (v < x)
      return i;
    v -= x;
    ++i;
  }
  return 0;
}
Sub::Sub(u64 seed) : s(seed * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull), q(seed == 0) {
  if (!q)
    for (int i = 0; i < 3; i++)
      splitmix(s);
}
u64 Sub::next() { return splitmix(s); }
Sub sub() { return Sub(pick(1u << 20)); }

// ------------------------------------------------------------ trace & hash
static FILE *g_trace = nullptr;
static void hash_bytes(const char *p, size_t n) {
  u64 h = S->hash;
  for (size_t i = 0; i < n; i++) {
    h ^= (unsigned char)p[i];
    h *= 0x100000001B3ull;
  }
  h ^= h >> 29;
  S->hash = h;
}
bool tracing() { return g_trace != nullptr; }
void ev(const char *f, ...) {
  char b[2048];
  int e = errno;
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1)
    n = sizeof b - 1;
  hash_bytes(b, (size_t)n);
  ++S->events;
  if (g_trace) {
    fprintf(g_trace, "%s\n", b);
    fflush(g_trace);
  }
  errno = e;
}
void note(const char *f, ...) {
  if (!g_trace)
    return;
  int e = errno;
  va_list ap;
  va_start(ap, f);
  fprintf(g_trace, "  # ");
  vfprintf(g_trace, f, ap);
  fprintf(g_trace, "\n");
  va_end(ap);
  fflush(g_trace);
  errno = e;
}
void block(const char *title, const std::string &text) {
  hash_bytes(text.data(), text.size());
  if (!g_trace)
    return;
  fprintf(g_trace, "  # ---- %s (%zu bytes)\n", title, text.size());
  size_t i = 0;
  int lines = 0;
  while (i < text.size() && lines < 400) {
    size_t j = text.find('\n', i);
    if (j == std::string::npos)
      j = text.size();
    std::string l = text.substr(i, j - i);
    for (auto &c : l)
      if ((unsigned char)c < 32 || (unsigned char)c > 126)
        c = '?';
    fprintf(g_trace, "  |%s\n", l.c_str());
    i = j + 1;
    ++lines;
  }
  fprintf(g_trace, "  # ----\n");
  fflush(g_trace);
}
[[noreturn]] static void leave(int code) { _exit(code); }
void fail(const char *kind, const char *f, ...) {
  snprintf(S->kind, sizeof S->kind, "%s", kind);
  va_list ap;
  va_start(ap, f);
  vsnprintf(S->msg, sizeof S->msg, f, ap);
  va_end(ap);
  if (g_trace) {
    fprintf(g_trace, "VIOLATED [%s] %s\n", S->kind, S->msg);
    fflush(g_trace);
  }
  leave(77);
}
void harness_error(const char *f, ...) {
  snprintf(S->kind, sizeof S->kind, "harness");
  va_list ap;
  va_start(ap, f);
  vsnprintf(S->msg, sizeof S->msg, f, ap);
  va_end(ap);
  if (g_trace)
    fprintf(g_trace, "HARNESS ERROR %s\n", S->msg), fflush(g_trace);
  leave(79);
}
static void bump(const char *pre, const char *name, u64 n) {
  static const char *seen[64];
  static u32 idx[64];
  static int ns = 0;
  for (int k = 0; k < ns; k++)
    if (seen[k] == name && S->named[idx[k]].name[0] == pre[0]) {
      S->named[idx[k]].count += n;
      return;
    }
  char b[56];
  snprintf(b, sizeof b, "%s%s", pre, name);
  for (u32 i = 0; i < S->nnamed; i++)
    if (!strcmp(S->named[i].name, b)) {
      if (ns < 64) {
        seen[ns] = name;
        idx[ns++] = i;
      }
      S->named[i].count += n;
      return;
    }
  if (S->nnamed < NPROBE) {
    snprintf(S->named[S->nnamed].name, sizeof b, "%s", b);
    S->named[S->nnamed].count = n;
    ++S->nnamed;
  }
}
void fault(const char *kind, u64 n) {
  int e = errno;
  bump("f:", kind, n);
  errno = e;
}
void probe(const char *name, u64 n) {
  int e = errno;
  bump("p:", name, n);
  errno = e;
}
void nontrivial() { S->this_nontrivial = 1; }
void simtime(double s) {
  if (s > 0)
    S->simtime += s;
}
std::string fmt(const char *f, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

// ------------------------------------------------------------------- disk
struct OpenFile {
  std::string path;
  File *f;
  long pos{0};
  bool dead{false};
};
static std::map<std::string, std::unique_ptr<File>> g_files;
static std::vector<std::unique_ptr<File>> g_orphans; // removed while open
static std::map<int, OpenFile> g_open;
static std::map<FILE *, int> g_fps;
static const char *PREFIX = "/sim/";

File &disk(const std::string &path, const std::string &data) {
  auto &p = g_files[path];
  if (!p)
    p.reset(new File);
  if (!data.empty())
    p->data = data;
  return *p;
}
void disk_remove(const std::string &path) {
  auto it = g_files.find(path);
  if (it == g_files.end())
    return;
  for (auto &o : g_open)
    if (o.second.f == it->second.get()) { // as an unlinked file lives on
      g_orphans.push_back(std::move(it->second));
      break;
    }
  g_files.erase(it);
}
int open_files() { return (int)g_open.size(); }
void benign_io(File &f) {
  f.plan.chunk_mode = weighted({2, 3, 3, 2, 2});
  f.plan.io = sub();
  f.plan.eintr = (unsigned)one_of<int>({0, 0, 8, 64});
}
static OpenFile *of(int fd) {
  if (g_open.empty())
    return nullptr;
  auto it = g_open.find(fd);
  return it == g_open.end() ? nullptr : &it->second;
}
static long sim_read(OpenFile &o, void *buf, size_t n) {
  File &f = *o.f;
  Plan &p = f.plan;
  ++f.reads;
  if (!p.io.quiet() && p.eintr && p.io.below(256) < p.eintr) {
    ++f.eintrs;
    fault("EINTR");
    errno = EINTR;
    return -1;
  }
  long lim = (long)f.data.size();
  if (p.eio_at >= 0 && p.eio_count != 0) {
    if (o.pos >= p.eio_at) {
      ++f.eio_hits;
      if (p.eio_count > 0)
        --p.eio_count;
      fault(p.eio_count < 0 ? "EIO_persistent" : "EIO_transient");
      note("disk: read at %ld fails, errno %d", o.pos, p.err);
      errno = p.err;
      return -1;
    }
    lim = std::min(lim, p.eio_at);
  }
  long avail = lim - o.pos;
  if (avail <= 0)
    return 0;
  long want = std::min<long>((long)n, avail);
  if (!p.io.quiet() && want > 1) {
    long c = want;
    switch (p.chunk_mode) {
    case 1: c = 1 + (long)p.io.below(7); break;
    case 2: c = p.io.chance(1, 2) ? want : 1 + (long)p.io.below(200); break;
    case 3: c = 60 + (long)p.io.below(25); break;
    case 4: c = 1L << p.io.below(12); break;
    default: break;
    }
    if (f.reads > 1500 && c < 700) // bound the cost of tiny reads of large files
      c = 300 + (long)p.io.below(600);
    if (c < want) {
      want = c;
      fault("short_read");
    }
  }
  memcpy(buf, f.data.data() + o.pos, (size_t)want);
  o.pos += want;
  return want;
}
static long sim_seek(OpenFile &o, long off, int whence) {
  Plan &p = o.f->plan;
  ++o.f->seeks;
  if (p.seek_fail) {
    if (p.seek_fail > 0)
      --p.seek_fail;
    ++o.f->seek_fails;
    fault("lseek_failure");
    note("disk: lseek fails");
    errno = EIO;
    return -1;
  }
  long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o.pos : (long)o.f->data.size();
  long np = base + off;
  if (np < 0) {
    errno = EINVAL;
    return -1;
  }
  o.pos = np;
  return np;
}
static int sim_open(const char *path) {
  auto it = g_files.find(path);
  if (it == g_files.end() || it->second->plan.open_fail) {
    fault("open_failure");
    errno = it == g_files.end() ? ENOENT : it->second->plan.err;
    return -1;
  }
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY | O_CLOEXEC, 0);
  if (fd >= 0)
    g_open[fd] = OpenFile{path, it->second.get(), 0, false};
  return fd;
}
static bool is_sim(const char *p) { return p && !strncmp(p, PREFIX, 5); }
template <class F> static F next(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

// -------------------------------------------------- preemption & stepping
static volatile int g_in_api = 0;
static u64 g_budget = ~0ull;
static u64 g_step = 0;
static const char *g_opname = "";
static u32 g_prev_edge = 0;

struct Task {
  std::function<void()> fn;
  sem_t sem;
  pthread_t th;
  bool done{false};
  int in_api{0};
  const char *opname{""};
  u64 budget{0};
};
static int g_hold = 0; // > 0: inside a one-time initialisation, do not preempt
static std::vector<std::unique_ptr<Task>> g_tasks;
static int g_cur = -1;
static bool g_sched = false;
static long g_countdown = 0;
static long g_switch_left = 0;
static u64 g_switches = 0;
static Sub g_sched_rng;
static int g_sched_mode = 0;
static sem_t g_main_sem;

static long g_phase = 0;
static bool g_fine = false;
static long quantum() {
  switch (g_sched_mode) {
  case 1: return 1 + (long)g_sched_rng.below(12);
  case 2: return 1 + (long)g_sched_rng.below(200);
  case 3: return 1 + (long)g_sched_rng.below(4000);
  case 4: // bursts of fine interleaving anywhere in the sessions
    if (--g_phase <= 0) {
      g_fine = !g_fine;
      g_phase = g_fine ? 1 + (long)g_sched_rng.below(400) : 1 + (long)g_sched_rng.below(20);
    }
    return 1 + (long)g_sched_rng.below(g_fine ? 10 : 6000);
  default: return 1 + (long)(1ull << g_sched_rng.below(14));
  }
}
static void switch_from(int self, bool finished) {
  std::vector<int> alive;
  for (size_t i = 0; i < g_tasks.size(); i++)
    if (!g_tasks[i]->done && (int)i != self)
      alive.push_back((int)i);
  if (alive.empty()) {
    if (finished)
      sem_post(&g_main_sem);
    return;
  }
  int nx = alive[g_sched_rng.below(alive.size())];
  if (!finished) {
    g_tasks[self]->in_api = g_in_api;
    g_tasks[self]->opname = g_opname;
    g_tasks[self]->budget = g_budget - std::min(g_budget, g_step);
  }
  g_cur = nx;
  g_in_api = g_tasks[nx]->in_api;
  g_opname = g_tasks[nx]->opname;
  g_budget = g_step + g_tasks[nx]->budget;
  g_countdown = quantum();
  ++g_switches;
  fault("task_switch");
  sem_post(&g_tasks[nx]->sem);
  if (!finished)
    while (sem_wait(&g_tasks[self]->sem))
      ;
}
static void hung() {
  snprintf(S->kind, sizeof S->kind, "no-termination");
  snprintf(S->msg, sizeof S->msg, "call '%s' did not finish within its step budget (%llu basic blocks)", g_opname,
           (unsigned long long)g_budget);
  if (g_trace) {
    fprintf(g_trace, "VIOLATED [%s] %s\n", S->kind, S->msg);
    fflush(g_trace);
  }
  leave(77);
}

void op_begin(const char *name, u64 budget);
static void *task_main(void *arg) {
  Task *t = static_cast<Task *>(arg);
  while (sem_wait(&t->sem))
    ;
  t->fn();
  t->done = true;
  g_in_api = 0;
  t->in_api = 0;
  for (size_t i = 0; i < g_tasks.size(); i++)
    if (g_tasks[i].get() == t)
      switch_from((int)i, true);
  return nullptr;
}
void run_tasks(std::vector<std::function<void()>> fns) {
  g_tasks.clear();
  sem_init(&g_main_sem, 0, 0);
  g_sched_mode = 1 + (int)pick(5);
  g_phase = 0;
  g_fine = true;
  g_switch_left = 1 + (long)pick(4000);
  g_sched_rng = Sub(1 + pick(1u << 20));
  g_countdown = quantum();
  for (auto &f : fns) {
    auto t = std::make_unique<Task>();
    t->fn = std::move(f);
    sem_init(&t->sem, 0, 0);
    g_tasks.push_back(std::move(t));
  }
  for (auto &t : g_tasks)
    if (pthread_create(&t->th, nullptr, task_main, t.get()))
      harness_error("pthread_create failed");
  g_cur = 0;
  g_switches = 0;
  g_sched = true;
  sem_post(&g_tasks[0]->sem);
  while (sem_wait(&g_main_sem))
    ;
  g_sched = false;
  for (auto &t : g_tasks)
    pthread_join(t->th, nullptr);
  g_tasks.clear();
}
u64 task_switches() { return g_switches; }

// --------------------------------------------------- ambient process state
static Sub g_amb;
static bool g_amb_on = false;
static unsigned char g_heap_fill = 0;
static bool g_heap_filling = false;
static long g_live = 0;
void ambient_conditions() {
  g_amb = sub();
  g_amb_on = !g_amb.quiet();
  if (g_amb_on) {
    static const unsigned char pats[] = {0x00, 0xFF, 0x20, 0x31, 0xA5, 0x50, 0x7F};
    g_heap_fill = pats[g_amb.below(sizeof pats)];
    g_heap_filling = true;
  }
}
void ambient_off() {
  g_amb_on = false;
  g_heap_filling = false;
}
static const char *const STALE[] = {
    "                                                            END OF HEADER       ",
    "     3.04           OBSERVATION DATA    M: Mixed            RINEX VERSION / TYPE",
    "> 2020  1  2  3  4  5.0000000  0  9      ",
    "PG01  12345.123456  -2345.123456   3456.123456    123.123456 12 13 14 15 EP  MP",
    "                                                            START OF ANTENNA    "
    "                                                            END OF ANTENNA      "
    "BLOCK IIA           G01                 G032      1992-079A TYPE / SERIAL NO    ",
    "1234567890123456789012345678901234567890",
};
__attribute__((noinline, no_sanitize("address"), optimize("O1"))) static void poison_stack(int mode, unsigned char byte) {
  char a[24 * 1024];
  volatile char *p = a;
  if (mode < 0) {
    for (size_t i = 0; i < sizeof a; i++)
      p[i] = (char)byte;
  } else {
    const char *t = STALE[mode];
    size_t n = strlen(t);
    for (size_t i = 0, j = 0; i < sizeof a; i++) {
      p[i] = t[j];
      if (++j == n)
        j = 0;
    }
  }
}
void op_begin(const char *name, u64 budget) {
  g_opname = name;
  ++S->api_calls;
  g_budget = g_step + budget;
  if (g_amb_on) {
    int m = (int)g_amb.below(10);
    poison_stack(m < 6 ? m : -1, (unsigned char)g_amb.next());
    static const int errs[] = {0, ERANGE, EINTR, ENOENT, EAGAIN, EDOM, EINVAL, ENOTTY};
    int e = errs[g_amb.below(8)];
    if (e)
      fault("stale_errno");
    fault("stale_stack");
    g_in_api = 1;
    errno = e;
    return;
  }
  g_in_api = 1;
  errno = 0;
}
void op_end() { g_in_api = 0; }
long live_allocs() { return g_live; }

// --------------------------------------------------------------- registry
static std::vector<Prop> &props() {
  static std::vector<Prop> v;
  return v;
}
Reg::Reg(const char *id, void (*run)()) { props().push_back(Prop{id, run}); }
} // namespace sim

using namespace sim;

// GCC -fsanitize-coverage=trace-pc: called at every basic block of the code
// under test. Step counter, coverage, preemption point.
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc() {
  if (!g_in_api)
    return;
  u64 pc = (u64)__builtin_return_address(0);
  u32 h = (u32)(pc * 0x9E3779B1u);
  h = (h ^ (h >> 15)) & (EDGES - 1);
  S->edges[(h ^ g_prev_edge) & (EDGES - 1)] = 1;
  g_prev_edge = h >> 1;
  ++S->steps;
  if (++g_step > g_budget)
    hung();
  if (g_sched && --g_countdown <= 0 && !g_hold) {
    int e = errno;
    if (g_switch_left > 0) {
      --g_switch_left;
      switch_from(g_cur, false);
    } else
      g_countdown = 1L << 60;
    errno = e;
  }
}

// Calls of libc by the code under test (renamed to sim_* in its objects) are
// preemption points too: what a library function is given may be touched by
// another task between its preparation and the call.
static void sim_point() {
  if (g_sched && g_in_api && --g_countdown <= 0 && !g_hold && g_cur >= 0) {
    int e = errno;
    if (g_switch_left > 0) {
      --g_switch_left;
      switch_from(g_cur, false);
    } else
      g_countdown = 1L << 60;
    errno = e;
  }
}
extern "C" long __isoc23_strtol(const char *, char **, int);
extern "C" unsigned long __isoc23_strtoul(const char *, char **, int);
extern "C" long long __isoc23_strtoll(const char *, char **, int);
#define POINT(ret, name, params, args)                                                                                                     \
  extern "C" ret sim_##name params {                                                                                                       \
    sim_point();                                                                                                                           \
    return name args;                                                                                                                      \
  }
POINT(double, strtod, (const char *s, char **e), (s, e))
POINT(float, strtof, (const char *s, char **e), (s, e))
POINT(long, strtol, (const char *s, char **e, int b), (s, e, b))
POINT(long, __isoc23_strtol, (const char *s, char **e, int b), (s, e, b))
POINT(unsigned long, strtoul, (const char *s, char **e, int b), (s, e, b))
POINT(unsigned long, __isoc23_strtoul, (const char *s, char **e, int b), (s, e, b))
POINT(long long, strtoll, (const char *s, char **e, int b), (s, e, b))
POINT(long long, __isoc23_strtoll, (const char *s, char **e, int b), (s, e, b))
POINT(void *, memcpy, (void *d, const void *s, size_t n), (d, s, n))
POINT(void *, memmove, (void *d, const void *s, size_t n), (d, s, n))
POINT(void *, memset, (void *d, int c, size_t n), (d, c, n))
POINT(int, memcmp, (const void *d, const void *s, size_t n), (d, s, n))
POINT(const void *, memchr, (const void *d, int c, size_t n), (d, c, n))
POINT(char *, strncpy, (char *d, const char *s, size_t n), (d, s, n))
POINT(char *, strcpy, (char *d, const char *s), (d, s))
POINT(int, strcmp, (const char *d, const char *s), (d, s))
POINT(int, strncmp, (const char *d, const char *s, size_t n), (d, s, n))
POINT(size_t, strlen, (const char *s), (s))
POINT(const char *, strchr, (const char *s, int c), (s, c))
POINT(const char *, strstr, (const char *s, const char *t), (s, t))
POINT(long, lround, (double x), (x))
POINT(double, round, (double x), (x))
POINT(double, floor, (double x), (x))
POINT(double, ceil, (double x), (x))
POINT(double, trunc, (double x), (x))
POINT(double, modf, (double x, double *i), (x, i))
POINT(double, fmod, (double x, double y), (x, y))
POINT(double, sin, (double x), (x))
POINT(double, cos, (double x), (x))
POINT(double, tan, (double x), (x))
POINT(double, sqrt, (double x), (x))
POINT(double, atan2, (double x, double y), (x, y))
POINT(double, pow, (double x, double y), (x, y))
POINT(int, abs, (int x), (x))

// ---------------------------------------------------------- libc seam (I/O)
extern "C" {
FILE *fopen(const char *path, const char *mode) {
  if (is_sim(path)) {
    auto it = g_files.find(path);
    if (it == g_files.end() || it->second->plan.open_fail) {
      fault("open_failure");
      note("disk: open %s fails", path);
      errno = it == g_files.end() ? ENOENT : it->second->plan.err;
      return nullptr;
    }
    int e = errno;
    static auto real = next<FILE *(*)(const char *, const char *)>("fopen");
    FILE *fp = real("/dev/null", "r");
    if (!fp)
      harness_error("cannot open /dev/null");
    static auto real_fileno = next<int (*)(FILE *)>("fileno");
    int fd = real_fileno(fp);
    g_open[fd] = OpenFile{path, it->second.get(), 0, false};
    g_fps[fp] = fd;
    errno = e;
    return fp;
  }
  static auto real = next<FILE *(*)(const char *, const char *)>("fopen");
  return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fclose(FILE *fp) {
  auto it = g_fps.find(fp);
  if (it != g_fps.end()) {
    g_open.erase(it->second);
    g_fps.erase(it);
  }
  static auto real = next<int (*)(FILE *)>("fclose");
  return real(fp);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (OpenFile *o = of(fd)) {
    return sim_read(*o, buf, n);
  }
  return syscall(SYS_read, fd, buf, n);
}
off_t lseek(int fd, off_t off, int wh) noexcept {
  if (OpenFile *o = of(fd))
    return sim_seek(*o, off, wh);
  return syscall(SYS_lseek, fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) noexcept {
  if (OpenFile *o = of(fd))
    return sim_seek(*o, off, wh);
  return syscall(SYS_lseek, fd, off, wh);
}
int fstat(int fd, struct stat *st) noexcept {
  if (OpenFile *o = of(fd)) {
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0444;
    st->st_size = (off_t)o->f->data.size();
    st->st_blksize = 4096;
    return 0;
  }
  return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
int stat(const char *path, struct stat *st) noexcept {
  if (is_sim(path)) {
    auto it = g_files.find(path);
    if (it == g_files.end()) {
      errno = ENOENT;
      return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0444;
    st->st_size = (off_t)it->second->data.size();
    return 0;
  }
  return (int)syscall(SYS_stat, path, st);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (OpenFile *o = of(fd)) {
    if (req == FIONREAD) {
      long a = (long)o->f->data.size() - o->pos;
      *(int *)arg = a > 0 ? (int)a : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return (int)syscall(SYS_ioctl, fd, req, arg);
}
int open(const char *path, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    m = (mode_t)va_arg(ap, int);
    va_end(ap);
  }
  if (is_sim(path))
    return sim_open(path);
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, m);
}
int close(int fd) {
  if (of(fd))
    g_open.erase(fd);
  return (int)syscall(SYS_close, fd);
}
}

// ------------------------------------------------------- locks of the code
// Real threads, but only one runs: who would have to wait for a lock that a
// suspended one holds lets the others go on first. One-time initialisations
// (function-local statics, call_once) are not preempted.
template <class T> static int sim_lock(int (*attempt)(T *), int (*real)(T *), T *l) {
  if (!g_sched || !g_in_api || g_cur < 0)
    return real(l);
  for (long n = 0;; n++) {
    int r = attempt(l);
    if (r != EBUSY)
      return r;
    if (g_hold)
      return real(l);
    size_t alive = 0;
    for (auto &t : g_tasks)
      alive += !t->done;
    if (alive < 2 || n > 1000000)
      fail("deadlock", "call '%s' waits for a lock that nobody will release", g_opname);
    switch_from(g_cur, false);
  }
}
extern "C" {
int __cxa_guard_acquire(long long *g) {
  static int (*real)(long long *) = nullptr;
  if (!real)
    real = next<int (*)(long long *)>("__cxa_guard_acquire");
  int r = real(g);
  if (r)
    ++g_hold;
  return r;
}
void __cxa_guard_release(long long *g) {
  static void (*real)(long long *) = nullptr;
  if (!real)
    real = next<void (*)(long long *)>("__cxa_guard_release");
  if (g_hold)
    --g_hold;
  real(g);
}
void __cxa_guard_abort(long long *g) {
  static void (*real)(long long *) = nullptr;
  if (!real)
    real = next<void (*)(long long *)>("__cxa_guard_abort");
  if (g_hold)
    --g_hold;
  real(g);
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  static int (*real)(pthread_once_t *, void (*)()) = nullptr;
  if (!real)
    real = next<int (*)(pthread_once_t *, void (*)())>("pthread_once");
  ++g_hold;
  int r = real(o, f);
  --g_hold;
  return r;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  static int (*real)(pthread_mutex_t *) = nullptr;
  if (!real)
    real = next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  return sim_lock<pthread_mutex_t>(pthread_mutex_trylock, real, m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
  static int (*real)(pthread_rwlock_t *) = nullptr;
  if (!real)
    real = next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
  return sim_lock<pthread_rwlock_t>(pthread_rwlock_tryrdlock, real, m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
  static int (*real)(pthread_rwlock_t *) = nullptr;
  if (!real)
    real = next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
  return sim_lock<pthread_rwlock_t>(pthread_rwlock_trywrlock, real, m);
}
}

// ---------------------------------------------------------- operator new
static void *sim_new(std::size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  if (g_heap_filling)
    memset(p, g_heap_fill, n < 65536 ? n : 65536);
  ++g_live;
  return p;
}
static void sim_del(void *p) {
  if (p) {
    --g_live;
    free(p);
  }
}
void *operator new(std::size_t n) { return sim_new(n); }
void *operator new[](std::size_t n) { return sim_new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return sim_new(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_del(p); }
void operator delete(void *p) noexcept { sim_del(p); }
void operator delete[](void *p) noexcept { sim_del(p); }
void operator delete(void *p, std::size_t) noexcept { sim_del(p); }
void operator delete[](void *p, std::size_t) noexcept { sim_del(p); }

// -------------------------------------------------------------------- main
static u64 mix(u64 a, u64 b) {
  u64 x = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  splitmix(x);
  return splitmix(x);
}
static void begin_run() {
  S->nchoices = 0;
  S->overflow = 0;
  S->hash = 0xCBF29CE484222325ull;
  S->events = S->api_calls = S->steps = 0;
  S->this_nontrivial = 0;
  S->kind[0] = S->msg[0] = 0;
}
static int g_quiet_err = 1;
static void account() {
  S->total_events += S->events;
  S->total_api += S->api_calls;
  S->total_steps += S->steps;
  ++S->runs;
}
static void account_ok() {
  if (S->this_nontrivial) {
    ++S->nontrivial_runs;
    if (S->nhash < MAXHASH)
      S->hashes[S->nhash++] = S->hash;
  }
}
static void reset_sim() {
  if (!g_open.empty())
    harness_error("a file was left open by the scenario");
  g_files.clear();
  g_fps.clear();
  ambient_off();
  g_budget_scale = 0;
  g_in_api = 0;
  g_prev_edge = 0;
  errno = 0;
}
/// `n` runs of seeds first.. in this process, one after another (n==0: a
/// single run that is already set up)
[[noreturn]] static void child(void (*run)(), u64 first, u64 n, u64 (*seed_of)(u64)) {
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGALRM, SIG_DFL);
  alarm(60);
  if (g_quiet_err) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0);
    if (fd >= 0)
      dup2(fd, 2);
  }
  std::cout.rdbuf(nullptr);
  std::cerr.rdbuf(nullptr);
  std::clog.rdbuf(nullptr);
  try {
    if (!n)
      run();
    for (u64 i = first; i < first + n; i++) {
      begin_run();
      reset_sim();
      S->seed = i;
      g_replay = false;
      g_prng = seed_of(i);
      g_pos = 0;
      alarm(60);
      run();
      if (S->overflow)
        harness_error("too many choices");
      account();
      account_ok();
    }
  } catch (std::exception &e) {
    sim::fail("unexpected-exception", "scenario ended with exception: %s", e.what());
  } catch (...) {
    sim::fail("unexpected-exception", "scenario ended with an unknown exception");
  }
  leave(0);
}
// returns 0 ok, 1 violation (kind filled), 2 harness error
static int run_once(void (*run)(), u64 first = 0, u64 n = 0, u64 (*seed_of)(u64) = nullptr) {
  begin_run();
  pid_t p = fork();
  if (p < 0) {
    snprintf(S->kind, sizeof S->kind, "harness");
    snprintf(S->msg, sizeof S->msg, "fork failed");
    return 2;
  }
  if (!p)
    child(run, first, n, seed_of);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  if (!n || st)
    account();
  if (WIFEXITED(st)) {
    int c = WEXITSTATUS(st);
    if (c == 0) {
      if (!n)
        account_ok();
      return S->overflow ? (snprintf(S->kind, sizeof S->kind, "harness"), snprintf(S->msg, sizeof S->msg, "too many choices"), 2) : 0;
    }
    if (c == 77)
      return 1;
    if (c == 79)
      return 2;
    if (c == 99 || c == 98) {
      snprintf(S->kind, sizeof S->kind, "memory-error");
      snprintf(S->msg, sizeof S->msg, "sanitizer report (exit code %d) during '%s'", c, "a call into the library");
      return 1;
    }
    snprintf(S->kind, sizeof S->kind, "exit-%d", c);
    snprintf(S->msg, sizeof S->msg, "process exited with code %d", c);
    return 1;
  }
  int sg = WTERMSIG(st);
  if (sg == SIGKILL || sg == SIGTERM) {
    snprintf(S->kind, sizeof S->kind, "harness");
    snprintf(S->msg, sizeof S->msg, "run was killed from outside");
    return 2;
  }
  if (sg == SIGALRM) {
    snprintf(S->kind, sizeof S->kind, "no-termination");
    snprintf(S->msg, sizeof S->msg, "run did not end within 60 s of real time");
    return 1;
  }
  snprintf(S->kind, sizeof S->kind, "crash-signal-%d", sg);
  snprintf(S->msg, sizeof S->msg, "process died with signal %d (%s)", sg, strsignal(sg));
  return 1;
}
static void json_str(FILE *o, const char *s) {
  fputc('"', o);
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\')
      fprintf(o, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(o, "\\u%04x", c);
    else
      fputc(c, o);
  }
  fputc('"', o);
}
static void dump_result(FILE *o, int rc) {
  fprintf(o, "{\"rc\":%d,\"seed\":%llu,\"kind\":", rc, (unsigned long long)S->seed);
  json_str(o, rc ? S->kind : "");
  fprintf(o, ",\"msg\":");
  json_str(o, rc ? S->msg : "");
  fprintf(o, ",\"hash\":\"%016llx\",\"choices\":[", (unsigned long long)S->hash);
  for (u32 i = 0; i < S->nchoices; i++)
    fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)S->choices[i]);
  fprintf(o, "]");
}
static double now() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  return (double)tv.tv_sec + 1e-6 * (double)tv.tv_usec;
}
static void shrink(void (*run)(), std::vector<u64> &best, std::string kind, double limit, u64 *evals) {
  double t0 = now();
  auto attempt = [&](const std::vector<u64> &c) {
    if (now() - t0 > limit)
      return false;
    ++*evals;
    g_replay = true;
    g_script = c;
    g_pos = 0;
    return run_once(run) == 1 && kind == S->kind;
  };
  auto trim = [&](std::vector<u64> v) {
    while (!v.empty() && v.back() == 0)
      v.pop_back();
    return v;
  };
  best = trim(best);
  bool progress = true;
  while (progress && now() - t0 < limit) {
    progress = false;
    for (size_t sz = std::max<size_t>(1, best.size() / 2); sz >= 1; sz /= 2) {
      for (size_t i = best.size(); i-- > 0;) {
        if (i + sz > best.size())
          continue;
        if (now() - t0 > limit)
          break;
        std::vector<u64> c(best.begin(), best.begin() + (long)i);
        c.insert(c.end(), best.begin() + (long)(i + sz), best.end());
        if (attempt(c)) {
          best = trim(c);
          progress = true;
          continue;
        }
        bool nz = false;
        for (size_t k = i; k < i + sz && k < best.size(); k++)
          nz |= best[k] != 0;
        if (nz && i + sz <= best.size()) {
          c = best;
          for (size_t k = i; k < i + sz; k++)
            c[k] = 0;
          if (attempt(c)) {
            best = trim(c);
            progress = true;
          }
        }
      }
      if (sz == 1)
        break;
    }
    for (size_t i = 0; i < best.size() && now() - t0 < limit; i++) {
      u64 lo = 0, hi = best[i];
      while (lo < hi) {
        u64 m = lo + (hi - lo) / 2;
        auto c = best;
        c[i] = m;
        if (attempt(c)) {
          hi = m;
          best[i] = m;
          progress = true;
        } else
          lo = m + 1;
        if (now() - t0 > limit)
          break;
      }
    }
    best = trim(best);
  }
}

int main(int argc, char **argv) {
  std::string prop, mode = "search", file, stats, trace;
  u64 seed = 1, first = 0, count = 100, batch = 32;
  double limit = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--prop") prop = val();
    else if (a == "--mode") mode = val();
    else if (a == "--file") file = val();
    else if (a == "--stats") stats = val();
    else if (a == "--trace") trace = val();
    else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (a == "--first") first = strtoull(val(), nullptr, 10);
    else if (a == "--count") count = strtoull(val(), nullptr, 10);
    else if (a == "--batch") batch = std::max(1ull, strtoull(val(), nullptr, 10));
    else if (a == "--limit") limit = atof(val());
    else if (a == "--stderr") g_quiet_err = 0;
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  S = static_cast<Shm *>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (S == MAP_FAILED)
    return 2;
  void (*run)() = nullptr;
  for (auto &p : props())
    if (prop == p.id)
      run = p.run;
  if (!run) {
    fprintf(stderr, "no such property here: %s\n", prop.c_str());
    return 2;
  }
  { // force libstdc++/locale initialisation before forking
    std::cerr << std::flush;
    std::cout << std::flush;
  }
  u64 phash = 1469598103934665603ull;
  for (char c : prop)
    phash = (phash ^ (unsigned char)c) * 1099511628211ull;
  static u64 base;
  base = mix(seed, phash);
  u64 (*seed_of)(u64) = [](u64 i) { return mix(base, i); };

  if (mode == "search" || mode == "hashes") {
    double t0 = now();
    int rc = 0;
    u64 i = first, done = first;
    for (; i < first + count; i += mode == "hashes" ? 1 : batch) {
      if (now() - t0 > limit)
        break;
      g_replay = false;
      g_pos = 0;
      if (mode == "hashes") {
        S->seed = i;
        g_prng = seed_of(i);
        rc = run_once(run);
        printf("%llu %d %016llx\n", (unsigned long long)i, rc, (unsigned long long)S->hash);
        fflush(stdout);
        continue;
      }
      done = i;
      rc = run_once(run, i, std::min(batch, first + count - i), seed_of);
      if (rc)
        break;
    }
    u64 batch_first = done;
    FILE *o = stats.empty() ? stdout : fopen(stats.c_str(), "w");
    if (!o)
      return 2;
    dump_result(o, rc);
    fprintf(o, ",\"batch_first\":%llu", (unsigned long long)batch_first);
    u64 edges = 0;
    for (int k = 0; k < EDGES; k++)
      edges += S->edges[k];
    fprintf(o, ",\"runs\":%llu,\"nontrivial\":%llu,\"events\":%llu,\"api_calls\":%llu,\"steps\":%llu,\"simtime\":%.3f,\"wall\":%.3f,\"edges\":%llu,\"named\":{",
            (unsigned long long)S->runs, (unsigned long long)S->nontrivial_runs, (unsigned long long)S->total_events,
            (unsigned long long)S->total_api, (unsigned long long)S->total_steps, S->simtime, now() - t0,
            (unsigned long long)edges);
    for (u32 k = 0; k < S->nnamed; k++) {
      if (k)
        fputc(',', o);
      json_str(o, S->named[k].name);
      fprintf(o, ":%llu", (unsigned long long)S->named[k].count);
    }
    fprintf(o, "}}\n");
    if (o != stdout)
      fclose(o);
    if (!stats.empty()) {
      FILE *b = fopen((stats + ".bin").c_str(), "w");
      if (!b)
        return 2;
      fwrite(S->edges, 1, EDGES, b);
      fwrite(S->hashes, sizeof(u64), S->nhash, b);
      fclose(b);
    }
    return rc == 0 ? 0 : rc == 1 ? 1 : 2;
  }
  if (mode == "batch") { // seeds first..first+count-1 in one process
    if (!trace.empty())
      g_trace = trace == "-" ? stdout : fopen(trace.c_str(), "w");
    fflush(nullptr);
    int rc = run_once(run, first, count, seed_of);
    dump_result(stdout, rc);
    printf("}\n");
    return rc == 0 ? 0 : rc == 1 ? 1 : 2;
  }
  if (mode == "run" || mode == "replay" || mode == "shrink") {
    std::vector<u64> c;
    if (mode != "run") {
      FILE *f = fopen(file.c_str(), "r");
      if (!f)
        return 2;
      unsigned long long v;
      while (fscanf(f, "%llu", &v) == 1)
        c.push_back(v);
      fclose(f);
    }
    u64 evals = 0;
    if (mode == "shrink") {
      g_replay = true;
      g_script = c;
      g_pos = 0;
      int rc = run_once(run);
      if (rc != 1) {
        fprintf(stderr, "shrink: does not fail (%d)\n", rc);
        return 2;
      }
      std::string kind = S->kind;
      c.assign(S->choices, S->choices + S->nchoices);
      shrink(run, c, kind, limit, &evals);
      g_script = c;
    } else if (mode == "replay") {
      g_replay = true;
      g_script = c;
    } else {
      g_replay = false;
      S->seed = first;
      g_prng = seed_of(first);
    }
    g_pos = 0;
    if (!trace.empty()) {
      g_trace = trace == "-" ? stdout : fopen(trace.c_str(), "w");
      if (!g_trace)
        return 2;
    }
    fflush(nullptr);
    int rc = run_once(run);
    dump_result(stdout, rc);
    printf(",\"evals\":%llu}\n", (unsigned long long)evals);
    return rc == 0 ? 0 : rc == 1 ? 1 : 2;
  }
  return 2;
}
