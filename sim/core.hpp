// Deterministic simulator core: recorded choices, simulated disk, simulated
// clock, step budget, cooperative preemption, trace and history hash.
#pragma once
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {
using u64 = std::uint64_t;
using u32 = std::uint32_t;

// ---------------------------------------------------------------- choices
/// 0..n-1 from the recorded choice list; 0 is always the simplest choice.
u64 pick(u64 n);
/// true with probability num/den (recorded; false is the simplest).
bool chance(unsigned num, unsigned den);
/// lo..hi inclusive (lo simplest).
long range(long lo, long hi);
/// pick one of the listed values (first is the simplest).
template <class T> T one_of(std::initializer_list<T> l) { return *(l.begin() + pick(l.size())); }
/// weighted index (first simplest)
int weighted(std::initializer_list<unsigned> w);

/// derived generator: one recorded choice seeds an unbounded stream; seed 0
/// is the "quiet" stream and reports quiet()==true.
struct Sub {
  u64 s{0};
  bool q{true};
  Sub() = default;
  explicit Sub(u64 seed);
  bool quiet() const { return q; }
  u64 next();
  u64 below(u64 n) { return n ? next() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  long range(long lo, long hi) { return lo + (long)below((u64)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
};
/// a Sub seeded by one recorded choice (simplest: quiet)
Sub sub();

// ----------------------------------------------------------- trace & hash
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // part of the history
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // trace text only
void block(const char *title, const std::string &text);               // stored file: part of the history
bool tracing();
[[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fault(const char *kind, u64 n = 1); // a fault of this kind really happened
void probe(const char *name, u64 n = 1); // a rare condition was reached
void nontrivial();                       // this run counts as a non-trivial case
void simtime(double sec);                // simulated seconds that passed
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// --------------------------------------------------------- simulated disk
struct Plan {
  bool open_fail{false};
  Sub io;               // chunking/EINTR stream (quiet: every read is served in full)
  int chunk_mode{0};    // 0 full, 1 tiny, 2 mixed, 3 line-ish, 4 power of two
  unsigned eintr{0};    // chance per 256 that a read is interrupted first
  long eio_at{-1};      // byte offset whose read fails
  int eio_count{-1};    // how many times it fails (-1: for ever)
  int seek_fail{0};     // that many lseek calls fail (-1: all)
  int err{EIO};
};
struct File {
  std::string data;
  Plan plan;
  u64 reads{0}, eio_hits{0}, eintrs{0}, seeks{0}, seek_fails{0};
};
File &disk(const std::string &path, const std::string &data = std::string());
/// the name is gone; whoever has the file open keeps reading it
void disk_remove(const std::string &path);
int open_files();
/// give the file a random benign I/O behaviour (chunking + EINTR): recorded
void benign_io(File &f);

// -------------------------------------------------- calls into real code
/// random-but-recorded ambient conditions for the following api() calls:
/// errno left by unrelated calls, stale stack and heap contents
void ambient_conditions();
void ambient_off();
void op_begin(const char *name, u64 budget);
void op_end();
extern u64 g_budget_scale; // bytes of input the budget is scaled by
template <class F> auto api(const char *name, F &&f) -> decltype(f()) {
  struct G {
    ~G() { op_end(); }
  };
  op_begin(name, 4000000ull + 600ull * g_budget_scale);
  G g;
  return f();
}
long live_allocs();

// ----------------------------------------------------- task interleaving
/// Run the tasks to completion on real threads, exactly one at a time, with a
/// seeded scheduler deciding at basic blocks of the code under test who runs.
void run_tasks(std::vector<std::function<void()>> tasks);
u64 task_switches();

// --------------------------------------------------------------- registry
struct Prop {
  const char *id;
  void (*run)();
};
struct Reg {
  Reg(const char *id, void (*run)());
};
#define SIM_PROP(ID, FN) static ::sim::Reg reg_##ID##_##FN(#ID, FN)

#ifdef DEBUG
constexpr bool debug_flavour = true;
#else
constexpr bool debug_flavour = false;
#endif
} // namespace sim
