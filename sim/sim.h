// Deterministic simulation core: seeded plans, fault injection, simulated
// heap and simulated disk.  See DESIGN.md, section "Simulator".
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  int64_t range(int64_t lo, int64_t hi) {  // inclusive
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1)));
  }
  bool chance(unsigned permille) { return below(1000) < permille; }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + below(l.size()));
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r{a ^ (b * 0xff51afd7ed558ccdull)};
  return r.next() ^ b;
}

// ---------------------------------------------------------------- plans
enum FaultKind : int {
  F_NONE = 0,
  F_ALLOC,      // the n-th allocation of the operation fails
  F_ALLOC_ALL,  // every allocation from the n-th on fails
  F_IO,         // the n-th fallible I/O event of the operation fails
  F_IO_ALL,     // every fallible I/O event from the n-th on fails
  F_CRASH,      // process crash at the n-th I/O event (page cache survives)
  F_POWER,      // power loss at the n-th I/O event
  F_THROW,      // the n-th element construction (copy) throws
  F_KINDS
};
char const* fault_name(int k);

struct Fault {
  int kind{0};
  int64_t n{0};
  int64_t arg{0};
};
struct Op {
  int code{0};
  int64_t a{0}, b{0}, c{0};
  std::vector<Fault> f;
};
struct Plan {
  std::string harness;
  uint64_t seed{0};  // seeds everything that is not spelled out in the plan
  std::vector<int64_t> cfg;
  std::vector<Op> ops;
  int64_t c(size_t i) const { return i < cfg.size() ? cfg[i] : 0; }
};
std::string to_text(Plan const&);
Plan from_text(std::string const&);

// ---------------------------------------------------------------- harness API
struct Harness {
  char const* name;
  char const* (*op_name)(int code);
  Plan (*gen)(Rng&, int tier);
  void (*exec)(Plan const&);
};
// every property binary defines this
extern std::vector<Harness> const& harnesses();

// oracle classes (mask bits)
enum : unsigned { O_MODEL = 1, O_MEM = 2, O_IO = 4, O_RACE = 8, O_ALL = 0xff };

struct EndRun {};  // leave a run early (masked oracle, resource limits)

// reports a violation: never returns
[[noreturn]] void violation(unsigned oracle, char const* sig, std::string const& msg);
void check(bool ok, unsigned oracle, char const* sig, char const* fmt, ...)
    __attribute__((format(printf, 4, 5)));
#define CHK(cond, sig, ...) \
  do { if (!(cond)) { ::sim::check(false, ::sim::O_MODEL, sig, __VA_ARGS__); } } while (0)

void log_event(uint64_t tag, uint64_t v = 0);
void note_state(uint64_t h);       // abstract state reached (coverage measure)
void count(char const* what, uint64_t n = 1);  // named counters -> evidence
void mark_nontrivial();            // run reached something interesting
bool tracing();
void trace(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t sim_time_ns();
void advance_time(uint64_t ns);

// ---------------------------------------------------------------- SUT frame
extern bool in_sut;
struct Sut {
  bool old;
  Sut() : old(in_sut) { in_sut = true; }
  ~Sut() { in_sut = old; }
};
struct NoSut {
  bool old;
  NoSut() : old(in_sut) { in_sut = false; }
  ~NoSut() { in_sut = old; }
};

enum class Out { ok, bad_alloc, threw, stopped };
struct CallResult {
  Out out{Out::ok};
  std::string what;
  int alloc_faults{0}, io_faults{0}, throw_faults{0};
  uint64_t allocs{0}, io_events{0};
  bool ok() const { return out == Out::ok; }
  bool faulted() const { return alloc_faults + io_faults + throw_faults > 0; }
};
struct InjectedThrow : std::runtime_error {
  InjectedThrow() : std::runtime_error("injected constructor failure") {}
};

void arm(std::vector<Fault> const&);
void disarm(CallResult&);
// may_stop: std::terminate inside f counts as fail-stop (out == stopped)
CallResult call_impl(std::vector<Fault> const& faults, bool may_stop,
                     void (*fn)(void*), void* arg);
template <typename F>
CallResult call(std::vector<Fault> const& faults, F&& f, bool may_stop = false) {
  return call_impl(
      faults, may_stop,
      [](void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); },
      const_cast<void*>(static_cast<void const*>(&f)));
}
template <typename F>
CallResult call(Op const& op, F&& f, bool may_stop = false) {
  return call(op.f, std::forward<F>(f), may_stop);
}
// plain library call that must not fail (no fault armed)
template <typename F>
auto sut(F&& f) {
  Sut s;
  return f();
}

[[noreturn]] void fatal(char const* sig, std::string const& msg);  // from noexcept frames: ends the process
void maybe_throw();  // element constructors call this (F_THROW)

// ---------------------------------------------------------------- heap
namespace heap {
enum Kind : uint8_t { MALLOC, NEW, NEW_ARR, IMAGE };
void reset(uint64_t seed);
void* image_alloc(size_t n, size_t align, size_t misalign = 0);
void image_free(void*);
uint64_t live_blocks();   // live library allocations (without images)
uint64_t live_bytes();
std::string describe_live();
bool contains(void const* p);  // p is inside the simulated arena
bool in_image(void const* p);  // inside a block from image_alloc
bool in_live(void const* p, size_t n);  // [p,p+n) inside one live block
void expect_no_leak(char const* where);
extern long g_objects;  // test objects constructed and not destroyed in this run
uint64_t total_allocs();
std::pair<uint8_t*, size_t> extent();  // everything handed out so far
}  // namespace heap

// ---------------------------------------------------------------- disk
namespace disk {
void reset(uint64_t seed);
using Bytes = std::vector<uint8_t>;
Bytes content(char const* path);           // page-cache view
void set_content(char const* path, Bytes const&);  // also durable
bool exists(char const* path);
void remove(char const* path);
int64_t size(char const* path);            // -1: absent
unsigned open_streams();
uint64_t mapped_pages();
std::string describe_open();
void expect_released(char const* where);
void expect_released_count(unsigned streams);
bool crashed();                             // F_CRASH/F_POWER fired
void reboot();                              // apply the crash snapshot
void power_loss_now(uint64_t seed);         // crash at an op boundary
void sync_all();                            // everything durable
uint64_t events();
void* last_mapping(size_t* len);
}  // namespace disk

}  // namespace sim
