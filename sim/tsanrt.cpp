// The simulator's own run time for -fsanitize=thread instrumentation: no
// real threads, no race detector library; accesses are scheduling points.
#include "fiber.h"

#include <algorithm>
#include <cxxabi.h>
#include <link.h>
#include <map>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>

namespace __cxxabiv1 {
struct __cxa_eh_globals {
  void* caughtExceptions;
  unsigned int uncaughtExceptions;
};
}  // namespace __cxxabiv1

extern char __data_start, _end;

namespace sim::fib {
constexpr unsigned kMax = 8;
constexpr std::size_t kStack = 1u << 20;
struct Region {
  uintptr_t b, e;
  bool ro;
};
struct Fiber {
  ucontext_t ctx;
  char* stack{nullptr};
  bool done{true};
  bool in_sut{false};
  std::vector<char> tls;
  __cxxabiv1::__cxa_eh_globals eh{};
};
struct Access {  // threads that did it, per byte
  uint8_t rd{0}, wr{0}, ard{0}, awr{0};
};
static std::vector<Region> g_regions;
static Fiber g_f[kMax];
static ucontext_t g_main;
static __cxxabiv1::__cxa_eh_globals g_main_eh;
static int g_cur = -1;
static unsigned g_n = 0;
static uint64_t g_step = 0, g_now = 0, g_cas = 0;
static std::multimap<uint64_t, unsigned> g_switch;
static std::vector<uint64_t> g_spur;
static std::unordered_map<uintptr_t, Access> g_acc;
static std::function<void(unsigned)> const* g_body = nullptr;
static bool g_end_run = false;

// thread_local objects of the program: every simulated thread has its own
static char* g_tls = nullptr;
static std::size_t g_tls_size = 0;
static std::vector<char> g_tls_init, g_tls_main;
static void find_tls() {
  static bool done = false;
  if (done) return;
  done = true;
  dl_iterate_phdr([](dl_phdr_info* i, std::size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; ++k) {
      auto const& h = i->dlpi_phdr[k];
      if (h.p_type != PT_TLS) continue;
      auto const al = h.p_align == 0 ? 1 : h.p_align;
      g_tls_size = h.p_memsz;
      g_tls = static_cast<char*>(__builtin_thread_pointer()) - (h.p_memsz + al - 1) / al * al;
      auto const* init = reinterpret_cast<char const*>(i->dlpi_addr + h.p_vaddr);
      g_tls_init.assign(h.p_memsz, 0);
      std::copy(init, init + h.p_filesz, g_tls_init.begin());
    }
    return 1;  // the first entry is the program itself
  }, nullptr);
}
static auto* eh() { return reinterpret_cast<__cxxabiv1::__cxa_eh_globals*>(abi::__cxa_get_globals()); }

void share(void const* p, std::size_t n, bool ro) {
  g_regions.push_back({reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n, ro});
}
void unshare_all() { g_regions.clear(); }
uint64_t steps() { return g_step; }
uint64_t now() { return ++g_now; }
int current() { return g_cur; }

static void resume(int to) {
  int const from = g_cur;
  if (to == from) return;
  auto* g = eh();
  auto& saved = from < 0 ? g_main_eh : g_f[from].eh;
  saved = *g;
  if (from >= 0) g_f[from].in_sut = in_sut;
  g_cur = to;
  *g = to < 0 ? g_main_eh : g_f[to].eh;
  in_sut = to < 0 ? false : g_f[to].in_sut;
  if (g_tls_size != 0) {
    auto& out = from < 0 ? g_tls_main : g_f[from].tls;
    auto& in = to < 0 ? g_tls_main : g_f[to].tls;
    std::copy(g_tls, g_tls + g_tls_size, out.begin());
    std::copy(in.begin(), in.end(), g_tls);
  }
  swapcontext(from < 0 ? &g_main : &g_f[from].ctx, to < 0 ? &g_main : &g_f[to].ctx);
}
static int alive_from(unsigned k) {
  for (unsigned i = 0; i < g_n; ++i)
    if (!g_f[(k + i) % g_n].done) return static_cast<int>((k + i) % g_n);
  return -1;
}
static void entry() {
  try {
    (*g_body)(static_cast<unsigned>(g_cur));
  } catch (EndRun const&) {
    g_end_run = true;
  }
  in_sut = false;
  g_f[g_cur].done = true;
  log_event('E', static_cast<uint64_t>(g_cur));
  resume(alive_from(static_cast<unsigned>(g_cur) + 1));
  __builtin_trap();
}
static void maybe_switch() {
  auto [b, e] = g_switch.equal_range(g_step);
  int to = -1;
  for (auto it = b; it != e; ++it) to = alive_from(it->second % g_n);
  ++g_step;
  if (to >= 0 && to != g_cur) {
    count("fault:preemption");
    mark_nontrivial();
    log_event('S', g_step * 16 + static_cast<uint64_t>(to));
    if (tracing()) trace("    @%llu thread %d -> %d", (unsigned long long)(g_step - 1), g_cur, to);
    resume(to);
  }
}
void run(unsigned n, std::function<void(unsigned)> const& body, Schedule const& s) {
  find_tls();
  g_n = std::min(n, kMax);
  g_step = g_cas = g_now = 0;
  g_end_run = false;
  g_switch.clear();
  for (auto const& x : s.switches) g_switch.emplace(x.step, x.to);
  g_spur = s.spurious;
  g_acc.clear();
  g_body = &body;
  for (unsigned i = 0; i < g_n; ++i) {
    auto& f = g_f[i];
    if (f.stack == nullptr) {
      f.stack = static_cast<char*>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    }
    getcontext(&f.ctx);
    f.ctx.uc_stack.ss_sp = f.stack;
    f.ctx.uc_stack.ss_size = kStack;
    f.ctx.uc_link = nullptr;
    makecontext(&f.ctx, entry, 0);
    f.done = false;
    f.in_sut = false;
    f.eh = {};
    f.tls = g_tls_init;
  }
  g_tls_main.resize(g_tls_size);
  resume(0);
  g_body = nullptr;
  advance_time(g_step * 10);
  count("sched_points", g_step);
  if (g_end_run) throw EndRun{};
}
enum Kind { RD, WR, ARD, AWR };
static void access(void const* p, std::size_t n, Kind k) {
  if (g_cur < 0 || !in_sut || p == static_cast<void const*>(&in_sut)) return;
  auto const a = reinterpret_cast<uintptr_t>(p);
  Region const* r = nullptr;
  for (auto const& x : g_regions)
    if (a < x.e && a + n > x.b) r = &x;
  bool const global = r == nullptr && a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end);
  if (r == nullptr && !global) return;
  NoSut ns;
  if (r != nullptr && r->ro && (k == WR || k == AWR)) {
    violation(O_RACE, "shared-write", "thread " + std::to_string(g_cur) + " writes " + std::to_string(n) + " bytes at offset " +
              std::to_string(a - r->b) + " of a shared value through its const interface");
  }
  if (r == nullptr || !r->ro) {
    auto const me = static_cast<uint8_t>(1u << g_cur);
    for (std::size_t i = 0; i < n; ++i) {
      auto& x = g_acc[a + i];
      auto const others = static_cast<uint8_t>(~me);
      bool const bad = (k == RD && ((x.wr | x.awr) & others)) || (k == WR && ((x.rd | x.wr | x.ard | x.awr) & others)) ||
                       (k == ARD && (x.wr & others)) || (k == AWR && ((x.rd | x.wr) & others));
      if (bad) {
        violation(O_RACE, "data-race", "unsynchronised " + std::string(k == RD || k == ARD ? "read" : "write") + " of " + std::to_string(n) + " bytes of " +
                  (global ? std::string("a global") : "shared memory at offset " + std::to_string(a - r->b)) + " that another thread accesses");
      }
      (k == RD ? x.rd : k == WR ? x.wr : k == ARD ? x.ard : x.awr) |= me;
    }
  }
  if (r != nullptr) {
    if (r->ro == false) log_event('a', (a - r->b) * 4 + static_cast<uint64_t>(k) + static_cast<uint64_t>(g_cur) * 100000);
    maybe_switch();
  }
}
}  // namespace sim::fib

using namespace sim::fib;
#define READ(p, n) access(p, n, RD)
#define WRITE(p, n) access(p, n, WR)
extern "C" {
bool sim_spurious_cas(void const volatile* p) {
  if (g_cur < 0 || !sim::in_sut) return false;
  auto const n = g_cas++;
  for (auto x : g_spur)
    if (x == n) {
      sim::count("fault:spurious_cas");
      sim::mark_nontrivial();
      sim::log_event('C', n);
      (void)p;
      return true;
    }
  return false;
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { WRITE(p, 8); }
void __tsan_vptr_read(void** p) { READ(p, 8); }
void __tsan_read_range(void* p, unsigned long n) { READ(p, n); }
void __tsan_write_range(void* p, unsigned long n) { WRITE(p, n); }
#define RW(n)                                                   \
  void __tsan_read##n(void* p) { READ(p, n); }                  \
  void __tsan_write##n(void* p) { WRITE(p, n); }                \
  void __tsan_read_write##n(void* p) { READ(p, n), WRITE(p, n); } \
  void __tsan_unaligned_read##n(void* p) { READ(p, n); }        \
  void __tsan_unaligned_write##n(void* p) { WRITE(p, n); }      \
  void __tsan_unaligned_read_write##n(void* p) { READ(p, n), WRITE(p, n); } \
  void __tsan_volatile_read##n(void* p) { READ(p, n); }         \
  void __tsan_volatile_write##n(void* p) { WRITE(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void* __tsan_memcpy(void* d, void const* s, unsigned long n) { if (n) READ(s, n), WRITE(d, n); return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, unsigned long n) { if (n) READ(s, n), WRITE(d, n); return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) WRITE(d, n); return __builtin_memset(d, c, n); }
// plain versions: only one fiber runs at a time
#define AT(bits, T)                                                                                    \
  T __tsan_atomic##bits##_load(T const volatile* a, int) { access(const_cast<T const*>(a), sizeof(T), ARD); return *a; } \
  void __tsan_atomic##bits##_store(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); *a = v; } \
  T __tsan_atomic##bits##_exchange(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; *a = static_cast<T>(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; *a = static_cast<T>(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; *a = static_cast<T>(o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; *a = static_cast<T>(o | v); return o; } \
  T __tsan_atomic##bits##_fetch_xor(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; *a = static_cast<T>(o ^ v); return o; } \
  T __tsan_atomic##bits##_fetch_nand(T volatile* a, T v, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; *a = static_cast<T>(~(o & v)); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) { access(const_cast<T*>(a), sizeof(T), AWR); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* c, T v, int, int) { access(const_cast<T*>(a), sizeof(T), AWR); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(T volatile* a, T c, T v, int, int) { access(const_cast<T*>(a), sizeof(T), AWR); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
