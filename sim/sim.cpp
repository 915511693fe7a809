#include "sim.h"

#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdlib>
#include <algorithm>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_map>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define SIM_ASAN 1
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(p, n) ((void)(p), (void)(n))
#endif

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
FILE* __real_fopen(char const*, char const*);
int __real_fclose(FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(void const*, size_t, size_t, FILE*);
int __real_fseek(FILE*, long, int);
int __real_fseeko(FILE*, off_t, int);
long __real_ftell(FILE*);
off_t __real_ftello(FILE*);
int __real_fflush(FILE*);
int __real_fileno(FILE*);
int __real_fstat(int, struct stat*);
int __real_ftruncate(int, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_msync(void*, size_t, int);
void* __real_mremap(void*, size_t, size_t, int, ...);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_setvbuf(FILE*, char*, int, size_t);
void __real_rewind(FILE*);
int __real_feof(FILE*);
int __real_ferror(FILE*);
void __real_clearerr(FILE*);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, void const*, size_t, off_t);
int __real_stat(char const*, struct stat*);
}

namespace __cxxabiv1 {
struct __cxa_eh_globals {
  void* caughtExceptions;
  unsigned int uncaughtExceptions;
};
}  // namespace __cxxabiv1

namespace sim {

bool in_sut = false;

// ---------------------------------------------------------------- shared area
constexpr unsigned kCounters = 160;
constexpr unsigned kSet = 1u << 17;
struct Shared {
  uint64_t magic;
  uint64_t status;  // 0 running 1 done 2 violation 3 died
  uint64_t cur_seed;
  uint64_t runs, ops, events, nontrivial_runs, sim_ns, faults_armed;
  uint64_t run_hash;    // event-log hash of the current / last run
  uint64_t run_events;  // events so far in the current run
  uint64_t cur_op;
  uint64_t oracle;
  uint64_t all_hash;  // over all finished runs (determinism self test)
  uint64_t n_states, n_paths;
  char sig[96];
  char msg[4096];
  char harness[64];
  struct {
    char name[48];
    uint64_t n;
  } counters[kCounters];
  uint64_t states[kSet];
  uint64_t paths[kSet];
};
static Shared* sh = nullptr;
static unsigned g_mask = O_ALL;
static bool g_trace = false;

static Shared* map_shared(char const* path) {
  int fd = -1;
  int flags = MAP_SHARED | MAP_ANONYMOUS;
  if (path != nullptr) {
    fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || __real_ftruncate(fd, sizeof(Shared)) != 0) {
      perror("out file");
      _exit(9);
    }
    flags = MAP_SHARED;
  }
  void* p = __real_mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, flags, fd, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(9);
  }
  if (fd >= 0) close(fd);
  auto s = static_cast<Shared*>(p);
  s->magic = 0x51D0C157A1ull;
  return s;
}
static void set_insert(uint64_t* set, uint64_t& n, uint64_t h) {
  if (h == 0) h = 1;
  if (n > kSet / 2 + kSet / 4) return;
  unsigned i = static_cast<unsigned>(h >> 20) & (kSet - 1);
  while (set[i] != 0) {
    if (set[i] == h) return;
    i = (i + 1) & (kSet - 1);
  }
  set[i] = h;
  ++n;
}

char const* fault_name(int k) {
  static char const* n[] = {"none", "alloc", "alloc_all", "io", "io_all", "crash", "power", "throw"};
  return k >= 0 && k < F_KINDS ? n[k] : "?";
}

void count(char const* what, uint64_t n) {
  if (sh == nullptr) return;
  for (unsigned i = 0; i < kCounters; ++i) {
    auto& c = sh->counters[i];
    if (c.name[0] == 0) {
      std::strncpy(c.name, what, sizeof(c.name) - 1);
      c.n = n;
      return;
    }
    if (std::strcmp(c.name, what) == 0) {
      c.n += n;
      return;
    }
  }
}
static bool g_nontrivial = false;
static uint64_t g_path_hash = 0;
void mark_nontrivial() { g_nontrivial = true; }
bool tracing() { return g_trace; }
void trace(char const* fmt, ...) {
  if (!g_trace) return;
  NoSut n;
  va_list ap;
  va_start(ap, fmt);
  vfprintf(stdout, fmt, ap);
  va_end(ap);
  fputc('\n', stdout);
  fflush(stdout);
}
static uint64_t g_time = 0;
uint64_t sim_time_ns() { return g_time; }
void advance_time(uint64_t ns) { g_time += ns; }

void log_event(uint64_t tag, uint64_t v) {
  uint64_t h = sh->run_hash;
  h = (h ^ tag) * 0x100000001b3ull;
  h = (h ^ (v + 0x9E3779B97F4A7C15ull + (h >> 29))) * 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  sh->run_hash = h;
  ++sh->run_events;
}
void note_state(uint64_t h) {
  set_insert(sh->states, sh->n_states, mix(h, 77));
}

[[noreturn]] static void die_with(unsigned status, unsigned oracle, char const* sig, char const* msg) {
  sh->status = status;
  sh->oracle = oracle;
  std::strncpy(sh->sig, sig, sizeof(sh->sig) - 1);
  std::strncpy(sh->msg, msg, sizeof(sh->msg) - 1);
  if (g_trace) {
    printf("VIOLATED [%s] %s\n", sig, msg);
    fflush(stdout);
  }
  _exit(3);
}

[[noreturn]] void violation(unsigned oracle, char const* sig, std::string const& msg) {
  in_sut = false;
  if ((oracle & g_mask) == 0) throw EndRun{};
  die_with(2, oracle, sig, msg.c_str());
}
void check(bool ok, unsigned oracle, char const* sig, char const* fmt, ...) {
  if (ok) return;
  in_sut = false;
  char buf[3000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  violation(oracle, sig, buf);
}
// from inside hooks (maybe noexcept library frames): never throws
[[noreturn]] static void hook_violation(char const* sig, std::string const& msg) {
  in_sut = false;
  die_with(2, O_MEM, sig, msg.c_str());
}

[[noreturn]] void fatal(char const* sig, std::string const& msg) { hook_violation(sig, msg); }

// ---------------------------------------------------------------- plan text
std::string to_text(Plan const& p) {
  std::ostringstream o;
  o << "harness " << p.harness << "\nseed " << p.seed << "\ncfg";
  for (auto c : p.cfg) o << ' ' << c;
  o << '\n';
  for (auto const& op : p.ops) {
    o << "op " << op.code << ' ' << op.a << ' ' << op.b << ' ' << op.c;
    for (auto const& f : op.f) o << " f " << f.kind << ' ' << f.n << ' ' << f.arg;
    o << '\n';
  }
  return o.str();
}
Plan from_text(std::string const& t) {
  Plan p;
  std::istringstream in{t};
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l{line};
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "harness") {
      l >> p.harness;
    } else if (w == "seed") {
      l >> p.seed;
    } else if (w == "cfg") {
      int64_t x;
      while (l >> x) p.cfg.push_back(x);
    } else if (w == "op") {
      Op op;
      l >> op.code >> op.a >> op.b >> op.c;
      while (l >> w) {
        Fault f;
        l >> f.kind >> f.n >> f.arg;
        op.f.push_back(f);
      }
      p.ops.push_back(op);
    }
  }
  return p;
}

// ---------------------------------------------------------------- faults
struct Armed {
  std::vector<Fault> faults;
  uint64_t allocs = 0, fallible = 0, io = 0, ctors = 0;
  int alloc_fired = 0, io_fired = 0, throw_fired = 0;
  bool active = false;
};
static Armed g_arm;

void arm(std::vector<Fault> const& f) {
  NoSut n;
  g_arm = Armed{};
  g_arm.faults = f;
  g_arm.active = true;
  sh->faults_armed += f.size();
}
void disarm(CallResult& r) {
  g_arm.active = false;
  r.alloc_faults = g_arm.alloc_fired;
  r.io_faults = g_arm.io_fired;
  r.throw_faults = g_arm.throw_fired;
  r.allocs = g_arm.allocs;
  r.io_events = g_arm.fallible;
}
static bool alloc_should_fail() {
  if (!g_arm.active) return false;
  auto const n = static_cast<int64_t>(g_arm.allocs++);
  for (auto const& f : g_arm.faults) {
    if ((f.kind == F_ALLOC && n == f.n) || (f.kind == F_ALLOC_ALL && n >= f.n)) {
      ++g_arm.alloc_fired;
      count("fault:alloc");
      log_event('F', static_cast<uint64_t>(n));
      g_nontrivial = true;
      return true;
    }
  }
  return false;
}
void maybe_throw() {
  if (!g_arm.active) return;
  auto const n = static_cast<int64_t>(g_arm.ctors++);
  for (auto const& f : g_arm.faults) {
    if (f.kind == F_THROW && n == f.n) {
      ++g_arm.throw_fired;
      count("fault:ctor_throw");
      log_event('T', static_cast<uint64_t>(n));
      g_nontrivial = true;
      NoSut s;
      throw InjectedThrow{};
    }
  }
}

static sigjmp_buf g_env;
static bool g_can_stop = false;
static bool g_in_call = false;
static __cxxabiv1::__cxa_eh_globals g_saved_eh;

[[noreturn]] static void on_terminate() {
  in_sut = false;
  if (g_in_call && g_can_stop && g_arm.io_fired + g_arm.alloc_fired > 0) {
    auto* g = reinterpret_cast<__cxxabiv1::__cxa_eh_globals*>(abi::__cxa_get_globals());
    *g = g_saved_eh;
    siglongjmp(g_env, 1);
  }
  std::string w = "std::terminate";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    } catch (std::exception const& x) {
      w += std::string(": ") + x.what();
    } catch (...) {
      w += ": unknown exception";
    }
  }
  die_with(2, O_ALL, "terminate", w.c_str());
}

CallResult call_impl(std::vector<Fault> const& faults, bool may_stop, void (*fn)(void*), void* arg) {
  static CallResult r;
  r = CallResult{};
  arm(faults);
  g_can_stop = may_stop;
  g_in_call = true;
  g_saved_eh = *reinterpret_cast<__cxxabiv1::__cxa_eh_globals*>(abi::__cxa_get_globals());
  if (sigsetjmp(g_env, 0) == 0) {
    in_sut = true;
    try {
      fn(arg);
      in_sut = false;
    } catch (EndRun const&) {
      in_sut = false;
      g_in_call = false;
      throw;
    } catch (std::bad_alloc const&) {
      in_sut = false;
      r.out = Out::bad_alloc;
    } catch (std::exception const& e) {
      in_sut = false;
      r.out = Out::threw;
      r.what = e.what();
    } catch (...) {
      in_sut = false;
      r.out = Out::threw;
      r.what = "(non-standard exception)";
    }
  } else {
    in_sut = false;
    r.out = Out::stopped;
    count("outcome:fail-stop");
  }
  g_in_call = false;
  disarm(r);
  log_event('R', static_cast<uint64_t>(r.out));
  g_path_hash = mix(g_path_hash, static_cast<uint64_t>(r.out) * 16 + static_cast<uint64_t>(r.faulted()));
  if (g_trace) {
    trace("    -> %s%s%s  [allocs=%llu io=%llu faults fired: alloc=%d io=%d throw=%d]",
          r.out == Out::ok ? "ok" : r.out == Out::bad_alloc ? "bad_alloc" : r.out == Out::threw ? "threw " : "fail-stop",
          r.what.empty() ? "" : ": ", r.what.c_str(), (unsigned long long)r.allocs, (unsigned long long)r.io_events,
          r.alloc_faults, r.io_faults, r.throw_faults);
  }
  return r;
}

// ---------------------------------------------------------------- heap
namespace heap {
constexpr uintptr_t kBase = 0x200000000000ull;
constexpr size_t kSize = 1ull << 30;
struct Block {
  size_t size;
  Kind kind;
  bool live;
  uint32_t serial;
};
static bool g_init = false;
static uintptr_t g_bump = kBase;
static uintptr_t g_high = kBase;
static Rng g_rng{1};
static std::map<uintptr_t, Block>* g_blocks = nullptr;
static uint64_t g_live = 0, g_live_bytes = 0, g_total = 0;

static void init() {
  if (g_init) return;
  g_init = true;
  void* p = __real_mmap(reinterpret_cast<void*>(kBase), kSize, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(kBase)) {
    fprintf(stderr, "cannot map the simulated heap\n");
    _exit(9);
  }
  g_blocks = new std::map<uintptr_t, Block>();
  ASAN_POISON_MEMORY_REGION(p, kSize);
}
bool contains(void const* p) {
  auto a = reinterpret_cast<uintptr_t>(p);
  return a >= kBase && a < kBase + kSize;
}
std::pair<uint8_t*, size_t> extent() { return {reinterpret_cast<uint8_t*>(kBase), g_bump - kBase}; }
void reset(uint64_t seed) {
  NoSut n;
  init();
  if (g_high > kBase) {
    size_t used = (g_high - kBase + 4095) & ~size_t(4095);
    ASAN_POISON_MEMORY_REGION(reinterpret_cast<void*>(kBase), used);
    if (used > (4u << 20)) madvise(reinterpret_cast<void*>(kBase), used, MADV_DONTNEED);
  }
  g_bump = g_high = kBase;
  g_blocks->clear();
  g_rng = Rng{mix(seed, 0x4845)};
  g_live = g_live_bytes = g_total = 0;
}
static void* place(size_t n, size_t align, size_t misalign, Kind kind) {
  if (n > kSize / 2) return nullptr;
  uintptr_t a = g_bump + 32 + 16 * g_rng.below(12);
  size_t al = align < 16 ? 16 : align;
  a = (a + al - 1) & ~(al - 1);
  // avoid accidental over-alignment: a block is often aligned to no more
  // than what was asked for
  if (g_rng.chance(700) && (a & (2 * al - 1)) == 0) a += al;
  a += misalign;
  if (a + n + 64 > kBase + kSize) throw EndRun{};
  g_bump = (a + n + 7) & ~uintptr_t(7);
  if (g_bump > g_high) g_high = g_bump;
  if ((a & 7) != 0) ASAN_UNPOISON_MEMORY_REGION(reinterpret_cast<void*>(a & ~uintptr_t(7)), n + (a & 7));
  ASAN_UNPOISON_MEMORY_REGION(reinterpret_cast<void*>(a), n);
  unsigned char pat = static_cast<unsigned char>(0x80 | g_rng.below(127));
  std::memset(reinterpret_cast<void*>(a), pat, n);
  (*g_blocks)[a] = Block{n, kind, true, static_cast<uint32_t>(g_total)};
  return reinterpret_cast<void*>(a);
}
static void* alloc(size_t n, size_t align, Kind kind, bool zero = false) {
  NoSut s;
  if (alloc_should_fail()) return nullptr;
  ++g_total;
  void* p = place(n, align, 0, kind);
  if (p == nullptr) return nullptr;
  ++g_live;
  g_live_bytes += n;
  log_event('A', n);
  if (zero) std::memset(p, 0, n);
  return p;
}
static char const* kname(Kind k) {
  return k == MALLOC ? "malloc" : k == NEW ? "new" : k == NEW_ARR ? "new[]" : "image/caller memory";
}
static void release(void* p, Kind kind, char const* fn) {
  NoSut s;
  auto a = reinterpret_cast<uintptr_t>(p);
  auto it = g_blocks->find(a);
  char buf[256];
  if (it == g_blocks->end()) {
    auto up = g_blocks->upper_bound(a);
    bool inside = false;
    if (up != g_blocks->begin()) {
      --up;
      inside = a < up->first + up->second.size;
    }
    snprintf(buf, sizeof(buf), "%s of a pointer that is not the start of a block (%s)", fn,
             inside ? (std::string("inside a block from ") + kname(up->second.kind)).c_str() : "outside any block");
    hook_violation("bad-free", buf);
  }
  auto& b = it->second;
  if (!b.live) {
    snprintf(buf, sizeof(buf), "%s: block #%u of %zu bytes freed twice", fn, b.serial, b.size);
    hook_violation("double-free", buf);
  }
  if (b.kind != kind) {
    snprintf(buf, sizeof(buf), "%s of %zu bytes obtained from %s", fn, b.size, kname(b.kind));
    hook_violation("mismatched-free", buf);
  }
  b.live = false;
  --g_live;
  g_live_bytes -= b.size;
  log_event('D', b.serial);
  std::memset(p, 0xDD, b.size);
  ASAN_POISON_MEMORY_REGION(reinterpret_cast<void*>(a), b.size);
}
void* image_alloc(size_t n, size_t align, size_t misalign) {
  NoSut s;
  init();
  return place(n == 0 ? 1 : n, align, misalign, IMAGE);
}
void image_free(void* p) {
  NoSut s;
  auto it = g_blocks->find(reinterpret_cast<uintptr_t>(p));
  if (it == g_blocks->end() || !it->second.live || it->second.kind != IMAGE) hook_violation("bad-free", "image block vanished");
  it->second.live = false;
  std::memset(p, 0xDD, it->second.size);
  ASAN_POISON_MEMORY_REGION(p, it->second.size);
}
uint64_t live_blocks() { return g_live; }
uint64_t live_bytes() { return g_live_bytes; }
uint64_t total_allocs() { return g_total; }
bool in_image(void const* p) {
  NoSut s;
  auto a = reinterpret_cast<uintptr_t>(p);
  auto it = g_blocks->upper_bound(a);
  if (it == g_blocks->begin()) return false;
  --it;
  return it->second.kind == IMAGE && a < it->first + it->second.size;
}
bool in_live(void const* p, size_t n) {
  NoSut s;
  auto a = reinterpret_cast<uintptr_t>(p);
  auto it = g_blocks->upper_bound(a);
  if (it == g_blocks->begin()) return false;
  --it;
  return it->second.live && a >= it->first && a + n <= it->first + it->second.size;
}
std::string describe_live() {
  NoSut s;
  std::ostringstream o;
  int k = 0;
  for (auto const& [a, b] : *g_blocks) {
    if (b.live && b.kind != IMAGE && k++ < 6) o << " #" << b.serial << "(" << kname(b.kind) << " " << b.size << "B)";
  }
  return o.str();
}
long g_objects;
void expect_no_leak(char const* where) {
  if (g_objects != 0) {
    violation(O_MEM, "object-balance", std::string(where) + ": " + std::to_string(g_objects) + " more objects constructed than destroyed");
  }
  if (g_live != 0) {
    violation(O_MEM, "leak", std::string(where) + ": " + std::to_string(g_live) + " blocks never freed:" + describe_live());
  }
}
void forget_all() {
  NoSut s;
  for (auto& [a, b] : *g_blocks) {
    if (b.live && b.kind != IMAGE) {
      b.live = false;
      ASAN_POISON_MEMORY_REGION(reinterpret_cast<void*>(a), b.size);
    }
  }
  g_live = g_live_bytes = 0;
  g_objects = 0;
}
}  // namespace heap

// ---------------------------------------------------------------- disk
namespace disk {
constexpr uintptr_t kMapBase = 0x300000000000ull;
struct File {
  int fd{-1};
  bool exists{false};
  Bytes durable;
  bool durable_exists{false};
};
struct Stream {
  uint32_t magic{0x51D1};
  File* f{nullptr};
  bool open{false}, readable{false}, writable{false}, err{false}, eof{false};
  uint64_t pos{0};
  Bytes wbuf;
  uint64_t wpos{0};
  int fakefd{-1};
  size_t bufsz{4096};
  std::string path;
};
struct Mapping {
  uintptr_t addr;
  size_t len;
  File* f;
  uint64_t off;
  bool writable;
  std::vector<bool> live;
};
struct Snapshot {
  struct S {
    File* f;
    Bytes cache;
    bool exists;
    Bytes durable;
    bool durable_exists;
  };
  std::vector<S> files;
  bool power{false};
  uint64_t seed{0};
};
static std::map<std::string, std::unique_ptr<File>>* g_files = nullptr;
static std::vector<std::unique_ptr<Stream>>* g_streams = nullptr;
static std::vector<Mapping>* g_maps = nullptr;
static uintptr_t g_next_map = kMapBase;
static Rng g_rng{1};
static bool g_crashed = false;
static Snapshot* g_snap = nullptr;
static uint64_t g_events = 0;
constexpr int kFdBase = 1 << 20;
static void* g_last_map = nullptr;
static size_t g_last_len = 0;

static uint64_t flen(File* f) {
  struct stat st;
  if (f->fd < 0 || __real_fstat(f->fd, &st) != 0) return 0;
  return static_cast<uint64_t>(st.st_size);
}
static Bytes slurp(File* f) {
  Bytes b(flen(f));
  size_t o = 0;
  while (o < b.size()) {
    auto r = __real_pread(f->fd, b.data() + o, b.size() - o, static_cast<off_t>(o));
    if (r <= 0) break;
    o += static_cast<size_t>(r);
  }
  return b;
}
static void store(File* f, Bytes const& b) {
  if (f->fd < 0) f->fd = memfd_create("simdisk", MFD_CLOEXEC);
  if (__real_ftruncate(f->fd, 0) != 0 || __real_ftruncate(f->fd, static_cast<off_t>(b.size())) != 0) _exit(9);
  size_t o = 0;
  while (o < b.size()) {
    auto r = __real_pwrite(f->fd, b.data() + o, b.size() - o, static_cast<off_t>(o));
    if (r <= 0) _exit(9);
    o += static_cast<size_t>(r);
  }
}
static File* lookup(std::string const& p, bool create) {
  auto it = g_files->find(p);
  if (it == g_files->end()) {
    if (!create) return nullptr;
    it = g_files->emplace(p, std::make_unique<File>()).first;
  }
  if (!it->second->exists) {
    if (!create) return nullptr;
    it->second->exists = true;
    store(it->second.get(), {});
  }
  return it->second.get();
}
static void drop_maps() {
  for (auto& m : *g_maps) {
    for (size_t i = 0; i < m.live.size(); ++i) {
      if (m.live[i]) __real_munmap(reinterpret_cast<void*>(m.addr + i * 4096), 4096);
    }
  }
  g_maps->clear();
}
void reset(uint64_t seed) {
  NoSut n;
  if (g_files == nullptr) {
    g_files = new std::map<std::string, std::unique_ptr<File>>();
    g_streams = new std::vector<std::unique_ptr<Stream>>();
    g_maps = new std::vector<Mapping>();
  }
  drop_maps();
  g_streams->clear();
  for (auto& [p, f] : *g_files) {
    if (f->fd >= 0) close(f->fd);
  }
  g_files->clear();
  g_next_map = kMapBase;
  g_rng = Rng{mix(seed, 0x4453)};
  g_crashed = false;
  delete g_snap;
  g_snap = nullptr;
  g_events = 0;
  g_last_map = nullptr;
}
uint64_t events() { return g_events; }
bool crashed() { return g_crashed; }

static void take_snapshot(bool power, uint64_t seed) {
  g_snap = new Snapshot();
  g_snap->power = power;
  g_snap->seed = seed;
  for (auto& [p, f] : *g_files) {
    g_snap->files.push_back({f.get(), f->exists ? slurp(f.get()) : Bytes{}, f->exists, f->durable, f->durable_exists});
  }
}
// one I/O event; true: this event has to fail
static bool event(char const* what, bool fallible, int64_t* arg = nullptr) {
  ++g_events;
  ++sh->events;
  advance_time(20000 + g_rng.below(2000000));
  log_event('I', static_cast<uint64_t>(what[0]) * 257 + static_cast<uint64_t>(what[1]));
  if (g_crashed) return false;
  bool fail = false;
  if (g_arm.active) {
    auto const n = static_cast<int64_t>(g_arm.io++);
    for (auto const& f : g_arm.faults) {
      if ((f.kind == F_CRASH || f.kind == F_POWER) && n == f.n) {
        take_snapshot(f.kind == F_POWER, mix(static_cast<uint64_t>(f.arg), 5));
        g_crashed = true;
        g_nontrivial = true;
        count(f.kind == F_CRASH ? "fault:process_crash" : "fault:power_loss");
        log_event('C', static_cast<uint64_t>(n));
        if (g_trace) trace("      * %s at I/O event %lld (%s)", f.kind == F_CRASH ? "process crash" : "power loss", (long long)n, what);
        return false;
      }
    }
    if (fallible) {
      auto const k = static_cast<int64_t>(g_arm.fallible++);
      for (auto const& f : g_arm.faults) {
        if ((f.kind == F_IO && k == f.n) || (f.kind == F_IO_ALL && k >= f.n)) {
          ++g_arm.io_fired;
          g_nontrivial = true;
          char b[48];
          snprintf(b, sizeof(b), "fault:%s", what);
          count(b);
          log_event('X', static_cast<uint64_t>(k));
          if (g_trace) trace("      * injected failure of %s (fallible event %lld)", what, (long long)k);
          if (arg) *arg = f.arg;
          fail = true;
        }
      }
    }
  }
  if (g_trace && !fail && g_arm.active) trace("      . %s", what);
  return fail;
}

static Stream* as_stream(FILE* fp) {
  if (g_streams == nullptr) return nullptr;
  for (auto& s : *g_streams) {
    if (reinterpret_cast<FILE*>(s.get()) == fp) return s.get();
  }
  return nullptr;
}
static Stream* by_fd(int fd) {
  if (fd < kFdBase || g_streams == nullptr) return nullptr;
  auto i = static_cast<size_t>(fd - kFdBase);
  if (i >= g_streams->size()) return nullptr;
  return (*g_streams)[i].get();
}
static void need_open(Stream* s, char const* fn) {
  if (!s->open) hook_violation("use-after-close", std::string(fn) + " on a closed file handle");
}
static bool raw_write(File* f, uint8_t const* d, size_t n, uint64_t pos) {
  size_t o = 0;
  while (o < n) {
    auto r = __real_pwrite(f->fd, d + o, n - o, static_cast<off_t>(pos + o));
    if (r <= 0) _exit(9);
    o += static_cast<size_t>(r);
  }
  return true;
}
static bool flush(Stream* s) {
  if (s->wbuf.empty()) return true;
  int64_t arg = 0;
  Bytes b;
  b.swap(s->wbuf);
  if (event("write", true, &arg)) {
    size_t part = b.size() * static_cast<size_t>(arg % 1000) / 1000;
    raw_write(s->f, b.data(), part, s->wpos);
    s->err = true;
    errno = (arg & 1) ? ENOSPC : EIO;
    return false;
  }
  raw_write(s->f, b.data(), b.size(), s->wpos);
  return true;
}

Bytes content(char const* path) {
  NoSut n;
  auto f = lookup(path, false);
  return f ? slurp(f) : Bytes{};
}
void set_content(char const* path, Bytes const& b) {
  NoSut n;
  auto f = lookup(path, true);
  store(f, b);
  f->durable = b;
  f->durable_exists = true;
}
bool exists(char const* path) { NoSut n; return lookup(path, false) != nullptr; }
int64_t size(char const* path) {
  NoSut n;
  auto f = lookup(path, false);
  return f ? static_cast<int64_t>(flen(f)) : -1;
}
void remove(char const* path) {
  NoSut n;
  auto f = lookup(path, false);
  if (f) f->exists = false, f->durable_exists = false, f->durable.clear();
}
unsigned open_streams() {
  unsigned n = 0;
  for (auto& s : *g_streams) n += s->open;
  return n;
}
uint64_t mapped_pages() {
  uint64_t n = 0;
  for (auto& m : *g_maps)
    for (bool l : m.live) n += l;
  return n;
}
std::string describe_open() {
  return std::to_string(open_streams()) + " open file handles, " + std::to_string(mapped_pages()) + " mapped pages";
}
void expect_released(char const* where) {
  if (open_streams() != 0 || mapped_pages() != 0) {
    violation(O_MEM, "fd-or-mapping-leak", std::string(where) + ": left behind " + describe_open());
  }
}
void expect_released_count(unsigned n) {
  if (open_streams() != n) {
    violation(O_MEM, "fd-or-mapping-leak", "failed open left file handles behind: " + std::to_string(open_streams()) + " open, " + std::to_string(n) + " in use");
  }
}
void* last_mapping(size_t* len) {
  if (len) *len = g_last_len;
  return g_last_map;
}
void sync_all() {
  NoSut n;
  for (auto& [p, f] : *g_files) {
    if (f->exists) f->durable = slurp(f.get());
    f->durable_exists = f->exists;
  }
}
static void apply(Snapshot* s) {
  drop_maps();
  for (auto& st : *g_streams) {
    st->open = false;
    st->wbuf.clear();
  }
  heap::forget_all();
  // files created after that moment never existed
  for (auto& [p, f] : *g_files) {
    if (std::any_of(s->files.begin(), s->files.end(), [&](auto const& x) { return x.f == f.get(); })) continue;
    if (f->fd >= 0) close(f->fd);
    f->fd = -1;
    f->exists = f->durable_exists = false;
    f->durable.clear();
  }
  for (auto& x : s->files) {
    File* f = x.f;
    Bytes img = x.cache;
    bool ex = x.exists;
    if (s->power) {
      Rng r{s->seed};
      unsigned keep = static_cast<unsigned>(r.pick({0, 200, 500, 800, 1000}));
      bool newlen = r.chance(600);
      Bytes out = x.durable;
      ex = x.durable_exists || x.exists;
      out.resize(newlen ? x.cache.size() : x.durable.size());
      for (size_t o = 0; o < out.size(); o += 512) {
        size_t n = std::min<size_t>(512, out.size() - o);
        bool take = r.chance(keep);
        if (!take || o >= x.cache.size()) continue;
        size_t m = std::min(n, x.cache.size() - o);
        if (r.chance(30)) m = r.below(m + 1);  // torn sector
        std::memcpy(out.data() + o, x.cache.data() + o, m);
      }
      img = out;
    }
    // a fresh page cache: zombies keep writing to the old one
    if (f->fd >= 0) close(f->fd);
    f->fd = -1;
    f->exists = ex;
    store(f, img);
    if (s->power) {
      f->durable = img;
      f->durable_exists = ex;
    } else {
      f->durable = x.durable;
      f->durable_exists = x.durable_exists;
    }
  }
}
void reboot() {
  NoSut n;
  if (g_snap == nullptr) take_snapshot(false, 1);
  apply(g_snap);
  delete g_snap;
  g_snap = nullptr;
  g_crashed = false;
}
void power_loss_now(uint64_t seed) {
  NoSut n;
  delete g_snap;
  g_snap = nullptr;
  take_snapshot(true, seed);
  count("fault:power_loss");
  apply(g_snap);
  delete g_snap;
  g_snap = nullptr;
  g_crashed = false;
  g_nontrivial = true;
}
}  // namespace disk

// ---------------------------------------------------------------- driver
static char g_asan_buf[8192];
static void parse_asan(char const* rep) {
  char const* p = std::strstr(rep, "AddressSanitizer: ");
  if (p != nullptr) {
    p += 18;
    size_t i = 0;
    while (p[i] && p[i] != ' ' && p[i] != '\n' && i < 60) {
      ++i;
    }
    snprintf(sh->sig, sizeof(sh->sig), "asan:%.*s", static_cast<int>(i), p);
    snprintf(sh->msg, sizeof(sh->msg), "%.1500s", p);
  } else {
    snprintf(sh->sig, sizeof(sh->sig), "sanitizer");
    snprintf(sh->msg, sizeof(sh->msg), "%.1500s", rep);
  }
  sh->oracle = O_ALL;
  sh->status = 2;
  (void)g_asan_buf;
}
static void on_prof(int) {
  sh->status = 2;
  sh->oracle = O_ALL;
  std::strcpy(sh->sig, "hang");
  std::strcpy(sh->msg, "no progress: the run used up its CPU budget");
  _exit(3);
}
static int g_hang_s = 20;
static void watchdog(int s) {
  itimerval t{};
  t.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &t, nullptr);
}
static Harness const* find_harness(std::string const& n) {
  for (auto const& h : harnesses())
    if (n == h.name) return &h;
  return nullptr;
}
static void run_plan(Plan const& p) {
  auto h = find_harness(p.harness);
  if (h == nullptr) {
    fprintf(stderr, "unknown harness %s\n", p.harness.c_str());
    _exit(9);
  }
  std::strncpy(sh->harness, h->name, sizeof(sh->harness) - 1);
  sh->run_hash = 0xcbf29ce484222325ull;
  sh->run_events = 0;
  g_time = 0;
  g_nontrivial = false;
  g_path_hash = 1;
  in_sut = false;
  g_arm = Armed{};
  heap::g_objects = 0;
  heap::reset(p.seed);
  disk::reset(p.seed);
  watchdog(g_hang_s);
  try {
    h->exec(p);
  } catch (EndRun const&) {
    in_sut = false;
    count("runs_ended_early");
  } catch (std::exception const& e) {
    in_sut = false;
    die_with(2, O_ALL, "unexpected-exception", e.what());
  }
  in_sut = false;
  watchdog(0);
  ++sh->runs;
  sh->ops += p.ops.size();
  sh->sim_ns += g_time;
  sh->all_hash = mix(sh->all_hash, sh->run_hash);
  if (g_nontrivial) {
    ++sh->nontrivial_runs;
    set_insert(sh->paths, sh->n_paths, sh->run_hash);
  }
}
static Plan make_plan(uint64_t seed, int tier, std::string const& only) {
  auto const& hs = harnesses();
  Rng r{seed};
  Harness const* h;
  if (!only.empty()) {
    h = find_harness(only);
    if (!h) {
      fprintf(stderr, "no harness %s\n", only.c_str());
      _exit(9);
    }
  } else {
    h = &hs[seed % hs.size()];
  }
  Plan p = h->gen(r, tier);
  p.harness = h->name;
  if (p.seed == 0) p.seed = mix(seed, 0xbeef);
  return p;
}

struct Result {
  uint64_t status;
  std::string sig, msg;
  uint64_t hash;
};
static Result run_child(Plan const& p) {
  static Shared* cs = nullptr;
  if (cs == nullptr) cs = map_shared(nullptr);
  cs->status = 0;
  cs->sig[0] = cs->msg[0] = 0;
  cs->run_hash = 0;
  for (auto& c : cs->counters) c.name[0] = 0;
  cs->n_states = cs->n_paths = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    sh = cs;
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    dup2(dn, 2);
    g_trace = false;
    run_plan(p);
    sh->status = 1;
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Result r;
  r.status = cs->status;
  r.sig = cs->sig;
  r.msg = cs->msg;
  r.hash = cs->run_hash;
  if (r.status != 1 && r.status != 2) {
    r.status = 2;
    r.sig = "died";
    r.msg = "process died, wait status " + std::to_string(st);
  }
  return r;
}
static double now_s() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static Plan minimise(Plan p, std::string const& sig, double budget) {
  double const end = now_s() + budget;
  auto bad = [&](Plan const& q) {
    if (now_s() > end) return false;
    auto r = run_child(q);
    return r.status == 2 && r.sig == sig;
  };
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < p.ops.size();) {
        Plan q = p;
        auto e = std::min(p.ops.size(), i + chunk);
        q.ops.erase(q.ops.begin() + static_cast<long>(i), q.ops.begin() + static_cast<long>(e));
        if (bad(q)) {
          p = q;
          progress = true;
        } else {
          i += chunk;
        }
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < p.ops.size(); ++i) {
      for (size_t k = 0; k < p.ops[i].f.size();) {
        Plan q = p;
        q.ops[i].f.erase(q.ops[i].f.begin() + static_cast<long>(k));
        if (bad(q)) {
          p = q;
          progress = true;
        } else {
          ++k;
        }
      }
    }
    auto shrink = [&](auto&& get) {
      for (int tries = 0; tries < 24; ++tries) {
        int64_t v = get(p);
        if (v == 0) return;
        bool done = false;
        for (int64_t cand : {int64_t{0}, int64_t{1}, v / 2, v - (v > 0 ? 1 : -1)}) {
          if (cand == v || (v > 0 && cand > v)) continue;
          Plan q = p;
          get(q) = cand;
          if (bad(q)) {
            p = q;
            progress = true;
            done = true;
            break;
          }
        }
        if (!done) return;
      }
    };
    for (size_t i = 0; i < p.ops.size(); ++i) {
      shrink([i](Plan& q) -> int64_t& { return q.ops[i].a; });
      shrink([i](Plan& q) -> int64_t& { return q.ops[i].b; });
      shrink([i](Plan& q) -> int64_t& { return q.ops[i].c; });
      for (size_t k = 0; k < p.ops[i].f.size(); ++k) {
        shrink([i, k](Plan& q) -> int64_t& { return q.ops[i].f[k].n; });
        shrink([i, k](Plan& q) -> int64_t& { return q.ops[i].f[k].arg; });
      }
    }
    for (size_t i = 0; i < p.cfg.size(); ++i) {
      shrink([i](Plan& q) -> int64_t& { return q.cfg[i]; });
    }
  }
  return p;
}

static std::string read_file(char const* p) {
  std::string s;
  FILE* f = __real_fopen(p, "r");
  if (!f) {
    perror(p);
    _exit(9);
  }
  char b[4096];
  size_t n;
  while ((n = __real_fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
  __real_fclose(f);
  return s;
}
static void print_plan(Plan const& p) {
  auto h = find_harness(p.harness);
  std::string t = to_text(p);
  std::istringstream in{t};
  std::string l;
  size_t k = 0;
  while (std::getline(in, l)) {
    if (l.rfind("op ", 0) == 0 && h && h->op_name) {
      l += "   # ";
      l += h->op_name(p.ops[k].code);
      for (auto& f : p.ops[k].f) l += std::string(" !") + fault_name(f.kind) + "@" + std::to_string(f.n);
      ++k;
    }
    puts(l.c_str());
  }
}
}  // namespace sim

extern "C" char const* __asan_default_options() {
  return "detect_leaks=0:handle_abort=1:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "symbolize=0:max_allocation_size_mb=2000:allow_user_segv_handler=0:handle_sigbus=1:intercept_tls_get_addr=0";
}

int main(int argc, char** argv) {
  using namespace sim;
  std::map<std::string, std::string> a;
  std::string mode = argc > 1 ? argv[1] : "";
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string s = argv[i];
    if (s.rfind("--", 0) == 0) {
      auto e = s.find('=');
      a[s.substr(2, e == std::string::npos ? e : e - 2)] = e == std::string::npos ? "1" : s.substr(e + 1);
    } else {
      pos.push_back(s);
    }
  }
  auto num = [&](char const* k, uint64_t d) { return a.count(k) ? std::stoull(a[k]) : d; };
  sh = map_shared(a.count("out") ? a["out"].c_str() : nullptr);
  sh->status = 0;
  g_mask = static_cast<unsigned>(num("mask", O_ALL));
  g_hang_s = static_cast<int>(num("hang", 20));
  g_trace = a.count("trace") > 0;
  std::set_terminate(on_terminate);
  signal(SIGPROF, on_prof);
#ifdef SIM_ASAN
  __asan_set_error_report_callback(parse_asan);
#else
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT}) {
    signal(s, [](int n) {
      sh->status = 2;
      sh->oracle = O_ALL;
      snprintf(sh->sig, sizeof(sh->sig), "signal:%d", n);
      snprintf(sh->msg, sizeof(sh->msg), "killed by signal %d", n);
      _exit(3);
    });
  }
#endif
  int tier = static_cast<int>(num("tier", 0));
  std::string only = a.count("harness") ? a["harness"] : "";
  if (mode == "run") {
    uint64_t start = num("start", 1), stride = num("stride", 1), n = num("count", ~0ull);
    double end = now_s() + static_cast<double>(num("time", 1000000));
    for (uint64_t i = 0; i < n && now_s() < end; ++i) {
      uint64_t seed = start + i * stride;
      sh->cur_seed = seed;
      run_plan(make_plan(seed, tier, only));
    }
    sh->status = 1;
    return 0;
  }
  if (mode == "gen") {
    print_plan(make_plan(std::stoull(pos.at(0)), tier, only));
    return 0;
  }
  if (mode == "replay") {
    Plan p = from_text(read_file(pos.at(0).c_str()));
    if (g_trace) print_plan(p);
    run_plan(p);
    sh->status = 1;
    return 0;
  }
  if (mode == "minimise") {  // minimise IN OUT --sig=...
    Plan p = from_text(read_file(pos.at(0).c_str()));
    Plan q = minimise(p, a["sig"], static_cast<double>(num("time", 30)));
    FILE* f = __real_fopen(pos.at(1).c_str(), "w");
    std::string t = to_text(q);
    __real_fwrite(t.data(), 1, t.size(), f);
    __real_fclose(f);
    return 0;
  }
  fprintf(stderr, "usage: run|gen|replay|minimise\n");
  return 9;
}

// ---------------------------------------------------------------- wrappers
using namespace sim;
extern "C" {
void* __wrap_malloc(size_t n) { return in_sut ? heap::alloc(n, 16, heap::MALLOC) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) {
  return in_sut ? heap::alloc(a * b, 16, heap::MALLOC, true) : __real_calloc(a, b);
}
void __wrap_free(void* p) {
  if (p == nullptr) return;
  if (heap::contains(p)) {
    heap::release(p, heap::MALLOC, "free");
  } else if (in_sut) {
    hook_violation("bad-free", "free of a pointer that was never allocated by the library");
  } else {
    __real_free(p);
  }
}
void* __wrap_realloc(void* p, size_t n) {
  if (!in_sut) return __real_realloc(p, n);
  void* q = heap::alloc(n, 16, heap::MALLOC);
  if (q != nullptr && p != nullptr) {
    NoSut s;
    auto it = heap::g_blocks->find(reinterpret_cast<uintptr_t>(p));
    if (it == heap::g_blocks->end() || !it->second.live) hook_violation("bad-free", "realloc of a foreign pointer");
    std::memcpy(q, p, std::min(n, it->second.size));
    heap::release(p, heap::MALLOC, "realloc");
  }
  return q;
}
void* __wrap_aligned_alloc(size_t al, size_t n) {
  return in_sut ? heap::alloc(n, al, heap::MALLOC) : __real_aligned_alloc(al, n);
}
int __wrap_posix_memalign(void** p, size_t al, size_t n) {
  if (!in_sut) return __real_posix_memalign(p, al, n);
  *p = heap::alloc(n, al, heap::MALLOC);
  return *p ? 0 : ENOMEM;
}

FILE* __wrap_fopen(char const* path, char const* mode) {
  if (std::strncmp(path, "/simdisk/", 9) != 0) return __real_fopen(path, mode);
  NoSut ns;
  if (disk::event("fopen", true)) {
    errno = EMFILE;
    return nullptr;
  }
  bool plus = std::strchr(mode, '+') != nullptr;
  bool create = mode[0] == 'w';
  auto f = disk::lookup(path, create);
  if (f == nullptr) {
    errno = ENOENT;
    return nullptr;
  }
  if (create) disk::store(f, {});
  auto s = std::make_unique<disk::Stream>();
  s->f = f;
  s->open = true;
  s->readable = mode[0] == 'r' || plus;
  s->writable = mode[0] != 'r' || plus;
  s->path = path;
  s->fakefd = disk::kFdBase + static_cast<int>(disk::g_streams->size());
  s->bufsz = disk::g_rng.pick<size_t>({1, 7, 64, 512, 4096, 4096, 65536});
  auto r = s.get();
  disk::g_streams->push_back(std::move(s));
  return reinterpret_cast<FILE*>(r);
}
#define STREAM(fp, real)                      \
  auto s = disk::as_stream(fp);               \
  if (s == nullptr) return real;              \
  NoSut ns_;                                  \
  disk::need_open(s, __func__ + 7);

int __wrap_fclose(FILE* fp) {
  STREAM(fp, __real_fclose(fp))
  bool ok = disk::flush(s);
  if (disk::event("close", false)) ok = false;
  s->open = false;
  return ok ? 0 : EOF;
}
size_t __wrap_fread(void* p, size_t sz, size_t n, FILE* fp) {
  STREAM(fp, __real_fread(p, sz, n, fp))
  if (!disk::flush(s)) return 0;
  size_t want = sz * n;
  if (want == 0) return 0;
  int64_t arg = 0;
  bool fail = disk::event("read", true, &arg);
  size_t lim = fail ? want * static_cast<size_t>(arg % 1000) / 1000 : want;
  if (!s->readable) lim = 0, fail = true;
  size_t o = 0;
  uint64_t len = disk::flen(s->f);
  size_t avail = s->pos >= len ? 0 : std::min<uint64_t>(lim, len - s->pos);
  while (o < avail) {
    std::vector<uint8_t> tmp(std::min<size_t>(avail - o, 1 << 16));
    auto r = __real_pread(s->f->fd, tmp.data(), tmp.size(), static_cast<off_t>(s->pos + o));
    if (r <= 0) break;
    std::memcpy(static_cast<uint8_t*>(p) + o, tmp.data(), static_cast<size_t>(r));
    o += static_cast<size_t>(r);
  }
  s->pos += o;
  if (o < want) {
    if (fail && (arg & 1)) {
      s->err = true;
      errno = EIO;
    } else {
      s->eof = true;
    }
  }
  return o / sz;
}
size_t __wrap_fwrite(void const* p, size_t sz, size_t n, FILE* fp) {
  STREAM(fp, __real_fwrite(p, sz, n, fp))
  size_t want = sz * n;
  if (want == 0) return 0;
  if (!s->writable) {
    s->err = true;
    errno = EBADF;
    return 0;
  }
  if (!s->wbuf.empty() && s->wpos + s->wbuf.size() != s->pos) {
    if (!disk::flush(s)) return 0;
  }
  if (s->wbuf.empty()) s->wpos = s->pos;
  auto d = static_cast<uint8_t const*>(p);
  size_t o = 0;
  while (o < want) {
    size_t room = s->bufsz > s->wbuf.size() ? s->bufsz - s->wbuf.size() : 1;
    size_t m = std::min(room, want - o);
    if (s->bufsz <= 64 && want - o > 64) m = want - o;  // unbuffered-like: one big write
    size_t at = s->wbuf.size();
    s->wbuf.resize(at + m);
    std::memcpy(s->wbuf.data() + at, d + o, m);
    if (s->wbuf.size() >= s->bufsz) {
      uint64_t nw = s->wpos + s->wbuf.size();
      if (!disk::flush(s)) {
        s->pos = nw;
        return o / sz;
      }
      s->wpos = nw;
    }
    o += m;
    s->pos += m;
  }
  return n;
}
static int do_seek(disk::Stream* s, int64_t off, int wh) {
  if (!disk::flush(s)) return -1;
  if (disk::event("seek", true)) {
    errno = EIO;
    return -1;
  }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<int64_t>(s->pos) : static_cast<int64_t>(disk::flen(s->f));
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  s->pos = static_cast<uint64_t>(base + off);
  s->eof = false;
  return 0;
}
int __wrap_fseek(FILE* fp, long off, int wh) {
  STREAM(fp, __real_fseek(fp, off, wh))
  return do_seek(s, off, wh);
}
int __wrap_fseeko(FILE* fp, off_t off, int wh) {
  STREAM(fp, __real_fseeko(fp, off, wh))
  return do_seek(s, off, wh);
}
long __wrap_ftell(FILE* fp) {
  STREAM(fp, __real_ftell(fp))
  if (disk::event("tell", true)) return -1;
  return static_cast<long>(s->pos);
}
off_t __wrap_ftello(FILE* fp) {
  STREAM(fp, __real_ftello(fp))
  if (disk::event("tell", true)) return -1;
  return static_cast<off_t>(s->pos);
}
void __wrap_rewind(FILE* fp) {
  auto s = disk::as_stream(fp);
  if (s == nullptr) return __real_rewind(fp);
  NoSut n;
  do_seek(s, 0, SEEK_SET);
  s->err = false;
}
int __wrap_fflush(FILE* fp) {
  if (fp == nullptr) return __real_fflush(fp);
  STREAM(fp, __real_fflush(fp))
  return disk::flush(s) ? 0 : EOF;
}
int __wrap_fileno(FILE* fp) {
  STREAM(fp, __real_fileno(fp))
  return s->fakefd;
}
int __wrap_feof(FILE* fp) {
  STREAM(fp, __real_feof(fp))
  return s->eof;
}
int __wrap_ferror(FILE* fp) {
  STREAM(fp, __real_ferror(fp))
  return s->err;
}
void __wrap_clearerr(FILE* fp) {
  auto s = disk::as_stream(fp);
  if (s == nullptr) return __real_clearerr(fp);
  s->err = s->eof = false;
}
int __wrap_setvbuf(FILE* fp, char* b, int m, size_t n) {
  STREAM(fp, __real_setvbuf(fp, b, m, n))
  return 0;
}
#define FD(fd, real)                                                                       \
  auto s = disk::by_fd(fd);                                                                \
  if (s == nullptr) {                                                                      \
    if (fd >= disk::kFdBase) hook_violation("use-after-close", "unknown file descriptor"); \
    return real;                                                                           \
  }                                                                                        \
  NoSut ns_;                                                                               \
  disk::need_open(s, __func__ + 7);

int __wrap_fstat(int fd, struct stat* st) {
  FD(fd, __real_fstat(fd, st))
  if (disk::event("fstat", true)) {
    errno = EIO;
    return -1;
  }
  std::memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = static_cast<off_t>(disk::flen(s->f));
  st->st_blksize = 4096;
  return 0;
}
int __wrap_stat(char const* p, struct stat* st) {
  if (std::strncmp(p, "/simdisk/", 9) != 0) return __real_stat(p, st);
  NoSut n;
  auto f = disk::lookup(p, false);
  if (f == nullptr) {
    errno = ENOENT;
    return -1;
  }
  if (disk::event("stat", true)) {
    errno = EIO;
    return -1;
  }
  std::memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_size = static_cast<off_t>(disk::flen(f));
  return 0;
}
int __wrap_ftruncate(int fd, off_t len) {
  FD(fd, __real_ftruncate(fd, len))
  bool grow = static_cast<uint64_t>(len) > disk::flen(s->f);
  if (!s->writable || len < 0) {
    errno = EINVAL;
    return -1;
  }
  if (disk::event(grow ? "ftruncate_grow" : "ftruncate_shrink", true)) {
    errno = grow ? ENOSPC : EIO;
    return -1;
  }
  if (__real_ftruncate(s->f->fd, len) != 0) _exit(9);
  return 0;
}
int __wrap_fsync(int fd) {
  FD(fd, __real_fsync(fd))
  if (disk::event("fsync", true)) {
    errno = EIO;
    return -1;
  }
  if (!disk::g_crashed) s->f->durable = disk::slurp(s->f), s->f->durable_exists = true;
  return 0;
}
int __wrap_fdatasync(int fd) { return fd >= disk::kFdBase ? __wrap_fsync(fd) : __real_fdatasync(fd); }
ssize_t __wrap_pread(int fd, void* p, size_t n, off_t o) {
  FD(fd, __real_pread(fd, p, n, o))
  int64_t arg = 0;
  if (disk::event("pread", true, &arg)) {
    errno = EIO;
    return -1;
  }
  return __real_pread(s->f->fd, p, n, o);
}
ssize_t __wrap_pwrite(int fd, void const* p, size_t n, off_t o) {
  FD(fd, __real_pwrite(fd, p, n, o))
  int64_t arg = 0;
  if (disk::event("pwrite", true, &arg)) {
    errno = ENOSPC;
    return -1;
  }
  return __real_pwrite(s->f->fd, p, n, o);
}
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (!in_sut || fd < 0) {
    if (fd < disk::kFdBase) return __real_mmap(addr, len, prot, flags, fd, off);
  }
  FD(fd, __real_mmap(addr, len, prot, flags, fd, off))
  if (len == 0) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  if ((prot & PROT_WRITE) && (flags & MAP_SHARED) && !s->writable) {
    errno = EACCES;
    return MAP_FAILED;
  }
  if (disk::event("mmap", true)) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  size_t pages = (len + 4095) / 4096;
  uintptr_t at = disk::g_next_map + 4096 * (1 + disk::g_rng.below(7));
  disk::g_next_map = at + pages * 4096 + 4096;
  void* p = __real_mmap(reinterpret_cast<void*>(at), len, prot, flags | MAP_FIXED_NOREPLACE, s->f->fd, off);
  if (p == MAP_FAILED) return p;
  disk::g_maps->push_back({at, len, s->f, static_cast<uint64_t>(off), (prot & PROT_WRITE) != 0, std::vector<bool>(pages, true)});
  disk::g_last_map = p;
  disk::g_last_len = len;
  log_event('M', len);
  return p;
}
static disk::Mapping* map_of(uintptr_t a) {
  for (auto& m : *disk::g_maps) {
    if (a >= m.addr && a < m.addr + m.live.size() * 4096) return &m;
  }
  return nullptr;
}
int __wrap_munmap(void* addr, size_t len) {
  auto a = reinterpret_cast<uintptr_t>(addr);
  bool ours = a >= disk::kMapBase && a < disk::kMapBase + (1ull << 40);
  if (!in_sut && !ours) return __real_munmap(addr, len);
  NoSut n;
  if (len == 0 || (a & 4095) != 0) {
    errno = EINVAL;
    return -1;
  }
  disk::event("munmap", false);
  auto m = map_of(a);
  size_t pages = (len + 4095) / 4096;
  bool ok = m != nullptr && a + pages * 4096 <= m->addr + m->live.size() * 4096;
  for (size_t i = 0; ok && i < pages; ++i) ok = m->live[(a - m->addr) / 4096 + i];
  if (!ok) {
    char b[160];
    snprintf(b, sizeof(b), "munmap(%#lx, %zu): not a live mapping of the library", static_cast<unsigned long>(a), len);
    hook_violation("bad-unmap", b);
  }
  for (size_t i = 0; i < pages; ++i) m->live[(a - m->addr) / 4096 + i] = false;
  return __real_munmap(addr, len);
}
int __wrap_msync(void* addr, size_t len, int flags) {
  auto a = reinterpret_cast<uintptr_t>(addr);
  bool ours = a >= disk::kMapBase && a < disk::kMapBase + (1ull << 40);
  if (!in_sut && !ours) return __real_msync(addr, len, flags);
  NoSut n;
  auto m = map_of(a);
  size_t pages = (len + 4095) / 4096;
  bool ok = m != nullptr && a + pages * 4096 <= m->addr + m->live.size() * 4096;
  for (size_t i = 0; ok && i < pages; ++i) ok = m->live[(a - m->addr) / 4096 + i];
  if (!ok && len != 0) {
    errno = ENOMEM;
    return -1;
  }
  if (disk::event("msync", true)) {
    errno = EIO;
    return -1;
  }
  if (len == 0 || disk::g_crashed) return 0;
  // (MS_ASYNC gives no durability)
  if ((flags & MS_SYNC) == 0) return 0;
  auto f = m->f;
  uint64_t o = m->off + (a - m->addr);
  auto cur = disk::slurp(f);
  f->durable_exists = true;
  f->durable.resize(cur.size());
  uint64_t e = std::min<uint64_t>(cur.size(), o + pages * 4096);
  if (o < e) std::memcpy(f->durable.data() + o, cur.data() + o, e - o);
  return 0;
}
void* __wrap_mremap(void* addr, size_t old, size_t nw, int flags, ...) {
  auto a = reinterpret_cast<uintptr_t>(addr);
  bool ours = a >= disk::kMapBase && a < disk::kMapBase + (1ull << 40);
  if (!ours) return __real_mremap(addr, old, nw, flags);
  NoSut n;
  auto m = map_of(a);
  if (m == nullptr || m->addr != a || !(flags & MREMAP_MAYMOVE) || nw == 0) {
    errno = EINVAL;
    return MAP_FAILED;
  }
  if (disk::event("mmap", true)) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  auto mm = *m;
  size_t pages = (nw + 4095) / 4096;
  uintptr_t at = disk::g_next_map + 4096 * (1 + disk::g_rng.below(7));
  disk::g_next_map = at + pages * 4096 + 4096;
  void* p = __real_mmap(reinterpret_cast<void*>(at), nw, PROT_READ | (mm.writable ? PROT_WRITE : 0),
                        MAP_SHARED | MAP_FIXED_NOREPLACE, mm.f->fd, static_cast<off_t>(mm.off));
  if (p == MAP_FAILED) return p;
  for (size_t i = 0; i < mm.live.size(); ++i) {
    if (m->live[i]) __real_munmap(reinterpret_cast<void*>(mm.addr + i * 4096), 4096);
    m->live[i] = false;
  }
  disk::g_maps->push_back({at, nw, mm.f, mm.off, mm.writable, std::vector<bool>(pages, true)});
  return p;
}
}  // extern "C"

static void* sim_new(size_t n, size_t al, heap::Kind k) {
  void* p = in_sut ? heap::alloc(n, al, k) : (al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1));
  if (p == nullptr) throw std::bad_alloc{};
  return p;
}
static void sim_delete(void* p, heap::Kind k, char const* fn) {
  if (p == nullptr) return;
  if (heap::contains(p)) {
    heap::release(p, k, fn);
  } else {
    __real_free(p);
  }
}
void* operator new(size_t n) { return sim_new(n, 16, heap::NEW); }
void* operator new[](size_t n) { return sim_new(n, 16, heap::NEW_ARR); }
void* operator new(size_t n, std::align_val_t a) { return sim_new(n, static_cast<size_t>(a), heap::NEW); }
void* operator new[](size_t n, std::align_val_t a) { return sim_new(n, static_cast<size_t>(a), heap::NEW_ARR); }
void* operator new(size_t n, std::nothrow_t const&) noexcept {
  return in_sut ? heap::alloc(n, 16, heap::NEW) : __real_malloc(n ? n : 1);
}
void* operator new[](size_t n, std::nothrow_t const&) noexcept {
  return in_sut ? heap::alloc(n, 16, heap::NEW_ARR) : __real_malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { sim_delete(p, heap::NEW, "operator delete"); }
void operator delete[](void* p) noexcept { sim_delete(p, heap::NEW_ARR, "operator delete[]"); }
void operator delete(void* p, size_t) noexcept { sim_delete(p, heap::NEW, "operator delete"); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p, heap::NEW_ARR, "operator delete[]"); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p, heap::NEW, "operator delete"); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p, heap::NEW_ARR, "operator delete[]"); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p, heap::NEW, "operator delete"); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p, heap::NEW_ARR, "operator delete[]"); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim_delete(p, heap::NEW, "operator delete"); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim_delete(p, heap::NEW_ARR, "operator delete[]"); }
