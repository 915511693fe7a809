// Histories over cista::mmap (C04) and file-backed vectors (C05).
#include "common.h"
#include "cista/containers/mmap_vec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vecvec.h"

namespace props {
using Bytes = disk::Bytes;
static char const* kPath[] = {"/simdisk/a", "/simdisk/b"};

enum MmOp { OPEN_W, OPEN_M, OPEN_R, RESIZE, RESERVE, STORE, STORE_END, SYNC, CLOSE, MOVE_CTOR, MOVE_ASSIGN, MOVE_ASSIGN_NEW,
            SWAP, DEFAULT, CRASH, POWER, BUF_WRITE, N_MM };
static char const* mm_name(int c) {
  static char const* n[] = {"open(WRITE)", "open(MODIFY)", "open(READ)", "resize", "reserve", "store", "store(at end)", "sync",
    "close", "move-construct", "move-assign", "move-assign from a new mapping", "swap", "default-construct", "process crash",
    "power loss", "buffered write"};
  return c >= 0 && c < N_MM ? n[c] : "?";
}
using prot = cista::mmap::protection;

struct FileModel {  // what the file's used part must contain
  Bytes used;       // content within the used length
  Bytes tail;       // bytes beyond the used length that may reappear (shrunk in this session)
  bool exists{false};
  // durability
  Bytes synced;                 // content at the last completed sync
  std::vector<bool> dirty;      // written since
  bool has_sync{false};
  std::size_t min_len{0};       // smallest length since the sync
};

struct MmRun {
  struct S {
    Slot<cista::mmap> o;
    int path{-1};  // -1: default-constructed / moved-from
    prot pr{};
  } s[3];
  FileModel f[2];
  bool dead{false};

  int holder(int path) {  // slot that has the path open for writing, or any reader
    for (int i = 0; i < 3; ++i) if (s[i].o && s[i].path == path) return i;
    return -1;
  }
  void drop(S& x) { x.o.release(); x.path = -1; }

  void verify(char const* after) {
    for (auto& x : s) {
      if (!x.o || x.path < 0) continue;
      auto& m = f[x.path];
      auto const& mm = *x.o;
      CHK(mm.size() == m.used.size(), "mmap-size", "%s: size() is %zu, %zu bytes were asked for", after, mm.size(), m.used.size());
      if (!m.used.empty()) {
        CHK(mm.data() != nullptr, "mmap-data", "%s: no data for a mapping of %zu bytes", after, m.used.size());
        if (std::memcmp(mm.data(), m.used.data(), m.used.size()) != 0) {
          std::size_t i = 0;
          while (mm.data()[i] == m.used[i]) ++i;
          CHK(false, "mmap-content", "%s: byte %zu is %u, expected %u", after, i, mm.data()[i], m.used[i]);
        }
        CHK(mm.view().size() == mm.size() && static_cast<void const*>(mm.view().data()) == mm.data(), "mmap-view", "view() differs");
      }
      note_state(mix(m.used.size(), static_cast<uint64_t>(x.pr)));
    }
    for (int i = 0; i < 2; ++i) {
      if (holder(i) < 0 && f[i].exists) check_file(i, after);
    }
  }
  void check_file(int i, char const* after) {
    auto c = disk::content(kPath[i]);
    CHK(c.size() == f[i].used.size(), "mmap-file-length", "%s: the closed file has %zu bytes, %zu were asked for", after, c.size(), f[i].used.size());
    if (c != f[i].used) {
      std::size_t k = 0;
      while (c[k] == f[i].used[k]) ++k;
      CHK(false, "mmap-file-content", "%s: byte %zu of the closed file is %u, expected %u", after, k, c[k], f[i].used[k]);
    }
  }
  void resync(int i) {
    f[i].exists = disk::exists(kPath[i]);
    f[i].used = disk::content(kPath[i]);
    f[i].tail.clear();
  }
  void mark_dirty(FileModel& m, std::size_t from, std::size_t to) {
    for (std::size_t i = from; i < to && i < m.dirty.size(); ++i) m.dirty[i] = true;
  }
  // the model of a successful resize
  void model_resize(S& x, std::size_t n) {
    auto& m = f[x.path];
    auto old = m.used.size();
    if (n < old) {
      m.tail.insert(m.tail.begin(), m.used.begin() + static_cast<long>(n), m.used.end());
      m.used.resize(n);
      m.min_len = std::min(m.min_len, n);
    } else {
      // bytes cut off earlier in this session: old value or zero
      for (std::size_t i = old; i < n; ++i) {
        uint8_t want0 = 0, got = x.o->data()[i];
        uint8_t was = i - old < m.tail.size() ? m.tail[i - old] : 0;
        CHK(got == want0 || got == was, "mmap-grow-zero", "grown byte %zu reads %u, never written", i, got);
        m.used.push_back(got);
      }
      m.tail.erase(m.tail.begin(), m.tail.begin() + static_cast<long>(std::min(m.tail.size(), n - old)));
    }
  }
  void closed(int path) { f[path].tail.clear(); }

  // everything in memory is gone
  void die(bool power, std::string const& what, std::size_t in_flight_path, std::size_t alt_len) {
    struct Was { bool open; Bytes used; } was[2];
    for (int i = 0; i < 2; ++i) was[i] = {holder(i) >= 0, f[i].used};
    for (auto& x : s) drop(x);
    for (int i = 0; i < 2; ++i) {
      auto c = disk::content(kPath[i]);
      if (!f[i].exists) { resync(i); f[i].has_sync = false; continue; }
      if (!power) {
        // at least the shorter of the lengths in flight, with all bytes
        std::size_t n = was[i].used.size();
        if (static_cast<std::size_t>(i) == in_flight_path) n = std::min(n, alt_len);
        CHK(c.size() >= n, "crash-length", "%s: after a process crash the file has %zu bytes, %zu were stored", what.c_str(), c.size(), n);
        for (std::size_t k = 0; k < n; ++k) {
          CHK(c[k] == was[i].used[k], "crash-content", "%s: after a process crash byte %zu is %u, %u was stored", what.c_str(), k, c[k], was[i].used[k]);
        }
        f[i].min_len = std::min(f[i].min_len, n);
      } else if (f[i].has_sync) {
        std::size_t n = std::min(f[i].synced.size(), f[i].min_len);
        if (static_cast<std::size_t>(i) == in_flight_path) n = std::min(n, alt_len);
        CHK(c.size() >= n, "power-length", "%s: after a power loss the file has %zu bytes, %zu were synced", what.c_str(), c.size(), n);
        for (std::size_t k = 0; k < n; ++k) {
          CHK(f[i].dirty[k] || c[k] == f[i].synced[k], "power-content", "%s: after a power loss byte %zu is %u, %u was synced", what.c_str(), k, c[k], f[i].synced[k]);
        }
      }
      resync(i);
      if (power) f[i].has_sync = false;
    }
  }
  void note_sync(S& x) {
    auto& m = f[x.path];
    m.has_sync = true;
    m.synced = m.used;
    m.dirty.assign(m.used.size(), false);
    m.min_len = m.used.size();
  }

  template <typename F>
  bool run(Op const& op, char const* nm, std::size_t path, std::size_t alt_len, CallResult& r, F&& fn) {
    r = call(op, fn, true);
    bool power = false;
    for (auto const& x : op.f) power |= x.kind == F_POWER;
    if (r.out == Out::stopped) {
      disk::reboot();
      die(false, std::string("fail-stop in ") + nm, path, alt_len);
      return false;
    }
    if (disk::crashed()) {
      disk::reboot();
      die(power, nm, path, alt_len);
      return false;
    }
    CHK(r.ok() || r.faulted() || op.code == OPEN_M || op.code == OPEN_R, "mmap-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
    return true;
  }
  void close_slot(S& x, Op const& op) {
    if (!x.o) return;
    int path = x.path;
    auto* q = x.o.p;
    CallResult r;
    std::size_t n = path >= 0 ? f[path].used.size() : 0;
    if (!run(op, "close", path < 0 ? 99 : static_cast<std::size_t>(path), n, r, [&] { q->~mmap(); })) return;
    drop(x);
    if (path >= 0) closed(path);
  }

  void exec(Plan const& p) {
    for (auto const& op : p.ops) {
      if (tracing()) trace("  %s a=%lld b=%lld c=%lld", mm_name(op.code), (ll)op.a, (ll)op.b, (ll)op.c);
      log_event('O', static_cast<uint64_t>(op.code));
      auto& x = s[op.a % 3];
      auto& y = s[(op.a + 1 + op.b % 2) % 3];
      int const path = static_cast<int>(op.b & 1);
      char const* nm = mm_name(op.code);
      CallResult r;
      bool const writable = x.o && x.path >= 0 && x.pr != prot::READ;
      switch (op.code) {
        case OPEN_W: case OPEN_M: case OPEN_R: {
          if (x.o) break;
          int h = holder(path);
          if (h >= 0 && !(op.code == OPEN_R && s[h].pr == prot::READ)) break;
          auto pr = op.code == OPEN_W ? prot::WRITE : op.code == OPEN_M ? prot::MODIFY : prot::READ;
          auto before = f[path];
          auto alt = op.code == OPEN_W ? 0 : before.used.size();
          if (!run(op, nm, static_cast<std::size_t>(path), alt, r, [&] { x.o.construct([&](void* w) { new (w) cista::mmap(kPath[path], pr); }); })) break;
          if (r.ok()) {
            CHK(op.code == OPEN_W || before.exists, "mmap-open", "opening a missing file succeeded");
            x.path = path;
            x.pr = pr;
            f[path].exists = true;
            if (op.code == OPEN_W) f[path].used.clear(), f[path].min_len = 0;
            f[path].tail.clear();
          } else {
            CHK(r.faulted() || !before.exists, "mmap-spurious", "open failed without a fault: %s", r.what.c_str());
            if (op.code == OPEN_W) {
              auto c = disk::content(kPath[path]);
              CHK(c.empty() || c == before.used, "mmap-open-failed", "failed open left foreign content");
              resync(path);
              f[path].min_len = 0;
            }
            if (holder(path) < 0) disk::expect_released_count(count_open());
          }
          break;
        }
        case RESIZE: case RESERVE: {
          if (!x.o || x.path < 0) break;
          std::size_t n = static_cast<std::size_t>(op.c);
          if (!writable) {
            r = call(op, [&] { op.code == RESIZE ? x.o->resize(n) : x.o->reserve(n); });
            CHK(!r.ok(), "mmap-readonly", "resizing a read-only mapping succeeded");
            break;
          }
          auto keep = std::min(n, f[x.path].used.size());
          if (op.code == RESERVE) keep = f[x.path].used.size();
          if (!run(op, nm, static_cast<std::size_t>(x.path), keep, r, [&] { op.code == RESIZE ? x.o->resize(n) : x.o->reserve(n); })) break;
          if (r.ok() && op.code == RESIZE) model_resize(x, n);
          break;
        }
        case STORE: {
          if (!writable) break;
          auto& m = f[x.path];
          if (m.used.empty()) break;
          std::size_t off = static_cast<std::size_t>(op.c) % m.used.size();
          std::size_t n = std::min<std::size_t>(m.used.size() - off, 1 + static_cast<std::size_t>(op.b) % 700);
          for (std::size_t i = 0; i < n; ++i) {
            m.used[off + i] = static_cast<uint8_t>(op.b + static_cast<ll>(i) * 3 + 1);
            (*x.o)[off + i] = m.used[off + i];
          }
          mark_dirty(m, off, off + n);
          break;
        }
        case STORE_END: {
          if (!writable) break;
          auto& m = f[x.path];
          if (m.used.empty()) break;
          m.used.back() = static_cast<uint8_t>(op.b | 1);
          *(x.o->end() - 1) = m.used.back();
          mark_dirty(m, m.used.size() - 1, m.used.size());
          break;
        }
        case BUF_WRITE: {  // appends through the serialization target on top of the mapping
          if (!writable) break;
          auto& m = f[x.path];
          std::size_t n = 1 + static_cast<std::size_t>(op.c) % 3000;
          std::size_t al = std::size_t{1} << (op.b % 5);
          Bytes d(n);
          for (std::size_t i = 0; i < n; ++i) d[i] = static_cast<uint8_t>(op.b + static_cast<ll>(i));
          std::size_t start = (m.used.size() + al - 1) / al * al;
          cista::offset_t at = -1;
          if (!run(op, nm, static_cast<std::size_t>(x.path), m.used.size(), r, [&] {
                cista::buf<cista::mmap> b{std::move(*x.o)};
                struct Back { cista::mmap& t; cista::buf<cista::mmap>& b; ~Back() { t = std::move(b.buf_); } } back{*x.o, b};
                at = b.write(d.data(), n, al);
              })) break;
          if (r.ok()) {
            CHK(static_cast<std::size_t>(at) == start, "mmap-append", "appended at %lld, expected %zu", (ll)at, start);
            auto old = m.used.size();
            model_resize(x, start + n - n);  // padding (if any) reads as zero or old tail
            (void)old;
            m.used.insert(m.used.end(), d.begin(), d.end());
            m.tail.erase(m.tail.begin(), m.tail.begin() + static_cast<long>(std::min(m.tail.size(), n)));
          }
          break;
        }
        case SYNC:
          if (!x.o || x.path < 0) break;
          if (!run(op, nm, 99, 0, r, [&] { x.o->sync(); })) break;
          if (r.ok() && writable) note_sync(x);
          break;
        case CLOSE: close_slot(x, op); break;
        case MOVE_CTOR: {
          if (!x.o || y.o) break;
          if (!run(op, nm, 99, 0, r, [&] { y.o.construct([&](void* w) { new (w) cista::mmap(std::move(*x.o)); }); })) break;
          y.path = x.path;
          y.pr = x.pr;
          x.path = -1;
          break;
        }
        case MOVE_ASSIGN: {
          if (!x.o || !y.o || &x == &y) break;
          int old = y.path;
          if (!run(op, nm, 99, 0, r, [&] { *y.o = std::move(*x.o); })) break;
          if (!r.ok()) {  // closing the old mapping failed and said so
            close_slot(y, Op{});
            break;
          }
          if (old >= 0) closed(old);
          y.path = x.path;
          y.pr = x.pr;
          x.path = -1;
          break;
        }
        case MOVE_ASSIGN_NEW: {
          if (!x.o || (holder(path) >= 0 && !(x.path == path))) break;
          if (x.path == path) break;
          int old = x.path;
          auto before = f[path];
          if (!run(op, nm, static_cast<std::size_t>(path), 0, r, [&] { *x.o = cista::mmap{kPath[path], prot::WRITE}; })) break;
          if (!r.ok()) {
            if (old >= 0 && f[old].exists) {
              close_slot(x, Op{});
            }
            resync(path);
            f[path].min_len = 0;
            break;
          }
          if (old >= 0) closed(old);
          x.path = path;
          x.pr = prot::WRITE;
          f[path].exists = true;
          f[path].used.clear();
          f[path].tail.clear();
          f[path].min_len = 0;
          break;
        }
        case SWAP: {
          if (!x.o || !y.o || &x == &y) break;
          if (!run(op, nm, 99, 0, r, [&] { std::swap(*x.o, *y.o); })) break;
          if (!r.ok()) { close_slot(x, Op{}); close_slot(y, Op{}); resync(0); resync(1); break; }
          std::swap(x.path, y.path);
          std::swap(x.pr, y.pr);
          break;
        }
        case DEFAULT:
          if (x.o) break;
          if (!run(op, nm, 99, 0, r, [&] { x.o.construct([&](void* w) { new (w) cista::mmap(); }); })) break;
          x.path = -1;
          break;
        case CRASH:
          count("fault:process_crash");
          mark_nontrivial();
          disk::reboot();
          die(false, "process crash", 99, 0);
          break;
        case POWER:
          disk::power_loss_now(static_cast<uint64_t>(op.c));
          die(true, "power loss", 99, 0);
          break;
      }
      verify(nm);
    }
    for (auto& x : s) close_slot(x, Op{});
    verify("final close");
    disk::expect_released("mapping history");
    heap::expect_no_leak("mapping history");
  }
  unsigned count_open() {
    unsigned n = 0;
    for (auto& x : s) n += x.o && x.path >= 0;
    return n;
  }
};

static int64_t a_size(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.range(0, 40);
    case 1: return (int64_t{1} << r.range(0, 15)) + r.range(-1, 1);
    case 2: return 4096 * r.range(1, 9) + r.range(-1, 1);
    case 3: return r.range(0, 5000);
    case 4: return r.range(0, 40000);
    default: return 0;
  }
}
static void io_fault(Rng& r, Op& op, unsigned permille, unsigned crash_permille) {
  if (r.chance(crash_permille)) {
    op.f.push_back({r.chance(500) ? F_CRASH : F_POWER, r.range(0, 7), r.range(0, 1 << 20)});
  } else if (r.chance(permille)) {
    op.f.push_back({r.chance(200) ? F_IO_ALL : F_IO, r.range(0, 5), r.range(0, 1 << 20)});
  }
}
static Plan gen_mm(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(600), crashes = r.chance(500);
  p.cfg = {faults, crashes};
  std::vector<int> w(N_MM);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 2, 3}));
  w[OPEN_W] += 2;
  w[OPEN_M] += 2;
  w[RESIZE] += 3;
  w[STORE] += 3;
  w[CLOSE] += 1;
  if (!crashes) w[CRASH] = w[POWER] = 0;
  else w[CRASH] = std::min(w[CRASH], 1), w[POWER] = std::min(w[POWER], 1);
  int total = 0;
  for (auto x : w) total += x;
  ll n = r.range(4, tier ? 80 : 45);
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = r.chance(700) ? 0 : static_cast<int64_t>(r.below(3));
    op.b = static_cast<int64_t>(r.chance(700) ? 2 * r.below(500) : r.below(1000));
    op.c = op.code == RESIZE || op.code == RESERVE ? a_size(r) : static_cast<int64_t>(r.below(60000));
    if (faults) io_fault(r, op, 250, crashes ? 60 : 0);
    p.ops.push_back(op);
  }
  return p;
}
static void exec_mm(Plan const& p) { MmRun{}.exec(p); }

// ------------------------------------------------------------------ mmap_vec
enum MvOp { V_OPEN_NEW, V_OPEN, V_PUSH, V_EMPLACE, V_RESIZE, V_RESERVE, V_WRITE, V_SET, V_INSERT, V_INSERT_RANGE, V_INSERT_INPUT,
            V_CLOSE, V_MOVE, V_CRASH, V_FILL, N_MV };
static char const* mv_name(int c) {
  static char const* n[] = {"open(new)", "reopen", "push_back", "emplace_back", "resize", "reserve", "write", "set", "insert",
    "insert(range)", "insert(input)", "close", "move", "process crash", "fill"};
  return c >= 0 && c < N_MV ? n[c] : "?";
}
struct P12 {
  uint32_t a, b, c;
  friend bool operator==(P12 const& x, P12 const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
};
static uint64_t mkv(uint64_t*, ll v) { return static_cast<uint64_t>(v) * 0x9E3779B97F4A7C15ull; }
static uint8_t mkv(uint8_t*, ll v) { return static_cast<uint8_t>(v * 7 + 1); }
static P12 mkv(P12*, ll v) { return {static_cast<uint32_t>(v), static_cast<uint32_t>(v * 3), static_cast<uint32_t>(~v)}; }
template <typename It>
struct InIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = typename std::iterator_traits<It>::value_type;
  using difference_type = std::ptrdiff_t;
  using pointer = value_type const*;
  using reference = value_type const&;
  It it;
  reference operator*() const { return *it; }
  InIt& operator++() { ++it; return *this; }
  InIt operator++(int) { auto c = *this; ++it; return c; }
  friend bool operator==(InIt const& a, InIt const& b) { return a.it == b.it; }
  friend bool operator!=(InIt const& a, InIt const& b) { return a.it != b.it; }
};

template <typename Vec>
struct MvRun {
  using T = typename Vec::value_type;
  using size_type = typename Vec::size_type;
  using access = typename Vec::access_type;
  Slot<Vec> v;
  std::vector<T> m;
  bool file_exists{false};

  void verify(char const* after) {
    if (v) {
      CHK(v->size() == m.size() && v->empty() == m.empty(), "mmvec-size", "%s: size %zu, reference %zu", after, (size_t)v->size(), m.size());
      for (std::size_t i = 0; i < m.size(); ++i) {
        CHK(std::as_const(*v)[access{static_cast<size_type>(i)}] == m[i], "mmvec-content", "%s: element %zu of %zu differs", after, i, m.size());
      }
      CHK(static_cast<std::size_t>(v->end() - v->begin()) == m.size(), "mmvec-range", "end-begin differs");
      note_state(mix(m.size(), sizeof(T)));
    } else if (file_exists) {
      auto c = disk::content(kPath[0]);
      CHK(c.size() == m.size() * sizeof(T), "mmvec-file-length", "%s: closed file has %zu bytes, %zu elements of %zu bytes were stored", after, c.size(), m.size(), sizeof(T));
      CHK(m.empty() || std::memcmp(c.data(), m.data(), c.size()) == 0, "mmvec-file-content", "%s: closed file differs", after);
    }
  }
  // process death; the operation in flight may or may not have happened
  void died(std::vector<T> const& before, char const* what) {
    v.release();
    auto c = disk::content(kPath[0]);
    (void)before;
    std::size_t k = std::min(before.size(), m.size());
    CHK(c.size() >= k * sizeof(T), "mmvec-crash", "%s: after a crash the file has %zu bytes for %zu elements", what, c.size(), k);
    for (std::size_t i = 0; i < k; ++i) {
      T t;
      std::memcpy(&t, c.data() + i * sizeof(T), sizeof(T));
      CHK(t == m[i] || t == before[i], "mmvec-crash", "%s: after a crash element %zu is lost", what, i);
    }
    m.resize(c.size() / sizeof(T));
    if (!m.empty()) std::memcpy(static_cast<void*>(m.data()), c.data(), m.size() * sizeof(T));
    file_exists = disk::exists(kPath[0]);
    if (file_exists && c.size() % sizeof(T)) {  // grown capacity is no whole number of elements
      c.resize(c.size() / sizeof(T) * sizeof(T));
      disk::set_content(kPath[0], c);
    }
  }
  template <typename F>
  bool run(Op const& op, char const* nm, CallResult& r, std::vector<T> const& after, F&& fn) {
    r = call(op, fn, true);
    if (r.out == Out::stopped || disk::crashed()) {
      disk::reboot();
      auto before = m;
      // both versions acceptable for the operation in flight
      if (after.size() < m.size()) m.resize(after.size());
      died(after, nm);
      return false;
    }
    bool const full = (op.code == V_PUSH || op.code == V_EMPLACE) && m.size() == std::numeric_limits<size_type>::max();
    CHK(r.ok() || r.faulted() || full, "mmvec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
    return true;
  }
  void close(Op const& op) {
    if (!v) return;
    auto q = v.p;
    CallResult r;
    if (!run(op, "close", r, m, [&] { q->~Vec(); })) return;
    v.release();
    // a reopened vector whose file was not a multiple of the element size keeps its length
  }
  void exec(Plan const& p) {
    using P = cista::mmap::protection;
    for (auto const& op : p.ops) {
      if (tracing()) trace("  %s b=%lld c=%lld n=%zu", mv_name(op.code), (ll)op.b, (ll)op.c, m.size());
      log_event('O', static_cast<uint64_t>(op.code));
      char const* nm = mv_name(op.code);
      CallResult r;
      auto const lim = static_cast<ll>(std::min<uint64_t>(3000, std::numeric_limits<size_type>::max()));
      auto const n = static_cast<ll>(m.size());
      auto next = m;
      T const x = mkv(static_cast<T*>(nullptr), op.b);
      switch (op.code) {
        case V_OPEN_NEW:
          if (v) break;
          next.clear();
          if (!run(op, nm, r, next, [&] { v.construct([&](void* w) { new (w) Vec(cista::mmap{kPath[0], P::WRITE}); }); })) break;
          if (r.ok()) m.clear(), file_exists = true;
          else { auto c = disk::content(kPath[0]); if (c.empty()) m.clear(); file_exists = disk::exists(kPath[0]); }
          break;
        case V_OPEN: {
          if (v || !file_exists) break;
          // a file cut by a crash may end in a partial element
          auto c = disk::content(kPath[0]);
          if (c.size() > static_cast<std::size_t>(lim) * sizeof(T)) {
            c.resize(static_cast<std::size_t>(lim) * sizeof(T));
            disk::set_content(kPath[0], c);
            m.resize(static_cast<std::size_t>(lim));
          }
          if (c.size() % sizeof(T)) {
            c.resize(c.size() / sizeof(T) * sizeof(T));
            disk::set_content(kPath[0], c);
          }
          run(op, nm, r, m, [&] { v.construct([&](void* w) { new (w) Vec(cista::mmap{kPath[0], P::MODIFY}); }); });
          if (v) count("restarts"), mark_nontrivial();
          break;
        }
        case V_PUSH: case V_EMPLACE:
          if (!v || (n >= lim && lim == 3000)) break;
          next.push_back(x);
          if (!run(op, nm, r, next, [&] { op.code == V_PUSH ? (void)v->push_back(x) : (void)v->emplace_back(x); })) break;
          CHK(!r.ok() || n < lim, "mmvec-limit", "append beyond the size type's range reported success");
          if (r.ok()) m = next;
          break;
        case V_FILL:
          if (!v) break;
          for (ll i = 0; i < op.c % 200 && n + i < lim; ++i) {
            T y = mkv(static_cast<T*>(nullptr), op.b + i);
            sut([&] { v->push_back(y); });
            m.push_back(y);
          }
          break;
        case V_RESIZE: {
          if (!v) break;
          ll t = op.c % (lim + 1);
          next.resize(static_cast<size_t>(t));
          if (!run(op, nm, r, next, [&] { v->resize(static_cast<size_type>(t)); })) break;
          if (r.ok()) {
            m = next;
            for (ll i = n; i < t; ++i) {
              CHK((*v)[access{static_cast<size_type>(i)}] == T{}, "mmvec-resize-value", "element %lld added by resize is not value-initialised", i);
            }
          }
          break;
        }
        case V_RESERVE:
          if (!v) break;
          run(op, nm, r, m, [&] { v->reserve(static_cast<size_type>(op.c % (lim + 1))); });
          break;
        case V_WRITE:
          if (!v || n == 0) break;
          (*v)[access{static_cast<size_type>(op.c % n)}] = x;
          m[static_cast<size_t>(op.c % n)] = x;
          break;
        case V_SET: case V_INSERT: case V_INSERT_RANGE: case V_INSERT_INPUT: {
          if (!v) break;
          ll cnt = op.code == V_INSERT ? 1 : op.c % 12;
          if (n + cnt > lim) break;
          std::vector<T> src;
          for (ll i = 0; i < cnt; ++i) src.push_back(mkv(static_cast<T*>(nullptr), op.b + i));
          auto pos = op.c % (n + 1);
          if (op.code == V_SET) next = src;
          else next.insert(next.begin() + pos, src.begin(), src.end());
          T const* b = src.data();
          T const* e = b + src.size();
          auto old = m;
          if (op.code != V_SET) m.resize(static_cast<size_t>(pos));  // elements behind pos may be moving when it crashes
          else m.clear();
          bool const alive = run(op, nm, r, next, [&] {
                if (op.code == V_SET) v->set(b, e);
                else if (op.code == V_INSERT) v->insert(v->begin() + pos, x);
                else if (op.code == V_INSERT_RANGE) v->insert(v->begin() + pos, b, e);
                else v->insert(v->begin() + pos, InIt<T const*>{b}, InIt<T const*>{e});
              });
          if (!alive) break;
          if (r.ok()) m = next;
          else {
            m = old;
            if (op.code == V_INSERT_INPUT && static_cast<ll>(v->size()) > n) {  // (appended a part, prefix must be intact)
              m.assign(v->begin(), v->end());
              for (ll i = 0; i < n; ++i) CHK(m[static_cast<size_t>(i)] == old[static_cast<size_t>(i)], "mmvec-failed-insert", "element changed");
            }
          }
          break;
        }
        case V_CLOSE: close(op); break;
        case V_MOVE: {
          if (!v) break;
          Slot<Vec> nv;
          if (!run(op, nm, r, m, [&] { nv.construct([&](void* w) { new (w) Vec(std::move(*v)); }); })) break;
          if (op.b & 1) {
            v.destroy();
            v = nv;
          } else {  // ... and back by assignment
            sut([&] { *v = std::move(*nv); });
            nv.destroy();
          }
          break;
        }
        case V_CRASH:
          if (!v) break;
          count("fault:process_crash");
          mark_nontrivial();
          disk::reboot();
          died(m, "process crash");
          break;
      }
      verify(nm);
    }
    close(Op{});
    verify("final close");
    disk::expect_released("mapped vector history");
    heap::expect_no_leak("mapped vector history");
  }
};

struct KTag {};
using key16 = cista::strong<std::uint16_t, KTag>;
using key8 = cista::strong<std::uint8_t, KTag>;

static Plan gen_mv(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(600);
  int type = static_cast<int>(r.below(5));
  p.cfg = {type, faults};
  std::vector<int> w(N_MV);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 2, 3}));
  w[V_PUSH] += 3;
  w[V_OPEN] += 3;
  w[V_OPEN_NEW] = 1;
  w[V_CRASH] = w[V_CRASH] ? 1 : 0;
  int total = 0;
  for (auto x : w) total += x;
  ll n = r.range(4, tier ? 100 : 50);
  p.ops.push_back(Op{V_OPEN_NEW, 0, 0, 0, {}});
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.b = static_cast<int64_t>(r.below(1000)) + 1;
    op.c = r.chance(300) ? a_size(r) : static_cast<int64_t>(r.below(200));
    if (faults) io_fault(r, op, 250, 40);
    for (auto& f : op.f) if (f.kind == F_POWER) f.kind = F_CRASH;  // no durability promise without a sync
    p.ops.push_back(op);
  }
  return p;
}
static void exec_mv(Plan const& p) {
  switch (p.c(0) % 5) {
    case 0: MvRun<cista::mmap_vec<uint64_t>>{}.exec(p); break;
    case 1: MvRun<cista::mmap_vec<P12>>{}.exec(p); break;
    case 2: MvRun<cista::mmap_vec<uint8_t>>{}.exec(p); break;
    case 3: MvRun<cista::mmap_vec_map<key16, uint64_t>>{}.exec(p); break;
    case 4: MvRun<cista::mmap_vec_map<key8, P12>>{}.exec(p); break;
  }
}

// ------------------------------------------------- file-backed rows
enum MrOp { W_OPEN, W_ADD, W_ADD_SIZED, W_APPEND, W_WRITE, W_RESIZE, W_MOVE, W_CLOSE, W_ADD_EMPTY, W_INSERT_ROW, N_MR };
static char const* mr_name(int c) {
  static char const* n[] = {"open", "add row", "add sized row", "append", "write", "resize", "move", "close", "add empty row", "insert row"};
  return c >= 0 && c < N_MR ? n[c] : "?";
}
template <typename T> struct is_paged : std::false_type {};
template <typename I, typename P, typename K> struct is_paged<cista::paged_vecvec<I, P, K>> : std::true_type {};

template <typename Rows, typename DataVec, typename IndexVec, typename T>
struct MrRun {
  static constexpr bool PAGED = is_paged<Rows>::value;
  Slot<Rows> v;
  std::vector<std::vector<T>> m;
  bool exists{false};
  ll fresh{1};

  static T val(ll x) { return static_cast<T>(x * 2654435761ll + 1); }
  void verify(char const* after) {
    if (!v) return;
    Rows const& c = *v.p;
    CHK(c.size() == m.size() && c.empty() == m.empty(), "mmrows-size", "%s: %zu rows, reference %zu", after, (size_t)c.size(), m.size());
    uint64_t h = m.size();
    for (std::size_t i = 0; i < m.size(); ++i) {
      auto row = c[static_cast<uint32_t>(i)];
      auto mut = (*v)[static_cast<uint32_t>(i)];
      CHK(row.size() == m[i].size() && static_cast<std::size_t>(mut.size()) == m[i].size(), "mmrows-row-size", "%s: row %zu of %zu has %zu elements, reference %zu", after, i, m.size(), (size_t)row.size(), m[i].size());
      std::size_t k = 0;
      for (auto it = row.begin(); it != row.end(); ++it, ++k) CHK(*it == m[i][k], "mmrows-content", "%s: element %zu of row %zu is %lld, reference %lld", after, k, i, (ll)*it, (ll)m[i][k]);
      CHK(k == m[i].size(), "mmrows-content", "%s: row %zu is visited %zu of %zu elements far", after, i, k, m[i].size());
      for (k = 0; k < m[i].size(); k += 3) CHK(mut[k] == m[i][k], "mmrows-content", "%s: mutable element %zu of row %zu differs", after, k, i);
      h = mix(h, m[i].size());
    }
    note_state(h);
  }
  bool run(Op const& op, char const* nm, CallResult& r, std::function<void()> fn) {
    r = call(op, fn, true);
    if (r.out == Out::stopped || disk::crashed()) {  // two files in flight: nothing promised beyond memory safety
      CHK(r.faulted() || disk::crashed(), "mmrows-spurious", "%s stopped without a fault", nm);
      disk::reboot();
      v.release();
      throw EndRun{};
    }
    CHK(r.ok() || r.faulted(), "mmrows-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
    if (!r.ok()) mark_nontrivial();
    return r.ok();
  }
  static void make(void* w, cista::mmap::protection pr) {
    if constexpr (PAGED) new (w) Rows{{DataVec{cista::mmap{kPath[0], pr}}}, IndexVec{cista::mmap{kPath[1], pr}}};
    else new (w) Rows{DataVec{cista::mmap{kPath[0], pr}}, IndexVec{cista::mmap{kPath[1], pr}}};
  }
  void exec(Plan const& p) {
    for (auto const& op : p.ops) {
      char const* nm = mr_name(op.code);
      if (tracing()) trace("  %s b=%lld c=%lld rows=%zu", nm, (ll)op.b, (ll)op.c, m.size());
      log_event('O', static_cast<uint64_t>(op.code));
      CallResult r;
      std::size_t total = 0;
      for (auto const& x : m) total += x.size();
      std::vector<T> row;
      auto const len = op.c % 5 == 0 ? op.c % 400 : op.c % 9;
      for (ll i = 0; i < len; ++i) row.push_back(val(fresh++));
      auto const at = m.empty() ? 0u : static_cast<std::size_t>(op.b) % m.size();
      auto const k = static_cast<uint32_t>(at);
      if (op.code != W_OPEN && !v) continue;
      switch (op.code) {
        case W_OPEN: {
          if (v) break;
          bool const again = exists;
          auto const pr = again ? cista::mmap::protection::MODIFY : cista::mmap::protection::WRITE;
          if (!run(op, nm, r, [&] { v.construct([&](void* w) { make(w, pr); }); })) break;
          exists = true;
          if (again) count("restarts"), mark_nontrivial();
          break;
        }
        case W_ADD:
          if (total > 4000) break;
          if (run(op, nm, r, [&] { v->emplace_back(row); })) m.push_back(row);
          break;
        case W_ADD_SIZED:
          if constexpr (!PAGED) {
            if (total > 4000) break;
            if (run(op, nm, r, [&] { v->add_back_sized(static_cast<std::size_t>(len)); })) m.push_back(std::vector<T>(static_cast<std::size_t>(len)));
          }
          break;
        case W_ADD_EMPTY:
          if constexpr (PAGED) { if (run(op, nm, r, [&] { v->emplace_back_empty(); })) m.emplace_back(); }
          else { std::vector<T> e; if (run(op, nm, r, [&] { v->emplace_back(e); })) m.push_back(e); }
          break;
        case W_APPEND:
          if (m.empty() || total > 4000) break;
          for (ll i = 0; i < 1 + op.c % 6; ++i) {
            auto const x = val(fresh++);
            if (run(i == op.c % 3 ? op : Op{}, nm, r, [&] { (*v)[k].push_back(x); })) m[at].push_back(x);
          }
          break;
        case W_WRITE:
          if (m.empty() || m[at].empty()) break;
          { auto const j = static_cast<std::size_t>(op.c) % m[at].size(); auto const x = val(fresh++); sut([&] { (*v)[k][j] = x; }); m[at][j] = x; }
          break;
        case W_RESIZE: {
          if (PAGED && op.c % 3) break;
          auto const n = static_cast<std::size_t>(op.c) % (m.size() + (PAGED ? 1 : 4));
          if (run(op, nm, r, [&] { v->resize(static_cast<uint32_t>(n)); })) m.resize(n);
          break;
        }
        case W_INSERT_ROW:
          if constexpr (PAGED) {
            if (m.empty() || total > 4000) break;
            if (run(op, nm, r, [&] { v->insert(k, row); })) m.insert(m.begin() + static_cast<long>(at), row);
          } else {
            if (m.empty() || m[at].empty() || total > 4000) break;
            // growing a row by moving elements in its middle: write through iterators
            sut([&] { for (auto& x : (*v)[k]) x = static_cast<T>(x + 1); });
            for (auto& x : m[at]) x = static_cast<T>(x + 1);
          }
          break;
        case W_MOVE: {
          Slot<Rows> nv;
          if (!run(op, nm, r, [&] { nv.construct([&](void* w) { new (w) Rows(std::move(*v)); }); })) break;
          if (op.b & 1) { v.destroy(); v = nv; }
          else { sut([&] { *v = std::move(*nv); }); nv.destroy(); }
          break;
        }
        case W_CLOSE: {
          auto q = v.p;
          if (!run(op, nm, r, [&] { q->~Rows(); })) break;
          v.release();
          break;
        }
      }
      verify(nm);
    }
    if (v) {
      CallResult r;
      auto q = v.p;
      run(Op{}, "close", r, [&] { q->~Rows(); });
      v.release();
    }
    if (exists) {  // what is in the files is what was stored
      sut([&] { v.construct([&](void* w) { make(w, cista::mmap::protection::MODIFY); }); });
      verify("final reopen");
      v.destroy();
    }
    disk::expect_released("mapped rows history");
    heap::expect_no_leak("mapped rows history");
  }
};
static Plan gen_mr(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(500);
  p.cfg = {static_cast<ll>(r.below(4)), faults};
  std::vector<int> w(N_MR);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 2, 3}));
  w[W_OPEN] += 3;
  w[W_ADD] += 3;
  w[W_APPEND] += 2;
  w[W_CLOSE] = std::min(w[W_CLOSE], 1);
  int total = 0;
  for (auto x : w) total += x;
  ll n = r.range(4, tier ? 100 : 45);
  p.ops.push_back(Op{W_OPEN, 0, 0, 0, {}});
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.b = static_cast<int64_t>(r.below(1000));
    op.c = static_cast<int64_t>(r.below(2000));
    if (faults) io_fault(r, op, 250, 15);
    for (auto& f : op.f) if (f.kind == F_POWER) f.kind = F_CRASH;
    p.ops.push_back(op);
  }
  return p;
}
static void exec_mr(Plan const& p) {
  using cista::mmap_vec;
  switch (p.c(0) % 4) {
    case 0: MrRun<cista::basic_vecvec<uint32_t, mmap_vec<uint32_t>, mmap_vec<uint32_t>>, mmap_vec<uint32_t>, mmap_vec<uint32_t>, uint32_t>{}.exec(p); break;
    case 1: MrRun<cista::basic_vecvec<uint64_t, mmap_vec<uint8_t>, mmap_vec<uint64_t>>, mmap_vec<uint8_t>, mmap_vec<uint64_t>, uint8_t>{}.exec(p); break;
    case 2: {
      using data_t = cista::paged<mmap_vec<uint32_t>>;
      using idx_t = mmap_vec<data_t::page_t>;
      MrRun<cista::paged_vecvec<idx_t, data_t, uint32_t>, mmap_vec<uint32_t>, idx_t, uint32_t>{}.exec(p);
      break;
    }
    case 3: {
      using data_t = cista::paged<mmap_vec<uint8_t>>;
      using idx_t = mmap_vec<data_t::page_t>;
      MrRun<cista::paged_vecvec<idx_t, data_t, uint32_t>, mmap_vec<uint8_t>, idx_t, uint8_t>{}.exec(p);
      break;
    }
  }
}
}  // namespace props
static std::vector<sim::Harness> const g_h = {{"mm", props::mm_name, props::gen_mm, props::exec_mm},
                                              {"mv", props::mv_name, props::gen_mv, props::exec_mv},
                                              {"mr", props::mr_name, props::gen_mr, props::exec_mr}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
