// Storage: round trips, faults while saving/loading, damage, determinism,
// position independence, and the raw write interface of the targets.
#include "store_impl.h"

namespace props {

static std::vector<TypeEntry> const& types() {
  static std::vector<TypeEntry> const t = [] {
    std::vector<TypeEntry> r;
    for (auto* f : {part1, part2, part3, part4})
      for (auto const& e : f()) r.push_back(e);
    return r;
  }();
  return t;
}
static void exec_store(Plan const& p) { 
  auto const& t = types()[static_cast<std::size_t>(p.c(0)) % types().size()];
  trace("  type: %s", t.name);
  t.run(p);
}
static ll pick_type(Rng& r) {
  auto const& t = types();
  for (;;) {
    auto i = static_cast<std::size_t>(r.below(t.size()));
    if (std::strcmp(t[i].name, "big") == 0 && !r.chance(150)) continue;
    return static_cast<ll>(i);
  }
}
static int size_of(Rng& r) { return r.chance(80) ? 60 : r.chance(300) ? 1 : static_cast<int>(r.range(1, 8)); }
static void fault_io(Rng& r, Op& op, unsigned permille) {
  if (!r.chance(permille)) return;
  Fault f;
  static int const kinds[] = {F_IO, F_IO, F_IO_ALL, F_ALLOC, F_ALLOC_ALL, F_CRASH, F_POWER};
  f.kind = kinds[r.below(7)];
  f.n = r.chance(600) ? static_cast<int64_t>(r.below(6)) : static_cast<int64_t>(r.below(60));
  f.arg = static_cast<int64_t>(r.next() >> 8);
  op.f.push_back(f);
  if (r.chance(150)) { f.kind = kinds[r.below(5)]; f.n = static_cast<int64_t>(r.below(20)); op.f.push_back(f); }
}
static Op mk_op(int code, ll a = 0, ll b = 0, ll c = 0) {
  Op o;
  o.code = code; o.a = a; o.b = b; o.c = c;
  return o;
}
static ll seed_of(Rng& r) { return static_cast<ll>(r.next() >> 16); }
static Op save_op(Rng& r, int path) { return mk_op(ST_SAVE, static_cast<ll>(r.below(2)), static_cast<ll>(r.below(5)), static_cast<ll>(r.below(16)) | path << 8); }
static Op load_op(Rng& r, int path, unsigned modify) {
  return mk_op(ST_LOAD, static_cast<ll>(r.below(6)), static_cast<ll>(r.below(9)),
               (path << 8) | (r.chance(modify) ? 0x10000 : 0) | static_cast<ll>((r.next() >> 24) << 20));
}
static void builds(Rng& r, Plan& p) {
  for (int i = 0; i < 2; ++i) p.ops.push_back(mk_op(ST_BUILD, i, seed_of(r), size_of(r)));
}

// C01: every mode, target and load path, no faults
static Plan gen_rt(Rng& r, int tier) {
  Plan p;
  p.cfg = {pick_type(r), 0, static_cast<ll>(r.below(512))};
  builds(r, p);
  ll n = r.range(2, 12) * (tier ? 2 : 1);
  for (ll i = 0; i < n; ++i) {
    int path = static_cast<int>(r.below(2));
    if (r.chance(300)) p.ops.push_back(mk_op(ST_MUT, static_cast<ll>(r.below(2)), seed_of(r)));
    if (r.chance(100)) p.ops.push_back(mk_op(ST_BUILD, static_cast<ll>(r.below(2)), seed_of(r), size_of(r)));
    if (r.chance(700)) p.ops.push_back(save_op(r, path));
    for (auto k = r.below(3); k > 0; --k) p.ops.push_back(load_op(r, path, 500));
  }
  return p;
}
// C02: the same with failing I/O, allocations, crashes
static Plan gen_file(Rng& r, int tier) {
  Plan p;
  p.cfg = {pick_type(r), 1, static_cast<ll>(r.below(512))};
  builds(r, p);
  ll n = r.range(2, 10) * (tier ? 2 : 1);
  auto const rate = r.pick({200u, 500u, 800u});
  for (ll i = 0; i < n; ++i) {
    int path = static_cast<int>(r.below(2));
    if (r.chance(200)) p.ops.push_back(mk_op(ST_MUT, static_cast<ll>(r.below(2)), seed_of(r)));
    auto s = save_op(r, path);
    if (r.chance(900) && s.b == 0) s.b = static_cast<ll>(r.range(1, 4));
    fault_io(r, s, rate);
    p.ops.push_back(s);
    for (auto k = r.below(3); k > 0; --k) {
      auto l = load_op(r, path, 100);
      if (r.chance(600)) l.b = static_cast<ll>(r.range(2, 4));
      fault_io(r, l, rate);
      p.ops.push_back(l);
    }
  }
  return p;
}
// C03: damage between save and load
static Plan gen_corrupt(Rng& r, int tier) {
  Plan p;
  p.cfg = {pick_type(r), 0, static_cast<ll>(r.below(512))};
  builds(r, p);
  ll n = r.range(2, 8) * (tier ? 2 : 1);
  for (ll i = 0; i < n; ++i) {
    int path = static_cast<int>(r.below(2));
    if (r.chance(300)) p.ops.push_back(mk_op(ST_MUT, static_cast<ll>(r.below(2)), seed_of(r)));
    auto s = save_op(r, path);
    // protected modes come first in the table
    if (r.chance(700)) s.c = (s.c & ~255) | static_cast<ll>(r.below(3));
    if (r.chance(250)) {
      Fault f;
      f.kind = r.chance(500) ? F_POWER : F_CRASH;
      f.n = static_cast<int64_t>(r.below(40));
      f.arg = seed_of(r);
      s.f.push_back(f);
    }
    p.ops.push_back(s);
    for (auto k = r.below(4); k > 0; --k) {
      switch (r.below(10)) {
        case 0: p.ops.push_back(mk_op(ST_POWER, 0, 0, seed_of(r))); break;
        case 1: p.ops.push_back(mk_op(ST_SWAPF)); break;
        case 2: p.ops.push_back(mk_op(ST_WRONG, static_cast<ll>(r.below(6)), 0, path << 8)); break;
        default: p.ops.push_back(mk_op(ST_DAMAGE, path, static_cast<ll>(r.below(8)), seed_of(r)));
      }
      p.ops.push_back(load_op(r, path, 0));
    }
  }
  return p;
}
// C06: one value through every target and mode, rebuilt at other addresses
static Plan gen_det(Rng& r, int) {
  Plan p;
  p.cfg = {pick_type(r), 0, static_cast<ll>(r.below(512))};
  auto const s = seed_of(r);
  auto const sz = size_of(r);
  p.ops.push_back(mk_op(ST_BUILD, 0, s, sz));
  p.ops.push_back(mk_op(ST_BUILD, 1, s, sz));
  for (auto k = r.below(3); k > 0; --k) {
    auto m = seed_of(r);
    p.ops.push_back(mk_op(ST_MUT, 0, m));
    p.ops.push_back(mk_op(ST_MUT, 1, m));
  }
  ll n = r.range(2, 10);
  auto mode = static_cast<ll>(r.below(16));
  for (ll i = 0; i < n; ++i) {
    auto o = save_op(r, static_cast<int>(r.below(2)));
    if (r.chance(600)) o.c = (o.c & ~255) | mode;
    p.ops.push_back(o);
  }
  return p;
}
static Plan gen_pos(Rng& r, int tier) {
  Plan p;
  p.cfg = {pick_type(r), 0, static_cast<ll>(r.below(512))};
  builds(r, p);
  if (r.chance(300)) p.ops.push_back(mk_op(ST_MUT, 0, seed_of(r)));
  auto s = save_op(r, 0);
  // modes whose checksum may be skipped: default-unchecked none/static/version families
  p.ops.push_back(s);
  ll n = r.range(3, 16) * (tier ? 2 : 1);
  for (ll i = 0; i < n; ++i) {
    switch (r.below(6)) {
      case 0: case 1: p.ops.push_back(mk_op(ST_MAP, 0, static_cast<ll>(r.below(3)))); break;
      case 2: case 3: p.ops.push_back(mk_op(ST_POKE, static_cast<ll>(r.below(6)), 0, seed_of(r))); break;
      case 4: p.ops.push_back(mk_op(ST_UNMAP, static_cast<ll>(r.below(4)))); break;
      case 5: p.ops.push_back(load_op(r, 0, 300)); break;
    }
  }
  return p;
}

// ---------------------------------------------------------------- raw target interface (C06)
enum { W_WRITE, W_POS8, W_POS32, W_POS64, W_SUM, N_W };
static char const* w_name(int c) {
  static char const* n[] = {"write", "write byte at", "write u32 at", "write u64 at", "checksum"};
  return c >= 0 && c < N_W ? n[c] : "?";
}
static Plan gen_raw(Rng& r, int tier) {
  Plan p;
  p.cfg = {static_cast<ll>(r.below(4)), static_cast<ll>(r.chance(150))};
  ll n = r.range(2, 40) * (tier ? 2 : 1);
  bool const big = r.chance(30);
  for (ll i = 0; i < n; ++i) {
    Op o;
    auto x = r.below(10);
    o.code = x < 6 ? W_WRITE : x < 9 ? static_cast<int>(W_POS8 + r.below(3)) : W_SUM;
    o.a = seed_of(r);
    o.b = static_cast<ll>(r.chance(200) ? 1 : r.chance(100) ? 1 + r.below(9000) : 1 + r.below(70));
    if (big && r.chance(200)) o.b = 1 + static_cast<ll>(r.below(700000));
    o.c = static_cast<ll>(r.below(7));  // log2 alignment; 6: none
    p.ops.push_back(o);
  }
  return p;
}
struct RawRun {
  Plan const& p;
  template <typename W>
  void go(W& w) {
    Bytes m;
    bool started = false;
    for (auto const& op : p.ops) {
      log_event('O', static_cast<uint64_t>(op.code));
      Rng r{static_cast<uint64_t>(op.a)};
      switch (op.code) {
        case W_WRITE: {
          Bytes d(static_cast<std::size_t>(op.b));
          for (auto& c : d) c = static_cast<uint8_t>(r.next());
          std::size_t const al = op.c == 6 ? 0 : std::size_t{1} << op.c;
          if (d.empty() && m.empty()) break;
          auto at = m.size();
          if (al > 1 && started) at = (at + al - 1) / al * al;
          cista::offset_t got = -1;
          auto res = call(std::vector<Fault>{}, [&] { got = w.write(d.data(), d.size(), al); });
          CHK(res.ok(), "raw-spurious", "write of %zu bytes failed: %s", d.size(), res.what.c_str());
          CHK(static_cast<std::size_t>(got) == at, "raw-offset", "write of %zu bytes with alignment %zu after %zu bytes went to %lld, expected %zu", d.size(), al, m.size(), (ll)got, at);
          m.resize(at);
          m.insert(m.end(), d.begin(), d.end());
          started = true;
          break;
        }
        case W_POS8: case W_POS32: case W_POS64: {
          std::size_t const sz = op.code == W_POS8 ? 1 : op.code == W_POS32 ? 4 : 8;
          if (m.size() < sz) break;
          auto const at = static_cast<std::size_t>(r.below(m.size() - sz + 1));
          auto const v = r.next();
          auto res = call(std::vector<Fault>{}, [&] {
            if (sz == 1) w.write(at, static_cast<uint8_t>(v)); else if (sz == 4) w.write(at, static_cast<uint32_t>(v)); else w.write(at, static_cast<uint64_t>(v));
          });
          CHK(res.ok(), "raw-spurious", "positioned write failed: %s", res.what.c_str());
          std::memcpy(&m[at], &v, sz);
          break;
        }
        case W_SUM: {
          auto const from = static_cast<std::size_t>(r.below(m.size() + 1));
          uint64_t got = 0;
          auto res = call(std::vector<Fault>{}, [&] { got = w.checksum(static_cast<cista::offset_t>(from)); });
          CHK(res.ok(), "raw-spurious", "checksum failed: %s", res.what.c_str());
          auto want = cista::hash(std::string_view{reinterpret_cast<char const*>(m.data()) + from, m.size() - from});
          CHK(got == want, "raw-checksum", "checksum from %zu of %zu bytes is %llx, over the same bytes %llx", from, m.size(), (unsigned long long)got, (unsigned long long)want);
          break;
        }
      }
      note_state(mix(m.size(), static_cast<uint64_t>(op.code)));
    }
    model = std::move(m);
  }
  Bytes model;
  void compare(Bytes const& got) {
    std::size_t i = 0;
    while (i < got.size() && i < model.size() && got[i] == model[i]) ++i;
    CHK(got == model, "raw-bytes", "the target holds %zu bytes, written were %zu; first difference at %zu", got.size(), model.size(), i);
  }
  void run() {
    mark_nontrivial();
    switch (p.c(0) % 4) {
      case 0: {
        cista::buf<cista::byte_buf> b;
        go(b);
        { NoSut q; compare(Bytes(b.buf_.begin(), b.buf_.end())); }
        Sut s;
        b.buf_ = cista::byte_buf{};
        break;
      }
      case 1: case 2: {
        auto* f = static_cast<cista::file*>(::operator new(sizeof(cista::file)));
        auto r = call(std::vector<Fault>{}, [&] { new (f) cista::file{kFiles[0], "w+"}; });
        CHK(r.ok(), "raw-spurious", "open failed");
        go(*f);
        call(std::vector<Fault>{}, [&] { f->~file(); });
        ::operator delete(f);
        compare(disk::content(kFiles[0]));
        break;
      }
      case 3: {
        using B = cista::buf<cista::mmap>;
        auto* f = static_cast<B*>(::operator new(sizeof(B)));
        auto r = call(std::vector<Fault>{}, [&] { new (f) B{cista::mmap{kFiles[0], cista::mmap::protection::WRITE}}; });
        CHK(r.ok(), "raw-spurious", "open failed");
        go(*f);
        call(std::vector<Fault>{}, [&] { f->~B(); });
        ::operator delete(f);
        compare(disk::content(kFiles[0]));
        break;
      }
    }
    disk::expect_released("end of run");
    heap::expect_no_leak("end of run");
  }
};
static void exec_raw(Plan const& p) {
  RawRun r{p, {}};
  r.run();
}
}  // namespace props
static std::vector<sim::Harness> const g_h = {
    {"rt", props::st_name, props::gen_rt, props::exec_store},
    {"file", props::st_name, props::gen_file, props::exec_store},
    {"corrupt", props::st_name, props::gen_corrupt, props::exec_store},
    {"det", props::st_name, props::gen_det, props::exec_store},
    {"pos", props::st_name, props::gen_pos, props::exec_store},
    {"raw", props::w_name, props::gen_raw, props::exec_raw},
};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
