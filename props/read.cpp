// Many threads read one value through its const interface (C18).
#include "../sim/fiber.h"
#include "query.h"

namespace props {
using cista::mode;

template <typename V, typename = void>
struct copyable : std::false_type {};
template <> struct copyable<Sums> : std::true_type {};
template <> struct copyable<Alt> : std::true_type {};
template <> struct copyable<Plain> : std::true_type {};
template <> struct copyable<Txt> : std::true_type {};
template <> struct copyable<Wide> : std::true_type {};
template <> struct copyable<CTxt> : std::true_type {};
template <> struct copyable<Jagged> : std::true_type {};
template <> struct copyable<Scal> : std::true_type {};
template <> struct copyable<Al16> : std::true_type {};

// ------------------------------------------------------------ the harness
enum RdOp { R_READ, R_SWITCH, N_RD };
static char const* rd_name(int c) {
  static char const* n[] = {"read", "switch thread"};
  return c >= 0 && c < N_RD ? n[c] : "?";
}
enum Action { R_DUMP, R_QUERY, R_QUERY2, R_COPY, R_LOAD, R_AGGR, N_ACT };
static char const* const act_names[] = {"read everything", "query", "query", "copy", "load the image", "hash/compare the whole"};

template <typename T> struct whole : std::false_type {};
template <> struct whole<Plain> : std::true_type {};
template <> struct whole<Leaf> : std::true_type {};
template <> struct whole<Sums> : std::false_type {};

template <typename T>
struct Loader {
  T const* (*cst)(uint8_t const*, uint8_t const*){nullptr};
  T* (*mut)(uint8_t*, uint8_t*){nullptr};
  cista::byte_buf (*save)(T&){nullptr};
};
template <typename T, mode M>
static Loader<T> loader() {
  Loader<T> l;
  if constexpr (kOffset) l.cst = [](uint8_t const* a, uint8_t const* b) { return cista::deserialize<T, M>(a, b); };
  l.mut = [](uint8_t* a, uint8_t* b) { return cista::deserialize<T, M>(a, b); };
  l.save = [](T& t) { return cista::serialize<M>(t); };
  return l;
}
template <typename T>
static std::vector<Loader<T>> const& loaders() {
  static std::vector<Loader<T>> const l = [] {
    std::vector<Loader<T>> r{loader<T, mode::NONE>(), loader<T, mode::WITH_INTEGRITY>()};
    if constexpr (!std::is_same_v<T, CTxt>) {
      r.push_back(loader<T, mode::WITH_VERSION | mode::WITH_INTEGRITY | mode::DEEP_CHECK>());
      if constexpr (!std::is_same_v<T, Graph>) r.push_back(loader<T, mode::WITH_STATIC_VERSION>());
    }
    return r;
  }();
  return l;
}
// true: as a lone thread sees it
template <typename T>
static void act(Dump& d, int action, uint64_t seed, T const& a, T const& b, Loader<T> const* ld, uint8_t const* img, std::size_t img_len) {
  Rng r{seed};
  switch (action) {
    case R_DUMP: G<T>::dump(d, a); break;
    case R_LOAD:
      if (ld != nullptr && img != nullptr) {
        auto const* t = ld->cst(img, img + img_len);
        G<T>::dump(d, *t);
        break;
      }
      [[fallthrough]];
    case R_QUERY: case R_QUERY2: Q<T>::run(d, a, b, r); break;
    case R_COPY:
      if constexpr (copyable<T>::value) {
        auto* t = new T(a);
        G<T>::dump(d, *t);
        Q<T>::run(d, *t, a, r);
        delete t;
      } else G<T>::dump(d, b);
      break;
    case R_AGGR:
      if constexpr (whole<T>::value) {
        d.num(static_cast<ll>(cista::hashing<T>{}(a)));
        d.num(cista::equal_to<T>{}(a, b));
      } else Q<T>::run(d, b, a, r);
      break;
  }
}
struct Task { int action; uint64_t seed; std::string want; };

template <typename Get>
static void share_and_run(Plan const& p, Get&& action) {
  unsigned const nt = 2 + static_cast<unsigned>(p.c(2) % 3);
  std::vector<std::vector<Task>> prog(nt);
  std::size_t n = 0;
  for (auto const& op : p.ops)
    if (op.code == R_READ && n < 24) prog[static_cast<std::size_t>(op.a) % nt].push_back({static_cast<int>(op.b % N_ACT), static_cast<uint64_t>(op.c), {}}), ++n;
  auto const region = heap::extent();
  std::vector<uint8_t> before(region.first, region.first + region.second);
  fib::share(region.first, region.second, true);
  auto unchanged = [&](char const* who) {
    CHK(std::memcmp(before.data(), region.first, region.second) == 0, "shared-changed", "%s changed bytes of the shared value", who);
  };
  // alone
  uint64_t total = 0;
  for (unsigned t = 0; t < nt; ++t) {
    for (auto& k : prog[t]) {
      fib::run(1, [&](unsigned) {
        Sut s;
        Dump d;
        action(d, k.action, k.seed);
        NoSut q;
        k.want = d.s.c_str();
        k.want.assign(d.s.data(), d.s.size());
      }, {});
      total += fib::steps();
      log_event('w', k.want.size());
      if (tracing()) trace("    alone: thread %u will %s -> %s", t, act_names[k.action], [&] { std::string o; for (char c : k.want.substr(0, 160)) o += c >= 32 && c < 127 ? c : '.'; return o; }().c_str());
    }
  }
  unchanged("a lone reader");
  fib::Schedule sch;
  for (auto const& op : p.ops)
    if (op.code == R_SWITCH) sch.switches.push_back({static_cast<uint64_t>(op.a) * (total + 1) / 1000000, static_cast<unsigned>(op.b)});
  fib::run(nt, [&](unsigned t) {
    for (auto const& k : prog[t]) {
      bool same = false;
      std::string got;
      {
        Sut s;
        Dump d;
        action(d, k.action, k.seed);
        NoSut q;
        same = d.s.size() == k.want.size() && std::memcmp(d.s.data(), k.want.data(), k.want.size()) == 0;
        if (!same) got.assign(d.s.data(), d.s.size());
      }
      if (tracing()) trace("  thread %u did %s", t, act_names[k.action]);
      if (!same) {
        std::size_t i = 0;
        while (i < got.size() && i < k.want.size() && got[i] == k.want[i]) ++i;
        violation(O_MODEL, "reader-differs", std::string("one of several readers (") + act_names[k.action] + ") saw something else than a lone reader, at character " + std::to_string(i));
      }
    }
  }, sch);
  fib::unshare_all();
  unchanged("a reader");
  count("concurrent reads", n);
  note_state(mix(static_cast<uint64_t>(p.c(0)) * 8 + static_cast<uint64_t>(p.c(1)), total / 64));
}

template <typename T>
static void readers(Plan const& p) {
  Rng r{p.seed};
  auto build = [&](Slot<T>& o, uint64_t seed, ll muts) {
    auto x = call(std::vector<Fault>{}, [&] {
      o.construct([&](void* w) { new (w) T{}; });
      GR g{seed, static_cast<int>(1 + p.c(4) % 8)};
      G<T>::gen(*o, g);
      for (ll i = 0; i < muts; ++i) G<T>::mut(*o, g);
    });
    CHK(x.ok(), "read-build", "building a value failed: %s", x.what.c_str());
  };
  Slot<T> a, b;
  auto const seed = r.next();
  build(a, seed, p.c(5) % 4);
  build(b, r.chance(500) ? seed : r.next(), r.chance(600) ? p.c(5) % 4 : static_cast<ll>(r.below(4)));
  T const *pa = a.p, *pb = b.p;
  uint8_t* img = nullptr;
  std::size_t len = 0;
  Loader<T> const* ld = nullptr;
  int const source = static_cast<int>(p.c(1) % 3);
  if (source != 0) {
    auto const& ls = loaders<T>();
    ld = &ls[static_cast<std::size_t>(p.c(3)) % ls.size()];
    auto x = call(std::vector<Fault>{}, [&] {
      auto buf = ld->save(*a);
      len = buf.size();
      { NoSut n; img = static_cast<uint8_t*>(heap::image_alloc(len, 64)); }
      std::memcpy(img, buf.data(), len);
      if (ld->cst != nullptr && source == 2) pa = ld->cst(img, img + len);
      else pa = ld->mut(img, img + len);
    });
    CHK(x.ok(), "read-load", "saving and loading failed: %s", x.what.c_str());
    // converted in place: the image cannot be loaded again
    if (ld->cst == nullptr) ld = nullptr;
  }
  share_and_run(p, [&](Dump& d, int action, uint64_t s) { act<T>(d, action, s, *pa, *pb, ld, img, len); });
  if (img != nullptr) heap::image_free(img);
  a.destroy();
  b.destroy();
}
// the spatial index is searched, not dumped
static void tree_readers(Plan const& p) {
  Rng r{p.seed};
  Slot<Tree> a;
  auto box = [](Rng& q, Tree::coord_t& lo, Tree::coord_t& hi) {
    for (int i = 0; i < 2; ++i) {
      lo[i] = static_cast<float>(q.below(40));
      hi[i] = lo[i] + static_cast<float>(q.below(12));
    }
  };
  auto n = r.chance(200) ? r.below(4) : r.below(150);
  auto x = call(std::vector<Fault>{}, [&] {
    a.construct([&](void* w) { new (w) Tree{}; });
    for (uint32_t i = 0; i < n; ++i) {
      Tree::coord_t lo, hi;
      box(r, lo, hi);
      a->insert(lo, hi, i);
    }
  });
  CHK(x.ok(), "read-build", "building a tree failed: %s", x.what.c_str());
  Tree const* t = a.p;
  uint8_t* img = nullptr;
  if (p.c(1) % 3 != 0) {
    auto y = call(std::vector<Fault>{}, [&] {
      auto buf = cista::serialize<mode::NONE>(*a);
      { NoSut q; img = static_cast<uint8_t*>(heap::image_alloc(buf.size(), 64)); }
      std::memcpy(img, buf.data(), buf.size());
      t = cista::deserialize<Tree, mode::NONE>(img, img + buf.size());
    });
    CHK(y.ok(), "read-load", "saving and loading failed: %s", y.what.c_str());
  }
  share_and_run(p, [&](Dump& d, int, uint64_t s) {
    Rng q{s};
    Tree::coord_t lo, hi;
    box(q, lo, hi);
    auto const stop = q.chance(200) ? q.below(5) : ~0ull;
    uint64_t k = 0;
    t->search(lo, hi, [&](auto const&, auto const&, uint32_t v) {
      d.num(v);
      return ++k <= stop;
    });
  });
  if (img != nullptr) heap::image_free(img);
  a.destroy();
}

struct Entry { char const* name; void (*run)(Plan const&); };
static Entry const kTypes[] = {
    {"sums", readers<Sums>}, {"mix", readers<Mix>}, {"alt", readers<Alt>}, {"text", readers<Txt>}, {"wide", readers<Wide>}, {"ctext", readers<CTxt>},
    {"jagged", readers<Jagged>}, {"scalars", readers<Scal>}, {"plain", readers<Plain>}, {"al16", readers<Al16>}, {"tree", tree_readers}, {"graph", readers<Graph>}, {"deep", readers<Deep>}};
constexpr std::size_t kN = sizeof(kTypes) / sizeof(kTypes[0]);
static Plan gen_read(Rng& r, int tier) {
  Plan p;
  p.cfg = {static_cast<ll>(r.below(kN)), static_cast<ll>(r.below(3)), static_cast<ll>(r.below(3)), static_cast<ll>(r.below(4)), static_cast<ll>(r.below(8)), static_cast<ll>(r.below(4))};
  ll const n = r.range(2, tier ? 16 : 8);
  for (ll i = 0; i < n; ++i) p.ops.push_back(Op{R_READ, static_cast<ll>(r.below(12)), static_cast<ll>(r.below(N_ACT)), static_cast<ll>(r.next() >> 16), {}});
  ll const k = r.chance(400) ? r.range(1, 4) : r.chance(600) ? r.range(4, 14) : r.range(14, 80);
  ll const around = r.chance(300) ? static_cast<ll>(r.below(1000000)) : -1;
  for (ll i = 0; i < k; ++i) {
    ll at = around < 0 ? static_cast<ll>(r.below(1000000)) : std::min<ll>(999999, around + static_cast<ll>(r.below(20000)));
    p.ops.push_back(Op{R_SWITCH, at, static_cast<ll>(r.below(4)), 0, {}});
  }
  return p;
}
static void exec_read(Plan const& p) {
  auto const& t = kTypes[static_cast<std::size_t>(p.c(0)) % kN];
  trace("  type: %s", t.name);
  t.run(p);
}
}  // namespace props
static std::vector<sim::Harness> const g_h = {{"read", props::rd_name, props::gen_read, props::exec_read}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
