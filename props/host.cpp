// Damaged images and checked loading (C07).
#include "query.h"
#include "cista/io.h"

namespace props {
using cista::mode;
using Bytes = disk::Bytes;

enum HostOp { H_BUILD, H_BIT, H_BYTE, H_WORD8, H_WORD4, H_COPY, H_SWAP, H_ZERO, H_CUT, H_EXTEND, H_PTR, H_SIZES, H_NEAR, H_LOAD, N_HOST };
static char const* host_name(int c) {
  static char const* n[] = {"build", "flip a bit", "set a byte", "set a word", "set a half word", "copy a region", "swap regions", "zero a region", "cut", "extend",
                            "redirect a pointer", "change a size", "swap close bytes", "load"};
  return c >= 0 && c < N_HOST ? n[c] : "?";
}

template <typename T>
struct Way {
  char const* name;
  bool deep, be;
  cista::byte_buf (*image)(T&);
  T* (*mut)(uint8_t*, uint8_t*);
  T const* (*cst)(uint8_t const*, uint8_t const*);
  T* (*buf)(cista::byte_buf&);
  T const* (*view)(std::string_view);
  cista::wrapped<T> (*read)(char const*);
};
template <typename T, mode S, mode L>
static Way<T> way(char const* name) {
  Way<T> w{};
  w.name = name;
  w.deep = (L & mode::DEEP_CHECK) == mode::DEEP_CHECK;
  w.be = (S & mode::SERIALIZE_BIG_ENDIAN) == mode::SERIALIZE_BIG_ENDIAN;
  w.image = [](T& t) { return cista::serialize<S>(t); };
  w.mut = [](uint8_t* a, uint8_t* b) { return cista::deserialize<T, L>(a, b); };
  if constexpr (kOffset && (S & mode::SERIALIZE_BIG_ENDIAN) != mode::SERIALIZE_BIG_ENDIAN)
  {
    w.cst = [](uint8_t const* a, uint8_t const* b) { return cista::deserialize<T, L>(a, b); };
    w.view = [](std::string_view s) -> T const* { return cista::deserialize<T, L>(s); };
  }
  w.read = [](char const* p) { return cista::read<T, L>(std::filesystem::path{p}); };
  w.buf = [](cista::byte_buf& b) -> T* { return cista::deserialize<T, L>(b); };
  return w;
}
template <typename T>
static std::vector<Way<T>> const& ways() {
  static std::vector<Way<T>> const w = [] {
    constexpr auto V = mode::WITH_VERSION, I = mode::WITH_INTEGRITY, B = mode::SERIALIZE_BIG_ENDIAN, D = mode::DEEP_CHECK, SI = mode::SKIP_INTEGRITY;
    std::vector<Way<T>> r{way<T, mode::NONE, mode::NONE>("plain"), way<T, mode::NONE, D>("deep"), way<T, I, SI>("integrity skipped"), way<T, B, B>("big endian")};
    if constexpr (!std::is_same_v<T, CTxt>) r.push_back(way<T, V | D, V | D>("version, deep"));
    return r;
  }();
  return w;
}

// what deep checking promises on top
template <typename T>
static void deep_dump(Dump&, T const&) {}
static void deep_dump(Dump& d, Graph const& g) {
  std::set<Node const*> seen;
  std::vector<Node const*> todo;
  auto add = [&](Node const* n) { if (n != nullptr && seen.insert(n).second) todo.push_back(n); };
  add(g.first_);
  for (auto const& p : g.all_) add(p);
  for (auto const& n : g.nodes_) { add(n.back_); for (auto const& p : n.out_) add(p); }
  for (auto const& n : g.owned_) if (n != nullptr) { add(n->back_); for (auto const& p : n->out_) add(p); }
  while (!todo.empty()) {
    auto const* n = todo.back();
    todo.pop_back();
    G<Graph>::dump_node(d, *n);
    add(n->back_);
    for (auto const& p : n->out_) add(p);
  }
  if (g.to_anchor_ != nullptr) G<Leaf>::dump(d, static_cast<Leaf const&>(*g.to_anchor_));
}

template <typename T>
struct HostRun {
  Plan const& plan;
  Slot<T> v, other;
  uint8_t* img{nullptr};
  std::size_t len{0};
  Way<T> const* w{nullptr};

  void drop() {
    if (img != nullptr) heap::image_free(img);
    img = nullptr;
  }
  void resize(std::size_t n) {
    auto* p = static_cast<uint8_t*>(heap::image_alloc(n, 64));
    std::memcpy(p, img, std::min(n, len));
    if (n > len) std::memset(p + len, 0, n - len);
    drop();
    img = p;
    len = n;
  }
  void build(Op const& op) {
    drop();
    v.destroy();
    w = &ways<T>()[static_cast<std::size_t>(op.a) % ways<T>().size()];
    auto x = call(std::vector<Fault>{}, [&] {
      v.construct([&](void* p) { new (p) T{}; });
      GR g{static_cast<uint64_t>(op.b), static_cast<int>(op.c)};
      G<T>::gen(*v, g);
      for (auto n = g.r.below(3); n > 0; --n) G<T>::mut(*v, g);
      auto b = w->image(*v);
      NoSut n;
      len = b.size();
      img = static_cast<uint8_t*>(heap::image_alloc(len, 64));
      std::memcpy(img, b.data(), len);
    });
    CHK(x.ok(), "host-build", "building an image failed: %s", x.what.c_str());
    if (tracing()) trace("    image of %zu bytes, %s", len, w->name);
  }
  uint64_t get8(std::size_t p) const {
    uint64_t x;
    std::memcpy(&x, img + p, 8);
    return w->be ? __builtin_bswap64(x) : x;
  }
  void put8(std::size_t p, uint64_t x) {
    if (p + 8 > len) return;
    if (w->be) x = __builtin_bswap64(x);
    std::memcpy(img + p, &x, 8);
    if (tracing()) trace("    word at %zu = 0x%llx", p, (unsigned long long)x);
  }
  uint32_t get4(std::size_t p) const {
    uint32_t x;
    std::memcpy(&x, img + p, 4);
    return w->be ? __builtin_bswap32(x) : x;
  }
  void put4(std::size_t p, uint32_t x) {
    if (p + 4 > len) return;
    if (w->be) x = __builtin_bswap32(x);
    std::memcpy(img + p, &x, 4);
    if (tracing()) trace("    half word at %zu = 0x%x", p, x);
  }
  std::vector<std::size_t> pointers() const {
    std::vector<std::size_t> r;
    for (std::size_t p = 0; p + 8 <= len; p += 8) {
      auto const x = static_cast<int64_t>(get8(p));
      if (x != 0 && static_cast<int64_t>(p) + x >= 0 && static_cast<int64_t>(p) + x <= static_cast<int64_t>(len) && (x > 4 || x < -4)) r.push_back(p);
    }
    return r;
  }
  uint64_t word8(Rng& r, std::size_t p, uint64_t old) {
    auto const l = static_cast<uint64_t>(len);
    switch (r.below(16)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return ~0ull >> r.below(2);
      case 3: return 1ull << (r.below(64));
      case 4: return ~0ull / r.pick({8ull, 16ull, 24ull, 4ull}) + r.below(3);
      case 5: return l - p - r.below(40);
      case 6: return l - p + r.below(40);
      case 7: return ~static_cast<uint64_t>(p) + 1 - r.below(20);
      case 8: return ~static_cast<uint64_t>(p) + 1 + r.below(20);
      case 9: return old + r.pick({1ull, 8ull, 16ull, 24ull, 4ull, 64ull});
      case 10: return old - r.pick({1ull, 8ull, 16ull, 24ull, 4ull, 64ull});
      case 11: return (r.below(l + 1) & ~7ull) - p;
      case 12: return (r.below(l + 1)) - p;
      // another live object of the process
      case 13: return static_cast<uint64_t>(reinterpret_cast<uint8_t*>(v.p) - (img + p));
      case 14: return r.below(64);
      default: return r.next() >> r.below(64);
    }
  }
  uint32_t word4(Rng& r, uint32_t old) {
    auto const l = static_cast<uint32_t>(len);
    switch (r.below(12)) {
      case 0: return 0;
      case 1: return 1;
      case 2: return ~0u;
      case 3: return 1u << r.below(32);
      case 4: return old + 1;
      case 5: return old - 1;
      case 6: return old * 2;
      case 7: return l;
      case 8: return l / r.pick({2u, 4u, 8u, 16u, 24u});
      case 9: return static_cast<uint32_t>(r.below(40));
      case 10: return 0x80000000u / r.pick({2u, 4u, 8u, 16u, 1u}) + static_cast<uint32_t>(r.below(3));
      default: return static_cast<uint32_t>(r.next() >> r.below(64));
    }
  }
  void mutate(Op const& op) {
    if (img == nullptr || len == 0) return;
    Rng r{static_cast<uint64_t>(op.c) * 31 + static_cast<uint64_t>(op.code)};
    // Where loading converts in place, overlapping blocks are converted twice (see DESIGN.md): only damage which
    // leads out of the image is applied there.
    if (w->be || !kOffset) {
      if (op.code == H_CUT) resize(r.chance(500) ? len - std::min<std::size_t>(len, r.below(40)) : r.below(len));
      else if (auto const ps = pointers(); !ps.empty()) {
        auto const p = ps[r.below(ps.size())];
        auto const far = r.pick<uint64_t>({1ull << 62, ~0ull >> 1, 1ull << 63, 0x8000000180000001ull, 0xf000000ff000000full, 0x00ffffff7fffffffull});
        if (r.chance(500)) put8(p, far + r.below(64));
        else if (r.chance(500)) put8(p, ~static_cast<uint64_t>(p + r.pick<uint64_t>({0, 7, 8, 15, 16, 64, 4096, 1ull << 32})));
        else if (p + 16 <= len) {
          auto const x = r.pick<uint32_t>({~0u - 15, 1u << 31, (1u << 29) + 1, static_cast<uint32_t>(len) + 1u, (1u << 30) + static_cast<uint32_t>(r.below(8))});
          put4(p + 8, x);
          put4(p + 12, x);
        }
      }
      mark_nontrivial();
      return;
    }
    auto pos = [&](std::size_t align) {
      auto p = r.chance(200) ? r.below(std::min<std::size_t>(len, 64)) : r.below(len);
      return static_cast<std::size_t>(p / align * align);
    };
    switch (op.code) {
      case H_BIT: { auto p = pos(1); img[p] ^= static_cast<uint8_t>(1u << r.below(8)); if (tracing()) trace("    byte at %zu = 0x%x", p, img[p]); break; }
      case H_BYTE: { auto p = pos(1); img[p] = r.pick<uint8_t>({0, 1, 2, 0x7f, 0x80, 0xfe, 0xff, 15, 16, static_cast<uint8_t>(r.next())}); if (tracing()) trace("    byte at %zu = 0x%x", p, img[p]); break; }
      case H_WORD8: { auto p = pos(8); if (p + 8 <= len) put8(p, word8(r, p, get8(p))); break; }
      case H_WORD4: { auto p = pos(4); if (p + 4 <= len) put4(p, word4(r, get4(p))); break; }
      case H_COPY: {
        auto const al = r.pick<std::size_t>({8, 8, 4, 1});
        auto a = pos(al), b = pos(al);
        std::memmove(img + a, img + b, std::min({static_cast<std::size_t>(r.below(80) + 1), len - a, len - b}));
        break;
      }
      case H_SWAP: {
        auto const al = r.pick<std::size_t>({8, 8, 4, 1});
        auto a = pos(al), b = pos(al);
        auto const n = std::min({static_cast<std::size_t>(r.below(40) + 1), len - a, len - b});
        if (a + n <= b || b + n <= a) std::swap_ranges(img + a, img + a + n, img + b);
        break;
      }
      case H_ZERO: { auto p = pos(1); std::memset(img + p, r.chance(700) ? 0 : 0xff, std::min<std::size_t>(r.below(40) + 1, len - p)); break; }
      case H_CUT: resize(r.chance(500) ? len - std::min<std::size_t>(len, r.below(40)) : r.below(len)); break;
      case H_EXTEND: resize(len + 1 + r.below(64)); break;
      case H_PTR: {
        auto const ps = pointers();
        if (ps.empty()) break;
        auto const p = ps[r.below(ps.size())];
        auto x = word8(r, p, get8(p));
        if (r.chance(400)) {  // where another pointer leads
          auto const q = ps[r.below(ps.size())];
          x = get8(q) + q - p;
        }
        put8(p, x);
        if (r.chance(300) && p + 16 <= len) put8(p + 8, get8(p + 8) + (x - get8(p)));
        break;
      }
      case H_SIZES: {
        auto const ps = pointers();
        if (ps.empty()) break;
        auto const p = ps[r.below(ps.size())];
        if (p + 16 > len) break;
        if (r.chance(150)) {  // sizes of 64 bits
          auto const x = word8(r, p, get8(p + 8));
          put8(p + 8, x);
          put8(p + 16, x);
        } else if (r.chance(250)) {  // one size only
          auto const q = p + r.pick<std::size_t>({8, 12, 16});
          if (q + 4 <= len) put4(q, word4(r, get4(q)));
        } else if (r.chance(600)) {  // both sizes of a vector
          auto const x = word4(r, get4(p + 8));
          put4(p + 8, x);
          put4(p + 12, x);
        } else if (r.chance(500)) put4(p + 8 - r.pick({0u, 4u, 12u, 16u}) % (p + 9), word4(r, get4(p + 8)));
        else {  // the numbers of a hash table
          auto const x = word8(r, p, get8(p + 8));
          put8(p + 16, x);
          if (r.chance(500)) put8(p + 24, r.below(20));
          if (r.chance(500)) put8(p + 32, r.below(20));
        }
        break;
      }
      case H_NEAR: {
        auto a = pos(1), b = a + 1 + r.below(24);
        if (b < len) std::swap(img[a], img[b]);
        break;
      }
    }
    mark_nontrivial();
  }
  void load(Op const& op) {
    if (img == nullptr) return;
    Bytes const before(img, img + len);
    T const* t = nullptr;
    cista::wrapped<T>* wr = nullptr;
    void* mem = nullptr;
    auto const how = op.a % 5;
    cista::byte_buf* bb = nullptr;
    uint8_t const *lo = img, *hi = img + len;
    if (how == 2) {
      disk::set_content("/simdisk/h", before);
      NoSut n;
      mem = ::operator new(sizeof(cista::wrapped<T>));
    }
    if (how == 3) {
      NoSut n;
      mem = ::operator new(sizeof(cista::byte_buf));
    }
    auto x = call(std::vector<Fault>{}, [&] {
      if (how == 2) {
        wr = new (mem) cista::wrapped<T>(w->read("/simdisk/h"));
        t = wr->get();
      } else if (how == 3) {
        bb = new (mem) cista::byte_buf(before.begin(), before.end());
        t = w->buf(*bb);
      } else if (how == 4 && w->view != nullptr) t = w->view(std::string_view{reinterpret_cast<char const*>(img), len});
      else if (how == 1 && w->cst != nullptr) t = w->cst(img, img + len);
      else t = w->mut(img, img + len);
    });
    if (!x.ok()) count("rejected");
    if (x.ok()) {
      count("accepted");
      if (how == 2) lo = hi = nullptr;
      if (how == 3) lo = bb->data(), hi = lo + bb->size();
      Dump d;
      d.lo = lo;
      d.hi = hi;
      G<T>::dump(d, *t);
      if (w->deep) deep_dump(d, *t);
      Rng r{static_cast<uint64_t>(op.c)};
      auto y = call(std::vector<Fault>{}, [&] {
        Dump q;
        for (int i = 0; i < 3; ++i) Q<T>::run(q, *t, *v, r), Q<T>::run(q, *v, *t, r);
      });
      // a table whose entries moved need not find them
      if (!y.ok()) count("query refused");
      log_event('d', std::hash<std::string>{}(d.s));
      note_state(mix(d.s.size(), len));
    } else log_event('x');
    if (kOffset && (how == 1 || how == 4) && w->cst != nullptr) CHK(std::memcmp(img, before.data(), len) == 0, "load-writes", "loading through the const interface changed the image");
    if (wr != nullptr) call(std::vector<Fault>{}, [&] { wr->~wrapped<T>(); });
    if (bb != nullptr) call(std::vector<Fault>{}, [&] { bb->~vector(); });
    if (mem != nullptr) { NoSut n; ::operator delete(mem); }
    // a converted image cannot be loaded again
    std::memcpy(img, before.data(), len);
  }
  void run() {
    for (auto const& op : plan.ops) {
      if (op.code == H_BUILD) build(op);
      else if (op.code == H_LOAD) load(op);
      else mutate(op);
    }
    drop();
    v.destroy();
    other.destroy();
    heap::expect_no_leak("hostile images");
  }
};
template <typename T>
static void hostile(Plan const& p) { HostRun<T>{p}.run(); }
struct Entry { char const* name; void (*run)(Plan const&); };
static Entry const kTypes[] = {
    {"sums", hostile<Sums>}, {"mix", hostile<Mix>}, {"alt", hostile<Alt>}, {"text", hostile<Txt>}, {"wide", hostile<Wide>}, {"ctext", hostile<CTxt>},
    {"scalars", hostile<Scal>}, {"plain", hostile<Plain>}, {"al16", hostile<Al16>}, {"graph", hostile<Graph>}, {"jagged", hostile<Jagged>}, {"deep", hostile<Deep>}, {"huge", hostile<Huge>}};
constexpr std::size_t kN = sizeof(kTypes) / sizeof(kTypes[0]);
static Plan gen_host(Rng& r, int tier) {
  Plan p;
  p.cfg = {static_cast<ll>(r.below(kN))};
  auto op = [&](int code, ll a, ll b, ll c) {
    Op o;
    o.code = code; o.a = a; o.b = b; o.c = c;
    p.ops.push_back(o);
  };
  auto const rounds = r.range(1, tier ? 6 : 3);
  for (ll k = 0; k < rounds; ++k) {
    op(H_BUILD, static_cast<ll>(r.below(8)), static_cast<ll>(r.next() >> 16), static_cast<ll>(r.pick({1, 2, 3, 6})));
    auto const n = r.chance(600) ? r.range(1, 2) : r.range(2, 6);
    auto const focus = r.chance(300) ? static_cast<int>(r.range(H_BIT, H_NEAR)) : 0;
    for (ll i = 0; i < n; ++i) {
      static int const kinds[] = {H_BIT, H_BYTE, H_BYTE, H_WORD8, H_WORD8, H_WORD4, H_WORD4, H_COPY, H_SWAP, H_ZERO, H_CUT, H_EXTEND, H_PTR, H_PTR, H_PTR, H_SIZES, H_SIZES, H_SIZES, H_NEAR, H_NEAR};
      op(focus != 0 && r.chance(700) ? focus : kinds[r.below(sizeof(kinds) / sizeof(kinds[0]))], 0, 0, static_cast<ll>(r.next() >> 16));
      if (r.chance(400)) op(H_LOAD, static_cast<ll>(r.below(5)), 0, static_cast<ll>(r.next() >> 16));
    }
    op(H_LOAD, static_cast<ll>(r.below(5)), 0, static_cast<ll>(r.next() >> 16));
  }
  return p;
}
static void exec_host(Plan const& p) {
  auto const& t = kTypes[static_cast<std::size_t>(p.c(0)) % kN];
  trace("  type: %s", t.name);
  t.run(p);
}
}  // namespace props
static std::vector<sim::Harness> const g_h = {{"hostile", props::host_name, props::gen_host, props::exec_host}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
