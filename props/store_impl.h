// Storage harnesses: saving, loading, damage, crashes, several mappings.
#pragma once
#include "store_types.h"
#include "cista/io.h"

namespace props {
using Bytes = disk::Bytes;
using cista::mode;
static char const* const kFiles[] = {"/simdisk/a", "/simdisk/b"};

// forwards to a real storage target; remembers which bytes were written
struct Target {
  enum Kind { BUF, FILE_, MMAP } kind;
  cista::buf<cista::byte_buf>* b{nullptr};
  cista::file* f{nullptr};
  cista::buf<cista::mmap>* m{nullptr};
  std::vector<bool>* written{nullptr};
  void note(std::size_t at, std::size_t n) {
    if (written == nullptr) return;
    NoSut q;
    if (written->size() < at + n) written->resize(at + n);
    for (std::size_t i = 0; i < n; ++i) (*written)[at + i] = true;
  }
  cista::offset_t write(void const* p, std::size_t n, std::size_t al = 0U) {
    auto const r = kind == BUF ? b->write(p, n, al) : kind == FILE_ ? f->write(p, n, al) : m->write(p, n, al);
    note(static_cast<std::size_t>(r), n);
    return r;
  }
  template <typename T>
  void write(std::size_t pos, T const& v) {
    if (kind == BUF) b->write(pos, v); else if (kind == FILE_) f->write(pos, v); else m->write(pos, v);
    note(pos, sizeof(T));
  }
  std::uint64_t checksum(cista::offset_t from) const {
    return kind == BUF ? b->checksum(from) : kind == FILE_ ? f->checksum(from) : m->checksum(from);
  }
};

template <typename T>
struct LoadWay {
  char const* name;
  bool integrity, version;  // still checked on this load
  T* (*mut)(uint8_t*, uint8_t*);
  T const* (*cst)(uint8_t const*, uint8_t const*);
  cista::wrapped<T> (*read)(char const*);
  cista::wrapped<T> (*read_mmap)(char const*);
  T* (*unaligned)(std::string_view, void* where);
  T* (*buf)(cista::byte_buf&, bool unchecked);
  T const* (*view)(std::string_view);
};
template <typename T>
struct Mode {
  char const* name;
  bool version, integrity, be;
  void (*save)(Target&, T&);
  void (*write)(char const*, T&);
  cista::byte_buf (*image)(T&);
  std::vector<LoadWay<T>> loads;
  bool (*wrong)(uint8_t*, uint8_t*);  // loads as a different type
};
struct Other {
  uint32_t x_{};
  data::string y_;
  uint64_t z_{};
};

constexpr bool has(mode m, mode f) { return cista::is_mode_enabled(m, f); }
// a copy of a loaded value does not need the image
template <typename T>
constexpr bool standalone_copy = std::is_same_v<T, Plain> || std::is_same_v<T, Alt> || std::is_same_v<T, Wide> || std::is_same_v<T, Scal> ||
                                 std::is_same_v<T, Jagged> || std::is_same_v<T, Al16> || std::is_same_v<T, RootVec> || std::is_same_v<T, RootMap> || std::is_same_v<T, RootVar>;
template <typename T, mode L>
LoadWay<T> load_way(char const* name) {
  LoadWay<T> w{};
  w.name = name;
  w.integrity = has(L, mode::WITH_INTEGRITY);
  w.version = has(L, mode::WITH_VERSION) || has(L, mode::WITH_STATIC_VERSION);
  constexpr bool be = has(L, mode::SERIALIZE_BIG_ENDIAN);
  w.mut = [](uint8_t* a, uint8_t* b) { return cista::deserialize<T, L>(a, b); };
  w.read = [](char const* p) { return cista::read<T, L>(std::filesystem::path{p}); };
  w.buf = [](cista::byte_buf& b, bool unchecked) -> T* {
    return unchecked ? static_cast<T*>(cista::unchecked_deserialize<T, L>(b)) : static_cast<T*>(cista::deserialize<T, L>(b));
  };
  if constexpr (kOffset && !be) {
    w.cst = [](uint8_t const* a, uint8_t const* b) { return cista::deserialize<T, L>(a, b); };
    w.read_mmap = [](char const* p) { return cista::read_mmap<T, L>(std::filesystem::path{p}); };
    w.view = [](std::string_view s) -> T const* { return cista::deserialize<T, L>(s); };
    if constexpr (standalone_copy<T>) {
      w.unaligned = [](std::string_view s, void* where) { return new (where) T(cista::copy_from_potentially_unaligned<T, L>(s)); };
    }
  }
  return w;
}
template <typename T, mode M>
Mode<T> save_mode(char const* name, std::vector<LoadWay<T>> loads) {
  Mode<T> m{};
  m.name = name;
  m.version = has(M, mode::WITH_VERSION) || has(M, mode::WITH_STATIC_VERSION);
  m.integrity = has(M, mode::WITH_INTEGRITY);
  m.be = has(M, mode::SERIALIZE_BIG_ENDIAN);
  m.save = [](Target& t, T& v) { cista::serialize<M>(t, v); };
  m.write = [](char const* p, T& v) { cista::write<M>(std::filesystem::path{p}, v); };
  m.image = [](T& v) { return cista::serialize<M>(v); };
  m.loads = std::move(loads);
  m.wrong = [](uint8_t* a, uint8_t* b) { return cista::deserialize<Other, M>(a, b) != nullptr; };
  return m;
}
// all storage modes of a type (versioned: the type has a fingerprint)
template <typename T, bool Versioned = true, bool Static = true>
std::vector<Mode<T>> const& modes() {
  static std::vector<Mode<T>> const m = [] {
    std::vector<Mode<T>> r;
    constexpr auto V = mode::WITH_VERSION, I = mode::WITH_INTEGRITY, S = mode::WITH_STATIC_VERSION, U = mode::UNCHECKED,
                   B = mode::SERIALIZE_BIG_ENDIAN, D = mode::DEEP_CHECK, SI = mode::SKIP_INTEGRITY, SV = mode::SKIP_VERSION;
    if constexpr (Versioned) {
      r.push_back(save_mode<T, V | I>("version|integrity", {load_way<T, V | I>("version|integrity"), load_way<T, V | I | D>("version|integrity|deep"), load_way<T, SV | SI>("skip both")}));
      if constexpr (Static) r.push_back(save_mode<T, S | I | U>("static_version|integrity|unchecked (default)", {load_way<T, S | I | U>("default"), load_way<T, S | I>("checked")}));
      r.push_back(save_mode<T, B | V | I>("big_endian|version|integrity", {load_way<T, B | V | I>("same")}));
      if constexpr (Static) r.push_back(save_mode<T, D | S>("deep|static_version", {load_way<T, D | S>("same"), load_way<T, SV>("skip version")}));
      if constexpr (!Static) r.push_back(save_mode<T, D | V>("deep|version", {load_way<T, D | V>("same"), load_way<T, SV>("skip version")}));
      r.push_back(save_mode<T, V>("version", {load_way<T, V>("same")}));
    }
    r.push_back(save_mode<T, I>("integrity", {load_way<T, I>("same"), load_way<T, SI | U>("skip integrity|unchecked")}));
    if constexpr (kOffset) r.push_back(save_mode<T, mode::NONE>("none", {load_way<T, mode::NONE>("same"), load_way<T, mode::CAST>("cast")}));
    else r.push_back(save_mode<T, mode::NONE>("none", {load_way<T, mode::NONE>("same"), load_way<T, U>("unchecked")}));
    r.push_back(save_mode<T, B | I>("big_endian|integrity", {load_way<T, B | I>("same")}));
    return r;
  }();
  return m;
}

enum StoreOp { ST_BUILD, ST_MUT, ST_SAVE, ST_LOAD, ST_DAMAGE, ST_POWER, ST_WRONG, ST_SWAPF, ST_MAP, ST_POKE, ST_UNMAP, N_ST };
inline char const* st_name(int c) {
  static char const* n[] = {"build", "modify", "save", "load", "damage", "power loss", "load as another type", "swap files", "map a copy", "change in place", "unmap"};
  return c >= 0 && c < N_ST ? n[c] : "?";
}

template <typename T>
constexpr bool overaligned = std::is_same_v<T, Al32>;
template <typename T>
std::string dump_of(T const& t) {
  NoSut n;
  Dump d;
  G<T>::dump(d, t);
  return d.s;
}
inline std::string diff_of(std::string const& a, std::string const& b) {
  std::size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  auto cut = [&](std::string const& s) {
    std::string o;
    for (std::size_t k = i > 25 ? i - 25 : 0; k < i + 35 && k < s.size(); ++k) o += s[k] >= 32 && s[k] < 127 ? s[k] : '.';
    return o;
  };
  return "at " + std::to_string(i) + ": got \"" + cut(a) + "\", expected \"" + cut(b) + "\"";
}

template <typename T>
struct StoreRun {
  std::vector<Mode<T>> const& ms;
  Plan const& plan;
  struct Value {
    Slot<T> o;
    std::vector<std::pair<bool, std::pair<uint64_t, int>>> recipe;  // (modify?, seed, size)
  } v[2];
  struct Image {
    Bytes bytes;
    int mode;
    std::string dump;
    std::vector<std::pair<bool, std::pair<uint64_t, int>>> recipe;
  };
  struct Path {
    std::vector<Image> done;  // completed saves
    int mode{-1};             // of the last attempt
  } f[2];
  uint64_t kept{0};  // blocks owned from inside a changed image: nobody destroys those

  StoreRun(std::vector<Mode<T>> const& m, Plan const& p) : ms{m}, plan{p} {}

  static void replay(T& t, decltype(Value::recipe) const& r) {
    for (auto const& [mod, s] : r) {
      GR g{s.first, s.second};
      if (mod) G<T>::mut(t, g); else G<T>::gen(t, g);
    }
  }
  void build(Value& x, uint64_t seed, int size) {
    x.o.destroy();
    x.recipe = {{false, {seed, size}}};
    auto r = call(std::vector<Fault>{}, [&] {
      x.o.construct([&](void* p) { new (p) T{}; });
      replay(*x.o, x.recipe);
    });
    if (!r.ok()) violation(O_MODEL, "store-build", "building a value failed without a fault: " + r.what);
  }
  // the process is gone: its values are built again by the next one
  void die() {
    disk::reboot();
    reborn();
  }
  void reborn() {
    kept = 0;
    for (auto& x : v) {
      if (!x.o) continue;
      x.o.release();
      auto r = call(std::vector<Fault>{}, [&] {
        x.o.construct([&](void* p) { new (p) T{}; });
        replay(*x.o, x.recipe);
      });
      if (!r.ok()) violation(O_MODEL, "store-build", "building a value failed without a fault: " + r.what);
    }
  }
  void drop_values() { for (auto& x : v) { x.o.destroy(); x.recipe.clear(); } }

  void after_op(Op const& op, uint64_t live_before, char const* what) {
    (void)op;
    if (!mapped_file) disk::expect_released(what);
    if (heap::live_blocks() != live_before) check(false, O_MEM, "leak", "%s: %llu blocks are live, %llu before: %s", what, (unsigned long long)heap::live_blocks(), (unsigned long long)live_before, heap::describe_live().c_str());
  }

  // ------------------------------------------------------------ save
  void save(Op const& op) {
    auto& x = v[op.a & 1];
    if (!x.o) return;
    int const mi = static_cast<int>((op.c & 255) % static_cast<ll>(ms.size()));
    auto const& m = ms[static_cast<std::size_t>(mi)];
    auto& path = f[(op.c >> 8) & 1];
    auto const* file = kFiles[(op.c >> 8) & 1];
    auto const kind = op.b % 5;
    auto const before = heap::live_blocks();
    auto const dump = dump_of(*x.o);

    // the reference image: a memory buffer, no faults
    Bytes ref;
    auto rr = call(std::vector<Fault>{}, [&] {
      auto b = m.image(*x.o);
      NoSut n;
      ref.assign(b.begin(), b.end());
    });
    if (!rr.ok()) violation(O_MODEL, "save-spurious", std::string("serializing to memory failed without a fault: ") + rr.what);
    if (tracing()) trace("    mode %s, target %lld, image of %zu bytes", m.name, (ll)kind, ref.size());

    std::vector<bool> written;
    Bytes got;
    auto r = call(op, [&] {
      Target t{};
      t.written = &written;
      switch (kind) {
        case 0: {
          cista::buf<cista::byte_buf> b;
          t.kind = Target::BUF; t.b = &b;
          if (plan.c(2) & 1) b.buf_.reserve(4096);
          m.save(t, *x.o);
          NoSut n;
          got.assign(b.buf_.begin(), b.buf_.end());
          break;
        }
        case 1: case 4: {
          path.mode = mi;
          cista::file fl{file, "w+"};
          t.kind = Target::FILE_; t.f = &fl;
          m.save(t, *x.o);
          break;
        }
        case 2: {
          path.mode = mi;
          cista::buf<cista::mmap> b{cista::mmap{file, cista::mmap::protection::WRITE}};
          t.kind = Target::MMAP; t.m = &b;
          m.save(t, *x.o);
          break;
        }
        case 3: path.mode = mi; m.write(file, *x.o); break;
      }
    }, true);
    if (disk::crashed() || r.out == Out::stopped) {
      count("process death while saving");
      CHK(disk::crashed() || r.faulted(), "save-spurious", "saving stopped the process without a fault");
      die();
      if (kind != 0 && disk::content(file) == ref) path.done.push_back({ref, mi, dump, x.recipe});
      return;
    }
    CHK(r.ok() || r.faulted(), "save-spurious", "saving (%s) failed without a fault: %s", m.name, r.what.c_str());
    after_op(op, before, "save");
    CHK(dump_of(*x.o) == dump, "save-changes-value", "saving changed the value");
    if (!r.ok()) {
      // the bytes may have been complete before the failing step
      if (kind != 0 && disk::content(file) == ref) path.done.push_back({ref, mi, dump, x.recipe});
      return;
    }
    if (kind != 0) got = disk::content(file);
    note_state(mix(got.size(), static_cast<uint64_t>(mi * 8 + kind)));
    if (got != ref) {
      std::size_t i = 0;
      while (i < got.size() && i < ref.size() && got[i] == ref[i]) ++i;
      CHK(false, "image-differs", "saved without an error, but target %lld (%s) holds %zu bytes, the memory image %zu; first difference at %zu",
          (ll)kind, m.name, got.size(), ref.size(), i);
    }
    if (kind != 3) {
      written.resize(ref.size());
      for (std::size_t i = 0; i < ref.size(); ++i)
        CHK(written[i] || ref[i] == 0, "padding", "padding byte %zu of the image is %u", i, ref[i]);
    }
    if (kind != 0) {
      path.done.push_back({std::move(got), mi, dump, x.recipe});
    } else if (plan.c(1) == 0) {
      // keep the memory image on "disk" so that loads can use it
      disk::set_content(file, got);
      path.mode = mi;
      path.done.push_back({std::move(got), mi, dump, x.recipe});
    }
  }

  // ------------------------------------------------------------ load
  // a completed image with these bytes: of this mode, or (any) of some mode
  Image const* matching(int mode, Bytes const& c, bool any = false) {
    for (auto const& p : f)
      for (auto it = p.done.rbegin(); it != p.done.rend(); ++it)
        if ((any || it->mode == mode) && it->bytes == c) return &*it;
    return nullptr;
  }
  void load(Op const& op, bool wrong) {
    int const pi = static_cast<int>((op.c >> 8) & 1);
    auto& path = f[pi];
    if (path.mode < 0 || !disk::exists(kFiles[pi])) return;
    auto const& m = ms[static_cast<std::size_t>(path.mode)];
    auto const content = disk::content(kFiles[pi]);
    auto const* img = matching(path.mode, content);
    auto const* other = img == nullptr ? matching(path.mode, content, true) : img;
    auto const before = heap::live_blocks();
    if (wrong) {
      if (!m.version || content.empty()) return;
      auto p = static_cast<uint8_t*>(heap::image_alloc(content.size(), 64));
      std::memcpy(p, content.data(), content.size());
      bool loaded = false;
      call(op, [&] { loaded = m.wrong(p, p + content.size()); }, true);
      CHK(!loaded, "wrong-type", "an image of one type (%s) was accepted as a value of another type", m.name);
      heap::image_free(p);
      return;
    }
    auto const& w = m.loads[static_cast<std::size_t>(op.a) % m.loads.size()];
    if (img == nullptr && !w.integrity) return;  // unprotected damage: see the hostile-image harness
    int how = static_cast<int>(op.b % 9);
    if ((how == 7 && w.view == nullptr) || (how == 8 && img == nullptr)) how = 0;
    if ((how == 1 && w.cst == nullptr) || (how == 4 && w.read_mmap == nullptr) || (how == 5 && w.unaligned == nullptr)) how = 0;
    // malloc'ed buffers are only aligned for fundamental types
    if ((how == 2 || how == 3 || how == 6 || how == 8) && overaligned<T>) how = 0;
    if (tracing()) trace("    mode %s, load way %s, path %d, %zu bytes, %s", m.name, w.name, how, content.size(), img != nullptr ? "clean" : "damaged");

    uint8_t* block = nullptr;
    std::size_t const len = content.size();
    T* t = nullptr;
    T const* ct = nullptr;
    cista::wrapped<T>* wr = nullptr;
    cista::buffer* bf = nullptr;
    cista::byte_buf* bb = nullptr;
    void* wrmem = nullptr;
    {
      NoSut n;
      if (how == 0 || how == 1 || how == 5 || how == 7) {
        block = static_cast<uint8_t*>(heap::image_alloc(len, how == 5 ? 16 : 64, how == 5 ? static_cast<std::size_t>(plan.c(2) & 15) : 0));
        std::memcpy(block, content.data(), len);
      }
      if (how >= 2) wrmem = ::operator new(std::max(std::max(sizeof(cista::wrapped<T>), sizeof(cista::buffer)), sizeof(T) + 64));
    }
    auto r = call(op, [&] {
      switch (how) {
        case 0: t = w.mut(block, block + len); break;
        case 1: ct = w.cst(block, block + len); break;
        case 2: {
          auto b = cista::file{kFiles[pi], "r"}.content();
          bf = new (wrmem) cista::buffer(std::move(b));
          try { t = w.mut(bf->data(), bf->data() + bf->size()); } catch (...) { bf->~buffer(); bf = nullptr; throw; }
          break;
        }
        case 3: wr = new (wrmem) cista::wrapped<T>(w.read(kFiles[pi])); t = wr->get(); break;
        case 4: wr = new (wrmem) cista::wrapped<T>(w.read_mmap(kFiles[pi])); ct = wr->get(); break;
        case 5: {
          void* a = wrmem;
          std::size_t sp = sizeof(T) + 64;
          a = std::align(alignof(T), sizeof(T), a, sp);
          ct = w.unaligned(std::string_view{reinterpret_cast<char const*>(block), len}, a);
          break;
        }
        case 6: case 8: {
          bb = new (wrmem) cista::byte_buf(content.begin(), content.end());
          try { t = w.buf(*bb, how == 8); } catch (...) { bb->~vector(); bb = nullptr; throw; }
          break;
        }
        case 7: ct = w.view(std::string_view{reinterpret_cast<char const*>(block), len}); break;
      }
    }, true);
    if (r.out == Out::stopped || disk::crashed()) {
      CHK(disk::crashed() || r.faulted(), "load-spurious", "loading stopped the process without a fault");
      die();
      cleanup(block, wrmem);
      return;
    }
    if (!r.ok()) {
      CHK(r.faulted() || img == nullptr, "load-spurious", "an undamaged image (%s, loaded as %s) was rejected: %s", m.name, w.name, r.what.c_str());
      cleanup(block, wrmem);
      after_op(op, before, "failed load");
      if (img == nullptr) count("damaged images rejected");
      return;
    }
    img = other;  // accepted: then exactly what had been written
    if (img == nullptr) {
      // e.g. the rest of an older image behind an equal version word
      auto const loaded = dump_of(t != nullptr ? *t : *ct);
      for (auto const& p : f)
        for (auto const& i : p.done) if (i.dump == loaded) img = &i;
    }
    CHK(img != nullptr, "damaged-accepted", "a damaged image (%zu bytes, %s) was accepted", len, m.name);
    count("loads compared");
    mark_nontrivial();
    auto const& val = t != nullptr ? *t : *ct;
    auto got = dump_of(val);
    if (got != img->dump) violation(O_MODEL, "load-differs", std::string("loaded value differs (") + m.name + " / " + w.name + ", way " + std::to_string(how) + "): " + diff_of(got, img->dump));
    if (kOffset && !m.be && (how <= 1 || how == 7)) {
      CHK(std::memcmp(block, content.data(), len) == 0, "load-writes", "loading or reading a relative-pointer image changed its bytes");
    }
    // change it like the original
    if (t != nullptr && (op.c & 0x10000) != 0) modify(*t, *img, static_cast<uint64_t>(op.c >> 20));
    if (how == 5) { Sut s; ct->~T(); }
    bool changed = t != nullptr && (op.c & 0x10000) != 0;
    {
      auto rel = call(std::vector<Fault>{}, [&] {
        if (changed) t->~T();
        if (wr != nullptr) wr->~wrapped<T>();
        if (bf != nullptr) bf->~buffer();
        if (bb != nullptr) bb->~vector();
      }, true);
      (void)rel;
    }
    cleanup(block, wrmem);
    CHK(disk::content(kFiles[pi]) == content, "load-changes-file", "loading changed the file");
    if (changed && heap::live_blocks() > before) {
      kept += heap::live_blocks() - before;
      if (!mapped_file) disk::expect_released("load");
      return;
    }
    after_op(op, before, "load");
  }
  void cleanup(uint8_t* block, void* wrmem) {
    if (block != nullptr) heap::image_free(block);
    NoSut n;
    ::operator delete(wrmem);
  }
  void modify(T& t, Image const& img, uint64_t seed) {
    Slot<T> twin;
    auto r0 = call(std::vector<Fault>{}, [&] {
      twin.construct([&](void* p) { new (p) T{}; });
      replay(*twin, img.recipe);
    });
    if (!r0.ok()) violation(O_MODEL, "store-build", "rebuilding a value failed: " + r0.what);
    for (int i = 0; i < 3; ++i) {
      for (auto* x : {&t, twin.p}) {
        auto r = call(std::vector<Fault>{}, [&] { GR g{seed + static_cast<uint64_t>(i), 3}; G<T>::mut(*x, g); });
        CHK(r.ok(), "modify-spurious", "modifying a %s value failed: %s", x == &t ? "loaded" : "built", r.what.c_str());
      }
      auto a = dump_of(t), b = dump_of(*twin);
      if (a != b) violation(O_MODEL, "modify-differs", "after the same changes a loaded value differs from the original: " + diff_of(a, b));
    }
    count("loaded values modified");
    twin.destroy();
  }

  // ------------------------------------------------------------ damage
  void damage(Op const& op) {
    int const pi = static_cast<int>(op.a & 1);
    if (!disk::exists(kFiles[pi])) return;
    auto c = disk::content(kFiles[pi]);
    Rng r{static_cast<uint64_t>(op.c)};
    auto pos = [&](std::size_t extra = 0) {
      auto n = c.size() + extra;
      if (r.chance(250)) return static_cast<std::size_t>(r.below(std::min<std::size_t>(n, 32)));
      return static_cast<std::size_t>(r.below(n));
    };
    switch (op.b % 8) {
      case 0: if (!c.empty()) c[pos()] ^= static_cast<uint8_t>(1u << r.below(8)); break;
      case 1: c.resize(pos(1)); break;
      case 2: c.resize(c.size() + 1 + r.below(40), r.chance(500) ? uint8_t{0} : static_cast<uint8_t>(r.next())); break;
      case 3: for (std::size_t i = 0, p = c.empty() ? 0 : pos(), n = 1 + r.below(64); i < n && p + i < c.size(); ++i) c[p + i] = 0; break;
      case 4: for (std::size_t i = 0, p = c.empty() ? 0 : pos(), n = 1 + r.below(16); i < n && p + i < c.size(); ++i) c[p + i] = static_cast<uint8_t>(r.next()); break;
      case 5: if (c.size() > 16) { auto a = pos(), b = pos(); auto n = std::min<std::size_t>({r.below(64) + 1, c.size() - a, c.size() - b}); std::memmove(&c[a], &c[b], n); } break;
      case 6: {  // a stale block of an older image
        auto const& d = f[pi].done;
        if (d.size() < 2) break;
        auto const& o = d[r.below(d.size())].bytes;
        auto p = pos(1) & ~std::size_t{7};
        for (std::size_t i = p; i < c.size() && i < o.size() && i < p + 512; ++i) c[i] = o[i];
        break;
      }
      case 7: {  // a previous version comes back as a whole
        auto const& d = f[pi].done;
        if (!d.empty()) c = d[r.below(d.size())].bytes;
        break;
      }
    }
    disk::set_content(kFiles[pi], c);
    count("files damaged");
  }

  // ------------------------------------------------------------ several mappings (position independence)
  struct View {
    cista::mmap* map{nullptr};
    bool writable{false};
    uint8_t* block{nullptr};
    T const* t{nullptr};
    std::string dump;  // of a private copy
  };
  std::vector<View> views;
  Slot<T> twin;
  bool mapped_file{false};
  void verify_views(char const* after) {
    for (auto& w : views) {
      auto want = w.map != nullptr ? dump_of(*twin) : w.dump;
      auto got = dump_of(*w.t);
      if (got != want) violation(O_MODEL, "view-differs", std::string(after) + ": a " + (w.map != nullptr ? "mapping" : "copy") + " reads differently: " + diff_of(got, want));
    }
  }
  void map(Op const& op) {
    if constexpr (kOffset) {
      auto& path = f[0];
      if (path.mode < 0) return;
      auto const& m = ms[static_cast<std::size_t>(path.mode)];
      auto c = disk::content(kFiles[0]);
      if (!mapped_file) {
        auto const* img = matching(path.mode, c);
        if (img == nullptr || m.be) return;
        auto r0 = call(std::vector<Fault>{}, [&] { twin.construct([&](void* p) { new (p) T{}; }); replay(*twin, img->recipe); });
        if (!r0.ok()) violation(O_MODEL, "store-build", "rebuilding failed: " + r0.what);
        mapped_file = true;
      }
      // a load way that does not look at the (possibly outdated) checksum
      LoadWay<T> const* w = nullptr;
      for (auto const& l : m.loads) if (l.cst != nullptr && !l.integrity) w = &l;
      if (w == nullptr) return;
      View x;
      if (op.b % 3 == 0) {
        x.block = static_cast<uint8_t*>(heap::image_alloc(c.size(), 64));
        std::memcpy(x.block, c.data(), c.size());
        auto r = call(std::vector<Fault>{}, [&] { x.t = w->cst(x.block, x.block + c.size()); });
        if (!r.ok()) violation(O_MODEL, "view-rejected", std::string("a copy of the image (") + m.name + ") was rejected: " + r.what);
        CHK(std::memcmp(x.block, c.data(), c.size()) == 0, "load-writes", "loading a copy changed its bytes");
        x.dump = dump_of(*x.t);
      } else {
        x.writable = op.b % 3 == 2;
        auto r = call(std::vector<Fault>{}, [&] {
          auto* mm = new (::operator new(sizeof(cista::mmap))) cista::mmap{kFiles[0], op.b % 3 == 1 ? cista::mmap::protection::READ : cista::mmap::protection::MODIFY};
          x.map = mm;
          x.t = w->cst(mm->data(), mm->data() + mm->size());
        });
        if (!r.ok()) violation(O_MODEL, "view-rejected", std::string("mapping the image (") + m.name + ") was rejected: " + r.what);
        mark_nontrivial();
      }
      views.push_back(x);
      count("views mapped");
    }
  }
  void unmap(std::size_t i) {
    if (i >= views.size()) return;
    auto w = views[i];
    views.erase(views.begin() + static_cast<long>(i));
    if (w.map != nullptr) {
      call(std::vector<Fault>{}, [&] { w.map->~mmap(); ::operator delete(w.map); }, true);
    } else heap::image_free(w.block);
  }
  void poke(Op const& op) {
    std::vector<std::size_t> wr;
    for (std::size_t i = 0; i < views.size(); ++i) if (views[i].map != nullptr && views[i].writable) wr.push_back(i);
    if (wr.empty()) return;
    auto& w = views[wr[static_cast<std::size_t>(op.a) % wr.size()]];
    for (auto* x : {const_cast<T*>(w.t), twin.p}) {
      auto r = call(std::vector<Fault>{}, [&] { GR g{static_cast<uint64_t>(op.c), 3}; G<T>::poke(*x, g); });
      CHK(r.ok(), "poke", "changing an element failed: %s", r.what.c_str());
    }
    count("in-place changes");
    verify_views("after a change through one mapping");
  }

  void run() {
    for (auto const& op : plan.ops) {
      log_event('O', static_cast<uint64_t>(op.code));
      switch (op.code) {
        case ST_BUILD: build(v[op.a & 1], static_cast<uint64_t>(op.b), static_cast<int>(op.c)); break;
        case ST_MUT: {
          auto& x = v[op.a & 1];
          if (!x.o) break;
          x.recipe.push_back({true, {static_cast<uint64_t>(op.b), 3}});
          auto r = call(std::vector<Fault>{}, [&] { GR g{static_cast<uint64_t>(op.b), 3}; G<T>::mut(*x.o, g); });
          CHK(r.ok(), "store-mut", "modifying failed: %s", r.what.c_str());
          break;
        }
        case ST_SAVE: if (!mapped_file) save(op); break;
        case ST_LOAD: load(op, false); break;
        case ST_WRONG: load(op, true); break;
        case ST_DAMAGE: if (!mapped_file) damage(op); break;
        case ST_POWER: if (!mapped_file) { disk::power_loss_now(static_cast<uint64_t>(op.c)); reborn(); mark_nontrivial(); } break;
        case ST_SWAPF: {
          if (mapped_file || !disk::exists(kFiles[0]) || !disk::exists(kFiles[1])) break;
          auto a = disk::content(kFiles[0]), b = disk::content(kFiles[1]);
          disk::set_content(kFiles[0], b);
          disk::set_content(kFiles[1], a);
          break;
        }
        case ST_MAP: map(op); verify_views("after mapping"); break;
        case ST_POKE: poke(op); break;
        case ST_UNMAP: unmap(static_cast<std::size_t>(op.a)); verify_views("after unmapping"); break;
      }
    }
    while (!views.empty()) unmap(0);
    if (mapped_file) {
      // the file holds what was changed in place
      auto c = disk::content(kFiles[0]);
      auto b = static_cast<uint8_t*>(heap::image_alloc(c.size(), 64));
      std::memcpy(b, c.data(), c.size());
      auto const& m = ms[static_cast<std::size_t>(f[0].mode)];
      for (auto const& l : m.loads) {
        if (l.cst == nullptr || l.integrity) continue;
        T const* t = nullptr;
        auto r = call(std::vector<Fault>{}, [&] { t = l.cst(b, b + c.size()); });
        CHK(r.ok(), "view-rejected", "the file changed in place was rejected: %s", r.what.c_str());
        auto got = dump_of(*t), want = dump_of(*twin);
        if (got != want) violation(O_MODEL, "view-differs", "the closed file reads differently: " + diff_of(got, want));
      }
      heap::image_free(b);
      twin.destroy();
    }
    drop_values();
    if (heap::live_blocks() != kept) check(false, O_MEM, "leak", "end of run: %llu blocks are live, expected %llu", (unsigned long long)heap::live_blocks(), (unsigned long long)kept);
  }
};
template <typename T, bool Versioned = true, bool Static = true>
void run_type(Plan const& p) {
  StoreRun<T> r{modes<T, Versioned, Static>(), p};
  r.run();
}
struct TypeEntry { char const* name; void (*run)(Plan const&); };
std::vector<TypeEntry> part1();
std::vector<TypeEntry> part2();
std::vector<TypeEntry> part3();
std::vector<TypeEntry> part4();
}  // namespace props
