#pragma once
#include "../sim/sim.h"

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "cista/containers.h"
#include "cista/mmap.h"
#include "cista/serialization.h"

namespace props {
using namespace sim;
using ll = long long;

// tracked element: owns a heap cell, knows its own address, copies may fail
struct Obj {
  Obj() : self_(this), p_(new ll(0)) { ++heap::g_objects; }
  explicit Obj(ll v) : self_(this), p_(make(v)) { ++heap::g_objects; }
  Obj(Obj const& o) : self_(this), p_(nullptr) {
    o.verify_self("copy from");
    maybe_throw();
    if (o.p_ != nullptr) p_ = make(*o.p_);
    ++heap::g_objects;
  }
  Obj(Obj&& o) noexcept : self_(this), p_(o.p_) {
    o.verify_self("move from");
    o.p_ = nullptr;
    ++heap::g_objects;
  }
  Obj& operator=(Obj const& o) {
    verify_self("assign to");
    o.verify_self("assign from");
    if (this == &o) return *this;
    maybe_throw();
    ll* n = o.p_ != nullptr ? make(*o.p_) : nullptr;
    delete p_;
    p_ = n;
    return *this;
  }
  Obj& operator=(Obj&& o) noexcept {
    verify_self("move-assign to");
    o.verify_self("move-assign from");
    if (this == &o) return *this;
    delete p_;
    p_ = o.p_;
    o.p_ = nullptr;
    return *this;
  }
  ~Obj() {
    verify_self("destroy");
    --heap::g_objects;
    delete p_;
    self_ = nullptr;
    p_ = nullptr;
  }
  ll get() const {
    verify_self("read");
    return p_ != nullptr ? *p_ : -1;
  }
  friend bool operator==(Obj const& a, Obj const& b) { return a.get() == b.get(); }
  friend bool operator!=(Obj const& a, Obj const& b) { return a.get() != b.get(); }
  friend bool operator<(Obj const& a, Obj const& b) { return a.get() < b.get(); }

private:
  static ll* make(ll v) { return new ll(v); }
  void verify_self(char const* what) const {
    if (self_ != this) {
      fatal(what);
    }
  }
  [[noreturn]] static void fatal(char const* what);
  Obj const* self_;
  ll* p_;
};

inline void Obj::fatal(char const* what) {
  sim::fatal("lifetime", std::string("element operation on an object that is not alive: ") + what);
}

// deterministic text for a number; length crosses the short-string limits
inline std::string text_of(ll v) {
  std::string s = "v" + std::to_string(v);
  static int const lens[] = {0, 3, 13, 14, 15, 16, 17, 31, 60, 2};
  auto const want = static_cast<std::size_t>(lens[static_cast<unsigned long long>(v) % 10]);
  s += '.';
  while (s.size() < want) s += static_cast<char>('a' + (s.size() * 7 + static_cast<std::size_t>(v < 0 ? -v : v)) % 26);
  return s;
}
// inverse, verifying every character
inline ll value_of_text(std::string_view t) {
  if (t.size() < 3 || t[0] != 'v') return -777;
  ll v = 0;
  std::size_t i = 1;
  bool neg = t[1] == '-';
  if (neg) ++i;
  bool any = false;
  for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i) {
    v = v * 10 + (t[i] - '0');
    any = true;
    if (i > 18) return -777;
  }
  if (!any) return -777;
  if (neg) v = -v;
  return text_of(v) == t ? v : -777;
}

template <typename T>
struct IntCodec {
  using elem = T;
  static constexpr bool owning = false;
  static elem mk(ll v) { return static_cast<T>(v); }
  static ll rd(elem const& e) { return static_cast<ll>(e); }
  static ll norm(ll v) { return static_cast<ll>(static_cast<T>(v)); }
};
struct ObjCodec {
  using elem = Obj;
  static constexpr bool owning = true;
  static elem mk(ll v) { return Obj{v}; }
  static ll rd(elem const& e) { return e.get(); }
  static ll norm(ll v) { return v; }
};
template <typename Str>
struct StrCodec {
  using elem = Str;
  static constexpr bool owning = true;
  static elem mk(ll v) {
    std::string s;
    {
      NoSut n;
      s = v == 0 ? std::string{} : text_of(v);
    }
    Str r{std::string_view{s}, typename Str::owning_t{}};
    {
      NoSut n;
      s = std::string{};
    }
    return r;
  }
  static ll rd(elem const& e) {
    if (e.empty()) return 0;
    return value_of_text(std::string_view{e.data(), e.size()});
  }
  static ll norm(ll v) { return v == 0 ? 0 : v; }
};

// A library object that lives either in its own block or inside an image.
template <typename T>
struct Slot {
  T* p{nullptr};
  void* block{nullptr};      // separate object storage
  uint8_t* image{nullptr};   // or: inside an image
  std::size_t image_len{0};
  bool tainted{false};       // image-resident storage was given owned content

  explicit operator bool() const { return p != nullptr; }
  T& operator*() const { return *p; }
  T* operator->() const { return p; }

  void* fresh() {
    NoSut n;
    return heap::image_alloc(sizeof(T), alignof(T));
  }
  // f(void* where) constructs
  template <typename F>
  void construct(F&& f) {
    void* b = fresh();
    try {
      f(b);
    } catch (...) {
      NoSut n;
      heap::image_free(b);
      throw;
    }
    block = b;
    p = static_cast<T*>(b);
  }
  void destroy() {
    if (p != nullptr) {
      {
        Sut s;
        p->~T();
      }
      release();
    }
  }
  void release() {
    if (block != nullptr) heap::image_free(block);
    // images stay mapped: values moved out of them may still refer to them
    p = nullptr;
    block = nullptr;
    image = nullptr;
    image_len = 0;
  }
  bool in_image(void const* q) const { return q != nullptr && heap::in_image(q); }
};

template <cista::mode M, typename T>
void restart_slot(Slot<T>& s, std::vector<Fault> const& faults, CallResult& res) {
  cista::byte_buf* buf = nullptr;
  res = call(faults, [&] {
    auto b = cista::serialize<M>(*s.p);
    NoSut n;
    buf = new cista::byte_buf(b.begin(), b.end());
  }, true);
  // running out of memory inside the noexcept type fingerprint stops the process
  if (res.out == Out::stopped) throw EndRun{};
  if (!res.ok()) {
    delete buf;
    return;
  }
  std::size_t len = buf->size();
  auto img = static_cast<uint8_t*>(heap::image_alloc(len, 16));
  std::memcpy(img, buf->data(), len);
  delete buf;
  // the old value dies: nothing in the image may refer to it
  s.destroy();
  s.image = img;
  s.image_len = len;
  auto r2 = call(std::vector<Fault>{}, [&] { s.p = cista::deserialize<T, M>(img, img + len); });
  if (!r2.ok()) violation(O_MODEL, "restart-load", "loading a freshly written image failed: " + r2.what);
  count("restarts");
  mark_nontrivial();
}

// restarts the value through one of several modes
template <typename T>
CallResult restart_any(Slot<T>& s, int mode, std::vector<Fault> const& faults) {
  CallResult r;
  switch (mode % 5) {
    case 0: restart_slot<cista::mode::NONE>(s, faults, r); break;
    case 1: restart_slot<cista::mode::WITH_VERSION | cista::mode::WITH_INTEGRITY>(s, faults, r); break;
    case 2: restart_slot<cista::mode::DEEP_CHECK>(s, faults, r); break;
    case 3: restart_slot<cista::mode::UNCHECKED | cista::mode::WITH_INTEGRITY>(s, faults, r); break;
    case 4: restart_slot<cista::mode::SERIALIZE_BIG_ENDIAN | cista::mode::WITH_INTEGRITY>(s, faults, r); break;
  }
  return r;
}

template <typename T>
std::string show(std::vector<T> const& v) {
  std::string s = "[";
  for (std::size_t i = 0; i < v.size() && i < 24; ++i) s += (i ? "," : "") + std::to_string(v[i]);
  if (v.size() > 24) s += ",... n=" + std::to_string(v.size());
  return s + "]";
}

inline void random_alloc_fault(Rng& r, Op& op, unsigned permille, bool with_throw = false) {
  if (!r.chance(permille)) return;
  Fault f;
  f.kind = r.chance(250) ? F_ALLOC_ALL : F_ALLOC;
  if (with_throw && r.chance(300)) f.kind = F_THROW;
  f.n = r.chance(600) ? static_cast<int64_t>(r.below(3)) : static_cast<int64_t>(r.below(24));
  op.f.push_back(f);
}
}  // namespace props
