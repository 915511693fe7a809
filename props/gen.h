// Generic seeded construction, canonical dump and mutation of library values.
#pragma once
#include "common.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/rtree.h"
#include "cista/containers/vecvec.h"
#include "cista/indexed.h"
#include "cista/reflection/for_each_field.h"

namespace props {

template <typename T>
struct is_variant : std::false_type {};
template <typename... T>
struct is_variant<cista::variant<T...>> : std::true_type {};

struct GR {  // randomness of a generated value
  Rng r;
  int size{3};  // typical number of elements
  explicit GR(uint64_t seed, int sz = 3) : r{seed}, size{sz} {}
  std::size_t left{300};  // elements of one value in total
  std::size_t n() {
    std::size_t k = 0;
    if (r.chance(150)) k = 0;
    else if (r.chance(60)) k = static_cast<std::size_t>(size) * 4 + r.below(8);
    else k = r.below(static_cast<uint64_t>(size) * 2 + 1);
    if (k > left) k = left;
    left -= k;
    return k;
  }
  ll v() { return r.chance(300) ? static_cast<ll>(r.below(4)) : static_cast<ll>(r.below(100000)); }
};

struct Dump {
  std::string s;
  std::map<void const*, int> ids;  // pointer identity by visit order
  // when set: everything the value owns lies in [lo, hi)
  uint8_t const* lo{nullptr};
  uint8_t const* hi{nullptr};
  void block(void const* p, std::size_t n, char const* what) {
    if (lo == nullptr || n == 0) return;
    auto const* b = static_cast<uint8_t const*>(p);
    if (b < lo || b > hi || n > static_cast<std::size_t>(hi - b))
      violation(O_MODEL, "outside-image", std::string(what) + " of " + std::to_string(n) + " bytes " + (b < lo ? std::to_string(lo - b) + " bytes before the image" : "at offset " + std::to_string(b - lo) + " of an image of " + std::to_string(hi - lo) + " bytes"));
  }
  // a value inside an image must not release the image's memory
  void claims(bool owns, char const* what) {
    if (lo != nullptr && owns) violation(O_MODEL, "claims-image", std::string(what) + " inside an image is marked as the owner of its memory");
  }
  bool inside(void const* p) const { return lo != nullptr && p >= lo && p < hi; }
  void num(ll v) { s += std::to_string(v); s += ' '; }
  void raw(void const* p, std::size_t n) { s.append(static_cast<char const*>(p), n); s += ' '; }
  void visit(void const* p) { ids.emplace(p, static_cast<int>(ids.size())); }
  void ref(void const* p) {
    if (p == nullptr) { s += "null "; return; }
    auto it = ids.find(p);
    if (it == ids.end()) s += "->? "; else { s += "->"; num(it->second); }
  }
};

template <typename T, typename = void>
struct G {
  static void gen(T& t, GR& g) {
    if constexpr (std::is_same_v<T, bool>) t = g.r.below(2) != 0;
    else if constexpr (std::is_enum_v<T>) t = static_cast<T>(g.r.below(3));
    else if constexpr (std::is_floating_point_v<T>) t = static_cast<T>(g.v()) / 8;
    else if constexpr (std::is_arithmetic_v<T>) t = static_cast<T>(g.r.chance(100) ? g.r.next() : static_cast<uint64_t>(g.v()));
    else cista::for_each_field(t, [&](auto& f) { G<std::decay_t<decltype(f)>>::gen(f, g); });
  }
  static void dump(Dump& d, T const& t) {
    if constexpr (std::is_enum_v<T>) d.num(static_cast<ll>(t));
    else if constexpr (std::is_floating_point_v<T>) d.num(static_cast<ll>(t * 8));
    else if constexpr (std::is_arithmetic_v<T>) d.num(static_cast<ll>(t));
    else {
      d.s += "{";
      cista::for_each_field(t, [&](auto& f) { G<std::decay_t<decltype(f)>>::dump(d, f); });
      d.s += "}";
    }
  }
  static void mut(T& t, GR& g) {
    if constexpr (std::is_scalar_v<T>) gen(t, g);
    else cista::for_each_field(t, [&](auto& f) { if (g.r.chance(600)) G<std::decay_t<decltype(f)>>::mut(f, g); });
  }
  // changes existing bytes only (no growth)
  static void poke(T& t, GR& g) {
    if constexpr (std::is_scalar_v<T>) { if (g.r.chance(700)) gen(t, g); }
    else cista::for_each_field(t, [&](auto& f) { G<std::decay_t<decltype(f)>>::poke(f, g); });
  }
};

// --- strings
template <typename S>
struct GStr {
  using C = typename S::CharT;
  static constexpr bool narrow = sizeof(C) == 1;
  template <typename F>
  static void with(GR& g, F&& f) {
    auto const v = g.v();
    bool const empty = g.r.chance(120);
    std::basic_string<C> s;
    {
      NoSut n;
      if (!empty) {
        auto t = text_of(v);
        s.assign(t.begin(), t.end());
        if constexpr (!narrow) for (auto& c : s) c = static_cast<C>(c + 0x1200 * (v & 7));
      }
    }
    f(std::basic_string_view<C>{s});
    NoSut n;
    s = {};
  }
  static void gen(S& t, GR& g) { with(g, [&](auto v) { t.set_owning(v); }); }
  static void dump(Dump& d, S const& t) {
    d.num(static_cast<ll>(t.size()));
    d.block(t.data(), static_cast<std::size_t>(t.size()) * sizeof(C), "a string");
    d.claims(!t.is_short() && t.h_.self_allocated_, "a string");
    d.s += '"';
    d.s.append(reinterpret_cast<char const*>(t.data()), t.size() * sizeof(C));
    d.s += "\" ";
  }
  static void mut(S& t, GR& g) { gen(t, g); }
  static void poke(S& t, GR& g) {
    if (t.size() != 0) t.data()[g.r.below(t.size())] = static_cast<C>('A' + g.r.below(26));
  }
};
template <typename P> struct G<cista::basic_string<P>> : GStr<cista::basic_string<P>> {};
template <typename P> struct G<cista::generic_string<P>> : GStr<cista::generic_string<P>> {};
template <typename P>
struct G<cista::basic_string_view<P>> {
  using S = cista::basic_string_view<P>;
  static void gen(S& t, GR& g) {
    static char const* lits[] = {"", "a literal", "exactly fifteen", "sixteen letters!", "a literal that is certainly long enough to be out of line"};
    t = lits[g.r.below(5)];
  }
  static void dump(Dump& d, S const& t) { d.num(static_cast<ll>(t.size())); d.block(t.data(), t.size(), "a string"); d.raw(t.data(), t.size()); }
  static void mut(S& t, GR& g) { gen(t, g); }
  static void poke(S&, GR&) {}
};
template <typename S>
struct GCStr {
  static void gen(S& t, GR& g) {
    std::string s;
    { NoSut n; if (!g.r.chance(120)) s = text_of(g.v()); }
    t.set_owning(std::string_view{s});
    NoSut n;
    s = {};
  }
  static void dump(Dump& d, S const& t) {
    d.num(static_cast<ll>(t.size()));
    // a C string: loaded ones end with a zero inside the image
    bool const inl = d.inside(&t) && t.is_short();
    d.block(t.data(), t.size() + (inl ? 0U : 1U), "a C string");
    d.claims(!t.is_short() && t.is_owning(), "a C string");
    if (d.lo != nullptr && t.data()[t.size()] != 0) violation(O_MODEL, "cstr-end", "a loaded C string is not terminated");
    d.raw(t.data(), t.size());
  }
  static void mut(S& t, GR& g) { gen(t, g); }
  static void poke(S& t, GR& g) { if (t.size() != 0) const_cast<char*>(t.data())[g.r.below(t.size())] = static_cast<char>('A' + g.r.below(26)); }
};
template <typename P> struct G<cista::basic_cstring<P>> : GCStr<cista::basic_cstring<P>> {};
template <typename P>
struct G<cista::generic_cstring<P>> : GCStr<cista::generic_cstring<P>> {
  using S = cista::generic_cstring<P>;
  static void gen(S& t, GR& g) {
    if (g.r.chance(500)) { GCStr<S>::gen(t, g); return; }
    // borrowed, not terminated where the view ends
    static char const lit[] = "a literal that is certainly long enough to be out of line";
    t.set_non_owning(std::string_view{lit, static_cast<std::size_t>(g.r.below(sizeof(lit)))});
  }
  static void mut(S& t, GR& g) { gen(t, g); }
  // borrowed text is constant; what an image holds of it is borrowed, too
  static void poke(S&, GR&) {}
};

// --- sequences
template <typename T, template <typename> typename Ptr, bool Ix, typename S>
struct G<cista::basic_vector<T, Ptr, Ix, S>> {
  using V = cista::basic_vector<T, Ptr, Ix, S>;
  static void add(V& v, GR& g) {
    v.emplace_back();
    G<T>::gen(v.back(), g);
  }
  static void gen(V& v, GR& g) {
    auto n = g.n();
    if (g.r.chance(300)) v.reserve(static_cast<typename V::size_type>(n));  // otherwise spare capacity appears
    for (std::size_t i = 0; i < n; ++i) add(v, g);
    if (n > 2 && g.r.chance(300)) v.pop_back();
  }
  static void dump(Dump& d, V const& v) {
    d.s += "[";
    d.num(static_cast<ll>(v.size()));
    d.block(v.data(), static_cast<std::size_t>(v.size()) * sizeof(T), "a vector");
    d.claims(v.self_allocated_, "a vector");
    for (auto const& x : v) {
      if constexpr (Ix) d.visit(&x);
      G<T>::dump(d, x);
    }
    d.s += "]";
  }
  static void mut(V& v, GR& g) {
    switch (g.r.below(6)) {
      case 0: add(v, g); break;
      case 1: if (v.size() != 0) v.pop_back(); break;
      case 2: v.clear(); break;
      case 3: if (v.size() != 0) v.erase(v.begin() + g.r.below(v.size())); break;
      case 4:
        // a variant without a value is no storable value
        if constexpr (is_variant<T>::value) add(v, g);
        else v.resize(static_cast<typename V::size_type>(v.size() + g.r.below(3)));
        break;
      case 5: if (v.size() != 0) G<T>::mut(v.begin()[g.r.below(v.size())], g); break;
    }
  }
  static void poke(V& v, GR& g) { if (v.size() != 0) G<T>::poke(v.begin()[g.r.below(v.size())], g); }
};
template <typename T, std::size_t N>
struct G<std::array<T, N>> {
  static void gen(std::array<T, N>& a, GR& g) { for (auto& x : a) G<T>::gen(x, g); }
  static void dump(Dump& d, std::array<T, N> const& a) { for (auto const& x : a) G<T>::dump(d, x); }
  static void mut(std::array<T, N>& a, GR& g) { G<T>::mut(a[g.r.below(N)], g); }
  static void poke(std::array<T, N>& a, GR& g) { G<T>::poke(a[g.r.below(N)], g); }
};
template <typename T, typename Tag>
struct G<cista::strong<T, Tag>> {
  using V = cista::strong<T, Tag>;
  static void gen(V& a, GR& g) { G<T>::gen(a.v_, g); }
  static void dump(Dump& d, V const& a) { G<T>::dump(d, a.v_); }
  static void mut(V& a, GR& g) { gen(a, g); }
  static void poke(V& a, GR& g) { gen(a, g); }
};
template <typename A, typename B>
struct GPair {
  template <typename P> static void gen(P& p, GR& g) { G<std::decay_t<decltype(p.first)>>::gen(p.first, g); G<B>::gen(p.second, g); }
  template <typename P> static void dump(Dump& d, P const& p) { G<std::decay_t<decltype(p.first)>>::dump(d, p.first); G<B>::dump(d, p.second); }
  template <typename P> static void mut(P& p, GR& g) { G<B>::mut(p.second, g); }
  template <typename P> static void poke(P& p, GR& g) { G<B>::poke(p.second, g); }
};
template <typename A, typename B> struct G<cista::pair<A, B>> : GPair<A, B> {};
template <typename A, typename B> struct G<std::pair<A, B>, std::enable_if_t<!std::is_same_v<std::pair<A, B>, cista::pair<A, B>>>> : GPair<A, B> {};

template <typename R, typename P>
struct G<std::chrono::duration<R, P>> {
  using V = std::chrono::duration<R, P>;
  static void gen(V& a, GR& g) { a = V{static_cast<R>(g.v())}; }
  static void dump(Dump& d, V const& a) { d.num(static_cast<ll>(a.count())); }
  static void mut(V& a, GR& g) { gen(a, g); }
  static void poke(V& a, GR& g) { gen(a, g); }
};
template <typename C, typename D>
struct G<std::chrono::time_point<C, D>> {
  using V = std::chrono::time_point<C, D>;
  static void gen(V& a, GR& g) { a = V{D{static_cast<typename D::rep>(g.v())}}; }
  static void dump(Dump& d, V const& a) { d.num(static_cast<ll>(a.time_since_epoch().count())); }
  static void mut(V& a, GR& g) { gen(a, g); }
  static void poke(V& a, GR& g) { gen(a, g); }
};

// --- one-of and maybe
template <typename... T>
struct G<cista::variant<T...>> {
  using V = cista::variant<T...>;
  template <std::size_t I>
  static void set(V& v, std::size_t i, GR& g) {
    if constexpr (I < sizeof...(T)) {
      if (i == I) {
        auto& x = v.template emplace<I>();
        G<std::decay_t<decltype(x)>>::gen(x, g);
      } else set<I + 1>(v, i, g);
    }
  }
  static void gen(V& v, GR& g) { set<0>(v, g.r.below(sizeof...(T)), g); }
  static void dump(Dump& d, V const& v) {
    d.s += "<";
    d.num(static_cast<ll>(v.index()));
    v.apply([&](auto const& x) { G<std::decay_t<decltype(x)>>::dump(d, x); });
    d.s += ">";
  }
  static void mut(V& v, GR& g) {
    if (g.r.chance(500)) gen(v, g);
    else v.apply([&](auto& x) { G<std::decay_t<decltype(x)>>::mut(x, g); });
  }
  static void poke(V& v, GR& g) { v.apply([&](auto& x) { G<std::decay_t<decltype(x)>>::poke(x, g); }); }
};
template <typename T>
struct G<cista::optional<T>> {
  using V = cista::optional<T>;
  static void gen(V& v, GR& g) {
    if (g.r.chance(400)) { v = V{}; return; }
    T t{};
    G<T>::gen(t, g);
    v = V{std::move(t)};
  }
  static void dump(Dump& d, V const& v) {
    d.s += v.has_value() ? "some " : "none ";
    if (v.has_value()) G<T>::dump(d, v.value());
  }
  static void mut(V& v, GR& g) { gen(v, g); }
  static void poke(V& v, GR& g) { if (v.has_value()) G<T>::poke(v.value(), g); }
};
template <typename... T>
struct G<cista::tuple<T...>> {
  using V = cista::tuple<T...>;
  static void gen(V& v, GR& g) { cista::apply([&](auto&... x) { (G<std::decay_t<decltype(x)>>::gen(x, g), ...); }, v); }
  static void dump(Dump& d, V const& v) { cista::apply([&](auto const&... x) { (G<std::decay_t<decltype(x)>>::dump(d, x), ...); }, v); }
  static void mut(V& v, GR& g) { cista::apply([&](auto&... x) { (G<std::decay_t<decltype(x)>>::mut(x, g), ...); }, v); }
  static void poke(V& v, GR& g) { cista::apply([&](auto&... x) { (G<std::decay_t<decltype(x)>>::poke(x, g), ...); }, v); }
};
template <typename T, typename Ptr>
struct G<cista::basic_unique_ptr<T, Ptr>> {
  using V = cista::basic_unique_ptr<T, Ptr>;
  static void gen(V& v, GR& g) {
    if (g.r.chance(250)) { v = V{}; return; }
    v = V{new T{}, true};
    G<T>::gen(*v, g);
  }
  static void dump(Dump& d, V const& v) {
    if (v.get() == nullptr) { d.s += "nil "; return; }
    d.visit(v.get());
    d.block(v.get(), sizeof(T), "an owned object");
    d.claims(v.self_allocated_, "an owning pointer");
    d.s += "&";
    G<T>::dump(d, *v);
  }
  static void mut(V& v, GR& g) { if (v.get() != nullptr && g.r.chance(500)) G<T>::mut(*v, g); else gen(v, g); }
  static void poke(V& v, GR& g) { if (v.get() != nullptr) G<T>::poke(*v, g); }
};

// --- hash tables
template <typename T> struct is_pairlike : std::false_type {};
template <typename A, typename B> struct is_pairlike<cista::pair<A, B>> : std::true_type {};
template <typename T, template <typename> typename Ptr, typename GK, typename GV, typename H, typename E>
struct G<cista::hash_storage<T, Ptr, GK, GV, H, E>> {
  using V = cista::hash_storage<T, Ptr, GK, GV, H, E>;
  using K = std::decay_t<decltype(std::declval<GK>()(std::declval<T const&>()))>;
  static constexpr bool map = is_pairlike<T>::value;
  static void add(V& v, GR& g) {
    K k{};
    G<K>::gen(k, g);
    if constexpr (map) {
      auto& x = v[k];
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_scalar_v<X>) G<X>::gen(x, g); else G<X>::mut(x, g);
    } else v.emplace(std::move(k));
  }
  static std::vector<std::pair<std::string, T const*>> sorted(V const& v) {
    std::vector<std::pair<std::string, T const*>> r;
    for (auto const& e : v) {
      Dump d;
      G<K>::dump(d, GK{}(e));
      r.emplace_back(d.s, &e);
    }
    std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; });
    return r;
  }
  static void drop(V& v, GR& g) {
    if (v.size() == 0) return;
    K const* k = nullptr;
    {
      NoSut n;
      auto s = sorted(v);
      k = &GK{}(*s[g.r.below(s.size())].second);
    }
    v.erase(v.find(*k));
  }
  static void gen(V& v, GR& g) {
    auto n = g.n() * 2;
    for (std::size_t i = 0; i < n; ++i) add(v, g);
    if (g.r.chance(500)) for (std::size_t i = 0; i < n / 2; ++i) drop(v, g);
  }
  static void dump(Dump& d, V const& v) {
    d.s += "(";
    d.num(static_cast<ll>(v.size()));
    d.claims(v.self_allocated_, "a hash table");
    if (d.lo != nullptr) {
      d.block(static_cast<T const*>(v.entries_), static_cast<std::size_t>(v.capacity_) * sizeof(T), "a hash table");
      d.block(&v.ctrl_[0], static_cast<std::size_t>(v.capacity_) + 1 + V::WIDTH, "hash table control bytes");
    }
    for (auto const& [k, e] : sorted(v)) {
      d.s += k;
      auto it = v.find(GK{}(*e));
      d.s += it != v.end() && &*it == e ? "ok " : "LOST ";
      if constexpr (map) G<std::decay_t<decltype(e->second)>>::dump(d, e->second);
    }
    d.s += ")";
  }
  static void mut(V& v, GR& g) {
    switch (g.r.below(3)) {
      case 0: add(v, g); break;
      case 1: drop(v, g); break;
      case 2: for (int i = 0; i < 6; ++i) add(v, g); break;
    }
  }
  static void poke(V& v, GR& g) {
    if constexpr (map) {
      if (v.size() == 0) return;
      T const* t;
      { NoSut n; auto s = sorted(v); t = s[g.r.below(s.size())].second; }
      G<std::decay_t<decltype(t->second)>>::poke(const_cast<T*>(t)->second, g);
    }
  }
};

// --- bits
template <typename Vec, typename Key>
struct G<cista::basic_bitvec<Vec, Key>> {
  using V = cista::basic_bitvec<Vec, Key>;
  static void gen(V& v, GR& g) {
    v.resize(static_cast<typename V::size_type>(g.r.pick({0, 1, 63, 64, 65, 130})));
    for (std::size_t i = 0; i < v.size(); ++i) v.set(typename V::size_type(i), g.r.below(2) != 0);
  }
  static void dump(Dump& d, V const& v) {
    d.num(static_cast<ll>(v.size()));
    for (std::size_t i = 0; i < v.size(); ++i) d.s += v.test(typename V::size_type(i)) ? '1' : '0';
    d.num(static_cast<ll>(v.count()));
  }
  static void mut(V& v, GR& g) { v.resize(static_cast<typename V::size_type>(v.size() + 1)); v.set(typename V::size_type(g.r.below(v.size())), g.r.below(2) != 0); }
  static void poke(V& v, GR& g) { if (v.size() != 0) v.set(typename V::size_type(g.r.below(v.size())), g.r.below(2) != 0); }
};
template <std::size_t N>
struct G<cista::bitset<N>> {
  using V = cista::bitset<N>;
  static void gen(V& v, GR& g) { for (std::size_t i = 0; i < N; ++i) v.set(i, g.r.below(2) != 0); }
  static void dump(Dump& d, V const& v) { for (std::size_t i = 0; i < N; ++i) d.s += v.test(i) ? '1' : '0'; d.s += ' '; }
  static void mut(V& v, GR& g) { v.set(g.r.below(N), g.r.below(2) != 0); }
  static void poke(V& v, GR& g) { mut(v, g); }
};

// --- rows
template <typename Row>
void dump_row(Dump& d, Row const& r) {
  d.s += "|";
  d.num(static_cast<ll>(r.size()));
  for (auto const& x : r) G<std::decay_t<decltype(x)>>::dump(d, x);
}
template <typename K, typename Vec, typename Idx>
struct G<cista::basic_vecvec<K, Vec, Idx>> {
  using V = cista::basic_vecvec<K, Vec, Idx>;
  using E = typename Vec::value_type;
  static void add(V& v, GR& g) {
    std::vector<E> row;
    auto n = g.n();
    { NoSut q; row.resize(n); for (auto& x : row) { Sut s; G<E>::gen(x, g); } }
    v.emplace_back(row);
    NoSut q;
    row = std::vector<E>{};
  }
  static void gen(V& v, GR& g) { auto n = g.n(); for (std::size_t i = 0; i < n; ++i) add(v, g); }
  static void dump(Dump& d, V const& v) {
    d.num(static_cast<ll>(v.size()));
    for (auto const& r : v) dump_row(d, r);
  }
  static void mut(V& v, GR& g) {
    if (v.size() == 0 || g.r.chance(500)) add(v, g);
    else {
      std::size_t k = g.r.below(v.size());
      E e{};
      G<E>::gen(e, g);
      v[K(static_cast<cista::base_t<K>>(k))].push_back(std::move(e));
    }
  }
  static void poke(V& v, GR& g) { G<Vec>::poke(v.data_, g); }
};
template <typename T, typename S, template <typename> typename Vec, std::size_t L>
struct GFws {
  template <typename V>
  static void add(V& v, GR& g) {
    auto k = static_cast<typename V::size_type>(g.r.below(v.size() + 2));
    T t{};
    G<T>::gen(t, g);
    v[S(k)].push_back(t);
  }
  template <typename V>
  static void gen(V& v, GR& g) {
    auto n = g.n() * 2;
    for (std::size_t i = 0; i < n; ++i) add(v, g);
  }
  template <typename V>
  static void dump(Dump& d, V const& v) {
    d.num(static_cast<ll>(v.size()));
    d.num(static_cast<ll>(v.element_count()));
    for (auto const& r : v) dump_row(d, r);
  }
  template <typename V>
  static void mut(V& v, GR& g) {
    if (v.size() != 0 && g.r.chance(300)) v[S(static_cast<typename V::size_type>(g.r.below(v.size())))].pop_back();
    else add(v, g);
  }
  template <typename V>
  static void poke(V& v, GR& g) {
    if (v.size() == 0) return;
    auto b = v[S(static_cast<typename V::size_type>(g.r.below(v.size())))];
    if (!b.empty()) G<T>::poke(b[static_cast<typename V::size_type>(g.r.below(b.size()))], g);
  }
};
template <typename T, typename S, template <typename> typename Vec, std::size_t L>
struct G<cista::dynamic_fws_multimap_base<T, S, Vec, L>> : GFws<T, S, Vec, L> {};

template <typename IV, typename DV>
struct GFm {
  template <typename V>
  static void gen(V& v, GR& g) {
    auto n = g.n();
    for (std::size_t i = 0; i < n; ++i) {
      auto m = g.n();
      for (std::size_t k = 0; k < m; ++k) {
        typename DV::value_type t{};
        G<typename DV::value_type>::gen(t, g);
        v.push_back(t);
      }
      v.finish_key();
    }
    v.finish_map();
  }
  template <typename V>
  static void dump(Dump& d, V const& v) {
    d.num(static_cast<ll>(v.index_size()));
    if (!v.finished()) { d.s += "open"; return; }
    for (auto r : v) dump_row(d, r);
  }
  template <typename V> static void mut(V& v, GR& g) { G<DV>::poke(v.data_, g); }
  template <typename V> static void poke(V& v, GR& g) { G<DV>::poke(v.data_, g); }
};
template <typename IV, typename DV> struct G<cista::fws_multimap<IV, DV>> : GFm<IV, DV> {};

template <typename Idx, typename Paged, typename Key>
struct G<cista::paged_vecvec<Idx, Paged, Key>> {
  using V = cista::paged_vecvec<Idx, Paged, Key>;
  using E = typename V::data_value_type;
  static void add(V& v, GR& g) {
    std::vector<E> row;
    auto n = g.n();
    { NoSut q; row.resize(n); }
    for (auto& x : row) G<E>::gen(x, g);
    v.emplace_back(row);
    NoSut q;
    row = std::vector<E>{};
  }
  static void gen(V& v, GR& g) { auto n = g.n(); for (std::size_t i = 0; i < n; ++i) add(v, g); }
  static void dump(Dump& d, V const& v) {
    d.num(static_cast<ll>(v.size()));
    for (auto const& r : v) dump_row(d, r);
  }
  static void mut(V& v, GR& g) {
    if (v.size() == 0 || g.r.chance(400)) { add(v, g); return; }
    E e{};
    G<E>::gen(e, g);
    v[Key(static_cast<cista::base_t<Key>>(g.r.below(v.size())))].push_back(e);
  }
  static void poke(V& v, GR& g) {
    if (v.size() == 0) return;
    auto b = v[Key(static_cast<cista::base_t<Key>>(g.r.below(v.size())))];
    if (b.size() != 0) G<E>::poke(b[static_cast<typename V::size_type>(g.r.below(b.size()))], g);
  }
};
template <typename Key, typename DV, typename IV, std::size_t N, typename SV>
struct G<cista::basic_nvec<Key, DV, IV, N, SV>> {
  using V = cista::basic_nvec<Key, DV, IV, N, SV>;
  using E = typename DV::value_type;
  template <typename X>
  static void fill(X& x, GR& g, E*) { G<E>::gen(x, g); }
  static void add(V& v, GR& g) {
    std::vector<std::vector<E>> rows;
    { NoSut q; rows.resize(g.n()); for (auto& r : rows) { r.resize(g.n()); for (auto& x : r) { Sut s; G<E>::gen(x, g); } } }
    v.emplace_back(rows);
    NoSut q;
    rows = {};
  }
  static void gen(V& v, GR& g) { auto n = g.n(); for (std::size_t i = 0; i < n; ++i) add(v, g); }
  static void dump(Dump& d, V const& v) {
    d.num(static_cast<ll>(v.size()));
    for (std::size_t i = 0; i < v.size(); ++i) {
      Key k(static_cast<cista::base_t<Key>>(i));
      d.s += "<";
      d.num(static_cast<ll>(v.size(k)));
      for (std::size_t j = 0; j < v.size(k); ++j) dump_row(d, v.at(k, Key(static_cast<cista::base_t<Key>>(j))));
      d.s += ">";
    }
  }
  static void mut(V& v, GR& g) { add(v, g); }
  static void poke(V& v, GR& g) { G<DV>::poke(v.data_, g); }
};
template <typename Vec>
struct G<cista::base_flat_matrix<Vec>> {
  using V = cista::base_flat_matrix<Vec>;
  static void gen(V& v, GR& g) {
    v.resize(static_cast<typename V::size_type>(g.r.below(5)), static_cast<typename V::size_type>(g.r.below(5)));
    for (auto& x : v.entries_) G<typename Vec::value_type>::gen(x, g);
  }
  static void dump(Dump& d, V const& v) {
    d.num(static_cast<ll>(v.n_rows_));
    d.num(static_cast<ll>(v.n_columns_));
    for (std::size_t i = 0; i < v.n_rows_; ++i)
      for (std::size_t j = 0; j < v.n_columns_; ++j)
        G<typename Vec::value_type>::dump(d, v[static_cast<typename V::size_type>(i)][static_cast<typename V::size_type>(j)]);
  }
  static void mut(V& v, GR& g) { gen(v, g); }
  static void poke(V& v, GR& g) { G<Vec>::poke(v.entries_, g); }
};

}  // namespace props
