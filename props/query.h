// Queries through the const interface of every library type: results go to a
// dump, two runs on equal values give equal results.
#pragma once
#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "store_types.h"
#include <sstream>

namespace props {
inline bool operator!=(Leaf const& a, Leaf const& b) { return !(a == b); }
// ------------------------------------------------------------ const queries
template <typename F>
static void attempt(Dump& d, F&& f) {
  try { f(); } catch (sim::EndRun const&) { throw; } catch (std::exception const&) { d.s += "threw "; }
}
template <typename T>
static void print(Dump& d, T const& t) {
  std::ostringstream o;
  o << t;
  d.s += o.str();
  d.s += ' ';
}
template <typename T> struct comparable : std::bool_constant<std::is_scalar_v<T>> {};
template <typename P> struct comparable<cista::basic_string<P>> : std::true_type {};
template <typename P> struct comparable<cista::generic_string<P>> : std::true_type {};
template <typename P> struct comparable<cista::basic_string_view<P>> : std::true_type {};
template <typename P> struct comparable<cista::basic_cstring<P>> : std::true_type {};
template <typename P> struct comparable<cista::generic_cstring<P>> : std::true_type {};
template <> struct comparable<Leaf> : std::true_type {};
template <typename T, typename Tag> struct comparable<cista::strong<T, Tag>> : std::true_type {};
template <typename T, template <typename> typename Ptr, bool Ix, typename S> struct comparable<cista::basic_vector<T, Ptr, Ix, S>> : comparable<T> {};
template <typename... T> struct comparable<cista::tuple<T...>> : std::conjunction<comparable<T>...> {};
// what compares with < as well
template <typename T> struct ordered : std::bool_constant<comparable<T>::value && !std::is_same_v<T, Leaf>> {};
template <typename T, template <typename> typename Ptr, bool Ix, typename S> struct ordered<cista::basic_vector<T, Ptr, Ix, S>> : ordered<T> {};
template <typename... T> struct ordered<cista::tuple<T...>> : std::conjunction<ordered<T>...> {};
template <typename T> struct hashable : std::bool_constant<std::is_scalar_v<T>> {};
template <typename P> struct hashable<cista::basic_string<P>> : std::bool_constant<sizeof(typename cista::basic_string<P>::CharT) == 1> {};
template <> struct hashable<Leaf> : std::true_type {};
template <typename T, template <typename> typename Ptr, bool Ix, typename S> struct hashable<cista::basic_vector<T, Ptr, Ix, S>> : hashable<T> {};

template <typename T, typename = void>
struct Q {
  static void run(Dump& d, T const& a, T const& b, Rng& r) {
    if constexpr (std::is_scalar_v<T>) d.num(a == b);
    else {
      auto const pick = r.below(3);
      std::size_t i = 0;
      auto tb = cista::to_tuple(const_cast<T&>(b));
      auto ta = cista::to_tuple(const_cast<T&>(a));
      both<0>(d, ta, tb, r);
      (void)pick; (void)i;
    }
  }
  template <std::size_t I, typename A>
  static void both(Dump& d, A const& a, A const& b, Rng& r) {
    if constexpr (I < std::tuple_size_v<A>) {
      using E = std::decay_t<std::tuple_element_t<I, A>>;
      Q<E>::run(d, static_cast<E const&>(std::get<I>(a)), static_cast<E const&>(std::get<I>(b)), r);
      both<I + 1>(d, a, b, r);
    }
  }
};
template <typename S>
struct QStr {
  using C = typename S::CharT;
  static void run(Dump& d, S const& a, S const& b, Rng& r) {
    d.num(a.size());
    d.num(a.empty());
    d.num(a == b);
    d.num(a != b);
    d.num(a < b);
    d.num(a == b.view());
    auto const v = a.view();
    d.raw(v.data(), v.size() * sizeof(C));
    if (a.size() != 0) d.num(a[static_cast<std::size_t>(r.below(a.size()))]);
    auto const s = a.str();
    d.num(static_cast<ll>(s.size()));
    d.num(a.starts_with(b.view()));
    d.num(a.ends_with(b.view()));
    ll n = 0;
    for (auto c : a) n += c;
    d.num(n);
    if constexpr (sizeof(C) == 1) print(d, a);
    if constexpr (hashable<S>::value && sizeof(C) == 1) d.num(static_cast<ll>(cista::hashing<S>{}(a)));
  }
};
template <typename P> struct Q<cista::basic_string<P>> : QStr<cista::basic_string<P>> {};
template <typename P> struct Q<cista::generic_string<P>> : QStr<cista::generic_string<P>> {};
template <typename P> struct Q<cista::basic_string_view<P>> : QStr<cista::basic_string_view<P>> {};
template <typename S>
struct QCStr {
  static void run(Dump& d, S const& a, S const& b, Rng& r) {
    d.num(a.size());
    d.num(a == b);
    d.num(a < b);
    d.num(a.view() == b.view());
    if (a.is_short() || a.is_owning()) d.num(static_cast<ll>(std::strlen(a.data())));
    d.s += a.str();
    if (a.size() != 0) d.num(a[static_cast<std::size_t>(r.below(a.size()))]);
    print(d, a);
  }
};
template <typename P> struct Q<cista::basic_cstring<P>> : QCStr<cista::basic_cstring<P>> {};
template <typename P> struct Q<cista::generic_cstring<P>> : QCStr<cista::generic_cstring<P>> {};
template <typename T, template <typename> typename Ptr, bool Ix, typename S>
struct Q<cista::basic_vector<T, Ptr, Ix, S>> {
  using V = cista::basic_vector<T, Ptr, Ix, S>;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    d.num(static_cast<ll>(a.size()));
    d.num(a.empty());
    auto const i = static_cast<typename V::access_type>(static_cast<typename V::size_type>(r.below(a.size() + 2)));
    attempt(d, [&] { d.num(&a.at(i) - a.data()); });
    if (!a.empty()) {
      d.num(&a.front() - a.begin());
      d.num(&a.back() - a.begin());
      d.num(static_cast<ll>(std::distance(a.rbegin(), a.rend())));
      auto const k = static_cast<std::size_t>(r.below(a.size()));
      d.num(static_cast<ll>(a.index_of(&a.begin()[k])));
      d.num(a.contains(&a.begin()[k]));
      Q<T>::run(d, a.begin()[k], b.empty() ? a.begin()[0] : b.begin()[r.below(b.size())], r);
    }
    if constexpr (comparable<T>::value) {
      d.num(a == b);
      d.num(a != b);
      if (!a.empty()) d.num(std::find(a.begin(), a.end(), a.begin()[r.below(a.size())]) - a.begin());
    }
    if constexpr (ordered<T>::value) d.num(a < b);
    if constexpr (hashable<T>::value && !std::is_same_v<T, bool>) d.num(static_cast<ll>(cista::hashing<V>{}(a)));
    if constexpr (std::is_arithmetic_v<T>) print(d, a);
  }
};
template <typename T, std::size_t N>
struct Q<std::array<T, N>> {
  static void run(Dump& d, std::array<T, N> const& a, std::array<T, N> const& b, Rng& r) {
    auto const i = r.below(N);
    Q<T>::run(d, a[i], b[r.below(N)], r);
  }
};
template <typename T, typename Tag>
struct Q<cista::strong<T, Tag>> {
  using V = cista::strong<T, Tag>;
  static void run(Dump& d, V const& a, V const& b, Rng&) {
    d.num(a == b);
    d.num(a < b);
    print(d, a);
    d.num(static_cast<ll>(cista::to_idx(a)));
    d.num(static_cast<ll>(cista::hashing<V>{}(a)));
  }
};
template <typename A, typename B>
struct QPair {
  template <typename P>
  static void run(Dump& d, P const& a, P const& b, Rng& r) {
    Q<std::decay_t<decltype(a.first)>>::run(d, a.first, b.first, r);
    Q<B>::run(d, a.second, b.second, r);
  }
};
template <typename A, typename B> struct Q<cista::pair<A, B>> : QPair<A, B> {};
template <typename R, typename P>
struct Q<std::chrono::duration<R, P>> {
  using V = std::chrono::duration<R, P>;
  static void run(Dump& d, V const& a, V const& b, Rng&) { d.num(a == b); }
};
template <typename C, typename U>
struct Q<std::chrono::time_point<C, U>> {
  using V = std::chrono::time_point<C, U>;
  static void run(Dump& d, V const& a, V const& b, Rng&) { d.num(a < b); }
};
template <typename... T>
struct Q<cista::variant<T...>> {
  using V = cista::variant<T...>;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    d.num(static_cast<ll>(a.index()));
    d.num(a.valid());
    (d.num(cista::holds_alternative<T>(a)), ...);
    ((attempt(d, [&] {
       if (auto const* p = cista::get_if<T>(a); p != nullptr) Q<T>::run(d, *p, cista::holds_alternative<T>(b) ? cista::get<T>(b) : *p, r);
     })), ...);
    attempt(d, [&] { d.num(static_cast<ll>(a.apply([](auto const& x) { return sizeof(x); }))); });
    if constexpr ((comparable<T>::value && ...)) {
      d.num(a == b);
      d.num(a != b);
    }
    if constexpr ((ordered<T>::value && ...)) d.num(a < b);
    if constexpr ((hashable<T>::value && ...)) d.num(static_cast<ll>(a.hash()));
  }
};
template <typename T>
struct Q<cista::optional<T>> {
  using V = cista::optional<T>;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    d.num(a.has_value());
    attempt(d, [&] { d.num(b.value() == a.value()); });
    if (a) Q<T>::run(d, *a, b.has_value() ? *b : *a, r);
  }
};
template <typename... T>
struct Q<cista::tuple<T...>> {
  using V = cista::tuple<T...>;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    d.num(a == b);
    d.num(a < b);
    item<0>(d, a, b, r);
  }
  template <std::size_t I>
  static void item(Dump& d, V const& a, V const& b, Rng& r) {
    if constexpr (I < sizeof...(T)) {
      using E = std::decay_t<decltype(cista::get<I>(a))>;
      Q<E>::run(d, cista::get<I>(a), cista::get<I>(b), r);
      item<I + 1>(d, a, b, r);
    }
  }
};
template <typename T, typename Ptr>
struct Q<cista::basic_unique_ptr<T, Ptr>> {
  using V = cista::basic_unique_ptr<T, Ptr>;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    d.num(a == nullptr);
    d.num(static_cast<bool>(b));
    if (a) Q<T>::run(d, *a, b ? *b : *a, r);
  }
};
template <typename P>
static void query_ptr(Dump& d, P const& a, P const& b) {
  d.num(a == nullptr);
  d.num(b != nullptr);
  if (a != nullptr) d.num(a == a.get());
}
template <typename T, typename O>
struct Q<cista::offset_ptr<T, O>> {
  using V = cista::offset_ptr<T, O>;
  static void run(Dump& d, V const& a, V const& b, Rng&) {
    d.num(a == nullptr);
    d.num(b == nullptr);
    d.num(a == b);
    d.num(static_cast<bool>(a));
  }
};
template <typename T>
struct Q<T*> {
  static void run(Dump& d, T* const& a, T* const& b, Rng&) { d.num(a == b); }
};
template <typename T, template <typename> typename Ptr, typename GK, typename GV, typename H, typename E>
struct Q<cista::hash_storage<T, Ptr, GK, GV, H, E>> {
  using V = cista::hash_storage<T, Ptr, GK, GV, H, E>;
  using K = std::decay_t<decltype(std::declval<GK>()(std::declval<T const&>()))>;
  static constexpr bool map = is_pairlike<T>::value;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    d.num(static_cast<ll>(a.size()));
    d.num(static_cast<ll>(a.capacity()));
    d.num(a.empty());
    // present keys
    auto const skip = a.size() == 0 ? 0 : r.below(a.size());
    uint64_t at = 0, seen = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++at) {
      auto const& k = GK{}(*it);
      seen += a.find(k) == it;
      if (at == skip) {
        d.num(static_cast<ll>(at));
        d.num(a.find(k) != a.end());
        d.num(b.find(k) != b.end());
        if constexpr (map) {
          using X = std::decay_t<decltype(it->second)>;
          Q<X>::run(d, a.at(k), it->second, r);
          if constexpr (std::is_copy_constructible_v<X> && std::is_scalar_v<X>) d.num(a.get(k).has_value());
        }
      }
    }
    d.num(static_cast<ll>(seen));
    // probably absent ones
    for (int i = 0; i < 3; ++i) {
      K k{};
      GR g{r.next(), 3};
      G<K>::gen(k, g);
      auto it = a.find(k);
      d.num(it != a.end());
      if (it != a.end()) d.num(GK{}(*it) == k);
      if constexpr (map) attempt(d, [&] { d.num(&a.at(k) == &it->second); });
    }
    if constexpr (map) {
      using X = std::decay_t<decltype(std::declval<T const&>().second)>;
      if constexpr (comparable<X>::value) d.num(a == b);
    } else {
      d.num(a == b);
    }
  }
};
template <typename B>
static void query_bits(Dump& d, B const& a, B const& b) {
  d.num(static_cast<ll>(a.size()));
  d.num(static_cast<ll>(a.count()));
  d.num(a.any());
  d.num(a.none());
  d.num(a == b);
  if (a.size() == b.size()) d.num(a < b);
  print(d, a);
  ll n = 1;
  a.for_each_set_bit([&](auto i) { n = n * 31 + static_cast<ll>(cista::to_idx(i)); });
  d.num(n);
  d.num(static_cast<ll>((~a).count()));
  d.num(static_cast<ll>((a >> 3).count()));
  d.num(static_cast<ll>((a << 5).count()));
  if (a.size() == b.size()) {
    d.num(static_cast<ll>((a & b).count()));
    d.num(static_cast<ll>((a | b).count()));
    d.num(static_cast<ll>((a ^ b).count()));
  }
}
template <typename Vec, typename Key>
struct Q<cista::basic_bitvec<Vec, Key>> {
  using V = cista::basic_bitvec<Vec, Key>;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    query_bits(d, a, b);
    auto const x = a.next_set_bit(static_cast<typename V::size_type>(r.below(a.size() + 1)));
    d.num(x.has_value() ? static_cast<ll>(cista::to_idx(*x)) : -1);
    std::atomic_size_t pos{static_cast<std::size_t>(r.below(a.size() + 1))};
    auto const y = a.get_next(pos);
    d.num(y.has_value() ? static_cast<ll>(cista::to_idx(*y)) : -1);
    d.s += a.str();
  }
};
template <std::size_t N>
struct Q<cista::bitset<N>> {
  static void run(Dump& d, cista::bitset<N> const& a, cista::bitset<N> const& b, Rng&) {
    query_bits(d, a, b);
    d.s += a.to_string();
  }
};
template <typename V, typename At>
static void query_rows(Dump& d, V const& a, Rng& r, std::size_t n, At&& at) {
  d.num(static_cast<ll>(n));
  auto row = [&](auto const& x) {
    d.num(static_cast<ll>(x.size()));
    if (x.size() != 0) {
      auto const j = r.below(x.size());
      auto const& e = x[static_cast<decltype(x.size())>(j)];
      using E = std::decay_t<decltype(e)>;
      Q<E>::run(d, e, e, r);
      d.num(static_cast<ll>(std::distance(x.begin(), x.end())));
    }
  };
  for (auto const& x : a) row(x);
  attempt(d, [&] { row(at(r.below(n + 2))); });
}
template <typename K, typename Vec, typename Idx>
struct Q<cista::basic_vecvec<K, Vec, Idx>> {
  using V = cista::basic_vecvec<K, Vec, Idx>;
  static void run(Dump& d, V const& a, V const& b, Rng& r) {
    query_rows(d, a, r, a.size(), [&](std::size_t i) { return a.at(K(static_cast<cista::base_t<K>>(i))); });
    if (a.size() != 0 && b.size() != 0) {
      d.num(std::equal(a.front().begin(), a.front().end(), b.back().begin(), b.back().end()));
      d.num(a.front() == a.back());
    }
  }
};
template <typename T, typename S, template <typename> typename Vec, std::size_t L>
struct Q<cista::dynamic_fws_multimap_base<T, S, Vec, L>> {
  template <typename V>
  static void run(Dump& d, V const& a, V const&, Rng& r) {
    query_rows(d, a, r, a.size(), [&](std::size_t i) { return a.at(S(static_cast<typename V::size_type>(i))); });
    d.num(static_cast<ll>(a.element_count()));
    d.num(static_cast<ll>(a.allocated_size()));
    for (auto const& x : a) if (!x.empty()) { Q<T>::run(d, x.front(), x.back(), r); attempt(d, [&] { d.num(&x.at(static_cast<typename V::size_type>(r.below(x.size() + 1))) == &x.front()); }); }
  }
};
template <typename IV, typename DV>
struct Q<cista::fws_multimap<IV, DV>> {
  using V = cista::fws_multimap<IV, DV>;
  static void run(Dump& d, V const& a, V const&, Rng& r) {
    if (a.index_size() == 0) return;
    query_rows(d, a, r, a.index_size() - 1, [&](std::size_t i) {
      if (i + 1 >= a.index_size()) throw std::out_of_range("harness");
      return a[static_cast<typename V::index_t>(i)];
    });
    d.num(a.finished());
    d.num(static_cast<ll>(a.data_size()));
    d.num(static_cast<ll>(a.current_key()));
  }
};
template <typename Idx, typename Pg, typename Key>
struct Q<cista::paged_vecvec<Idx, Pg, Key>> {
  using V = cista::paged_vecvec<Idx, Pg, Key>;
  static void run(Dump& d, V const& a, V const&, Rng& r) {
    query_rows(d, a, r, a.size(), [&](std::size_t i) { return a.at(Key(static_cast<cista::base_t<Key>>(i))); });
    if (!a.empty()) d.num(a.front() == a.back());
  }
};
template <typename Key, typename DV, typename IV, std::size_t N, typename SV>
struct Q<cista::basic_nvec<Key, DV, IV, N, SV>> {
  using V = cista::basic_nvec<Key, DV, IV, N, SV>;
  static void run(Dump& d, V const& a, V const&, Rng&) {
    d.num(static_cast<ll>(a.size()));
    for (auto const& m : a) {
      d.num(static_cast<ll>(m.size()));
      for (auto const& x : m) dump_row(d, x);
    }
  }
};
template <typename Vec>
struct Q<cista::base_flat_matrix<Vec>> {
  using V = cista::base_flat_matrix<Vec>;
  static void run(Dump& d, V const& a, V const&, Rng& r) {
    attempt(d, [&] {
      auto const i = static_cast<typename V::size_type>(r.below(a.n_rows_ + 1u));
      auto const row = a.at(i);
      for (typename V::size_type j = 0; j < a.n_columns_; ++j) d.num(row[j]);
    });
  }
};
// indexed vectors hold indexed elements
template <typename T>
struct Q<cista::indexed<T>> {
  static void run(Dump& d, cista::indexed<T> const& a, cista::indexed<T> const& b, Rng& r) { Q<T>::run(d, a, b, r); }
};

// ------------------------------------------------------------ more roots
struct Sums {
  data::vector<uint32_t> a_;
  data::vector<data::string> b_;
  data::vector<data::vector<uint16_t>> c_;
  data::vector<Leaf> d_;
  data::hash_map<data::string, data::string> e_;
  data::hash_set<data::string> f_;
  data::hash_map<uint32_t, uint32_t> g_;
  cista::tuple<uint32_t, data::string> h_;
  data::bitvec i_;
};
using Tree = data::rtree<uint32_t>;
// sizes of 64 and 16 bits
template <typename T> using vec64 = cista::basic_vector<T, data::ptr, false, uint64_t>;
template <typename T> using vec16 = cista::basic_vector<T, data::ptr, false, uint16_t>;
struct Huge {
  vec64<uint32_t> a_;
  vec64<data::string> b_;
  vec64<vec64<Leaf>> c_;
  vec16<uint64_t> d_;
  vec16<data::u16string> e_;
  std::array<vec64<double>, 2> f_;
  cista::basic_vecvec<uint64_t, vec64<uint8_t>, vec64<uint64_t>> g_;
};
}  // namespace props
