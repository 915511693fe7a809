// Histories over variants, optionals, tuples and owning pointers (C14, C15).
#include "common.h"
#include "cista/containers/optional.h"
#include "cista/containers/tuple.h"
#include "cista/containers/unique_ptr.h"
#include "cista/containers/variant.h"

namespace props {
template <int K>
struct TObj : Obj {
  using Obj::Obj;
};
template <int K>
struct Num {
  uint32_t v_{};
  friend bool operator==(Num const& a, Num const& b) { return a.v_ == b.v_; }
  friend bool operator!=(Num const& a, Num const& b) { return a.v_ != b.v_; }
  friend bool operator<(Num const& a, Num const& b) { return a.v_ < b.v_; }
  friend bool operator>(Num const& a, Num const& b) { return a.v_ > b.v_; }
  friend bool operator<=(Num const& a, Num const& b) { return a.v_ <= b.v_; }
  friend bool operator>=(Num const& a, Num const& b) { return a.v_ >= b.v_; }
};
inline bool operator>(Obj const& a, Obj const& b) { return a.get() > b.get(); }
inline bool operator<=(Obj const& a, Obj const& b) { return a.get() <= b.get(); }
inline bool operator>=(Obj const& a, Obj const& b) { return a.get() >= b.get(); }

// VC<T>: value <-> number
template <typename T, typename = void> struct VC;
template <int K> struct VC<TObj<K>> {
  static TObj<K> mk(ll v) { return TObj<K>{v}; }
  static ll rd(TObj<K> const& e) { return e.get(); }
  static constexpr bool plain = false;
};
template <int K> struct VC<Num<K>> {
  static Num<K> mk(ll v) { return Num<K>{static_cast<uint32_t>(v)}; }
  static ll rd(Num<K> const& e) { return e.v_; }
  static constexpr bool plain = true;
};
template <typename T> struct VC<T, std::enable_if_t<std::is_arithmetic_v<T>>> {
  static T mk(ll v) { return static_cast<T>(v); }
  static ll rd(T const& e) { return static_cast<ll>(e); }
  static constexpr bool plain = true;
};
template <typename P> struct VC<cista::basic_string<P>> {
  using S = cista::basic_string<P>;
  static S mk(ll v) { return StrCodec<S>::mk(v); }
  static ll rd(S const& e) { return StrCodec<S>::rd(e); }
  static constexpr bool plain = false;
};
template <typename T, template <typename> typename Ptr, bool Ix, typename Sz> struct VC<cista::basic_vector<T, Ptr, Ix, Sz>> {
  using V = cista::basic_vector<T, Ptr, Ix, Sz>;
  static V mk(ll v) {
    V r;
    if (v != 0) for (ll i = 0; i < 1 + v % 3; ++i) r.emplace_back(VC<T>::mk(v));
    return r;
  }
  static ll rd(V const& e) {
    if (e.size() == 0) return 0;
    auto const v = VC<T>::rd(e[0]);
    if (static_cast<ll>(e.size()) != 1 + v % 3) return -778;
    for (auto const& x : e) if (VC<T>::rd(x) != v) return -779;
    return v;
  }
  static constexpr bool plain = false;
};

enum ValOp {
  V_DEFAULT, V_VALUE, V_COPY, V_COPY_NC, V_MOVE, V_COPY_ASSIGN, V_MOVE_ASSIGN, V_SELF_COPY, V_SELF_MOVE, V_SET_L, V_SET_C, V_SET_R, V_EMPLACE,
  V_EMPLACE_I, V_RESET, V_SWAP, V_STDSWAP, V_WRITE, V_COMPARE, V_RESTART, N_VAL_OPS
};
static char const* val_op_name(int c) {
  static char const* n[] = {"default-construct", "construct from value", "copy-construct", "copy-construct (non-const)", "move-construct", "copy-assign",
    "move-assign", "self-copy", "self-move", "assign lvalue", "assign const", "assign rvalue", "emplace<T>", "emplace<I>", "reset", "swap", "std::swap",
    "write", "compare", "restart"};
  return c >= 0 && c < N_VAL_OPS ? n[c] : "?";
}
struct MV {  // model: alternative (-1: none) and value
  int idx{-1};
  ll v{0};
  bool operator==(MV const& o) const { return idx == o.idx && (idx < 0 || v == o.v); }
};
inline std::string show(MV const& m) { return m.idx < 0 ? "nothing" : "alternative " + std::to_string(m.idx) + " = " + std::to_string(m.v); }

template <typename F, std::size_t... I>
void with_index(std::size_t i, F&& f, std::index_sequence<I...>) {
  ((i == I ? (f(std::integral_constant<std::size_t, I>{}), 0) : 0), ...);
}

// ------------------------------------------------------------------ variant
template <typename... T>
struct VariantH {
  using X = cista::variant<T...>;
  static constexpr std::size_t K = sizeof...(T);
  template <std::size_t I> using alt = cista::type_at_index_t<I, T...>;
  static constexpr bool storable = !std::is_base_of_v<Obj, alt<0>>;
  template <typename F>
  static void with(std::size_t i, F&& f) { with_index(i, std::forward<F>(f), std::make_index_sequence<K>{}); }
  static MV make_model(Op const& op) { return {static_cast<int>(static_cast<std::size_t>(op.b) % K), op.c}; }
  static MV read(X const& x, char const* after) {
    MV r;
    bool threw = false;
    int calls = 0;
    { Sut q;
      try {
        x.apply([&](auto const& e) { NoSut n; ++calls; r.v = VC<std::decay_t<decltype(e)>>::rd(e); });
      } catch (std::exception const&) { threw = true; }
    }
    auto const idx = x.index();
    bool const has = idx < K;
    CHK(has || idx == X::NO_VALUE, "var-index", "%s: index %zu of %zu alternatives", after, idx, K);
    CHK(x.valid() == has && static_cast<bool>(x) == has, "var-valid", "%s: valid() differs from the index", after);
    CHK(threw != has && calls == (has ? 1 : 0), "var-access", "%s: access of %s %s", after, has ? "a value" : "no value", threw ? "throws" : "does not throw");
    r.idx = has ? static_cast<int>(idx) : -1;
    if (has) {
      int n = 0;
      with(idx, [&](auto i) {
        n = 1;
        using A = alt<decltype(i)::value>;
        CHK(VC<A>::rd(cista::get<A>(x)) == r.v && VC<A>::rd(cista::get<decltype(i)::value>(x)) == r.v, "var-get", "%s: get differs", after);
      });
      CHK(n == 1, "var-index", "%s", after);
    }
    for (std::size_t k = 0; k < K; ++k) {
      with(k, [&](auto i) {
        using A = alt<decltype(i)::value>;
        bool const want = has && k == idx;
        auto const p = cista::get_if<A>(x);
        auto const q = cista::get_if<decltype(i)::value>(x);
        CHK((p != nullptr) == want && (q != nullptr) == want && cista::holds_alternative<A>(x) == want, "var-get-if", "%s: alternative %zu, current %zu", after, k, idx);
        if (want) CHK(VC<A>::rd(*p) == r.v && static_cast<void const*>(p) == q, "var-get-if", "%s: get_if differs", after);
      });
    }
    return r;
  }
  static void value(void* w, Op const& op) {
    with(static_cast<std::size_t>(op.b) % K, [&](auto i) {
      using A = alt<decltype(i)::value>;
      if (op.a & 8) {
        auto const e = VC<A>::mk(op.c);
        new (w) X(e);
      } else new (w) X(VC<A>::mk(op.c));
    });
  }
  static void set(X& x, Op const& op) {
    with(static_cast<std::size_t>(op.b) % K, [&](auto i) {
      using A = alt<decltype(i)::value>;
      auto e = VC<A>::mk(op.c);
      switch (op.code) {
        case V_SET_L: x = e; break;
        case V_SET_C: x = std::as_const(e); break;
        case V_SET_R: x = std::move(e); break;
        case V_EMPLACE: {
          auto& r = x.template emplace<A>(op.a & 8 ? A(e) : std::move(e));
          NoSut q;
          if (VC<A>::rd(r) != op.c) violation(O_MODEL, "var-emplace", "emplace returns another value");
          break;
        }
        case V_EMPLACE_I: x.template emplace<decltype(i)::value>(std::move(e)); break;
      }
    });
  }
  static constexpr bool resets = false, copies = true;
  static void const* owner(X const&) { return nullptr; }
  static void reset(X&) {}
  static void write(X& x, ll v) {
    x.apply([&](auto& e) { e = VC<std::decay_t<decltype(e)>>::mk(v); });
  }
  static void swap(X& a, X& b) { a.swap(b); }
  static void compare(X const& a, X const& b, MV const& x, MV const& y) {
    auto const c = x.idx != y.idx ? (static_cast<unsigned>(x.idx) & 255u) < (static_cast<unsigned>(y.idx) & 255u) ? -1 : 1 : x.idx < 0 || x.v == y.v ? 0 : 2;
    if (c == 2) {
      // order of the alternatives' own type
      bool lt = false;
      with(static_cast<std::size_t>(x.idx), [&](auto i) {
        auto const &u = cista::get<decltype(i)::value>(a), &w = cista::get<decltype(i)::value>(b);
        lt = u < w;
      });
      CHK(!(a == b) && a != b && (a < b) == lt && (a > b) == !lt && (a <= b) == lt && (a >= b) == !lt, "var-compare", "comparing %s with %s", show(x).c_str(), show(y).c_str());
      return;
    }
    CHK((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0),
        "var-compare", "comparing %s with %s", show(x).c_str(), show(y).c_str());
  }
};
// ------------------------------------------------------------------ optional
template <typename T>
struct OptionalH {
  using X = cista::optional<T>;
  static constexpr bool storable = !std::is_base_of_v<Obj, T>;
  static MV make_model(Op const& op) { return {0, op.c}; }
  static MV read(X const& x, char const* after) {
    MV r;
    bool threw = false, threw2 = false;
    { Sut q;
      try { auto const& e = x.value(); NoSut n; r.v = VC<T>::rd(e); } catch (std::bad_optional_access const&) { threw = true; }
      try { (void)const_cast<X&>(x).value(); } catch (std::bad_optional_access const&) { threw2 = true; }
    }
    CHK(x.has_value() == static_cast<bool>(x), "opt-valid", "%s", after);
    CHK(threw != x.has_value() && threw2 == threw, "opt-access", "%s: access of %s %s", after, x.has_value() ? "a value" : "no value", threw ? "throws" : "does not throw");
    r.idx = x.has_value() ? 0 : -1;
    if (x.has_value()) CHK(VC<T>::rd(*x) == r.v && x.operator->() == &*x, "opt-access", "%s: operator* differs", after);
    return r;
  }
  static void value(void* w, Op const& op) {
    if (op.a & 8) { auto const e = VC<T>::mk(op.c); new (w) X(e); } else new (w) X(VC<T>::mk(op.c));
  }
  static void set(X& x, Op const& op) {
    auto e = VC<T>::mk(op.c);
    switch (op.code) {
      case V_SET_L: x = e; break;
      case V_SET_C: x = std::as_const(e); break;
      default: x = std::move(e); break;
    }
  }
  static constexpr bool resets = true, copies = true;
  static void const* owner(X const&) { return nullptr; }
  static void reset(X& x) { x = std::nullopt; }
  static void write(X& x, ll v) { *x = VC<T>::mk(v); }
  static void swap(X& a, X& b) { std::swap(a, b); }
  static void compare(X const&, X const&, MV const&, MV const&) {}
};
// ------------------------------------------------------------------ tuple: element i holds v + i
template <typename... T>
struct TupleH {
  using X = cista::tuple<T...>;
  static constexpr std::size_t K = sizeof...(T);
  template <std::size_t I> using alt = cista::tuple_element_t<I, T...>;
  static constexpr bool storable = !std::is_base_of_v<Obj, alt<0>>;
  static MV make_model(Op const& op) { return {0, op.c}; }
  static constexpr ll kMoved = -5000;
  template <std::size_t... I>
  static MV rd(X const& x, std::index_sequence<I...>) {
    ll vals[] = {VC<alt<I>>::rd(cista::get<I>(x))...};
    ll const d = vals[K - 1] - static_cast<ll>(K - 1);  // the last element is a number
    bool all = true;
    for (std::size_t i = 0; i < K; ++i) all = all && vals[i] == d + static_cast<ll>(i);
    if (all) return {0, d};
    bool fresh = true;
    for (std::size_t i = 0; i < K; ++i) fresh = fresh && vals[i] == 0;
    if (fresh) return {0, -1000000};
    uint64_t h = 7;
    for (auto v : vals) h = mix(h, static_cast<uint64_t>(v));
    return {0, -2000000 - static_cast<ll>(h % 100000)};
  }
  static MV read(X const& x, char const* after) {
    auto r = rd(x, std::make_index_sequence<K>{});
    auto a = cista::apply([&](auto const&... e) { return sizeof...(e); }, x);
    CHK(a == K, "tup-apply", "%s", after);
    return r;
  }
  template <std::size_t... I>
  static X mk(ll v, std::index_sequence<I...>) { return X{VC<alt<I>>::mk(v + static_cast<ll>(I))...}; }
  static X mk(ll v) { return mk(v, std::make_index_sequence<K>{}); }
  static void value(void* w, Op const& op) { new (w) X(mk(op.c)); }
  static void set(X& x, Op const& op) {
    auto e = mk(op.c);
    switch (op.code) {
      case V_SET_L: x = e; break;
      case V_SET_C: x = std::as_const(e); break;
      default: x = std::move(e); break;
    }
  }
  static constexpr bool resets = false, copies = true;
  static void const* owner(X const&) { return nullptr; }
  static void reset(X&) {}
  template <std::size_t... I>
  static void wr(X& x, ll v, std::index_sequence<I...>) { ((cista::get<I>(x) = VC<alt<I>>::mk(v + static_cast<ll>(I))), ...); }
  static void write(X& x, ll v) { wr(x, v, std::make_index_sequence<K>{}); }
  static void swap(X& a, X& b) { std::swap(a, b); }
  static void compare(X const& a, X const& b, MV const& x, MV const& y) {
    if (x.v < 0 || y.v < 0) return;
    bool lt = false;
    if (x.v != y.v) lt = cista::get<0>(a) < cista::get<0>(b);
    bool const eq = x.v == y.v;
    CHK((a == b) == eq && (a != b) == !eq && (a < b) == lt && (a > b) == (!eq && !lt) && (a <= b) == (eq || lt) && (a >= b) == !lt, "tup-compare", "comparing %s with %s", show(x).c_str(), show(y).c_str());
  }
};
// ------------------------------------------------------------------ unique_ptr
template <typename T, bool Raw>
struct PtrH {
  using X = std::conditional_t<Raw, cista::raw::unique_ptr<T>, cista::offset::unique_ptr<T>>;
  static constexpr bool storable = !std::is_base_of_v<Obj, T>;
  static MV make_model(Op const& op) { return {0, op.c}; }
  static MV read(X const& x, char const* after) {
    MV r;
    bool const has = static_cast<bool>(x);
    CHK((x.get() != nullptr) == has && (x == nullptr) == !has && (x != nullptr) == has && (nullptr == x) == !has && (nullptr != x) == has, "ptr-null", "%s", after);
    r.idx = has ? 0 : -1;
    if (has) {
      r.v = VC<T>::rd(*x);
      CHK(x.operator->() == x.get() && &*x == x.get(), "ptr-get", "%s", after);
    }
    return r;
  }
  static void make(X* w, X* to, Op const& op) {
    auto m = [&] {
      if constexpr (Raw) return cista::raw::make_unique<T>(VC<T>::mk(op.c)); else return cista::offset::make_unique<T>(VC<T>::mk(op.c));
    };
    if (to == nullptr) new (w) X(m());
    else *to = m();
  }
  static void value(void* w, Op const& op) { make(static_cast<X*>(w), nullptr, op); }
  static void set(X& x, Op const& op) { make(nullptr, &x, op); }
  static constexpr bool resets = true, copies = false;
  static void const* owner(X const& x) { return x.get(); }
  static void reset(X& x) { x = nullptr; }
  static void write(X& x, ll v) { *x = VC<T>::mk(v); }
  static void swap(X& a, X& b) { std::swap(a, b); }
  static void compare(X const&, X const&, MV const&, MV const&) {}
};

template <typename H>
struct ValRun {
  using X = typename H::X;
  static constexpr int N = 3;
  Slot<X> s[N];
  MV m[N];

  void verify(int k, char const* after) {
    auto const r = H::read(*s[k], after);
    if (!(r == m[k])) violation(O_MODEL, "val-content", std::string(after) + ": holds " + show(r) + ", reference " + show(m[k]));
    note_state(mix(static_cast<uint64_t>(r.idx), static_cast<uint64_t>(r.v)));
  }
  // after a failure or a move: nothing, one of the given values, or an emptied one
  void settle(int k, char const* nm, std::initializer_list<MV> ok, bool emptied) {
    auto const r = H::read(*s[k], nm);
    bool fine = emptied && r.idx >= 0 && (r.v <= 0 || r.v == m[k].v);
    for (auto const& a : ok) fine = fine || r == a;
    CHK(fine, "val-failed-op", "%s leaves %s, before: %s", nm, show(r).c_str(), show(m[k]).c_str());
    m[k] = r;
  }
  template <typename F>
  CallResult replace(Op const& op, int k, MV const& then, F&& f) {
    Slot<X> ns;
    auto r = call(op, [&] { ns.construct([&](void* w) { f(w); }); });
    if (r.ok()) {
      s[k].destroy();
      s[k] = ns;
      m[k] = then;
    }
    return r;
  }
  void exec(Plan const& p) {
    for (int i = 0; i < N; ++i) {
      sut([&] { s[i].construct([](void* w) { new (w) X(); }); });
      m[i] = H::read(*s[i], "construction");
    }
    for (auto const& op : p.ops) {
      char const* nm = val_op_name(op.code);
      int const k = static_cast<int>((op.a & 7) % N), o = static_cast<int>((k + 1 + (op.a >> 4) % (N - 1)) % N);
      if (tracing()) trace("  %s k=%d o=%d b=%lld v=%lld", nm, k, o, (ll)op.b, (ll)op.c);
      log_event('O', static_cast<uint64_t>(op.code));
      auto& t = s[k];
      CallResult r;
      auto const none = MV{};
      switch (op.code) {
        case V_DEFAULT: {
          Slot<X> ns;
          r = call(op, [&] { ns.construct([](void* w) { new (w) X(); }); });
          if (r.ok()) { t.destroy(); t = ns; m[k] = H::read(*t, nm); }
          break;
        }
        case V_VALUE: r = replace(op, k, H::make_model(op), [&](void* w) { H::value(w, op); }); break;
        case V_COPY: case V_COPY_NC:
          if constexpr (H::copies) r = replace(op, o, m[k], [&](void* w) { if (op.code == V_COPY) new (w) X(std::as_const(*t.p)); else new (w) X(*t.p); });
          break;
        case V_MOVE:
          r = replace(op, o, m[k], [&](void* w) { new (w) X(std::move(*t.p)); });
          settle(k, nm, {none, m[k]}, true);
          break;
        case V_COPY_ASSIGN:
          if constexpr (H::copies) {
            r = call(op, [&] { if (op.b & 1) *s[o] = *t.p; else *s[o] = std::as_const(*t.p); });
            if (r.ok()) m[o] = m[k]; else if (partial_ok) settle_partial(o); else settle(o, nm, {none, m[o]}, true);
          }
          break;
        case V_MOVE_ASSIGN:
          r = call(op, [&] { *s[o] = std::move(*t.p); });
          if (r.ok()) m[o] = m[k]; else settle(o, nm, {none, m[o]}, true);
          settle(k, nm, {none, m[k]}, true);
          break;
        case V_SELF_COPY:
          if constexpr (H::copies) {
            r = call(op, [&] { auto const& w = *t.p; *t.p = w; });
            if (!r.ok()) { if (partial_ok) settle_partial(k); else settle(k, nm, {none, m[k]}, true); }
          }
          break;
        case V_SELF_MOVE: r = call(op, [&] { auto& w = *t.p; *t.p = std::move(w); });
          // forwarded to the elements, whose own self-move may empty them
          if constexpr (partial_ok) settle_partial(k); else if constexpr (is_variant) settle(k, nm, {m[k]}, true);
          break;
        case V_SET_L: case V_SET_C: case V_SET_R: case V_EMPLACE: case V_EMPLACE_I:
          r = call(op, [&] { H::set(*t, op); });
          if (r.ok()) m[k] = H::make_model(op); else if (partial_ok) settle_partial(k); else settle(k, nm, {none, m[k]}, true);
          break;
        case V_RESET: if constexpr (H::resets) { r = call(op, [&] { H::reset(*t); }); m[k] = none; } break;
        case V_SWAP: case V_STDSWAP:
          r = call(op, [&] { if (op.code == V_SWAP) H::swap(*t, *s[o]); else std::swap(*t.p, *s[o].p); });
          if (r.ok()) std::swap(m[k], m[o]);
          break;
        case V_WRITE:
          if (m[k].idx < 0) break;
          // a value owned from inside an image is not destroyed by its pointer
          if (H::owner(*t) != nullptr && heap::in_image(H::owner(*t))) break;
          r = call(op, [&] { H::write(*t, op.c); });
          if (r.ok()) m[k].v = op.c; else if (partial_ok) settle_partial(k); else settle(k, nm, {m[k]}, true);
          break;
        case V_COMPARE: H::compare(*t, *s[o], m[k], m[o]); break;
        case V_RESTART:
          if constexpr (H::storable) {
            // an empty variant is no storable value
            if (is_variant && m[k].idx < 0) break;
            r = restart_any(t, static_cast<int>(op.b & 0xff), op.f);
          }
          break;
      }
      CHK(r.ok() || r.faulted(), "val-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
      if (!r.ok()) mark_nontrivial();
      for (int i = 0; i < N; ++i) verify(i, nm);
    }
    mark_nontrivial();
    for (auto& x : s) x.destroy();
    heap::expect_no_leak("value history");
  }
  template <typename T> struct is_var : std::false_type {};
  template <typename... T> struct is_var<cista::variant<T...>> : std::true_type {};
  template <typename T> struct is_tup : std::false_type {};
  template <typename... T> struct is_tup<cista::tuple<T...>> : std::true_type {};
  static constexpr bool is_variant = is_var<X>::value, partial_ok = is_tup<X>::value;
  // some elements of a tuple may have been assigned
  void settle_partial(int k) { m[k] = H::read(*s[k], "failed assignment"); }
};

static constexpr int kValConfigs = 14;
static Plan gen_val(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(500);
  p.cfg = {static_cast<ll>(r.below(kValConfigs)), faults};
  ll n = r.range(3, r.chance(150) ? 120 : 30) * (tier ? 2 : 1);
  std::vector<int> w(N_VAL_OPS);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 1, 2, 4}));
  w[V_VALUE] += 2;
  if (r.chance(500)) w[V_RESTART] = 0;
  int total = 0;
  for (auto x : w) total += x;
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>(r.below(256));
    op.b = static_cast<int64_t>(r.below(1000));
    op.c = static_cast<int64_t>(r.chance(300) ? 1 + r.below(3) : 1 + r.below(200));
    if (faults) random_alloc_fault(r, op, 250, true);
    p.ops.push_back(op);
  }
  return p;
}
static void exec_val(Plan const& p) {
  namespace off = cista::offset;
  namespace raw = cista::raw;
  using OS = off::string;
  using RS = raw::string;
  switch (p.c(0) % kValConfigs) {
    case 0: ValRun<VariantH<TObj<0>, TObj<1>, uint32_t, TObj<2>>>{}.exec(p); break;
    case 1: ValRun<VariantH<OS, uint32_t, off::vector<uint32_t>, Num<3>>>{}.exec(p); break;
    case 2: ValRun<VariantH<uint8_t, RS, raw::vector<uint32_t>>>{}.exec(p); break;
    case 3: ValRun<VariantH<Num<0>, Num<1>, Num<2>, Num<3>, Num<4>, Num<5>, Num<6>, Num<7>, Num<8>, Num<9>, Num<10>, Num<11>, Num<12>, Num<13>, Num<14>, OS, uint64_t, RS, Num<18>>>{}.exec(p); break;
    case 4: ValRun<VariantH<TObj<0>>>{}.exec(p); break;
    case 5: ValRun<OptionalH<TObj<0>>>{}.exec(p); break;
    case 6: ValRun<OptionalH<OS>>{}.exec(p); break;
    case 7: ValRun<OptionalH<uint64_t>>{}.exec(p); break;
    case 8: ValRun<TupleH<TObj<0>, TObj<1>, uint32_t>>{}.exec(p); break;
    case 9: ValRun<TupleH<OS, off::vector<uint32_t>, uint64_t>>{}.exec(p); break;
    case 10: ValRun<TupleH<uint8_t, RS, uint16_t, RS, uint64_t>>{}.exec(p); break;
    case 11: ValRun<PtrH<TObj<0>, false>>{}.exec(p); break;
    case 12: ValRun<PtrH<OS, false>>{}.exec(p); break;
    case 13: ValRun<PtrH<RS, true>>{}.exec(p); break;
  }
}
}  // namespace props
#ifndef PROPS_COMBINED
static std::vector<sim::Harness> const g_h = {{"val", props::val_op_name, props::gen_val, props::exec_val}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
#endif
