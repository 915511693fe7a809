// Equality, order, hash and printed form of values built by different histories (C21).
#include "common.h"

#include <chrono>
#include <sstream>
#include <variant>

#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "cista/reflection/comparable.h"
#include "cista/reflection/printable.h"

namespace props {
namespace cd = cista::offset;
struct EqTag {};
using EqKey = cista::strong<uint32_t, EqTag>;
enum class Color : uint16_t { kRed, kGreen = 7, kBlue = 900 };
struct EqRec {
  CISTA_COMPARABLE()
  CISTA_PRINTABLE(EqRec, "num", "name", "list", "key", "flag")
  int32_t num_{0};
  cd::string name_;
  cd::vector<uint16_t> list_;
  EqKey key_{0U};
  bool flag_{false};
};
struct EqOuter {
  CISTA_FRIEND_COMPARABLE(EqOuter)
  auto cista_members() { return std::tie(rec_, when_, color_, list_); }
  EqRec rec_;
  std::chrono::seconds when_{0};
  Color color_{Color::kRed};
  cd::vector<cd::vector<cd::string>> list_;
};
struct MRec {
  int32_t num{0};
  std::string name;
  std::vector<uint16_t> list;
  uint32_t key{0};
  bool flag{false};
  auto t() const { return std::tie(num, name, list, key, flag); }
  friend bool operator<(MRec const& a, MRec const& b) { return a.t() < b.t(); }
  friend bool operator==(MRec const& a, MRec const& b) { return a.t() == b.t(); }
};
struct MOuter {
  MRec rec;
  ll when{0};
  Color color{Color::kRed};
  std::vector<std::vector<std::string>> list;
  auto t() const { return std::tie(rec, when, color, list); }
  friend bool operator<(MOuter const& a, MOuter const& b) { return a.t() < b.t(); }
  friend bool operator==(MOuter const& a, MOuter const& b) { return a.t() == b.t(); }
};

// C<T>: model type M, gen, text (canonical), build (through a seeded history)
template <typename T, typename = void>
struct C;
template <typename T>
struct C<T, std::enable_if_t<std::is_integral_v<T>>> {
  using M = T;
  static M gen(Rng& r, int) { return static_cast<T>(r.chance(600) ? r.below(3) : r.next()); }
  static void build(T& t, M const& m, Rng&) { t = m; }
  static void text(std::string& o, M const& m) { o += std::to_string(m) + ";"; }
};
template <>
struct C<EqKey> {
  using M = uint32_t;
  static M gen(Rng& r, int d) { return C<uint32_t>::gen(r, d); }
  static void build(EqKey& t, M const& m, Rng&) { t = EqKey{m}; }
  static void text(std::string& o, M const& m) { o += std::to_string(m) + ";"; }
};
static std::vector<std::string*>* g_views = nullptr;  // texts that borrowed strings refer to
static std::string gen_text(Rng& r) {
  static size_t const lens[] = {0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 23, 24, 31, 40};
  std::string s(lens[r.below(14)], 'x');
  bool const wide = r.chance(200);
  for (auto& c : s) c = r.chance(800) ? 'x' : static_cast<char>(wide ? r.range(1, 255) : r.range('a', 'c'));
  return s;
}
template <>
struct C<cd::string> {
  using M = std::string;
  static M gen(Rng& r, int) { return gen_text(r); }
  static void build(cd::string& t, M const& m, Rng& r) {
    auto const v = std::string_view{m};
    switch (r.below(7)) {
      case 0: t.set_owning(v.data(), static_cast<cd::string::msize_t>(v.size())); break;
      case 1: {  // borrowed text
        std::string* keep;
        {
          NoSut n;
          keep = new std::string(m);
          g_views->push_back(keep);
        }
        t.set_non_owning(keep->data(), static_cast<cd::string::msize_t>(keep->size()));
        break;
      }
      case 2:  // stale characters behind a shorter text
        t.set_owning("a much longer text that was here before", 39);
        t.set_owning(v.data(), static_cast<cd::string::msize_t>(v.size()));
        break;
      case 3:
        t.set_owning("qqqqqqqqqqqqqqq", static_cast<cd::string::msize_t>(r.below(16)));
        t.set_owning(v.data(), static_cast<cd::string::msize_t>(v.size()));
        break;
      case 4: {
        cd::string x{v, cd::string::owning_t{}};
        t = std::move(x);
        break;
      }
      case 5: {
        cd::string const x{v, cd::string::owning_t{}};
        t = x;
        break;
      }
      case 6: {  // front removed
        std::string tmp;
        {
          NoSut n;
          tmp = "pp" + m;
        }
        t.set_owning(tmp.data(), static_cast<cd::string::msize_t>(tmp.size()));
        t.erase(0, 2);
        {
          NoSut n;
          tmp = std::string{};
        }
        break;
      }
    }
  }
  static void text(std::string& o, M const& m) { o += std::to_string(m.size()) + ":" + m + ";"; }
};
template <typename E>
struct C<cd::vector<E>> {
  using T = cd::vector<E>;
  using ME = typename C<E>::M;
  using M = std::vector<ME>;
  static M gen(Rng& r, int d) {
    M m(r.chance(300) ? 0 : r.below(d > 1 ? 4 : 7));
    for (size_t i = 0; i < m.size(); ++i) m[i] = C<E>::gen(r, d + 1);
    return m;
  }
  static void build(T& t, M const& m, Rng& r) {
    switch (r.below(7)) {
      case 0: t.clear(); break;
      case 1: t = T{}; t.reserve(static_cast<typename T::size_type>(m.size() + r.below(20))); break;
      case 2: {  // longer before
        auto const n = t.size() + r.below(12);
        t.resize(static_cast<typename T::size_type>(n));
        for (size_t i = m.size(); i < t.size(); ++i) C<E>::build(t[static_cast<typename T::size_type>(i)], ME{}, r);
        break;
      }
      case 3: {  // from the back to the front
        t.clear();
        for (size_t i = m.size(); i-- != 0;) {
          E e{};
          C<E>::build(e, m[i], r);
          t.insert(t.begin(), std::move(e));
        }
        return;
      }
      case 4: {  // extra elements are erased again
        t.clear();
        for (size_t i = 0; i < m.size(); ++i) {
          t.emplace_back();
          C<E>::build(t.back(), m[i], r);
          if (r.chance(300)) {
            t.emplace_back();
            t.erase(t.begin() + static_cast<ptrdiff_t>(t.size() - 1U));
          }
        }
        return;
      }
      case 5: {
        T x;
        fill(x, m, r);
        t = std::move(x);
        return;
      }
      case 6: {
        T x;
        fill(x, m, r);
        auto const& y = x;
        t = y;
        return;
      }
    }
    fill(t, m, r);
  }
  static void fill(T& t, M const& m, Rng& r) {
    using S = typename T::size_type;
    for (size_t i = 0; i < m.size() && i < t.size(); ++i) C<E>::build(t[static_cast<S>(i)], m[i], r);
    for (size_t i = t.size(); i < m.size(); ++i) {
      E e{};
      C<E>::build(e, m[i], r);
      t.emplace_back(std::move(e));
    }
    if (t.size() > m.size()) {
      if (r.chance(500)) t.resize(static_cast<S>(m.size()));
      else t.erase(t.begin() + static_cast<ptrdiff_t>(m.size()), t.end());
    }
  }
  static void text(std::string& o, M const& m) {
    o += "[";
    for (size_t i = 0; i < m.size(); ++i) C<E>::text(o, m[i]);
    o += "]";
  }
};
template <typename A, typename B>
struct C<cista::pair<A, B>> {
  using T = cista::pair<A, B>;
  using M = std::pair<typename C<A>::M, typename C<B>::M>;
  static M gen(Rng& r, int d) {
    M m;
    m.first = C<A>::gen(r, d);
    m.second = C<B>::gen(r, d);
    return m;
  }
  static void build(T& t, M const& m, Rng& r) {
    if (r.chance(500)) C<A>::build(t.first, m.first, r);
    C<B>::build(t.second, m.second, r);
    C<A>::build(t.first, m.first, r);
  }
  static void text(std::string& o, M const& m) {
    C<A>::text(o, m.first);
    C<B>::text(o, m.second);
  }
};
template <>
struct C<EqRec> {
  using M = MRec;
  static M gen(Rng& r, int d) {
    M m;
    m.num = C<int32_t>::gen(r, d);
    m.name = gen_text(r);
    m.list = C<cd::vector<uint16_t>>::gen(r, d + 1);
    m.key = static_cast<uint32_t>(r.below(4));
    m.flag = r.chance(500);
    return m;
  }
  static void build(EqRec& t, M const& m, Rng& r) {
    if (r.chance(200)) t = EqRec{};
    t.num_ = m.num;
    C<cd::string>::build(t.name_, m.name, r);
    C<cd::vector<uint16_t>>::build(t.list_, m.list, r);
    t.key_ = EqKey{m.key};
    t.flag_ = m.flag;
  }
  static void text(std::string& o, M const& m) {
    C<int32_t>::text(o, m.num);
    C<cd::string>::text(o, m.name);
    C<cd::vector<uint16_t>>::text(o, m.list);
    C<uint32_t>::text(o, m.key);
    o += m.flag ? "T" : "F";
  }
  static std::string printed(M const& m) {
    std::ostringstream o;
    o << "{num=" << m.num << ", name=" << m.name << ", list=[\n  ";
    for (size_t i = 0; i < m.list.size(); ++i) o << (i ? ",\n  " : "") << m.list[i];
    o << "\n], key=" << m.key << ", flag=" << m.flag << '}';
    return o.str();
  }
};
template <>
struct C<EqOuter> {
  using M = MOuter;
  using L = C<cd::vector<cd::vector<cd::string>>>;
  static M gen(Rng& r, int d) {
    M m;
    m.rec = C<EqRec>::gen(r, d);
    m.when = r.range(-2, 2);
    m.color = r.pick({Color::kRed, Color::kGreen, Color::kBlue});
    m.list = L::gen(r, d + 1);
    return m;
  }
  static void build(EqOuter& t, M const& m, Rng& r) {
    C<EqRec>::build(t.rec_, m.rec, r);
    t.when_ = std::chrono::seconds{m.when};
    t.color_ = m.color;
    L::build(t.list_, m.list, r);
  }
  static void text(std::string& o, M const& m) {
    C<EqRec>::text(o, m.rec);
    o += std::to_string(m.when) + "/" + std::to_string(static_cast<int>(m.color));
    L::text(o, m.list);
  }
};
template <typename... Ts>
struct C<cista::tuple<Ts...>> {
  using T = cista::tuple<Ts...>;
  using M = std::tuple<typename C<Ts>::M...>;
  using I = std::index_sequence_for<Ts...>;
  static M gen(Rng& r, int d) { return M{C<Ts>::gen(r, d)...}; }
  static void build(T& t, M const& m, Rng& r) { go(t, m, r, I{}); }
  template <size_t... Is>
  static void go(T& t, M const& m, Rng& r, std::index_sequence<Is...>) {
    (C<Ts>::build(cista::get<Is>(t), std::get<Is>(m), r), ...);
  }
  static void text(std::string& o, M const& m) { std::apply([&](auto const&... x) { (C<Ts>::text(o, x), ...); }, m); }
};
template <typename... Ts>
struct C<cista::variant<Ts...>> {
  using T = cista::variant<Ts...>;
  using M = std::variant<typename C<Ts>::M...>;
  static M gen(Rng& r, int d) {
    M m;
    pick(m, r.below(sizeof...(Ts)), r, d, std::index_sequence_for<Ts...>{});
    return m;
  }
  template <size_t... Is>
  static void pick(M& m, size_t i, Rng& r, int d, std::index_sequence<Is...>) {
    ((i == Is ? static_cast<void>(m.template emplace<Is>(C<Ts>::gen(r, d + 1))) : void()), ...);
  }
  static void build(T& t, M const& m, Rng& r) { go(t, m, r, std::index_sequence_for<Ts...>{}); }
  template <size_t... Is>
  static void go(T& t, M const& m, Rng& r, std::index_sequence<Is...>) {
    ((m.index() == Is ? one<Ts, Is>(t, m, r) : void()), ...);
  }
  template <typename E, size_t I>
  static void one(T& t, M const& m, Rng& r) {
    if (t.index() == I && r.chance(500)) {
      C<E>::build(cista::get<E>(t), std::get<I>(m), r);
      return;
    }
    E e{};
    C<E>::build(e, std::get<I>(m), r);
    if (r.chance(500)) t = std::move(e);
    else t.template emplace<E>(std::move(e));
  }
  static void text(std::string& o, M const& m) {
    o += std::to_string(m.index()) + "|";
    go_text(o, m, std::index_sequence_for<Ts...>{});
  }
  template <size_t... Is>
  static void go_text(std::string& o, M const& m, std::index_sequence<Is...>) {
    ((m.index() == Is ? C<Ts>::text(o, std::get<Is>(m)) : void()), ...);
  }
};

enum EqOp { E_NEW, E_SAME, E_COPY, E_MOVE_OVER, E_RESTART, E_REWRITE, N_EQ_OPS };
static char const* eq_op_name(int c) {
  static char const* n[] = {"new content", "same content, other history", "copy", "copy and move back", "restart", "write again"};
  return c >= 0 && c < N_EQ_OPS ? n[c] : "?";
}

template <typename T, bool Restart = true>
struct EqRun {
  using M = typename C<T>::M;
  static constexpr size_t K = 4;
  struct Entry {
    Slot<T> s;
    M m{};
  };
  Entry e[K];
  bool tainted{false};
  std::map<std::string, cista::hash_t> hashes;

  static std::string text(M const& m) {
    std::string o;
    C<T>::text(o, m);
    return o;
  }
  void compare(size_t i, size_t j, char const* after) {
    auto const& a = *e[i].s;
    auto const& b = *e[j].s;
    bool const eq = e[i].m == e[j].m, lt = e[i].m < e[j].m, gt = e[j].m < e[i].m;
    bool g[6], alt = false;
    sut([&] {
      g[0] = a == b;
      g[1] = a != b;
      g[2] = a < b;
      g[3] = a > b;
      g[4] = a <= b;
      g[5] = a >= b;
      alt = cista::equal_to<T>{}(a, b);
    });
    CHK(g[0] == eq && g[1] == !eq, "eq-equal", "%s: value %d and %d with %s content: == gives %d, != gives %d", after, static_cast<int>(i), static_cast<int>(j), eq ? "the same" : "different", g[0], g[1]);
    CHK(g[2] == lt && g[3] == gt && g[4] == !gt && g[5] == !lt, "eq-order", "%s: order of value %d and %d", after, static_cast<int>(i), static_cast<int>(j));
    CHK(alt == eq, "eq-equal-to", "%s: value %d and %d with %s content: equal_to gives %d", after, static_cast<int>(i), static_cast<int>(j), eq ? "the same" : "different", alt);
  }
  void verify(size_t i, char const* after) {
    if (!e[i].s) return;
    for (size_t j = 0; j < K; ++j) {
      if (!e[j].s) continue;
      compare(i, j, after);
      compare(j, i, after);
    }
    cista::hash_t h = 0, again = 0, seeded = 0;
    sut([&] {
      auto const& v = *e[i].s;
      h = cista::hashing<T>{}(v);
      again = cista::hashing<T>{}(v, cista::BASE_HASH);
      seeded = cista::hashing<T>{}(v, 12345U);
    });
    auto const t = text(e[i].m);
    CHK(h == again, "eq-hash", "%s: hashing value %d twice gives different hashes", after, static_cast<int>(i));
    auto const [it, fresh] = hashes.emplace(t, h);
    CHK(it->second == h, "eq-hash", "%s: value %d has another hash than an equal value had", after, static_cast<int>(i));
    auto const [is, fs] = hashes.emplace("seeded " + t, seeded);
    CHK(is->second == seeded, "eq-hash", "%s: value %d has another seeded hash than an equal value had", after, static_cast<int>(i));
    if (!fresh) count("same content again");
    if constexpr (std::is_same_v<T, cd::string>) {
      auto const& m = e[i].m;
      cista::hash_t v1 = 0, v2 = 0, v3 = 0;
      bool q1 = false, q2 = false;
      sut([&] {
        auto const hv = cista::hashing<T>::template create<std::string_view>();
        v1 = hv(std::string_view{m});
        v2 = cista::hashing<cd::string_view>{}(cd::string_view{std::string_view{m}});
        v3 = cista::hashing<std::string>{}(m);
        q1 = cista::equal_to<T>{}(*e[i].s, std::string_view{m});
        q2 = cista::equal_to<T>{}(*e[i].s, m);
      });
      CHK(v1 == h && v2 == h && v3 == h, "eq-hash", "%s: a string and other texts of the same characters have different hashes", after);
      CHK(q1 && q2, "eq-equal-to", "%s: a string does not equal the same text", after);
    }
    if constexpr (std::is_same_v<T, EqRec>) {
      std::ostringstream o;
      o << *e[i].s;
      CHK(o.str() == C<EqRec>::printed(e[i].m), "eq-print", "%s: a value is printed as %s", after, o.str().c_str());
    }
    uint64_t sh = 0;
    for (size_t j = 0; j < K; ++j) sh = mix(sh, e[j].s ? (e[j].m == e[i].m ? 1U : e[j].m < e[i].m ? 2U : 3U) + (e[j].s.image != nullptr ? 8U : 0U) : 0U);
    note_state(mix(sh, t.size()));
  }
  static void start(Entry& x, Rng& r) {
    x.m = M{};
    sut([&] {
      x.s.construct([](void* w) { new (w) T{}; });
      C<T>::build(*x.s, x.m, r);
    });
  }
  void exec(Plan const& p) {
    std::vector<std::string*> views;
    g_views = &views;
    for (auto const& op : p.ops) {
      char const* nm = eq_op_name(op.code);
      auto const i = static_cast<size_t>(op.a) % K, j = static_cast<size_t>(op.b) % K;
      if (tracing()) trace("  %s i=%d j=%d c=%lld", nm, static_cast<int>(i), static_cast<int>(j), static_cast<ll>(op.c));
      log_event('O', static_cast<uint64_t>(op.code) * 16 + i);
      Rng r{static_cast<uint64_t>(op.c)};
      CallResult res;
      if (!e[i].s) {
        start(e[i], r);
      }
      switch (op.code) {
        case E_NEW: case E_SAME: case E_REWRITE: {
          M want;
          {
            if (op.code == E_NEW) {
              want = C<T>::gen(r, 0);
              // sometimes nearly the same as another value
            } else {
              want = op.code == E_SAME && e[j].s ? e[j].m : e[i].m;
            }
          }
          bool const in_place = r.chance(500);
          bool const taint = e[i].s.image != nullptr;
          uint64_t const bs = r.next();
          bool moved = false;
          res = call(op, [&] {
            Rng q{bs};
            if (in_place) {
              C<T>::build(*e[i].s, want, q);
            } else {
              T tmp{};
              C<T>::build(tmp, want, q);
              if (q.chance(500)) {
                moved = true;
                *e[i].s = std::move(tmp);
              }
              else *e[i].s = static_cast<T const&>(tmp);
            }
          });
          tainted |= taint && !moved;
          if (!res.ok()) {  // the content is unspecified now; write it again without faults
            CHK(res.faulted(), "eq-spurious", "%s failed without a fault: %s", nm, res.what.c_str());
            mark_nontrivial();
            e[i].s.destroy();
            sut([&] { e[i].s.construct([](void* w) { new (w) T{}; }); });
            Rng q{bs};
            sut([&] { C<T>::build(*e[i].s, want, q); });
          }
          e[i].m = want;
          break;
        }
        case E_COPY: case E_MOVE_OVER: {
          if (i == j) break;
          if (!e[j].s) start(e[j], r);
          tainted |= e[i].s.image != nullptr && op.code == E_COPY;
          res = call(op, [&] {
            if (op.code == E_COPY) {
              *e[i].s = static_cast<T const&>(*e[j].s);
            } else {
              T tmp{static_cast<T const&>(*e[j].s)};
              T other{std::move(tmp)};
              *e[i].s = std::move(other);
            }
          });
          if (!res.ok()) {
            CHK(res.faulted(), "eq-spurious", "%s failed without a fault: %s", nm, res.what.c_str());
            e[i].s.destroy();
            sut([&] { e[i].s.construct([&](void* w) { new (w) T(static_cast<T const&>(*e[j].s)); }); });
          }
          e[i].m = e[j].m;
          break;
        }
        case E_RESTART:
          if constexpr (Restart) {
            res = restart_any(e[i].s, static_cast<int>(op.b % 4), op.f);
            if (!res.ok()) CHK(res.faulted(), "eq-spurious", "%s failed without a fault: %s", nm, res.what.c_str());
          }
          break;
      }
      for (size_t k = 0; k < K; ++k) {
        if (k == i || k == j) verify(k, nm);
      }
    }
    for (auto& x : e) x.s.destroy();
    // content given to elements inside an image is never released: images own nothing
    if (!tainted) heap::expect_no_leak("equality history");
    for (auto* v : views) delete v;
    g_views = nullptr;
  }
};
constexpr int N_EQ_CFG = 12;
static void exec_eq(Plan const& p) {
  switch (p.c(0) % N_EQ_CFG) {
    case 0: EqRun<cd::string>{}.exec(p); break;
    case 1: EqRun<cd::vector<cd::string>>{}.exec(p); break;
    case 2: EqRun<cd::vector<cd::vector<uint8_t>>>{}.exec(p); break;
    case 3: case 4: EqRun<EqRec>{}.exec(p); break;
    case 5: EqRun<EqOuter>{}.exec(p); break;
    case 6: EqRun<cd::vector<EqRec>>{}.exec(p); break;
    case 7: EqRun<cista::pair<cd::string, uint32_t>>{}.exec(p); break;
    case 8: EqRun<cd::vector<cista::pair<uint16_t, cd::vector<cd::string>>>>{}.exec(p); break;
    case 9: EqRun<cista::variant<int32_t, cd::string, cd::vector<uint8_t>>>{}.exec(p); break;
    case 10: EqRun<cd::vector<cista::variant<EqKey, cd::string, EqRec>>>{}.exec(p); break;
    case 11: EqRun<cd::vector<uint64_t>>{}.exec(p); break;
  }
}
static Plan gen_eq(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(500);
  p.cfg = {static_cast<int64_t>(r.below(N_EQ_CFG)), faults};
  ll const n = r.range(4, r.chance(200) ? 80 : 25) * (tier ? 2 : 1);
  for (ll i = 0; i < n; ++i) {
    Op op;
    op.code = r.pick({E_NEW, E_NEW, E_SAME, E_SAME, E_SAME, E_COPY, E_MOVE_OVER, E_RESTART, E_REWRITE});
    op.a = static_cast<int64_t>(r.below(64));
    op.b = static_cast<int64_t>(r.below(64));
    op.c = static_cast<int64_t>(r.next() >> 20U);
    if (faults) random_alloc_fault(r, op, 250);
    p.ops.push_back(op);
  }
  return p;
}
}  // namespace props
static std::vector<sim::Harness> const g_h = {{"eq", props::eq_op_name, props::gen_eq, props::exec_eq}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
