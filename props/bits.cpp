// Histories over dynamic and fixed bit sets (C13, C15).
#include <sstream>
#include "common.h"
#include "cista/containers/bitset.h"
#include "cista/containers/bitvec.h"

namespace props {
struct BitTag {};
using BitKey = cista::strong<uint32_t, BitTag>;

enum BitOp {
  B_RESIZE, B_SET, B_SET_ATOMIC, B_SET_STR, B_RESET, B_ZERO, B_ONE, B_MAX, B_AND, B_OR, B_XOR, B_NOT, B_AND2, B_OR2, B_XOR2,
  B_SHR, B_SHL, B_SHR2, B_SHL2, B_CTOR_SIZE, B_CTOR_STR, B_COPY, B_MOVE, B_COPY_ASSIGN, B_MOVE_ASSIGN, B_SWAP, B_RESTART,
  B_COMPARE, B_NEXT, B_RUN, N_BIT_OPS
};
static char const* bit_op_name(int c) {
  static char const* n[] = {"resize", "set", "set<atomic>", "set(string)", "reset", "zero_out", "one_out", "max", "&=", "|=", "^=", "~",
    "&", "|", "^", ">>=", "<<=", ">>", "<<", "ctor(size)", "ctor(string)", "copy-construct", "move-construct", "copy-assign",
    "move-assign", "swap", "restart", "compare", "next_set_bit", "set range"};
  return c >= 0 && c < N_BIT_OPS ? n[c] : "?";
}
template <typename T> struct is_fixed : std::false_type {};
template <std::size_t N> struct is_fixed<cista::bitset<N>> : std::true_type {};
template <typename T> struct fixed_size { static constexpr std::size_t v = 0; };
template <std::size_t N> struct fixed_size<cista::bitset<N>> { static constexpr std::size_t v = N; };
template <typename T> struct key_of { using type = std::size_t; };
template <typename V, typename K> struct key_of<cista::basic_bitvec<V, K>> { using type = K; };

template <typename BV>
struct BitRun {
  static constexpr bool FIX = is_fixed<BV>::value;
  static constexpr int N = 3;
  using Key = typename key_of<BV>::type;
  static constexpr bool STRONG = !std::is_integral_v<Key>;
  using M = std::vector<bool>;  // index 0: least significant
  Slot<BV> s[N];
  M m[N];
  static Key key(std::size_t i) { return Key(static_cast<cista::base_t<Key>>(i)); }
  static std::size_t sel_size(ll x) {
    static int const l[] = {0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 200, 255, 256, 257, 300};
    return static_cast<std::size_t>(l[static_cast<std::size_t>(x) % 25]);
  }
  static std::string str(M const& v) {
    std::string r;
    for (auto i = v.size(); i-- > 0;) r += v[i] ? '1' : '0';
    return r;
  }
  static std::string text(BV const& v) {
    if constexpr (FIX) return v.to_string();
    else if constexpr (STRONG) {
      std::string r;
      for (std::size_t i = v.size(); i-- > 0;) r += v.test(key(i)) ? '1' : '0';
      return r;
    } else return v.str();
  }
  static M random(std::size_t n, ll seed) {
    M v(n);
    Rng r{static_cast<uint64_t>(seed)};
    auto d = r.pick({0u, 20u, 500u, 980u, 1000u});
    for (std::size_t i = 0; i < n; ++i) v[i] = r.chance(d);
    return v;
  }
  static int cmp(M const& a, M const& b) {
    for (auto i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] ? 1 : -1;
    return 0;
  }
  static M shifted(M const& v, std::size_t k, bool right) {
    M o(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) {
      if (right) { if (i + k < v.size() && k < v.size()) o[i] = v[i + k]; }
      else if (i >= k) o[i] = v[i - k];
    }
    return o;
  }
  void verify(int k, char const* after) {
    BV const& x = *s[k].p;
    M const& w = m[k];
    std::string got;
    { Sut q; auto t = text(x); NoSut n; got.assign(t.data(), t.size()); }
    auto const want = str(w);
    if (x.size() != w.size()) violation(O_MODEL, "bit-size", std::string(after) + ": size " + std::to_string(x.size()) + ", reference " + std::to_string(w.size()));
    if (got != want) violation(O_MODEL, "bit-content", std::string(after) + ": bits " + got + ", reference " + want);
    std::size_t cnt = 0;
    for (auto b : w) cnt += b;
    CHK(x.count() == cnt, "bit-count", "%s: count %zu, reference %zu", after, (std::size_t)x.count(), cnt);
    CHK(x.any() == (cnt != 0) && x.none() == (cnt == 0), "bit-any", "%s: any/none differ with %zu bits set", after, cnt);
    if constexpr (!FIX) CHK(x.empty() == w.empty(), "bit-empty", "%s: empty differs", after);
    for (std::size_t i = 0; i < w.size() + 70; i += i + 2 < w.size() ? 1 : 3) {
      bool const want_bit = i < w.size() && w[i];
      bool a, b;
      if constexpr (STRONG) { a = x.test(key(i)); b = x[key(i)]; } else { a = x.test(static_cast<Key>(i)); b = x[static_cast<Key>(i)]; }
      CHK(a == want_bit && b == want_bit, "bit-test", "%s: bit %zu of %zu reads %d/%d", after, i, w.size(), a, b);
    }
    std::size_t next = 0;
    x.for_each_set_bit([&](auto i) {
      auto const p = static_cast<std::size_t>(cista::to_idx(i));
      while (next < w.size() && !w[next]) ++next;
      CHK(p == next && p < w.size(), "bit-visit", "%s: visits bit %zu, expected %zu of %zu", after, p, next, w.size());
      ++next;
    });
    while (next < w.size() && !w[next]) ++next;
    CHK(next == w.size(), "bit-visit", "%s: bit %zu was not visited", after, next);
    note_state(mix(w.size(), cnt));
  }
  void next_bits(int k, std::size_t from_step) {
    if constexpr (!FIX) {
      BV const& x = *s[k].p;
      M const& w = m[k];
      for (std::size_t i = 0; i < w.size() + 70; i += from_step) {
        auto r = x.next_set_bit(static_cast<typename BV::size_type>(i));
        auto e = i;
        while (e < w.size() && !w[e]) ++e;
        if (i >= w.size() || e == w.size()) CHK(!r.has_value(), "bit-next", "next_set_bit(%zu) of %zu bits is %zu, expected none", i, w.size(), static_cast<std::size_t>(cista::to_idx(*r)));
        else CHK(r.has_value() && static_cast<std::size_t>(cista::to_idx(*r)) == e, "bit-next", "next_set_bit(%zu) is %lld, expected %zu", i, r.has_value() ? static_cast<ll>(cista::to_idx(*r)) : -1ll, e);
      }
      if constexpr (!STRONG) {
        std::atomic_size_t n{0};
        for (std::size_t i = 0;; ++i) {
          while (i < w.size() && !w[i]) ++i;
          auto r = x.get_next(n);
          if (i >= w.size()) { CHK(!r.has_value(), "bit-get-next", "get_next yields %zu after the last bit", static_cast<std::size_t>(*r)); break; }
          CHK(r.has_value() && static_cast<std::size_t>(*r) == i, "bit-get-next", "get_next differs at bit %zu", i);
        }
      }
    }
  }
  template <typename F>
  CallResult replace(Op const& op, int k, F&& f, M const& then) {
    Slot<BV> ns;
    auto r = call(op, [&] { ns.construct([&](void* w) { f(w); }); }, true);
    if (r.ok()) {
      s[k].destroy();
      s[k] = ns;
      m[k] = then;
    } else if (r.out == Out::stopped) {
      CHK(r.faulted(), "bit-spurious", "stopped without a fault");
      throw EndRun{};  // noexcept copy without memory
    }
    return r;
  }
  void exec(Plan const& p) {
    for (int i = 0; i < N; ++i) {
      sut([&] { s[i].construct([](void* w) { new (w) BV(); }); });
      m[i].assign(fixed_size<BV>::v, false);
      verify(i, "construction");
    }
    for (auto const& op : p.ops) {
      char const* nm = bit_op_name(op.code);
      int const k = static_cast<int>(op.a % N), o = static_cast<int>((op.a + 1 + op.a / N % (N - 1)) % N);
      if (tracing()) trace("  %s k=%d(%zu) o=%d b=%lld c=%lld", nm, k, m[k].size(), o, (ll)op.b, (ll)op.c);
      log_event('O', static_cast<uint64_t>(op.code));
      auto& t = s[k];
      CallResult r;
      auto const n = m[k].size();
      switch (op.code) {
        case B_RESIZE:
          if constexpr (!FIX) {
            auto const z = op.c & 1 ? sel_size(op.b) : static_cast<std::size_t>(op.b % 300);
            r = call(op, [&] { t->resize(static_cast<typename BV::size_type>(z)); });
            if (r.ok()) m[k].resize(z);
          }
          break;
        case B_SET: case B_SET_ATOMIC: {
          if (n == 0) break;
          auto const i = op.c % 3 == 0 ? n - 1 : static_cast<std::size_t>(op.b) % n;
          bool const v = op.c % 5 < 3;
          r = call(op, [&] {
            if constexpr (FIX) t->set(i, v);
            else if (op.code == B_SET) { if (op.b >> 20 & 1) t->template set<false>(key(i), v); else t->set(key(i), v); }
            else if constexpr (sizeof(typename BV::block_t) == 8) t->template set<true>(key(i), v);
            else t->set(key(i), v);
          });
          m[k][i] = v;
          break;
        }
        case B_RUN: {
          if (n == 0) break;
          auto const i = static_cast<std::size_t>(op.b) % n;
          bool const v = op.c % 3 != 0;
          r = call(op, [&] { for (auto j = i; j < n && j < i + 70; ++j) { if constexpr (FIX) t->set(j, v); else t->set(key(j), v); } });
          for (auto j = i; j < n && j < i + 70; ++j) m[k][j] = v;
          break;
        }
        case B_SET_STR: case B_CTOR_STR: if constexpr (!STRONG) {
          auto const z = FIX ? (op.c % 4 == 0 ? n + 9 : op.c % 4 == 1 ? n / 2 : n) : sel_size(op.c);
          auto const v = random(z, op.b);
          auto const txt = str(v);
          auto w = v;
          if constexpr (FIX) {
            w = op.code == B_CTOR_STR ? M(n) : m[k];
            for (std::size_t i = 0; i < n && i < z; ++i) w[i] = v[i];
          }
          if (op.code == B_SET_STR) {
            r = call(op, [&] { t->set(std::string_view{txt}); });
            if (r.ok()) m[k] = w;
          } else r = replace(op, k, [&](void* x) { new (x) BV(std::string_view{txt}); }, w);
        }
          break;
        case B_CTOR_SIZE:
          if constexpr (!FIX) r = replace(op, k, [&](void* x) { new (x) BV(static_cast<typename BV::size_type>(sel_size(op.b))); }, M(sel_size(op.b)));
          break;
        case B_RESET: r = call(op, [&] { t->reset(); }); m[k].assign(n, false); break;
        case B_ZERO: if constexpr (!FIX) { r = call(op, [&] { t->zero_out(); }); m[k].assign(n, false); } break;
        case B_ONE: if constexpr (!FIX) { r = call(op, [&] { t->one_out(); }); m[k].assign(n, true); } break;
        case B_MAX:
          if constexpr (FIX) r = replace(op, k, [&](void* x) { new (x) BV(BV::max()); }, M(n, true));
          else r = replace(op, k, [&](void* x) { new (x) BV(BV::max(sel_size(op.b))); }, M(sel_size(op.b), true));
          break;
        case B_AND: case B_OR: case B_XOR: case B_AND2: case B_OR2: case B_XOR2: {
          if (n != m[o].size()) {
            if constexpr (!FIX) {  // bitwise operations want equal sizes
              r = call(std::vector<Fault>{}, [&] { s[o]->resize(static_cast<typename BV::size_type>(n)); });
              m[o].resize(n);
            }
          }
          auto w = m[k];
          auto const kind = op.code >= B_AND2 ? op.code - B_AND2 : op.code - B_AND;
          for (std::size_t i = 0; i < n; ++i) w[i] = kind == 0 ? w[i] && m[o][i] : kind == 1 ? w[i] || m[o][i] : w[i] != m[o][i];
          if (op.code >= B_AND2) {
            r = replace(op, k, [&](void* x) {
              auto const &a = *t.p, &b = *s[o].p;
              if (kind == 0) new (x) BV(a & b); else if (kind == 1) new (x) BV(a | b); else new (x) BV(a ^ b);
            }, w);
          } else {
            r = call(op, [&] { if (kind == 0) *t &= *s[o]; else if (kind == 1) *t |= *s[o]; else *t ^= *s[o]; });
            m[k] = w;
          }
          break;
        }
        case B_NOT: {
          auto w = m[k];
          w.flip();
          r = replace(op, k, [&](void* x) { new (x) BV(~*t); }, w);
          break;
        }
        case B_SHR: case B_SHL: case B_SHR2: case B_SHL2: {
          auto const by = op.c % 3 == 0 ? sel_size(op.b) : n == 0 ? static_cast<std::size_t>(op.b % 3) : static_cast<std::size_t>(op.b) % (n + 3);
          bool const right = op.code == B_SHR || op.code == B_SHR2;
          auto w = shifted(m[k], by, right);
          if (op.code == B_SHR || op.code == B_SHL) {
            r = call(op, [&] { if (right) *t >>= by; else *t <<= by; });
            m[k] = w;
          } else r = replace(op, k, [&](void* x) { if (right) new (x) BV(*t >> by); else new (x) BV(*t << by); }, w);
          break;
        }
        case B_COPY: r = replace(op, o, [&](void* x) { new (x) BV(std::as_const(*t.p)); }, m[k]); break;
        case B_MOVE:
          r = replace(op, o, [&](void* x) { new (x) BV(std::move(*t.p)); }, m[k]);
          if (!FIX && r.ok()) refresh(k);
          break;
        case B_COPY_ASSIGN: {
          auto old = m[o];
          r = call(op, [&] { *s[o] = std::as_const(*t.p); }, true);
          if (r.ok()) m[o] = m[k]; else refresh(o);
          break;
        }
        case B_MOVE_ASSIGN:
          r = call(op, [&] { *s[o] = std::move(*t.p); });
          m[o] = m[k];
          if (!FIX) refresh(k);
          break;
        case B_SWAP: r = call(op, [&] { std::swap(*t.p, *s[o].p); }); std::swap(m[k], m[o]); break;
        case B_RESTART:
          if constexpr (FIX) r = restart_any(t, static_cast<int>(op.b & 0xff), op.f);
          else r = restart_any(t, static_cast<int>(op.b & 0xff), op.f);
          break;
        case B_COMPARE: {
          if (n != m[o].size()) {
            CHK(!(*t == *s[o]) && *t != *s[o], "bit-compare", "bit sets of %zu and %zu bits compare equal", n, m[o].size());
            break;
          }
          auto const& a = *t.p;
          auto const& b = *s[o].p;
          auto const c = cmp(m[k], m[o]);
          CHK((a == b) == (c == 0) && (a != b) == (c != 0), "bit-compare", "equality of %s and %s", str(m[k]).c_str(), str(m[o]).c_str());
          CHK((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0), "bit-compare", "order of %s and %s (%d): %d %d %d %d",
              str(m[k]).c_str(), str(m[o]).c_str(), c, a < b, a > b, a <= b, a >= b);
          break;
        }
        case B_NEXT: next_bits(k, 1 + static_cast<std::size_t>(op.b % 5)); break;
      }
      CHK(r.ok() || r.faulted(), "bit-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
      if (!r.ok()) mark_nontrivial();
      for (int i = 0; i < N; ++i) verify(i, nm);
    }
    for (int i = 0; i < N; ++i) next_bits(i, 1);
    mark_nontrivial();
    for (auto& x : s) x.destroy();
    heap::expect_no_leak("bit history");
  }
  // moved-from: only assigned or destroyed
  void refresh(int k) {
    if constexpr (!FIX) {
      auto r = call(std::vector<Fault>{}, [&] { *s[k] = BV(static_cast<typename BV::size_type>(17)); });
      CHK(r.ok(), "bit-spurious", "a moved-from bit set cannot be assigned to: %s", r.what.c_str());
      m[k].assign(17, false);
    }
  }
};

static Plan gen_bits(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(400);
  p.cfg = {static_cast<ll>(r.below(14)), faults};
  ll n = r.range(3, r.chance(150) ? 150 : 30) * (tier ? 2 : 1);
  std::vector<int> w(N_BIT_OPS);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 1, 2, 4}));
  w[B_RESIZE] += 3;
  w[B_RUN] += 2;
  if (r.chance(500)) w[B_RESTART] = 0;
  int total = 0;
  for (auto x : w) total += x;
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>(r.below(6));
    op.b = static_cast<int64_t>(r.below(100000));
    op.c = static_cast<int64_t>(r.below(100));
    if (faults) random_alloc_fault(r, op, 150);
    p.ops.push_back(op);
  }
  return p;
}
static void exec_bits(Plan const& p) {
  namespace off = cista::offset;
  namespace raw = cista::raw;
  switch (p.c(0) % 14) {
    case 0: BitRun<off::bitvec>{}.exec(p); break;
    case 1: BitRun<raw::bitvec>{}.exec(p); break;
    case 2: BitRun<cista::basic_bitvec<off::vector<uint32_t>>>{}.exec(p); break;
    case 3: BitRun<cista::basic_bitvec<off::vector<uint64_t>, BitKey>>{}.exec(p); break;
    case 4: BitRun<cista::bitset<1>>{}.exec(p); break;
    case 5: BitRun<cista::bitset<63>>{}.exec(p); break;
    case 6: BitRun<cista::bitset<64>>{}.exec(p); break;
    case 7: BitRun<cista::bitset<65>>{}.exec(p); break;
    case 8: BitRun<cista::bitset<77>>{}.exec(p); break;
    case 9: BitRun<cista::bitset<128>>{}.exec(p); break;
    case 10: BitRun<cista::bitset<129>>{}.exec(p); break;
    case 11: BitRun<cista::bitset<200>>{}.exec(p); break;
    case 12: BitRun<cista::bitset<256>>{}.exec(p); break;
    case 13: BitRun<off::bitvec>{}.exec(p); break;
  }
}
}  // namespace props
#ifndef PROPS_COMBINED
static std::vector<sim::Harness> const g_h = {{"bits", props::bit_op_name, props::gen_bits, props::exec_bits}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
#endif
