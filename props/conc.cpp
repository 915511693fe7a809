// Concurrent use of the atomic helpers and of bit sets (C16, C17).
#include "../sim/fiber.h"
#include "common.h"
#include "cista/atomic.h"
#include "cista/containers/bitvec.h"

namespace props {
enum AtOp { A_CALL, A_SWITCH, A_SPURIOUS, N_AT };
static char const* at_name(int c) {
  static char const* n[] = {"call", "switch thread", "spurious compare-exchange failure"};
  return c >= 0 && c < N_AT ? n[c] : "?";
}
static fib::Schedule schedule_of(Plan const& p) {
  fib::Schedule s;
  for (auto const& op : p.ops) {
    if (op.code == A_SWITCH) s.switches.push_back({static_cast<uint64_t>(op.a), static_cast<unsigned>(op.b)});
    if (op.code == A_SPURIOUS) s.spurious.push_back(static_cast<uint64_t>(op.a));
  }
  return s;
}
static void gen_schedule(Rng& r, Plan& p, ll horizon, bool cas) {
  ll const n = r.chance(400) ? r.range(0, 4) : r.chance(500) ? r.range(4, 14) : r.range(14, 60);
  for (ll i = 0; i < n; ++i) p.ops.push_back(Op{A_SWITCH, static_cast<ll>(r.below(static_cast<uint64_t>(horizon))), static_cast<ll>(r.below(4)), 0, {}});
  if (cas && r.chance(600)) {
    ll const k = r.range(1, 6);
    for (ll i = 0; i < k; ++i) p.ops.push_back(Op{A_SPURIOUS, static_cast<ll>(r.below(12)), 0, 0, {}});
  }
}

// ------------------------------------------------------------ atomic helpers
struct Hist {
  int thread, loc, fn;
  ll arg, ret;
  uint64_t inv, res;
};
static char const* fn_name(int f) {
  static char const* n[] = {"fetch_or", "fetch_and", "fetch_min", "fetch_max"};
  return n[f];
}
static ll apply_fn(int fn, ll v, ll arg) {
  switch (fn) {
    case 0: return static_cast<ll>(static_cast<uint64_t>(v) | static_cast<uint64_t>(arg));
    case 1: return static_cast<ll>(static_cast<uint64_t>(v) & static_cast<uint64_t>(arg));
    case 2: return std::min(v, arg);
    default: return std::max(v, arg);
  }
}
// some order of the calls that respects real time explains all returned
// values and the final value (every call returns the value it replaced)
struct Lin {
  std::vector<Hist> h;
  ll fin;
  std::set<std::pair<unsigned, ll>> dead;
  bool search(unsigned done, ll v) {
    if (done == (1u << h.size()) - 1) return v == fin;
    if (!dead.insert({done, v}).second) return false;
    uint64_t first = ~0ull;
    for (std::size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first = std::min(first, h[i].res);
    for (std::size_t i = 0; i < h.size(); ++i) {
      if (done >> i & 1 || h[i].inv > first || h[i].ret != v) continue;
      if (search(done | 1u << i, apply_fn(h[i].fn, v, h[i].arg))) return true;
    }
    return false;
  }
};
template <typename T>
static void atomics(Plan const& p) {
  constexpr bool kSmall = sizeof(T) == 2;
  unsigned const nt = 2 + static_cast<unsigned>(p.c(1) % 3);
  auto w = static_cast<T*>(heap::image_alloc(4 * sizeof(T), alignof(T)));
  T init[4];
  Rng ir{p.seed};
  for (int i = 0; i < 4; ++i) w[i] = init[i] = static_cast<T>(ir.chance(500) ? ir.next() : kSmall ? static_cast<uint64_t>(ir.range(-4, 4)) : ir.below(8));
  fib::share(w, 4 * sizeof(T), false);
  std::vector<std::vector<Op>> prog(nt);
  std::size_t n_calls = 0;
  for (auto const& op : p.ops) if (op.code == A_CALL && n_calls < 16) prog[static_cast<std::size_t>(op.a) % nt].push_back(op), ++n_calls;
  std::vector<Hist> h(n_calls);
  std::size_t used = 0;
  fib::run(nt, [&](unsigned t) {
    for (auto const& op : prog[t]) {
      Hist x{};
      x.thread = static_cast<int>(t);
      x.loc = op.c % 8 < 5 ? 1 : op.c % 8 < 7 ? 2 : 0;
      x.fn = static_cast<int>(op.c / 8 % 2) + (kSmall ? 2 : 0);
      T arg = static_cast<T>(op.b);
      if (!kSmall) {
        uint64_t m = op.b % 4 == 0 ? mix(1, static_cast<uint64_t>(op.b)) : 1ull << (op.b / 4 % 64);
        arg = static_cast<T>(x.fn == 1 ? ~m : m);
      }
      x.arg = static_cast<ll>(arg);
      x.inv = fib::now();
      T ret;
      {
        Sut s;
        if constexpr (kSmall) ret = x.fn == 2 ? cista::fetch_min(w[x.loc], arg) : cista::fetch_max(w[x.loc], arg);
        else ret = x.fn == 0 ? cista::fetch_or(w[x.loc], arg) : cista::fetch_and(w[x.loc], arg);
      }
      x.ret = static_cast<ll>(ret);
      x.res = fib::now();
      if (tracing()) trace("  thread %u %s(word %d, %lld) = %lld  [%llu..%llu]", t, fn_name(x.fn), x.loc, x.arg, x.ret, (unsigned long long)x.inv, (unsigned long long)x.res);
      log_event('r', static_cast<uint64_t>(x.ret));
      h[used++] = x;
    }
  }, schedule_of(p));
  for (int i = 0; i < 4; ++i) {
    Lin l;
    for (std::size_t k = 0; k < used; ++k) if (h[k].loc == i) l.h.push_back(h[k]);
    l.fin = static_cast<ll>(w[i]);
    if (l.search(0, static_cast<ll>(init[i]))) continue;
    std::string d = "word " + std::to_string(i) + " started as " + std::to_string(static_cast<ll>(init[i])) + ", is " + std::to_string(l.fin) + "; no order of the calls explains:";
    for (auto const& x : l.h) d += " t" + std::to_string(x.thread) + " " + fn_name(x.fn) + "(" + std::to_string(x.arg) + ")=" + std::to_string(x.ret) + " [" + std::to_string(x.inv) + ".." + std::to_string(x.res) + "]";
    violation(O_MODEL, "not-linearizable", d);
  }
  uint64_t s = nt;
  for (std::size_t k = 0; k < used; ++k) s = mix(s, static_cast<uint64_t>(h[k].thread) * 64 + static_cast<uint64_t>(h[k].fn));
  note_state(s);
  fib::unshare_all();
  heap::image_free(w);
}
static Plan gen_atom(Rng& r, int tier) {
  Plan p;
  p.cfg = {static_cast<ll>(r.below(2)), static_cast<ll>(r.below(3))};
  ll const calls = r.range(2, tier ? 16 : 12);
  for (ll i = 0; i < calls; ++i) {
    Op op;
    op.code = A_CALL;
    op.a = static_cast<ll>(r.below(12));
    op.b = p.cfg[0] ? (r.chance(500) ? r.range(-6, 6) : r.range(-32768, 32767)) : static_cast<ll>(r.below(100000));
    op.c = static_cast<ll>(r.below(16));
    p.ops.push_back(op);
  }
  gen_schedule(r, p, calls * 3, true);
  return p;
}
static void exec_atom(Plan const& p) {
  if (p.c(0) % 2) atomics<int16_t>(p);
  else atomics<uint64_t>(p);
}

// ------------------------------------------------------------ bit sets
struct CTag {};
using CKey = cista::strong<uint32_t, CTag>;
template <typename BV, typename Key>
static void mark(Plan const& p) {
  unsigned const nt = 2 + static_cast<unsigned>(p.c(1) % 3);
  auto const n = static_cast<std::size_t>(1 + p.c(2) % 200);
  auto key = [](std::size_t i) { return Key(static_cast<cista::base_t<Key>>(i)); };
  Slot<BV> v;
  std::vector<char> want(n);
  Rng r{p.seed};
  sut([&] { v.construct([&](void* w) { new (w) BV(); }); v->resize(static_cast<typename BV::size_type>(n)); });
  for (std::size_t i = 0; i < n; ++i) if (r.chance(200)) { sut([&] { v->set(key(i), true); }); want[i] = 1; }
  // some bits belong to one thread, which also clears them
  auto owner = [&](std::size_t i) { return i % 3 == 0 ? static_cast<int>(i / 3 % nt) : -1; };
  std::vector<std::vector<std::pair<std::size_t, bool>>> prog(nt);
  for (auto const& op : p.ops) {
    if (op.code != A_CALL) continue;
    auto const t = static_cast<unsigned>(op.a) % nt;
    auto const i = static_cast<std::size_t>(op.b) % n;
    bool val = op.c % 3 != 0;
    if (owner(i) >= 0) { if (owner(i) != static_cast<int>(t)) continue; }
    else val = true;
    prog[t].push_back({i, val});
    want[i] = val;
  }
  fib::share(v.p, sizeof(BV), false);
  fib::share(v->blocks_.data(), v->blocks_.size() * sizeof(typename BV::block_t), false);
  fib::run(nt, [&](unsigned t) {
    for (auto const& [i, val] : prog[t]) {
      if (tracing()) trace("  thread %u set(%zu, %d)", t, i, val);
      Sut s;
      v->template set<true>(key(i), val);
    }
  }, schedule_of(p));
  fib::unshare_all();
  CHK(v->size() == n, "mark-size", "size changed to %zu", (std::size_t)v->size());
  for (std::size_t i = 0; i < n; ++i) CHK(v->test(key(i)) == (want[i] != 0), "mark-bit", "bit %zu of %zu is %d after all threads finished, expected %d", i, n, v->test(key(i)), want[i]);
  note_state(mix(n, nt));
  v.destroy();
  heap::expect_no_leak("marking");
}
template <typename BV>
static void hand_out(Plan const& p) {
  unsigned const nt = 2 + static_cast<unsigned>(p.c(1) % 3);
  auto const n = static_cast<std::size_t>(1 + p.c(2) % 200);
  Slot<BV> v;
  std::vector<int> got(n), bit(n);
  Rng r{p.seed};
  sut([&] { v.construct([&](void* w) { new (w) BV(); }); v->resize(static_cast<typename BV::size_type>(n)); });
  auto const density = r.pick({0u, 30u, 30u, 200u, 900u});
  std::size_t left = 24;
  for (std::size_t i = 0; i < n && left > 0; ++i) {
    if (r.chance(density) || (i + 1 == n && r.chance(500))) sut([&] { v->set(i, true); }), bit[i] = 1, --left;
  }
  auto next = static_cast<std::atomic_size_t*>(heap::image_alloc(sizeof(std::atomic_size_t), alignof(std::atomic_size_t)));
  new (next) std::atomic_size_t{0};
  fib::share(v.p, sizeof(BV), true);
  fib::share(v->blocks_.data(), v->blocks_.size() * sizeof(typename BV::block_t), true);
  fib::share(next, sizeof(*next), false);
  fib::run(nt, [&](unsigned t) {
    for (std::size_t last = 0, k = 0;; ++k) {
      std::optional<std::size_t> x;
      { Sut s; auto y = std::as_const(*v.p).get_next(*next); if (y.has_value()) x = static_cast<std::size_t>(cista::to_idx(*y)); }
      if (tracing()) trace("  thread %u get_next = %lld", t, x ? (ll)*x : -1ll);
      if (!x) break;
      CHK(*x < n && bit[*x] != 0, "hand-out-wrong", "get_next hands out %zu, which is not a set bit of %zu", *x, n);
      CHK(++got[*x] == 1, "hand-out-twice", "bit %zu is handed out twice", *x);
      CHK(k == 0 || *x > last, "hand-out-order", "one thread is handed bit %zu after bit %zu", *x, last);
      last = *x;
    }
  }, schedule_of(p));
  fib::unshare_all();
  for (std::size_t i = 0; i < n; ++i) CHK(got[i] == bit[i], "hand-out-lost", "set bit %zu of %zu was never handed out", i, n);
  note_state(mix(n, nt + 100));
  heap::image_free(next);
  v.destroy();
  heap::expect_no_leak("handing out");
}
static Plan gen_mark(Rng& r, int tier) {
  Plan p;
  ll const kind = static_cast<ll>(r.below(5));
  p.cfg = {kind, static_cast<ll>(r.below(3)), r.chance(600) ? r.pick({0, 3, 62, 63, 64, 65, 127, 128}) : static_cast<ll>(r.below(200))};
  ll const calls = kind < 3 ? r.range(2, tier ? 40 : 24) : 0;
  for (ll i = 0; i < calls; ++i) p.ops.push_back(Op{A_CALL, static_cast<ll>(r.below(12)), r.chance(500) ? static_cast<ll>(r.below(8)) : static_cast<ll>(r.below(200)), static_cast<ll>(r.below(9)), {}});
  gen_schedule(r, p, kind < 3 ? calls * 5 : r.pick({30, 100, 300}), kind >= 3);
  return p;
}
static void exec_mark(Plan const& p) {
  namespace off = cista::offset;
  namespace raw = cista::raw;
  switch (p.c(0) % 5) {
    case 0: mark<off::bitvec, std::size_t>(p); break;
    case 1: mark<raw::bitvec, std::size_t>(p); break;
    case 2: mark<cista::basic_bitvec<off::vector<uint64_t>, CKey>, CKey>(p); break;
    case 3: hand_out<off::bitvec>(p); break;
    case 4: hand_out<raw::bitvec>(p); break;
  }
}
}  // namespace props
static std::vector<sim::Harness> const g_h = {{"atom", props::at_name, props::gen_atom, props::exec_atom},
                                              {"mark", props::at_name, props::gen_mark, props::exec_mark}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
