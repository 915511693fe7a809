// Histories over cista::hash_storage - hash maps and hash sets (C09, C15).
#include "common.h"

namespace data = cista::offset;
namespace props {

// hash quality is part of the simulated environment: chosen per run
static int g_hash_mode = 0;
static uint64_t degrade(uint64_t h) {
  switch (g_hash_mode) {
    case 0: return h;                        // good
    case 1: return 0x1234567;                // everything collides
    case 2: return h & 0x7f;                 // one probe start, many tags
    case 3: return (h & ~0x7full) | 0x2a;    // many probe starts, one tag
    case 4: return (h & 0x3) << 7 | 0x11;    // four clusters
    case 5: return h << 57;                  // only high bits
    case 6: return ~0ull - (h & 0xff);       // wrap-around
    default: return (h % 3) * 0x9E3779B97F4A7C15ull;
  }
}
template <typename K>
struct BadHash {
  template <typename X>
  cista::hash_t operator()(X const& x) const {
    NoSut n;
    return degrade(cista::hashing<X>{}(x));
  }
  template <typename X>
  static auto create() { return BadHash<X>{}; }
};
template <>
struct BadHash<Obj> {
  cista::hash_t operator()(Obj const& x) const {
    NoSut n;
    return degrade(cista::hash_combine(cista::BASE_HASH, static_cast<uint64_t>(x.get())));
  }
  template <typename X>
  static auto create() { return BadHash<X>{}; }
};
struct ObjEq {
  bool operator()(Obj const& a, Obj const& b) const { return a == b; }
};

enum HashOp {
  H_EMPLACE, H_INSERT, H_BRACKET, H_AT_WRITE, H_ERASE_KEY, H_ERASE_IT, H_CLEAR, H_COPY_CONSTRUCT, H_MOVE_CONSTRUCT,
  H_COPY_ASSIGN, H_MOVE_ASSIGN, H_SELF_ASSIGN, H_SWAP, H_RESTART, H_LOOKUP, H_COMPARE, H_REHASH, H_INSERT_RANGE,
  H_ERASE_ALL_ODD, N_HASH_OPS
};
static char const* hash_op_name(int c) {
  static char const* n[] = {"emplace", "insert", "operator[]", "at()=", "erase(key)", "erase(it)", "clear", "copy-construct",
    "move-construct", "copy-assign", "move-assign", "self-assign", "swap", "restart", "lookup", "compare", "rehash",
    "insert(range)", "erase-while-iterating"};
  return c >= 0 && c < N_HASH_OPS ? n[c] : "?";
}

// IsMap: entries are pair<Key,Value>
template <typename Tab, typename KC, typename VC, bool IsMap, bool Imageable, bool StrKey = false>
struct HashRun {
  using K = typename KC::elem;
  using V = typename VC::elem;
  Slot<Tab> s[2];
  std::map<ll, ll> m[2];
  unsigned tick = 0;

  static ll key_of(typename Tab::entry_t const& e) {
    if constexpr (IsMap) return KC::rd(e.first);
    else return KC::rd(e);
  }
  static ll val_of(typename Tab::entry_t const& e) {
    if constexpr (IsMap) return VC::rd(e.second);
    else return 0;
  }
  template <typename F>
  static auto with_key(ll v, F&& f) {
    // build the key outside of the operation under test
    K* k;
    {
      NoSut n;
      k = static_cast<K*>(heap::image_alloc(sizeof(K), alignof(K)));
      Sut t;
      new (k) K(KC::mk(v));
    }
    auto r = f(*k);
    {
      Sut t;
      k->~K();
    }
    heap::image_free(k);
    return r;
  }
  bool has(Tab const& t, ll key, ll* val) {
    return with_key(key, [&](K const& k) {
      auto it = t.find(k);
      if (it == t.end()) return false;
      if (key_of(*it) != key) violation(O_MODEL, "hash-find", "find returned an entry with another key");
      *val = val_of(*it);
      return true;
    });
  }
  void verify(int k, char const* after, bool full) {
    auto const& t = *s[k].p;
    CHK(t.size() == m[k].size() && t.empty() == m[k].empty(), "hash-size", "%s: size %zu, reference has %zu", after, (size_t)t.size(), m[k].size());
    if (!full) return;
    std::map<ll, ll> seen;
    size_t steps = 0;
    for (auto const& e : t) {
      auto key = key_of(e);
      if (!seen.emplace(key, val_of(e)).second) violation(O_MODEL, "hash-iterate", std::string(after) + ": iteration visits key " + std::to_string(key) + " twice");
      if (++steps > m[k].size()) break;
    }
    if (seen != m[k]) {
      std::string d;
      for (auto& [a, b] : m[k]) if (!seen.count(a)) d += " missing " + std::to_string(a);
        else if (seen[a] != b) d += " key " + std::to_string(a) + " has " + std::to_string(seen[a]) + " not " + std::to_string(b);
      for (auto& [a, b] : seen) if (!m[k].count(a)) d += " extra " + std::to_string(a);
      violation(O_MODEL, "hash-content", std::string(after) + ":" + d.substr(0, 300));
    }
    size_t i = 0;
    for (auto& [a, b] : m[k]) {
      if (m[k].size() > 40 && (i++ + tick) % 8 != 0) continue;
      ll v = 0;
      if (!has(t, a, &v)) violation(O_MODEL, "hash-lookup", std::string(after) + ": key " + std::to_string(a) + " is in the table but find misses it");
      CHK(v == b, "hash-lookup", "%s: find(%lld) gives %lld, reference %lld", after, a, v, b);
    }
    ll v = 0;
    for (ll probe : {-3ll - (ll)tick, 100000ll + tick, (ll)(tick % 64)}) {
      probe = KC::norm(probe);
      bool h = has(t, probe, &v);
      if (h != (m[k].count(probe) != 0)) violation(O_MODEL, "hash-lookup", std::string(after) + ": find(" + std::to_string(probe) + ") wrong");
    }
    note_state(mix(mix(t.size(), t.capacity_), mix(t.growth_left_, static_cast<uint64_t>(g_hash_mode))));
  }
  void resync(int k) {
    m[k].clear();
    for (auto const& e : *s[k].p) m[k].emplace(key_of(e), val_of(e));
  }
  static typename Tab::entry_t* mk_entry(ll key, ll val) {
    NoSut n;
    auto q = heap::image_alloc(sizeof(typename Tab::entry_t), alignof(typename Tab::entry_t));
    Sut t;
    if constexpr (IsMap) return new (q) typename Tab::entry_t{KC::mk(key), VC::mk(val)};
    else return new (q) typename Tab::entry_t(KC::mk(key));
  }
  static void drop_entry(typename Tab::entry_t* e) {
    {
      Sut t;
      e->~entry_t();
    }
    heap::image_free(e);
  }
  using entry_t = typename Tab::entry_t;

  void exec(Plan const& p) {
    g_hash_mode = static_cast<int>(p.c(1));
    for (auto& x : s) sut([&] { x.construct([](void* w) { new (w) Tab(); }); });
    ll const keys = std::max<ll>(1, p.c(2));
    for (auto const& op : p.ops) {
      ++tick;
      char const* nm = hash_op_name(op.code);
      int const k = static_cast<int>(op.a & 1), o = 1 - k;
      if (tracing()) trace("  %s k=%d key=%lld val=%lld", nm, k, (ll)(op.b % keys), (ll)op.c);
      log_event('O', static_cast<uint64_t>(op.code));
      auto& t = s[k];
      ll const key = KC::norm(op.b % keys);
      ll const val = IsMap ? VC::norm(op.c) : 0;
      CallResult r;
      switch (op.code) {
        case H_EMPLACE: case H_INSERT: {
          auto e = mk_entry(key, val);
          bool fresh = false;
          ll got_k = 0, got_v = 0;
          r = call(op, [&] {
            auto res = op.code == H_INSERT ? t->insert(*e) : t->emplace(*e);
            fresh = res.second;
            NoSut n;
            got_k = key_of(*res.first);
            got_v = val_of(*res.first);
          });
          drop_entry(e);
          if (r.ok()) {
            auto [it, ins] = m[k].emplace(key, val);
            CHK(ins == fresh, "hash-insert", "%s(%lld) reports %s", nm, key, fresh ? "a new entry for a key that was there" : "an existing entry for a new key");
            CHK(got_k == key && got_v == it->second, "hash-insert", "%s returns an iterator to another entry", nm);
          }
          break;
        }
        case H_INSERT_RANGE: {
          Slot<data::vector<entry_t>> tmp;
          ll cnt = op.c % 6;
          sut([&] {
            tmp.construct([](void* w) { new (w) data::vector<entry_t>(); });
            for (ll i = 0; i < cnt; ++i) {
              if constexpr (IsMap) tmp->emplace_back(entry_t{KC::mk(KC::norm((op.b + i) % keys)), VC::mk(VC::norm(op.c + i))});
              else tmp->emplace_back(KC::mk(KC::norm((op.b + i) % keys)));
            }
          });
          r = call(op, [&] { t->insert(tmp->begin(), tmp->end()); });
          tmp.destroy();
          if (r.ok()) {
            for (ll i = 0; i < cnt; ++i) m[k].emplace(KC::norm((op.b + i) % keys), IsMap ? VC::norm(op.c + i) : 0);
          } else {
            auto old = m[k];
            resync(k);
            for (auto& [a, b] : old) CHK(m[k].count(a) && m[k][a] == b, "hash-failed-op", "%s failed and lost key %lld", nm, a);
          }
          break;
        }
        case H_BRACKET:
          if constexpr (IsMap) {
            auto e = mk_entry(key, val);
            int stage = 0;
            V* ref = nullptr;
            r = call(op, [&] {
              ref = &(*t)[std::as_const(e->first)];
              stage = 1;
              NoSut n;
              ll cur = VC::rd(*ref);
              auto it = m[k].find(key);
              if (cur != (it == m[k].end() ? VC::rd_default : it->second)) violation(O_MODEL, "hash-bracket", "operator[] gives value " + std::to_string(cur));
              Sut u;
              *ref = std::as_const(e->second);
              stage = 2;
            });
            drop_entry(e);
            if (stage >= 1) m[k].emplace(key, VC::rd_default);
            if (stage == 2) m[k][key] = val;
            else if (stage == 1) m[k][key] = VC::rd(*ref);
          }
          break;
        case H_AT_WRITE: {
          auto e = mk_entry(key, val);
          if constexpr (IsMap) {
            bool oor = false;
            r = call(op, [&] {
              try {
                auto& ref = t->at(std::as_const(e->first));
                ref = std::as_const(e->second);
              } catch (std::out_of_range const&) {
                oor = true;
              }
            });
            CHK(oor == (m[k].count(key) == 0) || r.faulted(), "hash-at", "at(%lld) %s", key, oor ? "throws for a present key" : "does not throw for an absent key");
            if (r.ok() && !oor) m[k][key] = val;
            else if (m[k].count(key)) {
              ll v = 0;
              if (!has(*t.p, key, &v)) violation(O_MODEL, "hash-failed-op", "failed write lost the key");
              m[k][key] = v;
            }
          }
          drop_entry(e);
          break;
        }
        case H_ERASE_KEY: {
          size_t n = 0;
          with_key(key, [&](K const& kk) {
            r = call(op, [&] { n = t->erase(kk); });
            return 0;
          });
          if (r.ok()) {
            CHK(n == m[k].count(key), "hash-erase", "erase(%lld) removed %zu", key, n);
            m[k].erase(key);
          }
          break;
        }
        case H_ERASE_IT: {
          with_key(key, [&](K const& kk) {
            r = call(op, [&] {
              auto it = t->find(kk);
              if (it != t->end()) t->erase(it);
            });
            return 0;
          });
          m[k].erase(key);
          break;
        }
        case H_ERASE_ALL_ODD: {
          // erase entries while walking forward
          r = call(op, [&] {
            for (auto it = t->begin(); it != t->end();) {
              auto cur = it++;
              NoSut n;
              if ((key_of(*cur) + op.c) & 1) {
                Sut u;
                t->erase(cur);
              }
            }
          });
          for (auto it = m[k].begin(); it != m[k].end();) {
            if ((it->first + op.c) & 1) it = m[k].erase(it);
            else ++it;
          }
          break;
        }
        case H_CLEAR:
          r = call(op, [&] { t->clear(); });
          m[k].clear();
          break;
        case H_COPY_CONSTRUCT: case H_MOVE_CONSTRUCT: {
          Slot<Tab> nt;
          r = call(op, [&] {
            nt.construct([&](void* w) {
              if (op.code == H_COPY_CONSTRUCT) new (w) Tab(std::as_const(*t.p));
              else new (w) Tab(std::move(*t.p));
            });
          });
          if (r.ok()) {
            s[o].destroy();
            s[o] = nt;
            m[o] = m[k];
            if (op.code == H_MOVE_CONSTRUCT) m[k].clear();
          }
          break;
        }
        case H_COPY_ASSIGN:
          r = call(op, [&] { *t = std::as_const(*s[o].p); });
          if (r.ok()) m[k] = m[o];
          else {
            auto old = m[k];
            resync(k);
            for (auto& [a, b] : m[k]) CHK((m[o].count(a) && m[o][a] == b) || (old.count(a) && old[a] == b), "hash-failed-op", "failed copy invents key %lld", a);
          }
          break;
        case H_MOVE_ASSIGN:
          // known finding: move assignment never releases what the target held
          sut([&] { t->clear(); });
          r = call(op, [&] { *t = std::move(*s[o].p); });
          m[k] = m[o];
          m[o].clear();
          break;
        case H_SELF_ASSIGN:
          r = call(op, [&] {
            auto& w = *t.p;
            if (op.c & 1) *t.p = w;
            else *t.p = std::move(w);
          });
          break;
        case H_SWAP:
          r = call(op, [&] { std::swap(*s[0].p, *s[1].p); });
          std::swap(m[0], m[1]);
          break;
        case H_REHASH:
          r = call(op, [&] { t->rehash(); });
          break;
        case H_RESTART:
          if constexpr (Imageable) r = restart_any(t, static_cast<int>(op.b & 0xff), op.f);
          break;
        case H_LOOKUP: {
          auto const& ct = *t.p;
          std::map<ll, ll> a, b, c;
          r = call(op, [&] {
            for (auto it = ct.begin(); it != ct.end(); it++) { NoSut ns; a.emplace(key_of(*it), val_of(*it)); }
            for (auto it = cbegin(ct); it != cend(ct);) {
              auto const was = it++;
              NoSut ns;
              b.emplace(key_of(*was.operator->()), val_of(*was));
              if (b.size() > m[k].size()) break;
            }
            for (auto it = begin(*t.p); it != end(*t.p);) {
              auto const was = it++;
              NoSut ns;
              c.emplace(key_of(*was.operator->()), val_of(*was));
              if (c.size() > m[k].size()) break;
            }
          });
          CHK(a == m[k] && b == m[k] && c == m[k], "hash-iterate", "post-increment iteration shows other entries");
          if constexpr (IsMap) {
            with_key(key, [&](K const& kk) {
              bool oor = false, same = true;
              try {
                auto const& ref = ct.at(kk);
                same = m[k].count(key) && VC::rd(ref) == m[k][key];
              } catch (std::out_of_range const&) {
                oor = true;
              }
              CHK(oor == (m[k].count(key) == 0) && (oor || same), "hash-at", "constant at(%lld) differs", key);
              return 0;
            });
          }
          if constexpr (StrKey) {
            auto txt = key == 0 ? std::string{} : text_of(key);
            std::string_view sv{txt};
            auto it = t->find(sv);
            bool found = it != t->end();
            CHK(found == (m[k].count(key) != 0), "hash-lookup", "find(string_view) differs from find(key) for %lld", key);
            if (found) CHK(key_of(*it) == key, "hash-lookup", "find(string_view) gives another entry");
          }
          if constexpr (IsMap) {
            with_key(key, [&](K const& kk) {
              Sut u;
              auto g = std::as_const(*t.p).get(kk);
              NoSut n;
              CHK(g.has_value() == (m[k].count(key) != 0) && (!g || VC::rd(*g) == m[k][key]), "hash-lookup", "get(%lld) differs", key);
              Sut u2;
              g.reset();
              return 0;
            });
          }
          break;
        }
        case H_COMPARE:
          CHK((*s[0].p == *s[1].p) == (m[0] == m[1]), "hash-compare", "equality differs from the reference");
          break;
      }
      CHK(r.ok() || r.faulted(), "hash-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
      if (!r.ok()) mark_nontrivial();
      bool full = m[0].size() + m[1].size() < 60 || !r.ok() || tick % 8 == 0 || op.code >= H_CLEAR;
      verify(0, nm, full);
      verify(1, nm, full);
    }
    verify(0, "end", true);
    verify(1, "end", true);
    for (auto& x : s) x.destroy();
    heap::expect_no_leak("hash history");
  }
};

static Plan gen_hash(Rng& r, int tier) {
  Plan p;
  int const type = static_cast<int>(r.below(7));
  bool const faults = r.chance(550);
  bool const restarts = r.chance(500);
  static int const ks[] = {4, 9, 16, 30, 60, 130, 400};
  p.cfg = {type, static_cast<ll>(r.chance(350) ? 0 : r.below(8)), ks[r.below(7)]};
  ll n = r.range(4, r.chance(200) ? 400 : 60) * (tier ? 2 : 1);
  std::vector<int> w(N_HASH_OPS);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 1, 2, 3}));
  bool const churn = r.chance(300);
  w[H_EMPLACE] += 8;
  w[H_BRACKET] += 4;
  w[H_ERASE_KEY] += churn ? 14 : 3;
  if (churn || r.chance(400)) w[H_CLEAR] = w[H_MOVE_ASSIGN] = w[H_COPY_ASSIGN] = w[H_COPY_CONSTRUCT] = w[H_MOVE_CONSTRUCT] = w[H_ERASE_ALL_ODD] = w[H_REHASH] = 0;
  if (!restarts) w[H_RESTART] = 0;
  int total = 0;
  for (auto x : w) total += x;
  ll counter = r.range(1, 1000);
  bool const one = r.chance(400);
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>(one ? 0 : r.below(2));
    op.b = static_cast<int64_t>(r.below(1000));
    op.c = counter++;
    if (faults) random_alloc_fault(r, op, 200, type == 4 || type == 5);
    p.ops.push_back(op);
  }
  return p;
}
template <typename C, ll Default>
struct WithDefault : C {
  static constexpr ll rd_default = Default;
};
using U32 = WithDefault<IntCodec<std::uint32_t>, 0>;
using U64 = WithDefault<IntCodec<std::uint64_t>, 0>;
using I64 = WithDefault<IntCodec<std::int64_t>, 0>;
using OStr = WithDefault<StrCodec<data::string>, 0>;
using RStr = WithDefault<StrCodec<cista::raw::string>, 0>;
using ObjC = WithDefault<ObjCodec, 0>;
template <typename V>
struct VecCodec {  // values that are vectors: k copies of k
  using elem = V;
  static constexpr ll rd_default = 0;
  static elem mk(ll v) {
    V x;
    for (ll i = 0; i < v % 7; ++i) x.push_back(static_cast<typename V::value_type>(v));
    return x;
  }
  static ll norm(ll v) { return v % 7 == 0 ? 0 : v; }
  static ll rd(elem const& e) {
    if (e.empty()) return 0;
    ll v = static_cast<ll>(e[0]);
    if (static_cast<ll>(e.size()) != v % 7) return -1000 - v;
    for (auto x : e) if (static_cast<ll>(x) != v) return -2000 - v;
    return v;
  }
};
static void exec_hash(Plan const& p) {
  using std::uint32_t;
  using std::uint64_t;
  switch (p.c(0) % 7) {
    case 0: HashRun<data::hash_map<data::string, uint32_t, BadHash<data::string>>, OStr, U32, true, true, true>{}.exec(p); break;
    case 1: HashRun<data::hash_set<uint64_t, BadHash<uint64_t>>, U64, U64, false, true>{}.exec(p); break;
    case 2: HashRun<cista::raw::hash_map<uint32_t, cista::raw::string, BadHash<uint32_t>>, U32, RStr, true, true>{}.exec(p); break;
    case 3: HashRun<data::hash_map<uint32_t, data::vector<std::int64_t>, BadHash<uint32_t>>, U32, VecCodec<data::vector<std::int64_t>>, true, true>{}.exec(p); break;
    case 4: HashRun<cista::raw::hash_map<Obj, Obj, BadHash<Obj>, ObjEq>, ObjC, ObjC, true, false>{}.exec(p); break;
    case 5: HashRun<data::hash_set<Obj, BadHash<Obj>, ObjEq>, ObjC, ObjC, false, false>{}.exec(p); break;
    case 6: HashRun<cista::raw::hash_set<cista::raw::string, BadHash<cista::raw::string>>, RStr, U32, false, true, true>{}.exec(p); break;
  }
}
}  // namespace props
#ifndef PROPS_COMBINED
static std::vector<sim::Harness> const g_h = {{"hash", props::hash_op_name, props::gen_hash, props::exec_hash}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
#endif
