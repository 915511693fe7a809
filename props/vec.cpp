// Histories over cista::basic_vector (C08, C15).
#include "common.h"
#include <iterator>
#include <sstream>

namespace data = cista::offset;
namespace props {

enum VecOp {
  PUSH, EMPLACE, PUSH_MOVE, POP, INSERT, INSERT_N, INSERT_RANGE, INSERT_INPUT, ERASE, ERASE_RANGE, RESIZE, RESIZE_INIT,
  RESERVE, CLEAR, COPY_CONSTRUCT, MOVE_CONSTRUCT, COPY_ASSIGN, MOVE_ASSIGN, SELF_ASSIGN, SET_RANGE, SWAP, WRITE, SORT,
  RESTART, CTOR_N, CTOR_INIT, CTOR_RANGE, COMPARE, TRAVERSE, TO_VEC, N_VEC_OPS
};
static char const* vec_op_name(int c) {
  static char const* n[] = {"push_back", "emplace_back", "push_back(move)", "pop_back", "insert", "insert(n)",
    "insert(range)", "insert(input range)", "erase", "erase(range)", "resize", "resize(init)", "reserve", "clear",
    "copy-construct", "move-construct", "copy-assign", "move-assign", "self-assign", "set(range)", "swap", "write",
    "sort", "restart", "ctor(n)", "ctor(n,init)", "ctor(range)", "compare", "traverse", "to_vec"};
  return c >= 0 && c < N_VEC_OPS ? n[c] : "?";
}

template <typename It>
struct InputIt {  // single-pass view of a forward range
  using iterator_category = std::input_iterator_tag;
  using value_type = typename std::iterator_traits<It>::value_type;
  using difference_type = std::ptrdiff_t;
  using pointer = value_type const*;
  using reference = value_type const&;
  It it;
  reference operator*() const { return *it; }
  InputIt& operator++() { ++it; return *this; }
  InputIt operator++(int) { auto c = *this; ++it; return c; }
  friend bool operator==(InputIt const& a, InputIt const& b) { return a.it == b.it; }
  friend bool operator!=(InputIt const& a, InputIt const& b) { return a.it != b.it; }
};

template <typename Vec, typename Codec, bool Imageable>
struct VecRun {
  using E = typename Codec::elem;
  using size_type = typename Vec::size_type;
  static constexpr ll kLimit = std::numeric_limits<size_type>::max();
  Slot<Vec> s[2];
  std::vector<ll> m[2];
  bool resident_writes_ok = true;
  bool tainted = false;

  void verify(int k, char const* after) {
    auto const& v = *s[k].p;
    auto const n = static_cast<std::size_t>(v.size());
    if (n != m[k].size() || v.empty() != m[k].empty()) {
      violation(O_MODEL, "vec-size", std::string(after) + ": size " + std::to_string(n) + ", reference has " + std::to_string(m[k].size()));
    }
    CHK(static_cast<std::size_t>(v.end() - v.begin()) == n, "vec-range", "%s: end-begin differs from size", after);
    std::size_t i = 0;
    for (auto const& e : v) {
      auto x = Codec::rd(e);
      if (x != m[k][i]) {
        std::vector<ll> got;
        for (auto const& g : v) got.push_back(Codec::rd(g));
        violation(O_MODEL, "vec-content", std::string(after) + ": " + show(got) + " but reference has " + show(m[k]));
      }
      ++i;
    }
    if (n != 0) {
      CHK(Codec::rd(v.front()) == m[k].front() && Codec::rd(v.back()) == m[k].back(), "vec-front-back", "%s: front/back differ", after);
      auto j = m[k].size() / 2;
      CHK(Codec::rd(v[typename Vec::access_type(static_cast<size_type>(j))]) == m[k][j], "vec-index", "%s: operator[] differs", after);
    }
    bool threw = false;
    try {
      v.at(typename Vec::access_type(static_cast<size_type>(std::min<ll>(kLimit, static_cast<ll>(n)))));
    } catch (std::out_of_range const&) {
      threw = true;
    }
    CHK(threw, "vec-at", "%s: at(size()) did not throw", after);
    note_state(mix(mix(n, s[k].in_image(v.data())), mix(static_cast<uint64_t>(k), sizeof(E))));
  }
  void resync(int k) {  // after a failed multi-element operation: any valid content
    m[k].clear();
    for (auto const& e : *s[k].p) m[k].push_back(Codec::rd(e));
  }
  // a failed operation may append or drop, but must keep a prefix of the old content
  void resync_prefix(int k, std::size_t keep, char const* what) {
    auto old = m[k];
    resync(k);
    keep = std::min(keep, old.size());
    for (std::size_t i = 0; i < keep; ++i) {
      CHK(i < m[k].size() && m[k][i] == old[i], "vec-failed-op", "%s failed and changed element %zu that it need not touch", what, i);
    }
  }
  bool resident(int k) const { return s[k].p != nullptr && s[k].in_image(s[k].p->data()); }
  void touch(int k) {
    if (Codec::owning && resident(k)) tainted = true;
  }

  void exec(Plan const& p) {
    for (int k = 0; k < 2; ++k) {
      sut([&] { s[k].construct([](void* w) { new (w) Vec(); }); });
    }
    ll const cap = std::min<ll>(kLimit, p.c(2) == 1 ? 2000 : 260);
    for (auto const& op : p.ops) {
      if (tracing()) trace("  %s k=%lld a=%lld b=%lld", vec_op_name(op.code), (ll)(op.a & 1), (ll)op.b, (ll)op.c);
      log_event('O', static_cast<uint64_t>(op.code));
      int const k = static_cast<int>(op.a & 1), o = 1 - k;
      auto& v = s[k];
      auto const n = static_cast<ll>(m[k].size());
      ll const x = Codec::norm(op.b);
      auto const pos = n == 0 ? 0 : op.c % (n + 1);
      char const* nm = vec_op_name(op.code);
      bool const room = n < cap;
      CallResult r;
      switch (op.code) {
        case PUSH: case EMPLACE: case PUSH_MOVE: {
          if (!room && n < kLimit) break;
          touch(k);
          E* e = nullptr;
          {
            Sut t;
            auto q = heap::image_alloc(sizeof(E), alignof(E));
            e = new (q) E(Codec::mk(x));
          }
          E* placed = nullptr;
          r = call(op, [&] {
            if (op.code == PUSH) v->push_back(*e);
            else if (op.code == EMPLACE) placed = &v->emplace_back(*e);
            else v->push_back(std::move(*e));
          });
          CHK(op.code != EMPLACE || !r.ok() || placed == &v->back(), "vec-emplace-ref", "emplace_back does not return the new element");
          {
            Sut t;
            e->~E();
          }
          heap::image_free(e);
          if (r.ok()) {
            CHK(n < kLimit, "vec-limit", "push_back beyond the size type's range reported success");
            m[k].push_back(x);
          } else {
            CHK(r.faulted() || n == kLimit || n >= kLimit / 2, "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
          }
          break;
        }
        case POP:
          if (n == 0) break;
          r = call(op, [&] { v->pop_back(); });
          m[k].pop_back();
          break;
        case INSERT: {
          if (!room) break;
          touch(k);
          size_t ret = 0;
          r = call(op, [&] { ret = static_cast<size_t>(v->insert(v->begin() + pos, Codec::mk(x)) - v->begin()); });
          if (r.ok()) {
            m[k].insert(m[k].begin() + pos, x);
            CHK(ret == static_cast<size_t>(pos), "vec-insert-pos", "insert at %lld returned position %zu", pos, ret);
          } else {
            CHK(r.faulted(), "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
            resync_prefix(k, static_cast<size_t>(pos), nm);
          }
          break;
        }
        case INSERT_N: {
          ll cnt = op.c % 5;
          if (n + cnt > cap) break;
          if constexpr (!std::is_same_v<E, size_type>) {
          touch(k);
          E* e = nullptr;
          {
            Sut t;
            e = new (heap::image_alloc(sizeof(E), alignof(E))) E(Codec::mk(x));
          }
          size_t ret = 0;
          r = call(op, [&] { ret = static_cast<size_t>(v->insert(v->begin() + pos, static_cast<size_type>(cnt), static_cast<E const&>(*e)) - v->begin()); });
          CHK(!r.ok() || ret == static_cast<size_t>(pos), "vec-insert-pos", "insert(n) at %lld returned position %zu", pos, ret);
          {
            Sut t;
            e->~E();
          }
          heap::image_free(e);
          if (r.ok()) m[k].insert(m[k].begin() + pos, static_cast<size_t>(cnt), x);
          else {
            CHK(r.faulted(), "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
            resync_prefix(k, static_cast<size_t>(pos), nm);
          }
          }
          break;
        }
        case INSERT_RANGE: case INSERT_INPUT: case SET_RANGE: case CTOR_RANGE: {
          ll cnt = op.c % 9;
          if (n + cnt > cap) break;
          touch(k);
          std::vector<ll> src;
          for (ll i = 0; i < cnt; ++i) src.push_back(Codec::norm(op.b + i));
          // source range: a library vector of the same element type
          Slot<Vec> tmp;
          sut([&] {
            tmp.construct([](void* w) { new (w) Vec(); });
            for (auto y : src) tmp->push_back(Codec::mk(y));
          });
          Slot<Vec> nv;
          size_t ret = static_cast<size_t>(pos);
          r = call(op, [&] {
            E const* b = std::as_const(*tmp.p).begin();
            E const* e = std::as_const(*tmp.p).end();
            if (op.code == INSERT_RANGE) ret = static_cast<size_t>(v->insert(v->begin() + pos, b, e) - v->begin());
            else if (op.code == INSERT_INPUT) ret = static_cast<size_t>(v->insert(v->begin() + pos, InputIt<E const*>{b}, InputIt<E const*>{e}) - v->begin());
            else if (op.code == SET_RANGE) v->set(b, e);
            else nv.construct([&](void* w) { new (w) Vec(b, e); });
          });
          tmp.destroy();
          if (r.ok()) {
            CHK(ret == static_cast<size_t>(pos), "vec-insert-pos", "%s at %lld returned position %zu", nm, pos, ret);
            if (op.code == SET_RANGE) m[k] = src;
            else if (op.code == CTOR_RANGE) {
              v.destroy();
              v = nv;
              m[k] = src;
            } else m[k].insert(m[k].begin() + pos, src.begin(), src.end());
          } else {
            CHK(r.faulted(), "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
            if (op.code == SET_RANGE) resync(k);
            else if (op.code != CTOR_RANGE) resync_prefix(k, static_cast<size_t>(pos), nm);
          }
          break;
        }
        case ERASE: {
          if (n == 0) break;
          touch(k);
          ll ret = 0;
          r = call(op, [&] { ret = v->erase(v->begin() + (op.c % n)) - v->begin(); });
          CHK(ret == op.c % n, "vec-erase-pos", "erase at %lld returned position %lld", (ll)(op.c % n), ret);
          m[k].erase(m[k].begin() + (op.c % n));
          break;
        }
        case ERASE_RANGE: {
          ll a = pos, b = a + (n - a == 0 ? 0 : op.b % (n - a + 1));
          if (b < a) b = a;
          touch(k);
          ll ret = 0;
          r = call(op, [&] { ret = v->erase(v->begin() + a, v->begin() + b) - v->begin(); });
          CHK(ret == a, "vec-erase-pos", "erase of [%lld, %lld) returned position %lld", a, b, ret);
          m[k].erase(m[k].begin() + a, m[k].begin() + b);
          break;
        }
        case RESIZE: case RESIZE_INIT: {
          ll t = op.c % (std::min<ll>(cap, n + 20) + 1);
          touch(k);
          ll const init = op.code == RESIZE ? 0 : x;
          r = call(op, [&] {
            if (op.code == RESIZE) v->resize(static_cast<size_type>(t));
            else v->resize(static_cast<size_type>(t), Codec::mk(x));
          });
          if (r.ok()) m[k].resize(static_cast<size_t>(t), init);
          else {
            CHK(r.faulted(), "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
            resync_prefix(k, static_cast<size_t>(std::min(n, t)), nm);
          }
          break;
        }
        case RESERVE: {
          ll t = op.c % (cap + 1);
          r = call(op, [&] { v->reserve(static_cast<size_type>(t)); });
          if (r.ok()) {
            // reserved room: appends up to t need no allocation
            if (t > n && !Codec::owning) {
              auto r2 = call(std::vector<Fault>{{F_ALLOC_ALL, 0, 0}}, [&] {
                while (static_cast<ll>(v->size()) < t) v->push_back(Codec::mk(x));
              });
              if (!r2.ok()) violation(O_MODEL, "vec-reserve", "append within reserved capacity allocated memory");
              m[k].resize(static_cast<size_t>(t), x);
            }
          }
          break;
        }
        case CLEAR:
          touch(k);
          r = call(op, [&] { v->clear(); });
          m[k].clear();
          break;
        case COPY_CONSTRUCT: {
          Slot<Vec> nv;
          r = call(op, [&] { nv.construct([&](void* w) { new (w) Vec(std::as_const(*v.p)); }); });
          if (r.ok()) {
            s[o].destroy();
            s[o] = nv;
            m[o] = m[k];
          } else CHK(r.faulted(), "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
          break;
        }
        case MOVE_CONSTRUCT: {
          Slot<Vec> nv;
          r = call(op, [&] { nv.construct([&](void* w) { new (w) Vec(std::move(*v.p)); }); });
          if (r.ok()) {
            s[o].destroy();
            s[o] = nv;
            m[o] = m[k];
            m[k].clear();
          }
          break;
        }
        case COPY_ASSIGN:
          touch(k);
          r = call(op, [&] { *v = std::as_const(*s[o].p); });
          if (r.ok()) m[k] = m[o];
          else {
            CHK(r.faulted(), "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
            resync(k);
          }
          break;
        case MOVE_ASSIGN:
          r = call(op, [&] { *v = std::move(*s[o].p); });
          m[k] = m[o];
          m[o].clear();
          break;
        case SELF_ASSIGN:
          r = call(op, [&] { auto& w = *v.p; *v.p = w; });
          CHK(r.ok() || r.faulted(), "vec-spurious", "self-assignment failed");
          break;
        case SWAP:
          r = call(op, [&] { std::swap(*s[0].p, *s[1].p); });
          std::swap(m[0], m[1]);
          break;
        case WRITE:
          if (n == 0) break;
          touch(k);
          {
            ll const w = op.b % 6 == 1 ? n - 1 : op.b % 6 == 2 ? 0 : op.c % n;
            typename Vec::access_type const at(static_cast<size_type>(w));
            r = call(op, [&] {
              switch (op.b % 6) {
                case 1: v->back() = Codec::mk(x); break;
                case 2: v->front() = Codec::mk(x); break;
                case 3: v->at(at) = Codec::mk(x); break;
                case 4: v->data()[w] = Codec::mk(x); break;
                case 5: *(v->rend() - 1 - w) = Codec::mk(x); break;
                default: (*v)[at] = Codec::mk(x);
              }
            });
            if (r.ok()) m[k][static_cast<size_t>(w)] = x;
          }
          if (!r.ok()) CHK(r.faulted(), "vec-spurious", "write failed");
          break;
        case SORT:
          r = call(op, [&] { std::sort(v->begin(), v->end(), [](E const& a, E const& b) { NoSut ns; return Codec::rd(a) < Codec::rd(b); }); });
          std::sort(m[k].begin(), m[k].end());
          break;
        case RESTART:
          if constexpr (Imageable) {
            if (tainted) break;
            r = restart_any(v, static_cast<int>(op.b & 0xff), op.f);
            CHK(r.ok() || r.faulted(), "vec-spurious", "serialize failed: %s", r.what.c_str());
          }
          break;
        case CTOR_N: case CTOR_INIT: {
          ll t = op.c % 20;
          Slot<Vec> nv;
          r = call(op, [&] {
            nv.construct([&](void* w) {
              if (op.code == CTOR_N) new (w) Vec(static_cast<size_type>(t));
              else new (w) Vec(static_cast<size_type>(t), Codec::mk(x));
            });
          });
          if (r.ok()) {
            v.destroy();
            v = nv;
            m[k].assign(static_cast<size_t>(t), op.code == CTOR_N ? 0 : x);
          } else CHK(r.faulted(), "vec-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
          break;
        }
        case COMPARE: {
          auto const& a = *s[0].p;
          auto const& b = *s[1].p;
          CHK((a == b) == (m[0] == m[1]) && (a != b) == (m[0] != m[1]), "vec-compare", "equality differs from the reference");
          if constexpr (!std::is_same_v<E, data::string> && !std::is_same_v<E, cista::raw::string>) {
            CHK((a < b) == (m[0] < m[1]) && (a >= b) == (m[0] >= m[1]) && (a > b) == (m[0] > m[1]) && (a <= b) == (m[0] <= m[1]), "vec-compare", "ordering differs from the reference");
          }
          break;
        }
        case TRAVERSE: {
          auto const& cv = *v.p;
          std::vector<ll> back, fwd, crev;
          r = call(op, [&] {
            for (auto it = v->rbegin(); it != v->rend(); ++it) { NoSut ns; back.push_back(Codec::rd(*it)); }
            for (auto it = cv.cbegin(); it != cv.cend(); ++it) { NoSut ns; fwd.push_back(Codec::rd(*it)); }
            for (auto it = cv.rbegin(); it != cv.rend(); ++it) { NoSut ns; crev.push_back(Codec::rd(*it)); }
          });
          std::reverse(back.begin(), back.end());
          std::reverse(crev.begin(), crev.end());
          CHK(back == m[k] && fwd == m[k] && crev == m[k], "vec-iter", "a reverse or constant iteration shows other elements");
          if constexpr (std::is_integral_v<E>) {
            NoSut ns;
            std::ostringstream got, want;
            got << cv;
            want << "[\n  ";
            for (ll i = 0; i < n; ++i) want << (i != 0 ? ",\n  " : "") << static_cast<E>(m[k][static_cast<size_t>(i)]);
            want << "\n]";
            CHK(got.str() == want.str(), "vec-print", "printed %s", got.str().c_str());
          }
          for (ll i = 0; i < n; ++i) {
            auto const* el = cv.begin() + i;
            CHK(cv.contains(el) && cv.index_of(el) == static_cast<size_t>(i), "vec-contains", "contains/index_of of the vector's own element %lld", i);
          }
          CHK(!cv.contains(cv.end()), "vec-contains", "contains() is true for the end of the vector");
          if (auto const& ov = *s[o].p; ov.size() != 0) {
            CHK(!cv.contains(ov.begin()) && !cv.contains(&ov.back()), "vec-contains", "contains() is true for an element of another vector");
          }
          break;
        }
        case TO_VEC:
          if constexpr (!Codec::owning) {
            auto const& cv = *v.p;
            auto const f = [](E const& e) { NoSut ns; return static_cast<ll>(Codec::rd(e)) * 3 + 1; };
            auto const inc = [&](auto&& w, bool mapped, char const* what) {
              NoSut ns;
              bool same = w.size() == m[k].size();
              for (size_t i = 0; same && i < m[k].size(); ++i) {
                if constexpr (std::is_same_v<std::decay_t<decltype(*w.begin())>, ll>) same = w.begin()[i] == m[k][i] * 3 + 1;
                else same = Codec::rd(w.begin()[i]) == m[k][i];
              }
              (void)mapped;
              CHK(same, "vec-to-vec", "%s differs from its source", what);
            };
            r = call(op, [&] {
              inc(cista::raw::to_vec(cv.begin(), cv.end(), f), true, "raw::to_vec(range, fn)");
              inc(cista::raw::to_vec(cv, f), true, "raw::to_vec(container, fn)");
              inc(cista::raw::to_vec(cv), false, "raw::to_vec(container)");
              inc(cista::raw::to_indexed_vec(cv.begin(), cv.end(), f), true, "raw::to_indexed_vec(range, fn)");
              inc(cista::raw::to_indexed_vec(cv, f), true, "raw::to_indexed_vec(container, fn)");
              inc(cista::raw::to_indexed_vec(cv), false, "raw::to_indexed_vec(container)");
              inc(data::to_vec(cv.begin(), cv.end(), f), true, "offset::to_vec(range, fn)");
              inc(data::to_vec(cv, f), true, "offset::to_vec(container, fn)");
              inc(data::to_vec(cv), false, "offset::to_vec(container)");
              inc(data::to_indexed_vec(cv.begin(), cv.end(), f), true, "offset::to_indexed_vec(range, fn)");
              inc(data::to_indexed_vec(cv, f), true, "offset::to_indexed_vec(container, fn)");
              inc(data::to_indexed_vec(cv), false, "offset::to_indexed_vec(container)");
            });
            CHK(r.ok() || r.faulted(), "vec-spurious", "to_vec failed without a fault: %s", r.what.c_str());
          }
          break;
      }
      verify(0, nm);
      verify(1, nm);
    }
    for (int k = 0; k < 2; ++k) s[k].destroy();
    if (!tainted) heap::expect_no_leak("vector history");
  }
};

static Plan gen_vec(Rng& r, int tier) {
  Plan p;
  int const type = static_cast<int>(r.below(9));
  bool const faults = r.chance(600);
  bool const restarts = r.chance(500);
  bool const big = type == 8 ? false : r.chance(60);
  p.cfg = {type, faults, big};
  ll n = r.range(4, r.chance(150) ? 160 : 40) * (tier ? 2 : 1);
  ll counter = r.range(1, 50);
  // per-run operation mix
  std::vector<int> weights(N_VEC_OPS);
  for (auto& w : weights) w = static_cast<int>(r.pick({0, 1, 1, 2, 4}));
  weights[PUSH] += 3;
  weights[EMPLACE] += 1;
  if (!restarts) weights[RESTART] = 0;
  if (type == 4 && r.chance(500)) weights[POP] = weights[CLEAR] = weights[RESIZE] = weights[MOVE_ASSIGN] = 0, n = 600;
  int total = 0;
  for (auto w : weights) total += w;
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= weights[static_cast<size_t>(op.code)]) t -= weights[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>(r.below(type == 4 ? 1 : 2));
    op.b = counter++;
    if (r.chance(100)) op.b = static_cast<int64_t>(r.below(5));
    op.c = static_cast<int64_t>(r.below(big ? 3000 : 300));
    if (faults) random_alloc_fault(r, op, 250, type == 1 || type == 5);
    p.ops.push_back(op);
  }
  return p;
}
struct Key8Tag {};
using key8 = cista::strong<std::uint8_t, Key8Tag>;
static void exec_vec(Plan const& p) {
  switch (p.c(0) % 9) {
    case 0: VecRun<data::vector<std::uint32_t>, IntCodec<std::uint32_t>, true>{}.exec(p); break;
    case 1: VecRun<cista::raw::vector<Obj>, ObjCodec, false>{}.exec(p); break;
    case 2: VecRun<data::vector<data::string>, StrCodec<data::string>, true>{}.exec(p); break;
    case 3: VecRun<cista::raw::vector<cista::raw::string>, StrCodec<cista::raw::string>, true>{}.exec(p); break;
    case 4: VecRun<cista::raw::vector_map<key8, std::uint16_t>, IntCodec<std::uint16_t>, true>{}.exec(p); break;
    case 5: VecRun<data::vector<Obj>, ObjCodec, false>{}.exec(p); break;
    case 6: VecRun<cista::raw::vector<std::uint64_t>, IntCodec<std::uint64_t>, true>{}.exec(p); break;
    case 7: VecRun<data::indexed_vector<std::uint8_t>, IntCodec<std::uint8_t>, true>{}.exec(p); break;
    case 8: VecRun<data::vector<std::int16_t>, IntCodec<std::int16_t>, true>{}.exec(p); break;
  }
}
}  // namespace props
#ifndef PROPS_COMBINED
static std::vector<sim::Harness> const g_h = {{"vec", props::vec_op_name, props::gen_vec, props::exec_vec}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
#endif
