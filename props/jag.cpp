// Histories over the containers of variable-length rows (C11, C15).
#include "common.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/containers/vecvec.h"

namespace data = cista::offset;
namespace props {
using Row = std::vector<ll>;
using Rows = std::vector<Row>;

enum JagOp {
  J_ADD_ROW, J_ADD_EMPTY, J_ADD_SIZED, J_TOUCH, J_PUSH, J_EMPLACE, J_INSERT, J_ERASE_AT, J_ERASE_RANGE, J_ROW_RESIZE, J_ROW_RESERVE,
  J_ROW_CLEAR, J_POP, J_ERASE_ROW, J_INSERT_ROW, J_RESIZE_ROWS, J_CLEAR, J_RESERVE, J_WRITE, J_HUGE,
  J_COPY_CONSTRUCT, J_MOVE_CONSTRUCT, J_COPY_ASSIGN, J_MOVE_ASSIGN, J_SELF_ASSIGN, J_SWAP, J_RESTART, N_JAG_OPS
};
static char const* jag_op_name(int c) {
  static char const* n[] = {"add row", "add empty row", "add sized row", "create row by index", "row push_back", "row emplace_back",
    "row insert", "row erase", "row erase(range)", "row resize", "row reserve", "row clear", "row pop_back", "erase row",
    "insert row", "resize rows", "clear", "reserve", "write", "oversized request", "copy-construct", "move-construct", "copy-assign",
    "move-assign", "self-assign", "swap", "restart"};
  return c >= 0 && c < N_JAG_OPS ? n[c] : "?";
}
static std::string show_rows(Rows const& r) {
  std::string s;
  for (size_t i = 0; i < r.size() && i < 12; ++i) s += (i ? " " : "") + show(r[i]);
  if (r.size() > 12) s += " ... rows=" + std::to_string(r.size());
  return s;
}

// Derived provides: bool mutate(op, k, CallResult&, Rows& next, bool& expect_throw), void inspect(C const&, Rows const&, what)
template <typename D, typename C, bool Imageable = true>
struct JagRun {
  Slot<C> s[2];
  Rows m[2];
  bool tainted = false;
  Plan const* plan = nullptr;
  D& self() { return static_cast<D&>(*this); }

  static void row_mismatch(char const* what, char const* how, size_t i, Row const& got, Rows const& want) {
    violation(O_MODEL, "jag-content", std::string(what) + ": row " + std::to_string(i) + " read by " + how + " is " + show(got) +
              ", reference rows " + show_rows(want));
  }
  void fresh(int k) {
    s[k].destroy();
    sut([&] { s[k].construct([](void* w) { new (w) C(); }); });
    m[k].clear();
    self().on_fresh(k);
  }
  void touch(int) {}  // owned content written into image-resident storage is never released by it
  void on_fresh(int) {}
  void on_copy(int, int) {}
  void on_swap() {}
  void verify(int k, char const* what) {
    self().inspect(*s[k].p, m[k], what, k);
    uint64_t h = mix(m[k].size(), static_cast<uint64_t>(plan->c(0)));
    size_t tot = 0;
    for (auto& r : m[k]) tot += r.size();
    note_state(mix(h, tot / 4));
  }
  void exec(Plan const& p) {
    plan = &p;
    for (int k = 0; k < 2; ++k) fresh(k);
    for (auto const& op : p.ops) {
      char const* nm = jag_op_name(op.code);
      int const k = static_cast<int>(op.a & 1), o = 1 - k;
      if (tracing()) trace("  %s k=%d a=%lld b=%lld c=%lld", nm, k, (ll)(op.a >> 1), (ll)op.b, (ll)op.c);
      log_event('O', static_cast<uint64_t>(op.code));
      CallResult r;
      auto& t = s[k];
      self().touch(0);
      self().touch(1);
      switch (op.code) {
        case J_COPY_CONSTRUCT: case J_MOVE_CONSTRUCT: {
          Slot<C> nt;
          r = call(op, [&] {
            nt.construct([&](void* w) {
              if (op.code == J_COPY_CONSTRUCT) new (w) C(std::as_const(*t.p));
              else new (w) C(std::move(*t.p));
            });
          });
          if (r.ok()) {
            s[o].destroy();
            s[o] = nt;
            m[o] = m[k];
            self().on_copy(k, o);
            if (op.code == J_MOVE_CONSTRUCT) fresh(k);
          }
          break;
        }
        case J_COPY_ASSIGN:
          r = call(op, [&] { *t = std::as_const(*s[o].p); });
          if (r.ok()) {
            m[k] = m[o];
            self().on_copy(o, k);
          } else fresh(k);  // a half-assigned composite may only be destroyed or assigned
          break;
        case J_MOVE_ASSIGN:
          r = call(op, [&] { *t = std::move(*s[o].p); });
          m[k] = m[o];
          self().on_copy(o, k);
          fresh(o);
          break;
        case J_SELF_ASSIGN:
          r = call(op, [&] { auto& w = *t.p; *t.p = w; });
          break;
        case J_SWAP:
          r = call(op, [&] { std::swap(*s[0].p, *s[1].p); });
          std::swap(m[0], m[1]);
          self().on_swap();
          break;
        case J_RESTART:
          if constexpr (Imageable) {
            if (!tainted) r = restart_any(t, static_cast<int>(op.b & 0xff), op.f);
          }
          break;
        default: {
          Rows next = m[k];
          bool must_throw = false;
          if (!self().mutate(op, k, r, next, must_throw)) continue;
          if (must_throw) {
            CHK(!r.ok(), "jag-limit", "%s beyond the container's limit reported success", nm);
          } else {
            CHK(r.ok() || r.faulted(), "jag-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
            if (r.ok()) m[k] = std::move(next);
          }
          if (!r.ok()) mark_nontrivial();
          verify(k, r.ok() ? nm : (std::string("failed ") + nm).c_str());
          verify(o, nm);
          continue;
        }
      }
      CHK(r.ok() || r.faulted(), "jag-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
      verify(0, nm);
      verify(1, nm);
    }
    for (int k = 0; k < 2; ++k) s[k].destroy();
    if (!tainted) heap::expect_no_leak("jagged container history");
  }
  // a source container for row contents
  template <typename E, typename Mk>
  static std::vector<E>* source(Row const& vals, Mk&& mk) {
    auto v = new std::vector<E>();
    v->reserve(vals.size());
    for (auto x : vals) {
      Sut u;
      v->push_back(mk(x));
    }
    return v;
  }
  template <typename E>
  static void drop(std::vector<E>* v) {
    {
      Sut u;
      for (auto& e : *v) e = E{};
    }
    delete v;
  }
};

static Row vals(ll base, ll n) {
  Row r;
  for (ll i = 0; i < n; ++i) r.push_back(base + i);
  return r;
}

// ------------------------------------------------------------------ mutable_fws_multimap
template <typename C, typename Codec, unsigned Log2>
struct MultimapRun : JagRun<MultimapRun<C, Codec, Log2>, C> {
  using B = JagRun<MultimapRun, C>;
  using B::s;
  using E = typename Codec::elem;
  using K = typename C::access_t;
  using ST = typename C::size_type;
  static K key(size_t i) { return K{static_cast<ST>(i)}; }

  bool mutate(Op const& op, int k, CallResult& r, Rows& n, bool& must_throw) {
    auto& t = s[k];
    ll const rows = static_cast<ll>(n.size());
    size_t const i = rows == 0 ? 0 : static_cast<size_t>((op.a >> 1) % rows);
    ll const x = Codec::norm(op.b);
    ll const cap = ll{1} << Log2;
    auto len = [&] { return static_cast<ll>(n[i].size()); };
    switch (op.code) {
      case J_ADD_ROW: case J_ADD_EMPTY:
        if (rows >= 60) return false;
        r = call(op, [&] { t->emplace_back(); });
        n.emplace_back();
        break;
      case J_TOUCH: {
        if (rows >= 60) return false;
        auto const j = static_cast<size_t>(op.c % (rows + 4));
        if (op.b & 1) r = call(op, [&] { (*t)[key(j)]; });
        else r = call(op, [&] { t->get_or_create(key(j)); });
        if (n.size() <= j) n.resize(j + 1);
        break;
      }
      case J_PUSH: case J_EMPLACE: {
        if (rows == 0) return false;
        auto e = Codec::mk(x);
        must_throw = len() >= cap;
        r = call(op, [&] {
          if (op.code == J_PUSH) t->at(key(i)).push_back(e);
          else t->at(key(i)).emplace_back(e);
        });
        n[i].push_back(x);
        break;
      }
      case J_INSERT: {
        if (rows == 0) return false;
        auto const pos = op.c % (len() + 1);
        auto e = Codec::mk(x);
        must_throw = len() >= cap;
        r = call(op, [&] {
          auto b = t->at(key(i));
          auto it = b.insert(b.begin() + pos, e);
          NoSut u;
          CHK(it - b.begin() == pos, "jag-insert", "insert returns another position");
        });
        n[i].insert(n[i].begin() + pos, x);
        break;
      }
      case J_ERASE_AT: {
        if (rows == 0 || len() == 0) return false;
        auto const pos = op.c % len();
        r = call(op, [&] {
          auto b = t->at(key(i));
          b.erase(b.begin() + pos);
        });
        n[i].erase(n[i].begin() + pos);
        break;
      }
      case J_ERASE_RANGE: {
        if (rows == 0) return false;
        auto const a = op.c % (len() + 1), z = a + op.b % (len() - a + 1);
        r = call(op, [&] {
          auto b = t->at(key(i));
          b.erase(b.begin() + a, b.begin() + z);
        });
        n[i].erase(n[i].begin() + a, n[i].begin() + z);
        break;
      }
      case J_ROW_RESIZE: {
        if (rows == 0) return false;
        auto const z = op.c % std::min<ll>(cap + 3, len() + 24);
        auto e = Codec::mk(x);
        must_throw = z > cap;
        r = call(op, [&] { t->at(key(i)).resize(static_cast<ST>(z), e); });
        n[i].resize(static_cast<size_t>(z), x);
        break;
      }
      case J_ROW_RESERVE: {
        if (rows == 0) return false;
        auto const z = op.c % std::min<ll>(cap + 2, 80);
        must_throw = z > cap;
        r = call(op, [&] { t->at(key(i)).reserve(static_cast<ST>(z)); });
        if (r.ok() && z > 0) CHK(static_cast<ll>(t->at(key(i)).capacity()) >= z, "jag-reserve", "capacity below the reserved size");
        break;
      }
      case J_ROW_CLEAR:
        if (rows == 0) return false;
        r = call(op, [&] { t->at(key(i)).clear(); });
        n[i].clear();
        break;
      case J_POP:
        if (rows == 0) return false;
        r = call(op, [&] { t->at(key(i)).pop_back(); });
        if (!n[i].empty()) n[i].pop_back();
        break;
      case J_ERASE_ROW:
        if (rows == 0) return false;
        r = call(op, [&] { t->erase(key(i)); });
        n[i].clear();
        break;
      case J_CLEAR:
        r = call(op, [&] { t->clear(); });
        n.clear();
        break;
      case J_RESERVE:
        r = call(op, [&] { t->reserve(static_cast<ST>(op.b % 40), static_cast<ST>(op.c % 90)); });
        break;
      case J_WRITE: {
        if (rows == 0 || len() == 0) return false;
        auto const pos = static_cast<size_t>(op.c % len());
        auto e = Codec::mk(x);
        r = call(op, [&] {
          if (op.b & 1) (*t)[key(i)][static_cast<ST>(pos)] = e;
          else t->at(key(i)).at(static_cast<ST>(pos)) = e;
        });
        n[i][pos] = x;
        break;
      }
      default: return false;
    }
    return true;
  }
  template <typename Bucket>
  static void check_row(Bucket b, Rows const& m, size_t i, char const* what, char const* how) {
    Row got;
    for (auto const& e : b) {
      got.push_back(Codec::rd(e));
      if (got.size() > m[i].size() + 2) break;
    }
    if (got != m[i] || b.size() != m[i].size() || b.empty() != m[i].empty()) B::row_mismatch(what, how, i, got, m);
    Row g2;
    for (size_t j = 0; j < m[i].size(); ++j) g2.push_back(Codec::rd(b[static_cast<ST>(j)]));
    if (g2 != m[i]) B::row_mismatch(what, "index", i, g2, m);
    if (!m[i].empty()) {
      CHK(Codec::rd(b.front()) == m[i].front() && Codec::rd(b.back()) == m[i].back(), "jag-content", "%s: row front/back", what);
      CHK(b.bucket_index(std::prev(b.end())) == m[i].size() - 1, "jag-content", "%s: bucket_index", what);
    }
    bool thr = false;
    try {
      b.at(static_cast<ST>(m[i].size()));
    } catch (std::out_of_range const&) {
      thr = true;
    }
    CHK(thr, "jag-at", "%s: row.at(size) does not throw", what);
  }
  void inspect(C const& c, Rows const& m, char const* what, int) {
    CHK(c.size() == m.size() && c.empty() == m.empty(), "jag-size", "%s: %zu rows, reference has %zu", what, (size_t)c.size(), m.size());
    size_t tot = 0;
    for (size_t i = 0; i < m.size(); ++i) {
      check_row(c[key(i)], m, i, what, "index");
      tot += m[i].size();
    }
    CHK(c.element_count() == tot, "jag-count", "%s: element_count %zu, rows hold %zu", what, (size_t)c.element_count(), tot);
    size_t i = 0;
    for (auto const& b : c) {
      CHK(i < m.size() && b.index() == i, "jag-iterate", "%s: forward iteration", what);
      check_row(b, m, i, what, "iteration");
      ++i;
    }
    CHK(i == m.size(), "jag-iterate", "%s: forward iteration visits %zu of %zu rows", what, i, m.size());
    auto it = c.end();
    for (i = m.size(); i-- > 0;) {
      if (i % 2 != 0) --it;
      else it--;
      CHK((*it).index() == i, "jag-iterate", "%s: stepping back from the end reaches row %zu instead of %zu", what, (size_t)(*it).index(), i);
    }
    if (!m.empty()) {
      auto const mid = static_cast<int>(m.size() / 2);
      CHK((*(c.begin() + mid)).index() == static_cast<ST>(mid) && (*(c.end() - 1)).index() == m.size() - 1 && c.end() - c.begin() == static_cast<int>(m.size()) &&
          c.begin()[mid].index() == static_cast<ST>(mid), "jag-iterate", "%s: random access iterator arithmetic", what);
      check_row(c.front(), m, 0, what, "front");
      check_row(c.back(), m, m.size() - 1, what, "back");
    }
    bool thr = false;
    try {
      c.at(key(m.size()));
    } catch (std::out_of_range const&) {
      thr = true;
    }
    CHK(thr, "jag-at", "%s: at(size) does not throw", what);
  }
};

// ------------------------------------------------------------------ fws_multimap (append-only, then frozen)
template <typename C, typename Codec>
struct FwsRun : JagRun<FwsRun<C, Codec>, C> {
  using B = JagRun<FwsRun, C>;
  using B::s;
  using I = typename C::index_t;
  Row open[2];
  void on_fresh(int k) { open[k].clear(); }
  void on_copy(int a, int b) { open[b] = open[a]; }
  void on_swap() { std::swap(open[0], open[1]); }
  bool mutate(Op const& op, int k, CallResult& r, Rows& n, bool&) {
    auto& t = s[k];
    ll const x = Codec::norm(op.b);
    bool const done = t->finished();
    switch (op.code) {
      case J_PUSH: case J_EMPLACE: case J_WRITE: case J_INSERT: {
        if (done) return false;
        auto e = Codec::mk(x);
        r = call(op, [&] {
          if (op.code == J_PUSH) t->push_back(e);
          else t->emplace_back(e);
        });
        if (r.ok()) open[k].push_back(x);
        break;
      }
      case J_ADD_ROW: case J_ADD_EMPTY: case J_TOUCH:
        if (done) return false;
        CHK(t->current_key() == n.size(), "jag-key", "current_key differs");
        r = call(op, [&] { t->finish_key(); });
        n.push_back(open[k]);
        if (r.ok()) open[k].clear();
        break;
      case J_RESERVE:
        r = call(op, [&] { t->reserve_index(static_cast<I>(op.c % 50)); });
        break;
      case J_ERASE_ROW:  // used as: freeze (every key finished)
        if (done || !open[k].empty()) return false;
        r = call(op, [&] { t->finish_map(); });
        break;
      case J_CLEAR:
        B::fresh(k);
        n.clear();
        break;
      default: return false;
    }
    return true;
  }
  void inspect(C const& c, Rows const& m, char const* what, int) {
    if (!c.finished()) {
      CHK(c.index_size() == m.size(), "jag-size", "%s: keys", what);
      return;
    }
    CHK(c.index_size() == m.size() + 1, "jag-size", "%s: keys %zu, reference %zu", what, c.index_size(), m.size());
    for (size_t i = 0; i < m.size(); ++i) {
      auto e = c[static_cast<I>(i)];
      Row got;
      for (auto const& x : e) got.push_back(Codec::rd(x));
      if (got != m[i] || e.size() != m[i].size() || e.empty() != m[i].empty()) B::row_mismatch(what, "index", i, got, m);
      for (size_t j = 0; j < m[i].size(); ++j) CHK(Codec::rd(e[static_cast<I>(j)]) == m[i][j], "jag-content", "%s: entry index", what);
    }
    size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) {
      CHK(i < m.size(), "jag-iterate", "%s: forward iteration does not end", what);
      auto e = *it;
      Row got;
      for (auto const& x : e) got.push_back(Codec::rd(x));
      if (got != m[i]) B::row_mismatch(what, "iteration", i, got, m);
    }
    CHK(i == m.size(), "jag-iterate", "%s: forward iteration", what);
    auto it = c.end();
    for (i = m.size(); i-- > 0;) {
      --it;
      auto e = *it;
      CHK(e.size() == m[i].size(), "jag-iterate", "%s: backward iteration", what);
    }
    if (!m.empty()) {
      auto const n = static_cast<int>(m.size());
      auto back = c.end() - 1;
      CHK(back == c.begin() + (n - 1) && c.end() - c.begin() == n && back - c.begin() == n - 1, "jag-iterate", "%s: random access iterator arithmetic", what);
    }
  }
};

// ------------------------------------------------------------------ vecvec
template <typename C, typename Codec>
struct VecVecRun : JagRun<VecVecRun<C, Codec>, C> {
  using B = JagRun<VecVecRun, C>;
  using B::s;
  using E = typename Codec::elem;
  using Key = typename C::key;
  static Key key(size_t i) { return Key{static_cast<cista::base_t<Key>>(i)}; }
  void touch(int k) {
    if (Codec::owning && heap::in_image(s[k]->data_.data())) this->tainted = true;
  }
  bool mutate(Op const& op, int k, CallResult& r, Rows& n, bool& must_throw) {
    auto& t = s[k];
    ll const rows = static_cast<ll>(n.size());
    size_t const i = rows == 0 ? 0 : static_cast<size_t>((op.a >> 1) % rows);
    ll const x = Codec::norm(op.b);
    size_t tot = 0;
    for (auto& w : n) tot += w.size();
    if (tot > 200 && op.code < J_ERASE_AT) return false;
    switch (op.code) {
      case J_ADD_ROW: {
        if (rows > 60) return false;
        auto v = vals(op.b, op.c % 7);
        for (auto& y : v) y = Codec::norm(y);
        auto src = B::template source<E>(v, [](ll y) { return Codec::mk(y); });
        r = call(op, [&] { t->emplace_back(*src); });
        B::drop(src);
        n.push_back(v);
        break;
      }
      case J_ADD_EMPTY:
        if constexpr (!Codec::owning) {
          if (rows > 60) return false;
          auto e = Codec::mk(x);
          r = call(op, [&] { t->emplace_back({e, e, e}); });
          n.push_back({x, x, x});
        } else return false;
        break;
      case J_ADD_SIZED: {
        if (rows > 60) return false;
        auto const z = static_cast<size_t>(op.c % 6);
        r = call(op, [&] {
          auto b = t->add_back_sized(z);
          NoSut u;
          CHK(b.size() == z, "jag-size", "add_back_sized returns a row of another size");
        });
        n.emplace_back(z, 0);
        break;
      }
      case J_PUSH: case J_EMPLACE: case J_INSERT: {
        if (rows == 0) return false;
        E* e;
        {
          Sut u;
          e = new (heap::image_alloc(sizeof(E), alignof(E))) E(Codec::mk(x));
        }
        r = call(op, [&] { (*t)[key(i)].push_back(*e); });
        {
          Sut u;
          e->~E();
        }
        heap::image_free(e);
        n[i].push_back(x);
        break;
      }
      case J_ROW_RESIZE: {
        // (grow() does not compile for elements of the size type itself)
        if (rows == 0 || std::is_same_v<E, std::uint32_t>) return false;
        auto const z = n[i].size() + static_cast<size_t>(op.c % 6);
        E* e;
        {
          Sut u;
          e = new (heap::image_alloc(sizeof(E), alignof(E))) E(Codec::mk(x));
        }
        if constexpr (!std::is_same_v<E, std::uint32_t>) r = call(op, [&] { (*t)[key(i)].grow(z, *e); });
        {
          Sut u;
          e->~E();
        }
        heap::image_free(e);
        n[i].resize(z, x);
        break;
      }
      case J_RESIZE_ROWS: {
        auto const z = static_cast<size_t>(op.c % (rows + 5));
        if (z > 60) return false;
        r = call(op, [&] { t->resize(z); });
        n.resize(z);
        break;
      }
      case J_CLEAR:
        r = call(op, [&] { t->clear(); });
        n.clear();
        break;
      case J_HUGE: {
        // more elements than the row boundaries can express
        if (rows == 0) return false;
        must_throw = true;
        auto const z = (size_t{1} << (32 + op.c % 32)) + static_cast<size_t>(op.b % 5) - (op.b & 8 ? 1000 : 0) * (op.c % 32 == 0 ? 0U : 1U);
        E* e;
        {
          Sut u;
          e = new (heap::image_alloc(sizeof(E), alignof(E))) E(Codec::mk(x));
        }
        if (std::is_same_v<E, std::uint32_t> || (op.b & 1)) r = call(op, [&] { t->add_back_sized(z); });
        else if constexpr (!std::is_same_v<E, std::uint32_t>) r = call(op, [&] { (*t)[key(i)].grow(z, *e); });
        {
          Sut u;
          e->~E();
        }
        heap::image_free(e);
        break;
      }
      case J_WRITE: {
        if (rows == 0 || n[i].empty()) return false;
        auto const j = static_cast<size_t>(op.c) % n[i].size();
        r = call(op, [&] {
          if (op.b & 1) (*t)[key(i)][j] = Codec::mk(x);
          else t->at(key(i)).at(j) = Codec::mk(x);
        });
        n[i][j] = x;
        break;
      }
      default: return false;
    }
    return true;
  }
  template <typename Bucket>
  static void check_row(Bucket const& b, Rows const& m, size_t i, char const* what, char const* how) {
    Row got;
    for (auto const& e : b) {
      got.push_back(Codec::rd(e));
      if (got.size() > m[i].size() + 2) break;
    }
    if (got != m[i] || static_cast<size_t>(b.size()) != m[i].size() || b.empty() != m[i].empty()) B::row_mismatch(what, how, i, got, m);
    for (size_t j = 0; j < m[i].size(); ++j) {
      CHK(Codec::rd(b[j]) == m[i][j], "jag-content", "%s: row %zu element %zu by index", what, i, j);
    }
    if (!m[i].empty()) {
      CHK(Codec::rd(b.front()) == m[i].front() && Codec::rd(b.back()) == m[i].back() && b.data() == &b.front(), "jag-content", "%s: row front/back", what);
    }
    bool thr = false;
    try {
      b.at(m[i].size());
    } catch (std::exception const&) {
      thr = true;
    }
    CHK(thr, "jag-at", "%s: row.at(size) does not throw", what);
  }
  void inspect(C const& c, Rows const& m, char const* what, int k) {
    CHK(c.size() == m.size(), "jag-size", "%s: %zu rows, reference has %zu", what, (size_t)c.size(), m.size());
    for (size_t i = 0; i < m.size(); ++i) {
      check_row(c[key(i)], m, i, what, "index");
      check_row((*s[k].p)[key(i)], m, i, what, "mutable index");
      auto b = c[key(i)];
      Row rev(m[i].rbegin(), m[i].rend()), got;
      for (auto it = b.rbegin(); it != b.rend(); ++it) got.push_back(Codec::rd(*it));
      if (got != rev) B::row_mismatch(what, "reverse iteration", i, got, m);
    }
    size_t i = 0;
    for (auto const& b : c) {
      CHK(i < m.size(), "jag-iterate", "%s: forward iteration does not end", what);
      check_row(b, m, i++, what, "iteration");
    }
    CHK(i == m.size(), "jag-iterate", "%s: forward iteration visits %zu of %zu rows", what, i, m.size());
    auto it = c.end();
    for (i = m.size(); i-- > 0;) check_row(*--it, m, i, what, "backward iteration");
    CHK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(m.size()), "jag-iterate", "%s: distance", what);
    if (!m.empty()) {
      check_row(c.front(), m, 0, what, "front");
      check_row(c.back(), m, m.size() - 1, what, "back");
      check_row(*(c.begin() + static_cast<std::ptrdiff_t>(m.size() / 2)), m, m.size() / 2, what, "begin()+n");
      check_row(*(c.end() - 1), m, m.size() - 1, what, "end()-1");
    }
    bool thr = false;
    try {
      c.at(key(m.size()));
    } catch (std::exception const&) {
      thr = true;
    }
    CHK(thr, "jag-at", "%s: at(size) does not throw", what);
  }
};

// ------------------------------------------------------------------ paged_vecvec
template <typename C, typename Codec, ll MaxPage>
struct PagedRun : JagRun<PagedRun<C, Codec, MaxPage>, C> {
  using B = JagRun<PagedRun, C>;
  using B::s;
  using E = typename Codec::elem;
  bool mutate(Op const& op, int k, CallResult& r, Rows& n, bool& must_throw) {
    auto& t = s[k];
    ll const rows = static_cast<ll>(n.size());
    auto const i = rows == 0 ? 0U : static_cast<std::uint32_t>((op.a >> 1) % rows);
    ll const x = Codec::norm(op.b);
    auto len = [&] { return static_cast<ll>(n[i].size()); };
    switch (op.code) {
      case J_ADD_ROW: case J_INSERT_ROW: {
        if (rows > 60) return false;
        ll const z = op.c % 12 == 0 ? op.b % (MaxPage * 2 + 40) : op.c % 12;
        must_throw = z > MaxPage;
        auto v = vals(op.b, z);
        for (auto& y : v) y = Codec::norm(y);
        auto src = B::template source<E>(v, [](ll y) { return Codec::mk(y); });
        auto const pos = static_cast<std::uint32_t>(op.c % (rows + 1));
        r = call(op, [&] {
          if (op.code == J_ADD_ROW) t->emplace_back(*src);
          else t->insert(pos, *src);
        });
        B::drop(src);
        if (op.code == J_ADD_ROW) n.push_back(v);
        else n.insert(n.begin() + pos, v);
        break;
      }
      case J_ADD_EMPTY:
        if (rows > 60) return false;
        r = call(op, [&] { t->emplace_back_empty(); });
        n.emplace_back();
        break;
      case J_PUSH: case J_EMPLACE: {
        if (rows == 0) return false;
        auto e = Codec::mk(x);
        must_throw = len() >= MaxPage;
        r = call(op, [&] { (*t)[i].push_back(e); });
        n[i].push_back(x);
        break;
      }
      case J_INSERT: {
        if (rows == 0) return false;
        auto const pos = op.c % (len() + 1);
        auto e = Codec::mk(x);
        must_throw = len() >= MaxPage;
        r = call(op, [&] {
          auto b = (*t)[i];
          b.insert(b.begin() + pos, e);
        });
        n[i].insert(n[i].begin() + pos, x);
        break;
      }
      case J_RESIZE_ROWS: {
        auto const z = static_cast<std::uint32_t>(op.c % (rows + 4));
        if (z > 60) return false;
        r = call(op, [&] { t->resize(z); });
        n.resize(z);
        break;
      }
      case J_CLEAR:
        r = call(op, [&] { t->clear(); });
        n.clear();
        break;
      case J_WRITE: {
        if (rows == 0 || len() == 0) return false;
        auto const j = static_cast<size_t>(op.c % len());
        auto e = Codec::mk(x);
        r = call(op, [&] {
          if (op.b & 1) (*t)[i][j] = e;
          else t->at(i).at(j) = e;
        });
        n[i][j] = x;
        break;
      }
      default: return false;
    }
    return true;
  }
  template <typename Bucket>
  static void check_row(Bucket const& b, Rows const& m, size_t i, char const* what, char const* how) {
    Row got;
    for (auto const& e : b) {
      got.push_back(Codec::rd(e));
      if (got.size() > m[i].size() + 2) break;
    }
    if (got != m[i] || static_cast<size_t>(b.size()) != m[i].size() || b.empty() != m[i].empty()) B::row_mismatch(what, how, i, got, m);
    for (size_t j = 0; j < m[i].size(); ++j) CHK(Codec::rd(b[j]) == m[i][j], "jag-content", "%s: row %zu element %zu by index", what, i, j);
    if (!m[i].empty()) CHK(Codec::rd(b.front()) == m[i].front() && Codec::rd(b.back()) == m[i].back(), "jag-content", "%s: row front/back", what);
    bool thr = false;
    try {
      b.at(m[i].size());
    } catch (std::exception const&) {
      thr = true;
    }
    CHK(thr, "jag-at", "%s: row.at(size) does not throw", what);
  }
  void inspect(C const& c, Rows const& m, char const* what, int k) {
    CHK(c.size() == m.size() && c.empty() == m.empty(), "jag-size", "%s: %zu rows, reference has %zu", what, (size_t)c.size(), m.size());
    for (size_t i = 0; i < m.size(); ++i) {
      check_row(c[static_cast<std::uint32_t>(i)], m, i, what, "index");
      check_row((*s[k].p)[static_cast<std::uint32_t>(i)], m, i, what, "mutable index");
    }
    size_t i = 0;
    for (auto const& b : c) {
      CHK(i < m.size(), "jag-iterate", "%s: forward iteration does not end", what);
      check_row(b, m, i++, what, "iteration");
    }
    CHK(i == m.size(), "jag-iterate", "%s: forward iteration", what);
    i = 0;
    for (auto const& b : *s[k].p) check_row(b, m, i++, what, "mutable iteration");
    auto it = c.end();
    for (i = m.size(); i-- > 0;) check_row(*--it, m, i, what, "backward iteration");
    if (!m.empty()) {
      check_row(c.front(), m, 0, what, "front");
      check_row(c.back(), m, m.size() - 1, what, "back");
      CHK(c.end() - c.begin() == static_cast<std::ptrdiff_t>(m.size()), "jag-iterate", "%s: distance", what);
    }
    bool thr = false;
    try {
      c.at(static_cast<std::uint32_t>(m.size()));
    } catch (std::exception const&) {
      thr = true;
    }
    CHK(thr, "jag-at", "%s: at(size) does not throw", what);
  }
};

// ------------------------------------------------------------------ nvec (depth 2 and 3): a row here is one nested entry, flattened
template <typename C, typename Codec, int Depth>
struct NvecRun : JagRun<NvecRun<C, Codec, Depth>, C> {
  using B = JagRun<NvecRun, C>;
  using B::s;
  using E = typename Codec::elem;
  // shape: Rows holds for each top-level entry a flattened description:
  // depth 2: [n, len0, v..., len1, v...]; depth 3: [n, n0, len.., ...]
  using V1 = std::vector<E>;
  using V2 = std::vector<V1>;
  using V3 = std::vector<V2>;
  using Top = std::conditional_t<Depth == 2, V2, V3>;
  static V1 mk1(Rng& r, ll base, Row& d) {
    V1 v;
    auto n = static_cast<ll>(r.below(4));
    d.push_back(n);
    v.reserve(24);
    for (ll i = 0; i < n; ++i) {
      d.push_back(Codec::norm(base + i));
      Sut u;
      auto e = Codec::mk(Codec::norm(base + i));
      NoSut n2;
      v.push_back(std::move(e));
    }
    return v;
  }
  static V2 mk2(Rng& r, ll base, Row& d) {
    V2 v;
    auto n = static_cast<ll>(r.below(4));
    d.push_back(n);
    for (ll i = 0; i < n; ++i) v.push_back(mk1(r, base + 5 * i, d));
    return v;
  }
  static Top mk(Rng& r, ll base, Row& d) {
    if constexpr (Depth == 2) return mk2(r, base, d);
    else {
      V3 v;
      auto n = static_cast<ll>(r.below(4));
      d.push_back(n);
      for (ll i = 0; i < n; ++i) v.push_back(mk2(r, base + 20 * i, d));
      return v;
    }
  }
  void touch(int k) {
    if (Codec::owning && heap::in_image(s[k]->data_.data())) this->tainted = true;
  }
  static void wipe(V1& v) {
    Sut u;
    for (auto& e : v) e = E{};
  }
  static void wipe(V2& v) {
    for (auto& x : v) wipe(x);
  }
  static void wipe(V3& v) {
    for (auto& x : v) wipe(x);
  }
  bool mutate(Op const& op, int k, CallResult& r, Rows& n, bool&) {
    auto& t = s[k];
    switch (op.code) {
      case J_ADD_ROW: case J_PUSH: case J_EMPLACE: {
        if (n.size() > 12) return false;
        Rng g{static_cast<uint64_t>(op.c)};
        Row d;
        auto* top = new Top(mk(g, op.b, d));
        r = call(op, [&] { t->emplace_back(*top); });
        wipe(*top);
        delete top;
        n.push_back(d);
        break;
      }
      default: return false;
    }
    return true;
  }
  template <typename X>
  static void read1(X&& b, Row& d) {
    d.push_back(static_cast<ll>(b.size()));
    for (auto const& e : b) {
      d.push_back(Codec::rd(e));
      if (d.size() > 500) return;
    }
  }
  template <typename X>
  static void read2(X&& b, Row& d) {
    d.push_back(static_cast<ll>(b.size()));
    for (auto const& e : b) {
      read1(e, d);
      if (d.size() > 500) return;
    }
  }
  template <typename X>
  static void read3(X&& b, Row& d) {
    d.push_back(static_cast<ll>(b.size()));
    for (auto const& e : b) {
      read2(e, d);
      if (d.size() > 500) return;
    }
  }
  void inspect(C const& c, Rows const& m, char const* what, int k) {
    CHK(c.size() == m.size(), "jag-size", "%s: %zu entries, reference has %zu", what, (size_t)c.size(), m.size());
    size_t i = 0;
    for (auto const e : c) {
      CHK(i < m.size(), "jag-iterate", "%s: iteration does not end", what);
      Row d;
      if constexpr (Depth == 2) read2(e, d);
      else read3(e, d);
      if (d != m[i]) B::row_mismatch(what, "iteration", i, d, m);
      ++i;
    }
    CHK(i == m.size(), "jag-iterate", "%s: iteration", what);
    // by index and through size(i...) / at(i...)
    for (i = 0; i < m.size(); ++i) {
      auto const I = static_cast<std::uint32_t>(i);
      Row d;
      auto const n = c.size(I);
      d.push_back(n);
      for (std::uint32_t j = 0; j < n && d.size() < 500; ++j) {
        if constexpr (Depth == 2) {
          auto b = c.at(I, j);
          CHK(b.size() == c.size(I, j), "jag-size", "%s: size(%u,%u) is %u but the row has %zu elements", what, I, j, (unsigned)c.size(I, j), (size_t)b.size());
          read1(b, d);
          read1(s[k].p->at(I, j), d);
          d.resize(d.size() - b.size() - 1);
        } else {
          auto const n2 = c.size(I, j);
          d.push_back(n2);
          for (std::uint32_t q = 0; q < n2 && d.size() < 500; ++q) {
            auto b = c.at(I, j, q);
            CHK(b.size() == c.size(I, j, q), "jag-size", "%s: size(%u,%u,%u) is %u but the row has %zu elements", what, I, j, q, (unsigned)c.size(I, j, q), (size_t)b.size());
            read1(b, d);
          }
        }
      }
      if (d != m[i]) B::row_mismatch(what, "size()/at()", i, d, m);
    }
    auto it = c.end();
    for (i = m.size(); i-- > 0;) {
      --it;
      Row d;
      if constexpr (Depth == 2) read2(*it, d);
      else read3(*it, d);
      if (d != m[i]) B::row_mismatch(what, "backward iteration", i, d, m);
    }
  }
};

// ------------------------------------------------------------------ flat_matrix
template <typename C, typename Codec>
struct MatrixRun : JagRun<MatrixRun<C, Codec>, C> {
  using B = JagRun<MatrixRun, C>;
  using B::s;
  using E = typename Codec::elem;
  size_t cols[2]{0, 0};
  void on_fresh(int k) { cols[k] = 0; }
  void on_copy(int a, int b) { cols[b] = cols[a]; }
  void on_swap() { std::swap(cols[0], cols[1]); }
  bool mutate(Op const& op, int k, CallResult& r, Rows& n, bool& must_throw) {
    auto& t = s[k];
    switch (op.code) {
      case J_ADD_SIZED: {  // a new matrix, moved in
        auto const rr = static_cast<size_t>(op.b % 9), cc = static_cast<size_t>(op.c % 9);
        ll const x = Codec::norm(op.b);
        auto e = Codec::mk(x);
        Slot<C> nc;
        r = call(op, [&] { nc.construct([&](void* w) { new (w) C(cista::offset::make_flat_matrix<E>(static_cast<std::uint32_t>(rr), static_cast<std::uint32_t>(cc), e)); }); });
        if (r.ok()) {
          t.destroy();
          t = nc;
          n.assign(rr, Row(cc, x));
          cols[k] = cc;
        }
        break;
      }
      case J_RESIZE_ROWS: case J_ROW_RESIZE: {
        auto const rr = static_cast<size_t>(op.b % 9), cc = static_cast<size_t>(op.c % 9);
        r = call(op, [&] { t->resize(static_cast<std::uint32_t>(rr), cc); });
        if (r.ok()) {
          Row lin;
          for (auto& w : n) lin.insert(lin.end(), w.begin(), w.end());
          lin.resize(rr * cc, 0);
          n.clear();
          for (size_t i = 0; i < rr; ++i) n.emplace_back(lin.begin() + static_cast<ptrdiff_t>(i * cc), lin.begin() + static_cast<ptrdiff_t>((i + 1) * cc));
          cols[k] = cc;
        }
        break;
      }
      case J_HUGE: {
        // more entries than the size type can count
        must_throw = true;
        r = call(op, [&] {
          if (op.b % 2 == 0) t->resize(1U << 20, size_t{1} << (12 + op.c % 20));
          else cista::offset::make_flat_matrix<E>(1U << 20, 1U << (12 + op.c % 20), E{});
        });
        break;
      }
      case J_CLEAR: {
        ll const x = Codec::norm(op.b);
        auto e = Codec::mk(x);
        r = call(op, [&] { t->reset(e); });
        for (auto& w : n) std::fill(w.begin(), w.end(), x);
        break;
      }
      case J_WRITE: case J_PUSH: {
        if (n.empty() || cols[k] == 0) return false;
        auto const i = static_cast<std::uint32_t>(static_cast<size_t>(op.a >> 1) % n.size());
        auto const j = static_cast<std::uint32_t>(static_cast<size_t>(op.c) % cols[k]);
        ll const x = Codec::norm(op.b);
        auto e = Codec::mk(x);
        r = call(op, [&] {
          switch (op.b % 4) {
            case 0: (*t)(i, j) = e; break;
            case 3: *((*t)[i].begin() + j) = e; break;
            case 1: (*t)[i][j] = e; break;
            case 2: t->at(i)[j] = e; break;
          }
        });
        n[i][j] = x;
        break;
      }
      default: return false;
    }
    return true;
  }
  void inspect(C const& c, Rows const& m, char const* what, int k) {
    CHK(c.n_rows_ == m.size() && c.n_columns_ == cols[k], "jag-size", "%s: %zux%zu, reference %zux%zu", what, (size_t)c.n_rows_, (size_t)c.n_columns_, m.size(), cols[k]);
    CHK(c.entries_.size() == m.size() * cols[k], "jag-size", "%s: %zu entries for %zux%zu", what, (size_t)c.entries_.size(), m.size(), cols[k]);
    for (size_t i = 0; i < m.size(); ++i) {
      for (size_t j = 0; j < cols[k]; ++j) {
        auto const I = static_cast<std::uint32_t>(i), J = static_cast<std::uint32_t>(j);
        CHK(Codec::rd(c[I][J]) == m[i][j] && Codec::rd(c.at(I)[J]) == m[i][j] && Codec::rd((*s[k].p)(I, J)) == m[i][j], "jag-content", "%s: entry %zu,%zu", what, i, j);
      }
    }
    for (size_t i = 0; i < m.size(); ++i) {
      auto const I = static_cast<std::uint32_t>(i);
      Row a, b;
      for (auto const& e : c[I]) a.push_back(Codec::rd(e));
      for (auto const& e : (*s[k].p)[I]) b.push_back(Codec::rd(e));
      CHK(a == m[i] && b == m[i], "jag-content", "%s: iterating row %zu shows other elements", what, i);
    }
    bool thr = false;
    try {
      c.at(static_cast<std::uint32_t>(m.size()));
    } catch (std::exception const&) {
      thr = true;
    }
    CHK(thr, "jag-at", "%s: at(rows) does not throw", what);
  }
};

static constexpr int kJagTypes = 17;
static Plan gen_jag(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(550);
  p.cfg = {static_cast<ll>(r.below(kJagTypes)), faults};
  ll n = r.range(4, r.chance(200) ? 200 : 50) * (tier ? 2 : 1);
  std::vector<int> w(N_JAG_OPS);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 1, 2, 4}));
  w[J_ADD_ROW] += 4;
  w[J_PUSH] += 6;
  w[J_RESIZE_ROWS] += static_cast<int>(r.below(2));
  w[J_HUGE] = r.chance(200) ? 1 : 0;
  if (r.chance(500)) w[J_RESTART] = 0;
  if (r.chance(400)) w[J_CLEAR] = w[J_MOVE_ASSIGN] = w[J_COPY_ASSIGN] = w[J_COPY_CONSTRUCT] = w[J_MOVE_CONSTRUCT] = 0;
  int total = 0;
  for (auto x : w) total += x;
  ll counter = r.range(1, 1000);
  bool const one = r.chance(400), narrow = r.chance(400);
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>((one ? 0 : r.below(2)) | r.below(narrow ? 3 : 1000) << 1);
    op.b = counter;
    counter += static_cast<ll>(r.below(9)) + 1;
    op.c = static_cast<int64_t>(r.below(100000));
    if (faults) random_alloc_fault(r, op, 200);
    p.ops.push_back(op);
  }
  return p;
}
struct RowTag {};
using row_key = cista::strong<std::uint32_t, RowTag>;
template <typename V, typename PS, PS Min, PS Max, typename Vec = data::vector<V>>
using paged_rows = cista::paged_vecvec<data::vector<typename cista::paged<Vec, std::uint32_t, PS, Min, Max>::page_t>,
                                       cista::paged<Vec, std::uint32_t, PS, Min, Max>, std::uint32_t>;
static void exec_jag(Plan const& p) {
  namespace raw = cista::raw;
  using std::uint16_t;
  using std::uint32_t;
  using std::uint64_t;
  using std::uint8_t;
  switch (p.c(0) % kJagTypes) {
    case 0: MultimapRun<data::mutable_fws_multimap<uint32_t, uint32_t>, IntCodec<uint32_t>, 20>{}.exec(p); break;
    case 1: MultimapRun<raw::mutable_fws_multimap<row_key, uint64_t, 3>, IntCodec<uint64_t>, 3>{}.exec(p); break;
    case 2: MultimapRun<data::mutable_fws_multimap<uint32_t, uint8_t, 4>, IntCodec<uint8_t>, 4>{}.exec(p); break;
    case 3: MultimapRun<raw::mutable_fws_multimap<std::uint64_t, uint64_t, 6>, IntCodec<uint64_t>, 6>{}.exec(p); break;
    case 4: FwsRun<data::fws_multimap<uint32_t, uint32_t>, IntCodec<uint32_t>>{}.exec(p); break;
    case 5: FwsRun<raw::fws_multimap<uint32_t, uint16_t>, IntCodec<uint16_t>>{}.exec(p); break;
    case 6: VecVecRun<data::vecvec<uint32_t, uint32_t>, IntCodec<uint32_t>>{}.exec(p); break;
    case 7: VecVecRun<raw::vecvec<row_key, uint16_t>, IntCodec<uint16_t>>{}.exec(p); break;
    case 8: VecVecRun<data::vecvec<uint32_t, data::string>, StrCodec<data::string>>{}.exec(p); break;
    case 9: VecVecRun<raw::vecvec<uint32_t, raw::string>, StrCodec<raw::string>>{}.exec(p); break;
    case 10: PagedRun<paged_rows<uint32_t, uint16_t, 4, 1 << 15>, IntCodec<uint32_t>, 1 << 15>{}.exec(p); break;
    case 11: PagedRun<paged_rows<uint64_t, uint8_t, 2, 128>, IntCodec<uint64_t>, 128>{}.exec(p); break;
    case 12: PagedRun<paged_rows<char, uint16_t, 16, 64, raw::vector<char>>, IntCodec<char>, 64>{}.exec(p); break;
    case 13: NvecRun<data::nvec<uint32_t, uint32_t, 2>, IntCodec<uint32_t>, 2>{}.exec(p); break;
    case 14: NvecRun<raw::nvec<uint32_t, uint64_t, 3>, IntCodec<uint64_t>, 3>{}.exec(p); break;
    case 15: NvecRun<data::nvec<uint32_t, data::string, 2>, StrCodec<data::string>, 2>{}.exec(p); break;
    case 16: MatrixRun<data::flat_matrix<uint16_t>, IntCodec<uint16_t>>{}.exec(p); break;
  }
}
}  // namespace props
#ifndef PROPS_COMBINED
static std::vector<sim::Harness> const g_h = {{"jag", props::jag_op_name, props::gen_jag, props::exec_jag}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
#endif
