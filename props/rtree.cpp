// Histories over the spatial index, in memory and file-backed (C12, C15).
#include "common.h"
#include "cista/containers/rtree.h"

namespace props {
struct GeoData {
  uint32_t a, b, c;
  friend bool operator==(GeoData const& x, GeoData const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
};
enum RtOp {
  R_INSERT, R_INSERT_RUN, R_DELETE, R_DELETE_RUN, R_DELETE_MISS, R_DELETE_FN, R_SEARCH, R_SEARCH_STOP, R_COPY, R_MOVE, R_COPY_ASSIGN,
  R_MOVE_ASSIGN, R_SWAP, R_RESTART, R_REOPEN, R_CRASH, N_RT_OPS
};
static char const* rt_op_name(int c) {
  static char const* n[] = {"insert", "insert run", "delete", "delete run", "delete(absent)", "delete(function)", "search", "search(stopping)",
    "copy-construct", "move-construct", "copy-assign", "move-assign", "swap", "restart", "close and reopen", "process crash after write_meta"};
  return c >= 0 && c < N_RT_OPS ? n[c] : "?";
}
static char const* kNodes[] = {"/simdisk/nodes0", "/simdisk/nodes1"};
static char const* kMeta[] = {"/simdisk/meta0", "/simdisk/meta1"};

inline ll data_id(uint32_t d) { return d; }
inline ll data_id(uint64_t d) { return static_cast<ll>(d); }
inline ll data_id(GeoData const& d) { return d.b == d.a * 3u && d.c == ~d.a ? static_cast<ll>(d.a) : -9; }
inline void make_data(uint32_t& d, ll v) { d = static_cast<uint32_t>(v); }
inline void make_data(uint64_t& d, ll v) { d = static_cast<uint64_t>(v); }
inline void make_data(GeoData& d, ll v) { auto const a = static_cast<uint32_t>(v); d = {a, a * 3u, ~a}; }

template <typename Tree, typename Data, unsigned Dims, typename Num, unsigned MaxItems, bool MM>
struct RtRun {
  static constexpr int N = 2;
  using Coord = typename Tree::coord_t;
  using Node = typename Tree::node;
  struct Entry {
    Num lo[Dims], hi[Dims];
    ll id;
    bool operator<(Entry const& o) const {
      for (unsigned i = 0; i < Dims; ++i) {
        if (lo[i] != o.lo[i]) return lo[i] < o.lo[i];
        if (hi[i] != o.hi[i]) return hi[i] < o.hi[i];
      }
      return id < o.id;
    }
    bool operator==(Entry const& o) const { return !(*this < o) && !(o < *this); }
    bool overlaps(Entry const& o) const {
      for (unsigned i = 0; i < Dims; ++i) if (o.lo[i] > hi[i] || o.hi[i] < lo[i]) return false;
      return true;
    }
    bool same_box(Entry const& o) const {
      for (unsigned i = 0; i < Dims; ++i) if (o.lo[i] != lo[i] || o.hi[i] != hi[i]) return false;
      return true;
    }
    bool encloses(Entry const& o) const {
      for (unsigned i = 0; i < Dims; ++i) if (o.lo[i] < lo[i] || o.hi[i] > hi[i]) return false;
      return true;
    }
  };
  Slot<Tree> s[N];
  std::vector<Entry> m[N];
  int style{0};
  ll next_id{1};

  static std::string str(Entry const& e) {
    std::string r = "#" + std::to_string(e.id) + "(";
    for (unsigned i = 0; i < Dims; ++i) r += (i ? " " : "") + std::to_string(e.lo[i]) + ".." + std::to_string(e.hi[i]);
    return r + ")";
  }
  static Coord lo(Entry const& e) { Coord c; for (unsigned i = 0; i < Dims; ++i) c[i] = e.lo[i]; return c; }
  static Coord hi(Entry const& e) { Coord c; for (unsigned i = 0; i < Dims; ++i) c[i] = e.hi[i]; return c; }
  static Entry entry(Coord const& a, Coord const& b, Data const& d) {
    Entry e;
    for (unsigned i = 0; i < Dims; ++i) e.lo[i] = a[i], e.hi[i] = b[i];
    e.id = data_id(d);
    return e;
  }
  // a box from a number, shaped by the run's style
  Entry box(ll x) const {
    Rng r{static_cast<uint64_t>(x)};
    Entry e;
    e.id = 0;
    for (unsigned i = 0; i < Dims; ++i) {
      ll a = 0, w = 0;
      switch (style) {
        case 0: a = r.range(-200, 200); w = r.range(0, 30); break;      // scattered boxes
        case 1: a = r.range(-3, 3); w = 0; break;                       // few points
        case 2: a = 5; w = 0; break;                                    // one point
        case 3: a = i == 0 ? x % 600 : 0; w = i == 0 ? 1 : 0; break;    // a line, in order
        case 4: a = r.range(-100, 100); w = r.chance(200) ? r.range(0, 600) : 0; break;  // points and huge boxes
        case 5: a = static_cast<ll>(r.below(3)) * 300 + r.range(-5, 5); w = r.range(0, 4); break;  // clusters
        case 6: a = r.range(-400, 400); w = 0; break;                   // scattered points
        default: a = -(x % 300); w = 2 * (x % 300); break;              // nested boxes
      }
      e.lo[i] = static_cast<Num>(a);
      e.hi[i] = static_cast<Num>(a + w);
      if constexpr (std::is_floating_point_v<Num>) {
        if (style != 2 && x % 3 == 0) { e.lo[i] /= 3; e.hi[i] /= 3; }
      }
    }
    return e;
  }

  // structure: leaves at one depth, boxes enclose, counts in range, free list apart from the tree
  void walk(Tree const& t, typename Tree::node_idx_t idx, typename Tree::rect const* outer, std::size_t depth, std::vector<char>& seen,
            std::size_t& entries, char const* after) {
    auto const i = static_cast<std::size_t>(cista::to_idx(idx));
    CHK(i < t.nodes_.size(), "rtree-index", "%s: child index %zu of %zu nodes", after, i, (std::size_t)t.nodes_.size());
    CHK(!seen[i], "rtree-shared-node", "%s: node %zu is reached twice", after, i);
    seen[i] = 1;
    Node const& n = t.nodes_[idx];
    CHK(n.kind_ == Tree::kind::kLeaf || n.kind_ == Tree::kind::kBranch, "rtree-kind", "%s: free node %zu is part of the tree", after, i);
    CHK(n.count_ >= 1 && n.count_ <= MaxItems, "rtree-fill", "%s: node %zu has %u of %u items", after, i, n.count_, MaxItems);
    for (unsigned k = 0; k < n.count_; ++k) {
      CHK(outer->contains(n.rects_[k]), "rtree-enclose", "%s: item %u of node %zu at depth %zu sticks out of its parent's box", after, k, i, depth);
    }
    if (n.kind_ == Tree::kind::kLeaf) {
      CHK(depth == t.m_.height_, "rtree-depth", "%s: a leaf at depth %zu in a tree of height %zu", after, depth, (std::size_t)t.m_.height_);
      entries += n.count_;
      return;
    }
    CHK(depth < t.m_.height_, "rtree-depth", "%s: a branch at depth %zu in a tree of height %zu", after, depth, (std::size_t)t.m_.height_);
    for (unsigned k = 0; k < n.count_; ++k) walk(t, n.children_[k], &n.rects_[k], depth + 1, seen, entries, after);
  }
  void verify(int k, char const* after, bool full = true) {
    if (!s[k]) return;
    Tree const& t = *s[k].p;
    auto const& w = m[k];
    CHK(t.m_.count_ == w.size(), "rtree-count", "%s: count is %zu, reference %zu", after, (std::size_t)t.m_.count_, w.size());
    std::vector<char> seen(t.nodes_.size());
    std::size_t entries = 0;
    if (w.empty()) {
      CHK(t.m_.root_ == Tree::node_idx_t::invalid(), "rtree-root", "%s: an empty tree has a root", after);
    } else {
      CHK(t.m_.root_ != Tree::node_idx_t::invalid(), "rtree-root", "%s: a tree of %zu entries has no root", after, w.size());
      walk(t, t.m_.root_, &t.m_.rect_, 1, seen, entries, after);
    }
    CHK(entries == w.size(), "rtree-entries", "%s: leaves hold %zu entries, reference %zu", after, entries, w.size());
    auto f = t.m_.free_list_;
    while (f != Tree::node_idx_t::invalid()) {
      auto const i = static_cast<std::size_t>(cista::to_idx(f));
      CHK(i < seen.size() && !seen[i], "rtree-free-list", "%s: free list reaches node %zu of %zu (%s)", after, i, seen.size(), i < seen.size() ? "in use or seen" : "out of range");
      seen[i] = 1;
      auto const& n = t.nodes_[f];
      f = n.kind_ == Tree::kind::kEndFreeList ? Tree::node_idx_t::invalid() : typename Tree::node_idx_t{static_cast<typename Tree::node_idx_t::value_t>(n.count_)};
    }
    if (full) {
      Entry all;
      for (unsigned i = 0; i < Dims; ++i) all.lo[i] = static_cast<Num>(-2000), all.hi[i] = static_cast<Num>(2000);
      search(k, all, after, -1);
    }
    note_state(mix(w.size(), mix(t.m_.height_, t.nodes_.size())));
  }
  // stop_after < 0: never stop
  void search(int k, Entry const& q, char const* after, ll stop_after) {
    std::vector<Entry> got, want;
    bool stopped = false, after_stop = false;
    auto const r = call(std::vector<Fault>{}, [&] {
      std::as_const(*s[k]).search(lo(q), hi(q), [&](Coord const& a, Coord const& b, Data const& d) {
        NoSut n;
        after_stop = after_stop || stopped;
        got.push_back(entry(a, b, d));
        if (stop_after >= 0 && static_cast<ll>(got.size()) > stop_after) stopped = true;
        return !stopped;
      });
    });
    CHK(r.ok(), "rtree-spurious", "search failed: %s", r.what.c_str());
    CHK(!after_stop, "rtree-stop", "%s: the search went on after the visitor returned false", after);
    for (auto const& e : m[k]) if (e.overlaps(q)) want.push_back(e);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    if (stopped) {
      CHK(static_cast<ll>(got.size()) == stop_after + 1 && std::includes(want.begin(), want.end(), got.begin(), got.end()), "rtree-stop",
          "%s: a stopped search reported %zu entries that are not all in the box", after, got.size());
      return;
    }
    if (got == want) return;
    std::string d;
    for (auto const& e : want) if (!std::binary_search(got.begin(), got.end(), e)) { d = "misses " + str(e); break; }
    if (d.empty()) for (auto const& e : got) if (!std::binary_search(want.begin(), want.end(), e)) { d = "reports " + str(e); break; }
    violation(O_MODEL, "rtree-search", std::string(after) + ": search in " + str(q) + " reports " + std::to_string(got.size()) + " entries, reference " +
              std::to_string(want.size()) + (d.empty() ? " (some more than once)" : ": " + d));
  }
  // ends the run when the process died
  void alive(CallResult const& r, char const* nm) {
    if (r.out == Out::stopped) {
      CHK(r.faulted() || disk::crashed(), "rtree-spurious", "%s stopped without a fault: %s", nm, r.what.c_str());
      throw EndRun{};
    }
    CHK(r.ok() || r.faulted(), "rtree-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
    if (!r.ok()) mark_nontrivial();
  }
  void insert(Op const& op, int k, Entry e, char const* nm) {
    Data d;
    make_data(d, e.id);
    auto r = call(op, [&] { s[k]->insert(lo(e), hi(e), d); }, MM);
    alive(r, nm);
    if (r.ok()) m[k].push_back(e);
  }
  void remove(int k, Entry e, char const* nm) {
    Data d;
    make_data(d, e.id);
    auto r = call(std::vector<Fault>{}, [&] { s[k]->delete_element(lo(e), hi(e), d); });
    alive(r, nm);
    auto it = std::find(m[k].begin(), m[k].end(), e);
    if (it != m[k].end()) m[k].erase(it);
  }
  template <typename F>
  CallResult replace(Op const& op, int k, F&& f) {
    Slot<Tree> ns;
    auto r = call(op, [&] { ns.construct([&](void* w) { f(w); }); }, true);
    alive(r, rt_op_name(op.code));
    if (r.ok()) {
      s[k].destroy();
      s[k] = ns;
    }
    return r;
  }
  void start(int k) {
    auto r = call(std::vector<Fault>{}, [&] {
      s[k].construct([&](void* w) {
        if constexpr (MM) new (w) Tree{{}, typename Tree::vector_t{cista::mmap{kNodes[k], cista::mmap::protection::WRITE}}};
        else new (w) Tree();
      });
    });
    CHK(r.ok(), "rtree-spurious", "construction failed: %s", r.what.c_str());
    m[k].clear();
  }
  // closes (or loses) the mapped tree and opens it again
  void reopen(Op const& op, int k, bool crash) {
    if constexpr (MM) {
      char const* nm = rt_op_name(op.code);
      auto r = call(op, [&] { s[k]->write_meta(kMeta[k]); }, true);
      alive(r, nm);
      if (!r.ok()) return;  // still open, unchanged
      for (int i = 0; i < N; ++i) {
        if (crash && i != k) {  // everything else in memory is gone as well
          if (s[i]) { auto q = call(std::vector<Fault>{}, [&] { s[i]->write_meta(kMeta[i]); }); CHK(q.ok(), "rtree-spurious", "write_meta failed: %s", q.what.c_str()); }
        }
      }
      if (crash) {
        count("fault:process_crash");
        disk::reboot();
        for (auto& x : s) x.release();
        for (int i = 0; i < N; ++i) open(i);
      } else {
        auto c = call(std::vector<Fault>{}, [&] { s[k].p->~Tree(); }, true);
        alive(c, nm);
        s[k].release();
        open(k);
      }
      mark_nontrivial();
    }
  }
  void open(int k) {
    if constexpr (MM) {
      auto r = call(std::vector<Fault>{}, [&] {
        s[k].construct([&](void* w) {
          new (w) Tree{{}, typename Tree::vector_t{cista::mmap{kNodes[k], cista::mmap::protection::MODIFY}}};
        });
        s[k]->read_meta(kMeta[k]);
      });
      CHK(r.ok(), "rtree-spurious", "reopening a closed tree failed: %s", r.what.c_str());
      count("restarts");
    }
  }
  void exec(Plan const& p) {
    style = static_cast<int>(p.c(2) % 8);
    ll const cap = p.c(3);
    for (int i = 0; i < N; ++i) start(i);
    for (auto const& op : p.ops) {
      char const* nm = rt_op_name(op.code);
      int const k = static_cast<int>(op.a % N), o = 1 - k;
      if (tracing()) trace("  %s k=%d(%zu) b=%lld c=%lld", nm, k, m[k].size(), (ll)op.b, (ll)op.c);
      log_event('O', static_cast<uint64_t>(op.code));
      auto pick = [&](ll x) { return m[k][static_cast<std::size_t>(x) % m[k].size()]; };
      bool both = false;
      switch (op.code) {
        case R_INSERT: {
          if (static_cast<ll>(m[k].size()) >= cap) break;
          auto e = op.c % 6 == 0 && !m[k].empty() ? pick(op.b) : box(op.b);
          if (op.c % 12 != 0) e.id = next_id++;  // sometimes the very same entry twice
          insert(op, k, e, nm);
          break;
        }
        case R_INSERT_RUN:
          for (ll i = 0; i < 1 + op.c && static_cast<ll>(m[k].size()) < cap; ++i) {
            auto e = box(op.b + i);
            e.id = next_id++;
            insert(i == op.c / 2 ? op : Op{}, k, e, nm);
            if (i % 16 == 15) verify(k, nm, false);
          }
          break;
        case R_DELETE: if (!m[k].empty()) remove(k, pick(op.b), nm); break;
        case R_DELETE_RUN: {
          ll const n = op.c % 7 == 0 ? static_cast<ll>(m[k].size()) : op.c;
          for (ll i = 0; i < n && !m[k].empty(); ++i) {
            remove(k, op.b % 3 == 0 ? m[k].front() : op.b % 3 == 1 ? m[k].back() : pick(op.b + i * 7919), nm);
            if (i % 16 == 15) verify(k, nm, false);
          }
          break;
        }
        case R_DELETE_MISS: {
          auto e = !m[k].empty() && op.c % 3 ? pick(op.b) : box(op.b);
          if (op.c % 3 == 1) e.id = next_id + 1000000;
          else if (op.c % 3 == 2) e.hi[Dims - 1] += 1;
          remove(k, e, nm);
          break;
        }
        case R_DELETE_FN: {
          // any entry of the given box with an id in a residue class
          auto e = !m[k].empty() && op.c % 4 ? pick(op.b) : box(op.b);
          ll const mod = 1 + op.c % 3;
          bool hit = false, again = false;
          Entry which{};
          auto r = call(std::vector<Fault>{}, [&] {
            s[k]->delete_element_with_function(lo(e), hi(e), [&](Coord const& a, Coord const& b, Data const& d) {
              NoSut n;
              again = again || hit;
              auto x = entry(a, b, d);
              if (!x.same_box(e) || x.id % mod != 0) return false;
              hit = true;
              which = x;
              return true;
            });
          });
          alive(r, nm);
          CHK(!again, "rtree-delete-fn", "the predicate was asked again after it had accepted an entry");
          bool expect = false;
          for (auto const& x : m[k]) expect = expect || (x.same_box(e) && x.id % mod == 0);
          CHK(hit == expect, "rtree-delete-fn", "delete_element_with_function %s an entry of box %s", hit ? "offered" : "did not find", str(e).c_str());
          if (hit) {
            auto it = std::find(m[k].begin(), m[k].end(), which);
            CHK(it != m[k].end(), "rtree-delete-fn", "the predicate was shown %s, which is not stored", str(which).c_str());
            m[k].erase(it);
          }
          break;
        }
        case R_SEARCH: case R_SEARCH_STOP: {
          auto q = !m[k].empty() && op.c % 2 ? pick(op.b) : box(op.b);
          for (unsigned i = 0; i < Dims; ++i) {  // grow it, touch edges exactly
            q.lo[i] -= static_cast<Num>(op.c % 5 * 10);
            q.hi[i] += static_cast<Num>(op.c % 3 * 20);
          }
          search(k, q, nm, op.code == R_SEARCH ? -1 : op.c % 9);
          break;
        }
        case R_COPY:
          if constexpr (!MM) {
            auto r = replace(op, o, [&](void* w) { new (w) Tree(std::as_const(*s[k])); });
            if (r.ok()) m[o] = m[k];
            both = true;
          }
          break;
        case R_MOVE: {
          Slot<Tree> ns;
          auto r = call(op, [&] { ns.construct([&](void* w) { new (w) Tree(std::move(*s[k])); }); }, true);
          alive(r, nm);
          if (r.ok()) {
            s[k].destroy();
            s[k] = ns;
          }
          break;
        }
        case R_COPY_ASSIGN:
          if constexpr (!MM) {
            auto r = call(op, [&] { *s[o] = std::as_const(*s[k]); }, true);
            alive(r, nm);
            if (r.ok()) m[o] = m[k];
            else { s[o].destroy(); start(o); }  // only assigned or destroyed after a failed assignment
            both = true;
          }
          break;
        case R_MOVE_ASSIGN:
          if constexpr (!MM) {
            auto r = call(op, [&] { *s[o] = std::move(*s[k]); }, true);
            alive(r, nm);
            m[o] = m[k];
            s[k].destroy();
            start(k);
            both = true;
          }
          break;
        case R_SWAP:
          if constexpr (!MM) {
            auto r = call(op, [&] { std::swap(*s[k], *s[o]); });
            alive(r, nm);
            std::swap(m[k], m[o]);
            both = true;
          }
          break;
        case R_RESTART:
          if constexpr (!MM) {
            CallResult r;  // (byte order conversion and fingerprints do not compile for trees)
            switch (op.b % 4) {
              case 0: restart_slot<cista::mode::NONE>(s[k], op.f, r); break;
              case 1: restart_slot<cista::mode::WITH_INTEGRITY>(s[k], op.f, r); break;
              case 2: restart_slot<cista::mode::DEEP_CHECK>(s[k], op.f, r); break;
              case 3: restart_slot<cista::mode::UNCHECKED | cista::mode::WITH_INTEGRITY>(s[k], op.f, r); break;
            }
            alive(r, nm);
          }
          break;
        case R_REOPEN: reopen(op, k, false); break;
        case R_CRASH: reopen(op, k, true); both = true; break;
      }
      verify(k, nm);
      if (both) verify(o, nm);
    }
    for (int i = 0; i < N; ++i) {  // searches of every size at the end
      for (int j = 0; j < 6; ++j) search(i, !m[i].empty() && j % 2 ? m[i][static_cast<std::size_t>(j) * 37 % m[i].size()] : box(j * 11), "end", -1);
    }
    mark_nontrivial();
    for (auto& x : s) x.destroy();
    if (MM) disk::expect_released("tree history");
    heap::expect_no_leak("tree history");
  }
};

static Plan gen_rtree(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(400);
  ll const kind = static_cast<ll>(r.below(8));
  p.cfg = {kind, faults, static_cast<ll>(r.below(8)), r.chance(800) ? r.range(20, 160) : r.range(160, tier ? 1500 : 600)};
  ll n = r.range(3, r.chance(200) ? 120 : 30) * (tier ? 2 : 1);
  std::vector<int> w(N_RT_OPS);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 1, 2, 4}));
  w[R_INSERT] += 4;
  w[R_INSERT_RUN] += 2;
  w[R_CRASH] = w[R_CRASH] ? 1 : 0;
  if (r.chance(400)) w[R_DELETE_RUN] = 0;
  if (kind >= 5) w[R_COPY] = w[R_COPY_ASSIGN] = w[R_MOVE_ASSIGN] = w[R_SWAP] = w[R_RESTART] = 0;
  else w[R_REOPEN] = w[R_CRASH] = 0;
  int total = 0;
  for (auto x : w) total += x;
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>(r.chance(800) ? 0 : 1);
    op.b = static_cast<int64_t>(r.below(100000));
    op.c = static_cast<int64_t>(r.below(100));
    if (faults && kind < 5) random_alloc_fault(r, op, 200);
    else if (faults && r.chance(200)) op.f.push_back({r.chance(200) ? F_IO_ALL : F_IO, r.range(0, 5), r.range(0, 1 << 20)});
    p.ops.push_back(op);
  }
  return p;
}
static void exec_rtree(Plan const& p) {
  namespace off = cista::offset;
  namespace raw = cista::raw;
  switch (p.c(0) % 8) {
    case 0: RtRun<off::rtree<uint32_t, 2, float, 64>, uint32_t, 2, float, 64, false>{}.exec(p); break;
    case 1: RtRun<raw::rtree<uint64_t, 2, double, 16>, uint64_t, 2, double, 16, false>{}.exec(p); break;
    case 2: RtRun<off::rtree<uint32_t, 1, int32_t, 5>, uint32_t, 1, int32_t, 5, false>{}.exec(p); break;
    case 3: RtRun<off::rtree<GeoData, 3, float, 10>, GeoData, 3, float, 10, false>{}.exec(p); break;
    case 4: RtRun<raw::rtree<uint32_t, 2, int32_t, 4>, uint32_t, 2, int32_t, 4, false>{}.exec(p); break;
    case 5: RtRun<cista::mm_rtree<uint32_t, 2, float, 64>, uint32_t, 2, float, 64, true>{}.exec(p); break;
    case 6: RtRun<cista::mm_rtree<uint64_t, 2, int32_t, 5>, uint64_t, 2, int32_t, 5, true>{}.exec(p); break;
    case 7: RtRun<cista::mm_rtree<GeoData, 3, double, 16>, GeoData, 3, double, 16, true>{}.exec(p); break;
  }
}
}  // namespace props
#ifndef PROPS_COMBINED
static std::vector<sim::Harness> const g_h = {{"rtree", props::rt_op_name, props::gen_rtree, props::exec_rtree}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
#endif
