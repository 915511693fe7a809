// Histories over relative pointers whose storage moves (C20).
#include "common.h"
#include "cista/containers/offset_ptr.h"

namespace props {
enum PtrOp {
  Q_SET, Q_NULL, Q_COPY, Q_MOVE, Q_CTOR_COPY, Q_CTOR_MOVE, Q_SWAP, Q_INC, Q_DEC, Q_POST_INC, Q_POST_DEC, Q_ADD, Q_SUB, Q_SELF,
  Q_WRITE, Q_NODE, Q_NODE_COPY, Q_VOID, Q_VOID_COPY, Q_INDIRECT, Q_CONST, Q_COMPARE, Q_RELOCATE, Q_FORK, Q_VEC_PUSH, Q_VEC_ERASE,
  Q_VEC_SORT, Q_MAP, N_PTR_OPS
};
static char const* ptr_op_name(int c) {
  static char const* n[] = {"=address", "=null", "=copy", "=move", "copy-construct", "move-construct", "swap", "++p", "--p", "p++",
    "p--", "+", "-", "self-assign", "write through", "link nodes", "copy node", "void =address", "void =copy", "pointer to pointer",
    "pointer to const", "compare", "relocate", "fork", "vector push", "vector erase", "vector sort", "map"};
  return c >= 0 && c < N_PTR_OPS ? n[c] : "?";
}
struct StepTag {};
using Step = cista::strong<int32_t, StepTag>;
constexpr int CELLS = 12, PTRS = 6, NODES = 6, VOIDS = 3, PPS = 3, CONSTS = 2;
struct Node {
  cista::offset_ptr<Node> next_;  // first: a node linked to itself has distance 0
  cista::offset_ptr<ll> cell_;
  ll id_{0};
};
struct Arena {
  cista::offset_ptr<ll> p_[PTRS];
  cista::offset_ptr<void> v_[VOIDS];
  ll cells_[CELLS];
  Node nodes_[NODES];
  cista::offset_ptr<cista::offset_ptr<ll>> pp_[PPS];
  cista::offset_ptr<ll const> c_[CONSTS];
};
struct PtrModel {  // -1: null
  ll cells[CELLS];
  int p[PTRS], v[VOIDS], next[NODES], cell[NODES], pp[PPS], c[CONSTS];
  std::vector<int> vec;
  std::map<int, int> map;  // cell -> cell
};
struct PtrRun {
  Arena* a{nullptr};
  PtrModel m;
  Slot<cista::offset::vector<cista::offset_ptr<ll>>> vec;
  Slot<cista::offset::hash_map<int32_t, cista::offset_ptr<ll>>> map;

  void const* at(int i) const { return i < 0 ? nullptr : &a->cells_[i]; }
  template <typename P>
  void same(P const& p, void const* want, char const* what, int i, char const* after) {
    CHK(static_cast<void const*>(p.get()) == want, "ptr-target", "%s: %s %d refers to another place", after, what, i);
    CHK(static_cast<bool>(p) == (want != nullptr), "ptr-null", "%s: %s %d: emptiness differs", after, what, i);
    CHK((p == nullptr) == (want == nullptr) && (p != nullptr) == (want != nullptr) && (nullptr == p) == (want == nullptr) && (nullptr != p) == (want != nullptr), "ptr-null",
        "%s: comparing %s %d with nullptr", after, what, i);
  }
  void verify(Arena* b, PtrModel const& m, char const* after) {
    auto keep = a;
    a = b;
    for (int i = 0; i < CELLS; ++i) CHK(a->cells_[i] == m.cells[i], "ptr-value", "%s: value %d differs", after, i);
    for (int i = 0; i < PTRS; ++i) {
      same(a->p_[i], at(m.p[i]), "pointer", i, after);
      if (m.p[i] >= 0) CHK(*a->p_[i] == m.cells[m.p[i]] && a->p_[i][0] == m.cells[m.p[i]], "ptr-value", "%s: value behind pointer %d differs", after, i);
    }
    for (int i = 0; i < VOIDS; ++i) same(a->v_[i], at(m.v[i]), "void pointer", i, after);
    for (int i = 0; i < CONSTS; ++i) same(a->c_[i], at(m.c[i]), "constant pointer", i, after);
    for (int i = 0; i < PPS; ++i) {
      same(a->pp_[i], m.pp[i] < 0 ? nullptr : &a->p_[m.pp[i]], "pointer to pointer", i, after);
      if (m.pp[i] >= 0) CHK(static_cast<void const*>(a->pp_[i]->get()) == at(m.p[m.pp[i]]), "ptr-indirect", "%s: double indirection %d differs", after, i);
    }
    for (int i = 0; i < NODES; ++i) {
      CHK(a->nodes_[i].id_ == i, "ptr-value", "%s: node %d was overwritten", after, i);
      same(a->nodes_[i].next_, m.next[i] < 0 ? nullptr : &a->nodes_[m.next[i]], "node link", i, after);
      same(a->nodes_[i].cell_, at(m.cell[i]), "node value", i, after);
      if (m.next[i] >= 0) CHK(a->nodes_[i].next_->id_ == m.next[i], "ptr-arrow", "%s: node behind link %d differs", after, i);
    }
    a = keep;
  }
  void verify_outside(char const* after) {
    CHK(vec->size() == m.vec.size(), "ptr-vec", "%s: size of the pointer vector", after);
    for (size_t i = 0; i < m.vec.size(); ++i) same((*vec)[static_cast<uint32_t>(i)], at(m.vec[i]), "vector entry", static_cast<int>(i), after);
    CHK(map->size() == m.map.size(), "ptr-map", "%s: size of the pointer map", after);
    for (auto [k, v] : m.map) {
      auto it = map->find(k);
      CHK(it != map->end(), "ptr-map", "%s: map entry %d", after, k);
      same(it->second, at(v), "map entry", k, after);
    }
  }
  static Arena* raw_arena() { return static_cast<Arena*>(heap::image_alloc(sizeof(Arena), alignof(Arena))); }
  // everything outside the arena that refers into it is pointed at the new place
  void relocate(bool keep_old) {
    auto b = raw_arena();
    std::memcpy(static_cast<void*>(b), a, sizeof(Arena));
    auto old = a;
    if (keep_old) {
      verify(old, m, "the original of a copied block");
      verify(b, m, "the copy of a block");
      // a change in the copy is not a change in the original
      b->cells_[0] ^= 1;
      verify(old, m, "the original of a changed copy");
      b->cells_[0] ^= 1;
    }
    a = b;
    heap::image_free(old);
    vec.destroy();
    map.destroy();
    sut([&] {
      vec.construct([](void* w) { new (w) cista::offset::vector<cista::offset_ptr<ll>>(); });
      map.construct([](void* w) { new (w) cista::offset::hash_map<int32_t, cista::offset_ptr<ll>>(); });
      for (auto i : m.vec) {
        if (i < 0) vec->push_back(nullptr);
        else vec->push_back(cista::offset_ptr<ll>{&a->cells_[i]});
      }
      for (auto [k, v] : m.map) (*map)[k] = v < 0 ? nullptr : &a->cells_[v];
    });
    count("relocations");
    mark_nontrivial();
  }
  void exec(Plan const& p) {
    a = raw_arena();
    new (a) Arena();
    std::fill(std::begin(m.p), std::end(m.p), -1);
    std::fill(std::begin(m.v), std::end(m.v), -1);
    std::fill(std::begin(m.c), std::end(m.c), -1);
    std::fill(std::begin(m.pp), std::end(m.pp), -1);
    std::fill(std::begin(m.next), std::end(m.next), -1);
    std::fill(std::begin(m.cell), std::end(m.cell), -1);
    for (int i = 0; i < CELLS; ++i) a->cells_[i] = m.cells[i] = i * 1000;
    for (int i = 0; i < NODES; ++i) a->nodes_[i].id_ = i;
    sut([&] {
      vec.construct([](void* w) { new (w) cista::offset::vector<cista::offset_ptr<ll>>(); });
      map.construct([](void* w) { new (w) cista::offset::hash_map<int32_t, cista::offset_ptr<ll>>(); });
    });
    for (auto const& op : p.ops) {
      char const* nm = ptr_op_name(op.code);
      int const i = static_cast<int>(op.a % PTRS), j = static_cast<int>(op.b % PTRS);
      int const t = static_cast<int>(op.c % CELLS);
      int const n = static_cast<int>(op.a % NODES), o = static_cast<int>(op.b % NODES);
      auto& P = a->p_;
      if (tracing()) trace("  %s i=%d j=%d t=%d", nm, i, j, t);
      log_event('O', static_cast<uint64_t>(op.code));
      CallResult r;
      switch (op.code) {
        case Q_SET:
          r = call(op, [&] { if (op.b & 1) P[i] = &a->cells_[t]; else new (&P[i]) cista::offset_ptr<ll>{&a->cells_[t]}; });
          m.p[i] = t;
          break;
        case Q_NULL:
          r = call(op, [&] {
            switch (op.b % 4) {
              case 0: P[i] = nullptr; break;
              case 1: P[i] = static_cast<ll*>(nullptr); break;
              case 2: new (&P[i]) cista::offset_ptr<ll>{}; break;
              case 3: new (&P[i]) cista::offset_ptr<ll>{nullptr}; break;
            }
          });
          m.p[i] = -1;
          break;
        case Q_COPY: r = call(op, [&] { P[i] = P[j]; }); m.p[i] = m.p[j]; break;
        case Q_MOVE: r = call(op, [&] { P[i] = std::move(P[j]); }); m.p[i] = m.p[j]; break;  // like plain pointers
        case Q_CTOR_COPY: case Q_CTOR_MOVE:
          if (i == j) break;
          r = call(op, [&] {
            if (op.code == Q_CTOR_COPY) new (&P[i]) cista::offset_ptr<ll>(P[j]);
            else new (&P[i]) cista::offset_ptr<ll>(std::move(P[j]));
          });
          m.p[i] = m.p[j];
          break;
        case Q_SWAP: r = call(op, [&] { std::swap(P[i], P[j]); }); std::swap(m.p[i], m.p[j]); break;
        case Q_INC: case Q_POST_INC: {
          if (m.p[i] < 0 || m.p[i] + 1 >= CELLS) break;
          ll* ret = nullptr;
          r = call(op, [&] { ret = op.code == Q_INC ? (++P[i]).get() : (P[i]++).get(); });
          CHK(ret == &a->cells_[m.p[i] + (op.code == Q_INC)], "ptr-inc", "the value of %s is another position", nm);
          ++m.p[i];
          break;
        }
        case Q_DEC: case Q_POST_DEC: {
          if (m.p[i] <= 0) break;
          ll* ret = nullptr;
          r = call(op, [&] { ret = op.code == Q_DEC ? (--P[i]).get() : (P[i]--).get(); });
          CHK(ret == &a->cells_[m.p[i] - (op.code == Q_DEC)], "ptr-inc", "the value of %s is another position", nm);
          --m.p[i];
          break;
        }
        case Q_ADD: case Q_SUB: {
          if (m.p[i] < 0) break;
          int const d = op.code == Q_ADD ? t - m.p[i] : m.p[i] - t;
          r = call(op, [&] {
            if (op.b & 8) P[j] = op.code == Q_ADD ? P[i] + Step{d} : P[i] - Step{d};
            else if (op.b & 16) P[j] = op.code == Q_ADD ? P[i] + static_cast<ll>(d) : P[i] - static_cast<ll>(d);
            else P[j] = op.code == Q_ADD ? P[i] + d : P[i] - d;
          });
          m.p[j] = t;
          break;
        }
        case Q_SELF: {
          r = call(op, [&] {
            auto& x = P[i];
            auto& y = P[i];
            if (op.b & 1) x = y;
            else x = std::move(y);
          });
          break;
        }
        case Q_WRITE: {
          if (m.p[i] < 0) break;
          ll const x = op.b * 7 + op.c;
          int const k = m.p[i];
          r = call(op, [&] {
            if (op.b % 3 == 0) *P[i] = x;
            else if (op.b % 3 == 1) P[i][static_cast<size_t>(0)] = x;
            else *P[i].get() = x;
          });
          m.cells[k] = x;
          if (k + 1 < CELLS) CHK(P[i][1] == m.cells[k + 1], "ptr-index", "p[1] is another value");
          break;
        }
        case Q_NODE:
          r = call(op, [&] {
            a->nodes_[n].next_ = op.c % 5 == 0 ? nullptr : &a->nodes_[o];
            a->nodes_[n].cell_ = P[i];
          });
          m.next[n] = op.c % 5 == 0 ? -1 : o;
          m.cell[n] = m.p[i];
          break;
        case Q_NODE_COPY: {  // a whole aggregate with its pointers
          if (n == o) break;
          r = call(op, [&] {
            if (op.c & 1) {
              a->nodes_[n] = a->nodes_[o];
            } else {
              Node tmp{a->nodes_[o]};  // on the stack, far away
              a->nodes_[n] = std::move(tmp);
            }
            a->nodes_[n].id_ = n;
          });
          m.next[n] = m.next[o];
          m.cell[n] = m.cell[o];
          break;
        }
        case Q_VOID: {
          int const q = static_cast<int>(op.a % VOIDS);
          r = call(op, [&] {
            if (op.b % 5 == 0) a->v_[q] = nullptr;
            else if (op.b % 5 == 1) a->v_[q] = P[i].get();
            else if (op.b % 5 == 2) new (&a->v_[q]) cista::offset_ptr<void>{&a->cells_[t]};
            else a->v_[q] = &a->cells_[t];
          });
          m.v[q] = op.b % 5 == 0 ? -1 : op.b % 5 == 1 ? m.p[i] : t;
          break;
        }
        case Q_VOID_COPY: {
          int const q = static_cast<int>(op.a % VOIDS), w = static_cast<int>(op.b % VOIDS);
          if (q == w && op.c % 4 > 1) break;
          r = call(op, [&] {
            switch (op.c % 4) {
              case 0: a->v_[q] = a->v_[w]; break;
              case 1: a->v_[q] = std::move(a->v_[w]); break;
              case 2: new (&a->v_[q]) cista::offset_ptr<void>(a->v_[w]); break;
              case 3: new (&a->v_[q]) cista::offset_ptr<void>(std::move(a->v_[w])); break;
            }
          });
          m.v[q] = m.v[w];
          break;
        }
        case Q_INDIRECT: {
          int const q = static_cast<int>(op.a % PPS);
          if (op.c % 3 == 0 && m.pp[q] >= 0) {  // assign through the second level
            r = call(op, [&] { *a->pp_[q] = P[j]; });
            m.p[m.pp[q]] = m.p[j];
          } else {
            r = call(op, [&] { a->pp_[q] = op.c % 7 == 0 ? nullptr : &P[j]; });
            m.pp[q] = op.c % 7 == 0 ? -1 : j;
          }
          break;
        }
        case Q_CONST: {
          int const q = static_cast<int>(op.a % CONSTS);
          r = call(op, [&] { if (op.b & 1) a->c_[q] = P[i].get(); else a->c_[q] = &a->cells_[t]; });
          m.c[q] = op.b & 1 ? m.p[i] : t;
          break;
        }
        case Q_COMPARE: {
          auto const& x = P[i];
          auto const& y = P[j];
          bool const eq = m.p[i] == m.p[j];
          CHK((x == y) == eq && (x != y) == !eq, "ptr-compare", "comparing pointers %d and %d", i, j);
          ll* raw = &a->cells_[t];
          CHK((x == raw) == (m.p[i] == t) && (x != raw) == (m.p[i] != t) && (raw == x) == (m.p[i] == t), "ptr-compare", "comparing pointer %d with an address", i);
          if (m.p[i] >= 0 && m.p[j] >= 0) {
            CHK((x < y) == (m.p[i] < m.p[j]) && (x >= y) == (m.p[i] >= m.p[j]) && (x > y) == (m.p[i] > m.p[j]) && (x <= y) == (m.p[i] <= m.p[j]), "ptr-compare", "ordering pointers %d and %d", i, j);
            CHK(x.get() - y.get() == m.p[i] - m.p[j], "ptr-compare", "distance of pointers %d and %d", i, j);
          }
          auto const& u = a->v_[op.a % VOIDS];
          auto const& w = a->v_[op.b % VOIDS];
          bool const veq = m.v[op.a % VOIDS] == m.v[op.b % VOIDS];
          CHK((u == w) == veq && (u != w) == !veq, "ptr-compare", "comparing two void pointers");
          CHK(static_cast<void*>(x) == at(m.p[i]) && static_cast<void const*>(y) == at(m.p[j]) && static_cast<void*>(u) == at(m.v[op.a % VOIDS]), "ptr-convert", "conversion to a plain pointer");
          break;
        }
        case Q_RELOCATE: case Q_FORK: relocate(op.code == Q_FORK); break;
        case Q_VEC_PUSH: {  // growing moves every pointer
          int const v = op.b % 4 == 0 ? m.p[i] : t;
          r = call(op, [&] {
            if (op.b % 4 == 0) vec->push_back(P[i]);
            else if (op.b % 4 == 1) vec->emplace_back(&a->cells_[t]);
            else vec->insert(vec->begin() + static_cast<ptrdiff_t>(static_cast<size_t>(op.a) % (m.vec.size() + 1)), cista::offset_ptr<ll>{&a->cells_[t]});
          });
          if (r.ok()) {
            if (op.b % 4 <= 1) m.vec.push_back(v);
            else m.vec.insert(m.vec.begin() + static_cast<ptrdiff_t>(static_cast<size_t>(op.a) % (m.vec.size() + 1)), t);
          }
          break;
        }
        case Q_VEC_ERASE: {
          if (m.vec.empty()) break;
          auto const q = static_cast<ptrdiff_t>(static_cast<size_t>(op.b) % m.vec.size());
          r = call(op, [&] { vec->erase(vec->begin() + q); });
          m.vec.erase(m.vec.begin() + q);
          break;
        }
        case Q_VEC_SORT:
          r = call(op, [&] {
            if (op.b & 1) std::sort(vec->begin(), vec->end(), [](auto const& x, auto const& y) { return x.get() < y.get(); });
            else std::reverse(vec->begin(), vec->end());
          });
          if (op.b & 1) std::sort(m.vec.begin(), m.vec.end());
          else std::reverse(m.vec.begin(), m.vec.end());
          break;
        case Q_MAP: {
          auto const key = static_cast<int32_t>(op.b % 40);
          int stage = 0;
          r = call(op, [&] {
            auto& ref = (*map)[key];
            stage = 1;
            ref = P[i];
          });
          if (stage == 1) m.map[key] = m.p[i];
          break;
        }
      }
      CHK(r.ok() || r.faulted(), "ptr-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
      if (!r.ok()) mark_nontrivial();
      verify(a, m, nm);
      verify_outside(nm);
      note_state(mix(mix(static_cast<uint64_t>(m.p[0] + 1), static_cast<uint64_t>(m.p[1] + 1)), mix(static_cast<uint64_t>(m.v[0] + 1), m.vec.size())));
    }
    vec.destroy();
    map.destroy();
    heap::image_free(a);
    heap::expect_no_leak("pointer history");
  }
};
static Plan gen_ptr(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(400);
  p.cfg = {0, faults};
  ll n = r.range(5, r.chance(200) ? 250 : 60) * (tier ? 2 : 1);
  std::vector<int> w(N_PTR_OPS);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 2, 3}));
  w[Q_SET] += 3;
  w[Q_RELOCATE] = static_cast<int>(r.below(3));
  w[Q_FORK] = static_cast<int>(r.below(2));
  int total = 0;
  for (auto x : w) total += x;
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>(r.below(1000));
    op.b = static_cast<int64_t>(r.below(1000));
    op.c = static_cast<int64_t>(r.below(1000));
    if (faults && op.code >= Q_VEC_PUSH) random_alloc_fault(r, op, 250);
    p.ops.push_back(op);
  }
  return p;
}
static void exec_ptr(Plan const& p) { PtrRun{}.exec(p); }
}  // namespace props
static std::vector<sim::Harness> const g_h = {{"optr", props::ptr_op_name, props::gen_ptr, props::exec_ptr}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
