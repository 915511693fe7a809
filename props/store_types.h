// Value types of the storage harnesses, for both pointer families.
#pragma once
#include "gen.h"
#ifndef STORE_NS
#define STORE_NS offset
#endif

namespace props {
namespace data = cista::STORE_NS;
constexpr bool kOffset = std::is_same_v<data::ptr<int>, cista::offset_ptr<int>>;

enum class Color : uint16_t { RED, GREEN, BLUE };
enum class Tiny : uint8_t { A, B, C };
struct IdTag {};
using Id = cista::strong<uint32_t, IdTag>;

struct Leaf {
  uint32_t id_{};
  data::string name_;
  double w_{};
};
inline bool operator==(Leaf const& a, Leaf const& b) { return a.id_ == b.id_ && a.name_ == b.name_; }
struct Plain {
  uint32_t a_{};
  data::vector<uint32_t> v_;
  data::string s_;
  data::vector<data::string> t_;
};
struct Scal {
  bool b_{};
  Color c_{};
  Tiny y_{};
  int8_t i8_{};
  uint16_t u16_{};
  int32_t i32_{};
  uint64_t u64_{};
  float f_{};
  double d_{};
  Id id_{};
  std::array<int16_t, 3> arr_{};
  std::chrono::seconds dur_{};
  std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> tp_{};
  cista::bitset<77> bs_{};
};
struct Mix {
  Scal sc_;
  data::string s_;
  data::vector<uint8_t> bytes_;
  data::vector<Leaf> leaves_;
  data::vector<data::vector<data::string>> nested_;
  data::hash_map<data::string, data::vector<uint32_t>> hm_;
  data::hash_set<uint64_t> hs_;
  data::hash_map<uint32_t, Leaf> hl_;
  std::array<Leaf, 2> la_;
  data::pair<uint16_t, data::string> p_;
  data::unique_ptr<Leaf> up_;
  data::vector<data::unique_ptr<Leaf>> ups_;
};
struct Alt {
  cista::optional<uint64_t> o_;
  data::variant<uint32_t, data::string, Leaf> v_{uint32_t{0}};
  data::vector<data::variant<uint8_t, data::vector<uint16_t>, uint64_t>> vv_;
  cista::tuple<uint8_t, data::string, uint64_t> t_;
  data::vector<cista::tuple<uint16_t, uint64_t>> ts_;
  data::bitvec bv_;
};
struct Txt {
  data::string a_;
  data::string_view b_;
  data::generic_string c_;
  data::vector<data::string_view> vb_;
};
struct Wide {
  uint8_t pad_{};
  data::u16string a_;
  data::string x_;
  data::u32string b_;
  data::vector<data::u16string> va_;
  data::vector<data::u32string> vb_;
};
struct CTxt {
  data::cstring a_;
  uint32_t n_{};
  data::vector<data::cstring> v_;
  data::generic_cstring g_;
  data::vector<data::generic_cstring> gs_;
  data::hash_map<uint32_t, data::cstring> m_;
};
using Paged = cista::paged<data::vector<uint32_t>, uint32_t, uint16_t, 4, 1u << 12>;
struct Jagged {
  data::vecvec<uint32_t, uint16_t> vv_;
  data::vecvec<Id, data::string> vs_;
  data::mutable_fws_multimap<uint32_t, uint64_t> mm_;
  data::fws_multimap<uint32_t, uint32_t> fm_;
  cista::paged_vecvec<data::vector<cista::page<uint32_t, uint16_t>>, Paged, uint32_t> pv_;
  data::nvec<uint32_t, uint16_t, 2> nv_;
  data::flat_matrix<uint32_t> fl_;
};
struct Node {
  uint32_t id_{};
  data::string name_;
  data::vector<data::ptr<Node>> out_;
  data::ptr<Node> back_{nullptr};
};
struct Graph {
  data::indexed_vector<Node> nodes_;
  data::vector<data::unique_ptr<Node>> owned_;
  cista::indexed<Leaf> anchor_;
  data::ptr<Node> first_{nullptr};
  data::ptr<cista::indexed<Leaf>> to_anchor_{nullptr};
  data::vector<data::ptr<Node>> all_;
  data::ptr<void> none_{nullptr};
};
struct alignas(16) Al16 {
  uint8_t a_{};
  data::vector<uint64_t> v_;
};
struct alignas(32) Cell {
  uint32_t x_{};
};
struct Al32 {
  uint8_t a_{};
  data::vector<Cell> cells_;
  uint8_t b_{};
  data::unique_ptr<Cell> c_;
};
// floating point cells are stored in one piece (integers one by one)
struct Big {
  uint32_t a_{};
  data::vector<double> v_;
  data::string s_;
};

template <>
struct G<Big> {
  static void gen(Big& t, GR& g) {
    G<uint32_t>::gen(t.a_, g);
    // image sizes around the checksum block size of the file target
    auto const chunk = 512 * 1024 / 8;
    auto n = chunk * static_cast<int>(g.r.below(3)) + static_cast<int>(g.r.range(-14, 6));
    if (g.r.chance(200)) n = static_cast<int>(g.r.below(9000));
    t.v_.resize(static_cast<uint32_t>(n < 0 ? 0 : n));
    auto x = g.r.next();
    for (std::size_t i = 0; i < t.v_.size(); i += 61) t.v_[static_cast<uint32_t>(i)] = static_cast<double>((x >> (i & 31)) & 0xffff);
    G<data::string>::gen(t.s_, g);
  }
  static void dump(Dump& d, Big const& t) {
    G<uint32_t>::dump(d, t.a_);
    d.num(static_cast<ll>(t.v_.size()));
    uint64_t h = 1;
    for (std::size_t i = 0; i < t.v_.size(); ++i) {
      uint64_t w = 0;
      std::memcpy(&w, t.v_.data() + i, 8);
      h = (h ^ w) * 0x9E3779B97F4A7C15ull;
      h ^= h >> 29;
    }
    d.num(static_cast<ll>(h));
    G<data::string>::dump(d, t.s_);
  }
  static void mut(Big& t, GR& g) { t.v_.push_back(static_cast<double>(g.v())); G<data::string>::mut(t.s_, g); }
  static void poke(Big& t, GR& g) { G<data::vector<double>>::poke(t.v_, g); }
};
template <>
struct G<Graph> {
  static Node* any(Graph& t, GR& g) {
    if (t.nodes_.size() == 0 || g.r.chance(100)) return nullptr;
    if (t.owned_.size() != 0 && g.r.chance(250)) return t.owned_[static_cast<uint32_t>(g.r.below(t.owned_.size()))].get();
    return &t.nodes_[static_cast<uint32_t>(g.r.below(t.nodes_.size()))];
  }
  static void edges(Graph& t, Node& n, GR& g) {
    auto k = g.r.below(4);
    for (uint64_t i = 0; i < k; ++i) n.out_.push_back(any(t, g));
    n.back_ = any(t, g);
  }
  static void gen(Graph& t, GR& g) {
    auto n = g.n();
    for (std::size_t i = 0; i < n; ++i) {
      t.nodes_.emplace_back();
      t.nodes_.back().id_ = static_cast<uint32_t>(i);
      G<data::string>::gen(t.nodes_.back().name_, g);
    }
    auto m = g.r.below(4);
    for (std::size_t i = 0; i < m; ++i) {
      t.owned_.emplace_back(data::make_unique<Node>());
      G<data::string>::gen(t.owned_.back()->name_, g);
    }
    for (auto& x : t.nodes_) edges(t, x, g);
    for (auto& x : t.owned_) edges(t, *x, g);
    t.first_ = any(t, g);
    for (auto& x : t.nodes_) if (g.r.chance(600)) t.all_.push_back(&x);
    G<Leaf>::gen(static_cast<Leaf&>(t.anchor_), g);
    t.to_anchor_ = g.r.chance(700) ? &t.anchor_ : nullptr;
  }
  static void dump_node(Dump& d, Node const& n) {
    d.num(n.id_);
    G<data::string>::dump(d, n.name_);
    d.num(static_cast<ll>(n.out_.size()));
    d.block(n.out_.data(), n.out_.size() * sizeof(n.out_[0]), "a vector");
    for (auto const& p : n.out_) d.block(static_cast<Node const*>(p), p == nullptr ? 0 : sizeof(Node), "a referenced object"), d.ref(static_cast<Node const*>(p));
    d.block(static_cast<Node const*>(n.back_), n.back_ == nullptr ? 0 : sizeof(Node), "a referenced object");
    d.ref(static_cast<Node const*>(n.back_));
  }
  static void dump(Dump& d, Graph const& t) {
    d.block(t.nodes_.data(), t.nodes_.size() * sizeof(Node), "a vector");
    d.block(t.owned_.data(), t.owned_.size() * sizeof(t.owned_[0]), "a vector");
    for (auto const& x : t.nodes_) d.visit(&x);
    for (auto const& x : t.owned_) d.block(x.get(), x == nullptr ? 0 : sizeof(Node), "an owned object"), d.visit(x.get());
    d.visit(&t.anchor_);
    d.num(static_cast<ll>(t.nodes_.size()));
    for (auto const& x : t.nodes_) dump_node(d, x);
    d.num(static_cast<ll>(t.owned_.size()));
    for (auto const& x : t.owned_) if (x != nullptr) dump_node(d, *x);
    d.block(static_cast<Node const*>(t.first_), t.first_ == nullptr ? 0 : sizeof(Node), "a referenced object");
    d.ref(static_cast<Node const*>(t.first_));
    G<Leaf>::dump(d, static_cast<Leaf const&>(t.anchor_));
    d.ref(static_cast<cista::indexed<Leaf> const*>(t.to_anchor_));
    d.num(static_cast<ll>(t.all_.size()));
    d.block(t.all_.data(), t.all_.size() * sizeof(t.all_[0]), "a vector");
    for (auto const& p : t.all_) d.block(static_cast<Node const*>(p), p == nullptr ? 0 : sizeof(Node), "a referenced object"), d.ref(static_cast<Node const*>(p));
    d.ref(static_cast<void const*>(t.none_));
  }
  static void mut(Graph& t, GR& g) {
    if (t.nodes_.size() != 0) {
      auto& n = t.nodes_[static_cast<uint32_t>(g.r.below(t.nodes_.size()))];
      G<data::string>::gen(n.name_, g);
      edges(t, n, g);
    }
    t.owned_.emplace_back(data::make_unique<Node>());
    edges(t, *t.owned_.back(), g);
    t.first_ = any(t, g);
  }
  static void poke(Graph& t, GR& g) {
    for (auto& x : t.nodes_) if (g.r.chance(500)) { G<uint32_t>::gen(x.id_, g); G<data::string>::poke(x.name_, g); }
  }
};

// inherited members, nested combinations
struct Base {
  auto cista_members() noexcept { return std::tie(n_, s_); }
  uint32_t n_{};
  data::string s_;
};
struct Derived : Base {
  auto cista_members() noexcept { return std::tie(*static_cast<Base*>(this), v_, m_, z_); }
  data::vector<uint16_t> v_;
  data::hash_map<Id, data::string> m_;
  uint64_t z_{};
};
struct Deep {
  auto cista_members() noexcept { return std::tie(pad_, d_, dv_, os_, ol_, ts_, mm_, hs_, as_, vm_, bv_, vhs_, vv_, ps_, av_, up_); }
  uint8_t pad_{};
  Derived d_;
  data::vector<Derived> dv_;
  cista::optional<data::string> os_;
  data::vector<cista::optional<Leaf>> ol_;
  data::vector<cista::tuple<uint8_t, data::string, data::vector<uint32_t>>> ts_;
  data::hash_map<data::string, data::hash_map<uint32_t, data::string>> mm_;
  data::hash_set<data::string> hs_;
  data::vector<std::array<data::string, 2>> as_;
  data::vector_map<Id, data::string> vm_;
  data::vector<data::bitvec> bv_;
  data::vector<data::hash_set<uint32_t>> vhs_;
  data::vector<data::variant<Base, data::unique_ptr<Leaf>, cista::tuple<uint16_t, data::string>>> vv_;
  data::vector<data::pair<data::string, data::pair<uint8_t, data::vector<double>>>> ps_;
  std::array<data::vector<data::string>, 2> av_;
  data::unique_ptr<data::vector<data::unique_ptr<data::string>>> up_;
};

using RootVec = data::vector<data::string>;
using RootMap = data::hash_map<uint32_t, data::string>;
using RootVar = data::variant<uint32_t, data::string, data::vector<data::string>>;
using RootPtr = data::unique_ptr<Leaf>;

}  // namespace props
