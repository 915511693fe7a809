# Round 4: written from the property texts; see b1.py for the format.
H='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
C=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
'''
I="include/cista/"
ASAN="-fsanitize=address"
BUGS=[
dict(id="c20-void-copy", prop="C20", edits=[(I+"containers/offset_ptr.h","""  ~offset_ptr() noexcept = default;

  offset_t ptr_to_offset(T const* p) const noexcept {
    return p == nullptr ? NULLPTR_OFFSET
                        : static_cast<offset_t>(to_offset(p) - to_offset(this));
  }

  explicit operator bool()""","""  ~offset_ptr() noexcept = default;

  offset_t ptr_to_offset(T const* p) const noexcept {
    return p == nullptr || static_cast<void const*>(p) == static_cast<void const*>(this)
               ? NULLPTR_OFFSET
               : static_cast<offset_t>(to_offset(p) - to_offset(this));
  }

  explicit operator bool()""")],
 needs="a relative pointer that refers to its own address (first member of a node linked to itself)", breaks="the pointer becomes empty",
 demo=C+'''
struct N { cista::offset_ptr<N> next_; int v_{7}; };
int main() { N n; n.next_ = &n; REQ(n.next_ != nullptr); REQ(n.next_->v_ == 7); }
'''),
dict(id="c20-void-assign", prop="C20", edits=[(I+"containers/offset_ptr.h","""  offset_ptr& operator=(offset_ptr&& o) noexcept {
    offset_ = ptr_to_offset(o.get());
    return *this;
  }

  offset_t ptr_to_offset""","""  offset_ptr& operator=(offset_ptr&& o) noexcept {
    offset_ = o.offset_;
    return *this;
  }

  offset_t ptr_to_offset""")],
 needs="move-assigning one untyped relative pointer to another", breaks="the target refers to another address",
 demo=C+'''
int main() { int x = 3; cista::offset_ptr<void> a{&x}, b; b = std::move(a); REQ(b.get() == &x); }
'''),
dict(id="c01-pair-offset", prop="C01", edits=[(I+"serialization.h","""void serialize(Ctx& c, pair<A, B> const* origin, offset_t const pos) {
  using Type = decay_t<decltype(*origin)>;
  serialize(c, &origin->first, pos + cista_member_offset(Type, first));
  serialize(c, &origin->second, pos + cista_member_offset(Type, second));""","""void serialize(Ctx& c, pair<A, B> const* origin, offset_t const pos) {
  using Type = decay_t<decltype(*origin)>;
  serialize(c, &origin->first, pos + cista_member_offset(Type, first));
  serialize(c, &origin->second,
            pos + static_cast<offset_t>(
                      (sizeof(A) + std::alignment_of_v<A> - 1U) /
                      std::alignment_of_v<A> * std::alignment_of_v<A>));""")],
 needs="a pair whose second type is aligned more strictly than the first one's size, holding a pointer", breaks="pointers and sizes are written between the members",
 demo=C+'''
int main() {
  data::vector<cista::pair<std::uint16_t, data::string>> v; v.emplace_back(cista::pair<std::uint16_t, data::string>{std::uint16_t{4}, data::string{"a rather long string, not inlined"}});
  auto b = cista::serialize(v);
  auto r = cista::deserialize<decltype(v)>(b);
  REQ((*r)[0].first == 4); REQ((*r)[0].second == std::string_view{"a rather long string, not inlined"});
}
'''),
dict(id="c01-range-last", prop="C01", edits=[(I+"serialization.h","""    auto const vec_it = vector_ranges_.upper_bound(ptr);""","""    auto const vec_it = vector_ranges_.lower_bound(ptr);""")],
 needs="a plain pointer to the first element of an indexed vector of types that are not tracked one by one", breaks="the pointer is stored as empty",
 demo=C+'''
struct S { data::indexed_vector<std::uint32_t> v_; data::ptr<std::uint32_t> p_; };
int main() {
  S s; for (auto i = 0U; i < 5; ++i) s.v_.push_back(i + 10); s.p_ = &s.v_[0];
  auto b = cista::serialize(s); auto r = cista::deserialize<S>(b);
  REQ(r->p_ != nullptr); REQ(static_cast<std::uint32_t const*>(r->p_) == &r->v_[0]);
}
'''),
dict(id="c01-be-timepoint", prop="C01", edits=[(I+"serialization.h","""  c.convert_endian(*reinterpret_cast<typename Dur::rep*>(el));""","""  c.convert_endian(*reinterpret_cast<std::int32_t*>(el));""")],
 needs="a time point in an image of the other byte order", breaks="the loaded time differs",
 demo=C+'''#include <chrono>
struct S { std::chrono::system_clock::time_point t_; };
int main() {
  constexpr auto M = cista::mode::SERIALIZE_BIG_ENDIAN; constexpr auto L = cista::mode::DESERIALIZE_BIG_ENDIAN; 
  S s{std::chrono::system_clock::time_point{std::chrono::system_clock::duration{0x1122334455667788LL}}};
  auto b = cista::serialize<M>(s); auto r = cista::deserialize<S, L>(b);
  REQ(r->t_ == s.t_);
}
'''),
dict(id="c03-checksum-tail", prop="C03", edits=[(I+"serialization.h","""                   static_cast<std::size_t>(to - from - data_start(Mode))}),
           "invalid checksum");""","""                   static_cast<std::size_t>(to - from - data_start(Mode))}) ||
               to - from == static_cast<std::ptrdiff_t>(
                                static_cast<std::size_t>(root_start<T>(Mode)) +
                                serialized_size<T>()),
           "invalid checksum");""")],
 needs="damage to an image that consists of the root object alone", breaks="the damage is not noticed",
 demo=C+'''
struct S { std::uint64_t a_{5}, b_{6}; };
int main() {
  constexpr auto M = cista::mode::WITH_INTEGRITY; S s; auto b = cista::serialize<M>(s);
  b[b.size() - 3] ^= 4; auto thrown = false; try { cista::deserialize<S, M>(b); } catch (std::exception const&) { thrown = true; } REQ(thrown);
}
'''),
dict(id="c06-mmap-pad", prop="C06", edits=[(I+"targets/buf.h","""    if (alignment > 1U && buf_.size() != 0U) {""","""    if (alignment > 1U && num_bytes != 0U && buf_.size() != 0U) {"""),(I+"targets/file.h","""    if (alignment > 1U) {
      auto unaligned_ptr""","""    if (alignment > 1U && alignment <= 8U) {
      auto unaligned_ptr""")],
 needs="an object aligned to 16 bytes or more, stored in a file at an unaligned position", breaks="file and buffer images differ",
 demo=C+'''#include "cista/targets/file.h"
#include <unistd.h>
struct alignas(16) V { std::uint64_t a_{1}, b_{2}; };
struct S { data::vector<std::uint8_t> p_; data::vector<V> v_; };
int main() {
  char dir[] = "/tmp/demoXXXXXX"; REQ(mkdtemp(dir)); auto const p = std::string{dir} + "/f";
  S s; s.p_.resize(5U); s.v_.emplace_back();
  auto const b = cista::serialize(s); bool same;
  { { cista::file f{p.c_str(), "w+"}; cista::serialize(f, s); } cista::file f{p.c_str(), "r"}; auto const c = f.content(); same = c.size() == b.size() && std::memcmp(c.data(), b.data(), b.size()) == 0; }
  unlink(p.c_str()); rmdir(dir); REQ(same);
}
'''),
dict(id="c07-wide-size", prop="C07", edits=[(I+"serialization.h","""                el->h_.size_ * sizeof(typename generic_string<Ptr>::CharT));""","""                el->h_.size_);""")],
 needs="a damaged length of a string of wide characters", breaks="characters behind the image are read", flags=ASAN,
 demo=C+'''
struct S { data::u32string s_; };
int main() {
  S s; s.s_ = data::u32string{U"twelve chars and a lot more of them"}; auto b = cista::serialize(s);
  auto* raw = reinterpret_cast<S*>(b.data()); raw->s_.h_.size_ = 40U;
  auto e = std::vector<std::uint8_t>(b); e.shrink_to_fit();
  unsigned long x = 0; try { auto r = cista::deserialize<S>(e); for (auto c : r->s_.view()) x += c; } catch (std::exception const&) { return 0; } return x == 1 ? 2 : 1;
}
'''),
dict(id="c07-bucket-wrap", prop="C07", edits=[(I+"serialization.h","""    c.require(i.begin_ <= n && i.size_ <= n - i.begin_,""","""    c.require(i.begin_ + i.size_ <= n,""")],
 needs="a damaged bucket whose begin and size overflow their sum", breaks="the bucket lies outside the image", flags=ASAN,
 demo=C+'''#include "cista/containers/mutable_fws_multimap.h"
using M = data::mutable_fws_multimap<std::uint32_t, std::uint32_t>;
int main() {
  M m; m[0U].push_back(1U); m[0U].push_back(2U); m[1U].push_back(3U); auto b = cista::serialize(m);
  auto* raw = reinterpret_cast<M*>(b.data()); auto* idx = reinterpret_cast<M*>(raw)->index_.el_.get();
  idx[0].begin_ = 0xFFFFFFFEU; idx[0].size_ = 3U;
  try { auto r = cista::deserialize<M>(b); (void)r; } catch (std::exception const&) { return 0; } return 1;
}
'''),
dict(id="c11-finish-current", prop="C11", edits=[(I+"containers/fws_multimap.h","""    index_.push_back(static_cast<index_t>(data_.size()));
    complete_ = true;""","""    index_.push_back(current_start_);
    complete_ = true;""")],
 needs="values pushed after the last finished key of a multimap which is then completed", breaks="those values belong to no key",
 demo=C+'''#include "cista/containers/fws_multimap.h"
int main() {
  data::fws_multimap<unsigned, int> m; m.push_back(1); m.finish_key(); m.push_back(2); m.finish_map();
  auto n = 0; for (auto const& e : m) for (auto const x : e) n += x; REQ(m.data_size() == 2); REQ(m.index_size() == 2);
  REQ(m.index_.back() == 2);
}
'''),
dict(id="c12-branch-delete", prop="C12", edits=[(I+"containers/rtree.h","""          goto removed;
        }
        visited = h;""","""          goto removed;
        }
        visited = delete_node.count_ - 1U;""")],
 needs="deleting with a path hint at another node than the last one while the entry is in the last one", breaks="the entry is not deleted",
 demo=C+'''#include "cista/containers/rtree.h"
#include <random>
#include <set>
int main() {
  cista::raw::rtree<unsigned, 2U, float, 4U> t; std::mt19937 g{3}; std::vector<std::array<float, 2>> p;
  for (unsigned i = 0; i < 400; ++i) { auto x = static_cast<float>(g() % 40), y = static_cast<float>(g() % 40); p.push_back({x, y}); t.insert({x, y}, {x, y}, i); }
  for (unsigned i = 0; i < 400; ++i) { auto j = (i * 37U) % 400U; t.delete_element({p[j][0], p[j][1]}, {p[j][0], p[j][1]}, j); }
  unsigned left = 0; t.search({-1, -1}, {100, 100}, [&](auto&&, auto&&, unsigned) { ++left; return true; }); REQ(left == 0);
}
'''),
dict(id="c12-recycle", prop="C12", edits=[(I+"containers/rtree.h","""      if (get_node(recycled_node_id).kind_ == kind::kEndFreeList) {
        m_.free_list_ = node_idx_t::invalid();
      } else {
        m_.free_list_ = node_idx_t(get_node(recycled_node_id).count_);
      }""","""      auto const next_free = get_node(recycled_node_id).count_;
      m_.free_list_ = next_free < nodes_.size() ? node_idx_t{next_free}
                                                : node_idx_t::invalid();""")],
 needs="two node allocations after one node was freed", breaks="a node in use is handed out again",
 demo=C+'''#include "cista/containers/rtree.h"
#include <random>
int main() {
  cista::raw::rtree<unsigned, 2U, float, 4U> t; std::mt19937 g{3}; std::vector<std::array<float, 2>> p;
  auto add = [&](unsigned i) { auto x = static_cast<float>(g() % 40), y = static_cast<float>(g() % 40); p.push_back({x, y}); t.insert({x, y}, {x, y}, i); };
  for (unsigned i = 0; i < 200; ++i) add(i);
  for (unsigned i = 0; i < 190; ++i) t.delete_element({p[i][0], p[i][1]}, {p[i][0], p[i][1]}, i);
  for (unsigned i = 200; i < 600; ++i) add(i);
  for (unsigned i = 190; i < 600; ++i) { auto f = false; t.search({p[i][0], p[i][1]}, {p[i][0], p[i][1]}, [&](auto&&, auto&&, unsigned d) { f |= d == i; return true; }); REQ(f); }
}
'''),
dict(id="c14-opt-move-throw", prop="C14", also=["C15"], edits=[(I+"containers/optional.h","""    reset();
    if (other.has_value()) {
      new (&storage_[0]) T{other.value()};
    }

    valid_ = other.has_value();""","""    reset();
    valid_ = other.has_value();
    if (valid_) {
      new (&storage_[0]) T{other.value()};
    }""")],
 needs="an element whose copy constructor throws", breaks="the optional reports and destroys a value that was never made",
 demo=C+'''#include <stdexcept>
static bool fail = false; static int live = 0;
struct X { X() { ++live; } X(X const&) { if (fail) throw std::runtime_error("x"); ++live; } ~X() { --live; } };
int main() { { cista::optional<X> a{X{}}; cista::optional<X> b; fail = true; try { b = a; } catch (std::runtime_error const&) {} fail = false; REQ(!b.has_value()); } REQ(live == 0); }
'''),
dict(id="c18-find-cache", prop="C18", edits=[(I+"containers/bitvec.h","""    auto sum = std::size_t{0U};
    for (auto i = size_type{0U}; i != blocks_.size() - 1; ++i) {""","""    static auto sum = std::size_t{0U};
    sum = 0U;
    for (auto i = size_type{0U}; i != blocks_.size() - 1; ++i) {""")],
 flags="-fsanitize=thread -pthread",
 needs="two threads counting bits at the same time", breaks="readers write to a shared variable",
 demo=C+'''#include <thread>
int main() {
  data::bitvec b; b.resize(1000U); for (auto i = 0U; i < 1000U; i += 3U) b.set(i, true);
  auto run = [&]() { for (auto i = 0; i < 2000; ++i) if (b.count() != 334U) std::exit(1); };
  std::thread x{run}, y{run}; x.join(); y.join();
}
'''),
]
