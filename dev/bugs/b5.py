# Round 5: written from the property texts; see b1.py for the format.
H='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
C=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
'''
I="include/cista/"
ASAN="-fsanitize=address"
BUGS=[
dict(id="c21-lt-size", prop="C21", edits=[(I+"containers/vector.h","""    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());""","""    if (a.size() != b.size()) {
      return a.size() < b.size();
    }
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());""")],
 needs="ordering two vectors of different lengths whose contents already differ", breaks="the order is not the lexicographical one",
 demo=C+'''
int main() { data::vector<int> a, b; a.push_back(1); a.push_back(1); b.push_back(2); REQ(a < b); REQ(!(b < a)); }
'''),
dict(id="c21-eq-prefix", prop="C21", edits=[(I+"containers/vector.h","""    return std::equal(a.begin(), a.end(), b.begin(), b.end());""","""    return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());""")],
 needs="comparing a vector with a longer one that starts with it", breaks="they count as equal",
 demo=C+'''
int main() { data::vector<int> a, b; a.push_back(1); b.push_back(1); b.push_back(2); REQ(!(a == b)); REQ(!(b == a)); }
'''),
dict(id="c21-hash-optional", prop="C21", edits=[(I+"hashing.h","""      return el.has_value() ? hashing<typename Type::value_type>{}(*el, seed)
                            : seed;""","""      return hashing<typename Type::value_type>{}(
          reinterpret_cast<typename Type::value_type const&>(el), seed);""")],
 needs="hashing an empty optional that held a value before", breaks="two empty optionals hash differently",
 demo=C+'''#include "cista/hashing.h"
int main() { cista::optional<std::uint32_t> a, b; a = 5U; a.reset(); b = 7U; b.reset(); REQ(a == b); REQ(cista::hashing<cista::optional<std::uint32_t>>{}(a) == cista::hashing<cista::optional<std::uint32_t>>{}(b)); }
'''),
dict(id="c14-variant-lt", prop="C14", edits=[(I+"containers/variant.h","""               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                       a, b)
               : a.idx_ < b.idx_;""","""               ? apply([](auto&& u, auto&& v) -> bool { return u < v; }, a.idx_,
                       a, b)
               : a.idx_ != b.idx_;""")],
 needs="ordering two variants that hold different alternatives", breaks="each is less than the other",
 demo=C+'''
int main() { using V = cista::variant<int, double>; V a{1}, b{2.0}; REQ((a < b) != (b < a)); }
'''),
dict(id="c13-lt-lower", prop="C13", edits=[(I+"containers/bitset.h","""      if (x < y) {
        return true;
      }
      if (y < x) {
        return false;
      }
    }

    return false;""","""      if (x < y) {
        return true;
      }
    }

    return false;""")],
 needs="ordering two bit sets of three blocks whose middle and lowest blocks differ in opposite directions", breaks="each is less than the other",
 demo=C+'''#include "cista/containers/bitset.h"
int main() { cista::bitset<192> a, b; a.set(70); b.set(3); REQ(!(a < b)); REQ(b < a); }
'''),
dict(id="c13-shift-single", prop="C13", edits=[(I+"containers/bitset.h","""    if constexpr ((Size % bits_per_block) != 0U) {
      blocks_[num_blocks - 1U] = sanitized_last_block();
    }

    if constexpr (num_blocks == 1U) {
      blocks_[0U] >>= shift;""","""    if constexpr (num_blocks != 1U && (Size % bits_per_block) != 0U) {
      blocks_[num_blocks - 1U] = sanitized_last_block();
    }

    if constexpr (num_blocks == 1U) {
      blocks_[0U] >>= shift;""")],
 needs="a bit set of one incomplete block is complemented and then shifted right", breaks="bits from behind the end come in",
 demo=C+'''#include "cista/containers/bitset.h"
int main() { cista::bitset<20> a; a = ~a; a >>= 3; REQ(a.count() == 17); REQ(!a.test(19)); }
'''),
dict(id="c07-uptr-own", prop="C07", edits=[(I+"serialization.h","""  c.require(!el->self_allocated_, "unique_ptr self-allocated");""","""  c.require(!el->self_allocated_ || el->el_ == nullptr || sizeof(T) != 0U,
            "unique_ptr self-allocated");""")],
 needs="a damaged ownership flag of an owning pointer", breaks="the loaded value frees memory of the image",
 demo=C+'''
struct S { data::unique_ptr<std::uint64_t> p_; };
int main() {
  S s; s.p_ = data::make_unique<std::uint64_t>(5U); auto b = cista::serialize(s);
  reinterpret_cast<S*>(b.data())->p_.self_allocated_ = true; auto thrown = false;
  try { cista::deserialize<S>(b); } catch (std::exception const&) { thrown = true; }
  REQ(thrown);
}
'''),
dict(id="c07-vec-overflow", prop="C07", edits=[(I+"serialization.h","""  c.check_ptr(el->el_,
              checked_multiplication(
                  static_cast<std::size_t>(el->allocated_size_), sizeof(T)));""","""  c.check_ptr(el->el_,
              static_cast<std::size_t>(el->allocated_size_) * sizeof(T));""")],
 needs="a damaged size of a vector with 64-bit sizes, chosen so that the size in bytes wraps around", breaks="the vector reaches far out of the image",
 demo=C+'''
using V = cista::basic_vector<std::uint64_t, data::ptr, false, std::uint64_t>;
int main() {
  V v; v.push_back(1U); auto b = cista::serialize(v); auto* p = reinterpret_cast<V*>(b.data());
  constexpr auto M = cista::mode::NONE; p->used_size_ = p->allocated_size_ = (1ULL << 61) + 1ULL; auto thrown = false;
  struct rec { cista::deserialization_context<M> c; };
  try { cista::deserialization_context<M> c{b.data(), b.data() + b.size()}; check_state(c, p); } catch (std::exception const&) { thrown = true; }
  REQ(thrown);
}
'''),
dict(id="c03-array-size", prop="C03", edits=[(I+"type_hash/type_hash.h","""  h = hash_combine(h, hash("array"));
  h = hash_combine(h, Size);
""","""  h = hash_combine(h, hash("array"));
""")],
 needs="an image with an array is loaded as a type whose array has another length", breaks="the image is accepted and read beyond its end",
 demo=C+'''
struct A { cista::array<std::uint32_t, 2> a_{}; std::uint64_t x_{}; };
struct B { cista::array<std::uint32_t, 4> a_{}; std::uint64_t x_{}; };
struct VA { data::vector<A> v_; }; struct VB { data::vector<B> v_; };
int main() { REQ(cista::type_hash<VA>() != cista::type_hash<VB>()); }
'''),
dict(id="c03-static-array", prop="C03", edits=[(I+"type_hash/static_type_hash.h","""  return h.combine(hash("array")).combine(Size);""","""  return h.combine(hash("array"));""")],
 needs="an image with a static version holding an array is loaded as a type whose array has another length", breaks="the image is accepted",
 demo=C+'''#include "cista/type_hash/static_type_hash.h"
struct VA { data::vector<cista::array<std::uint32_t, 2>> v_; }; struct VB { data::vector<cista::array<std::uint32_t, 4>> v_; };
int main() { REQ(cista::static_type_hash<VA>() != cista::static_type_hash<VB>()); }
'''),
dict(id="c03-nested-ptr", prop="C03", edits=[(I+"type_hash/type_hash.h","""  h = hash_combine(h, hash("unique_ptr"));
  return type_hash(T{}, h, done);""","""  h = hash_combine(h, hash("unique_ptr"));
  if constexpr (std::is_integral_v<T>) {
    return h;
  } else {
    return type_hash(T{}, h, done);
  }""")],
 needs="an image owning a number through a pointer is loaded as a type owning a wider number", breaks="the image is accepted",
 demo=C+'''
struct A { data::unique_ptr<std::uint16_t> p_; }; struct B { data::unique_ptr<std::uint64_t> p_; };
int main() { REQ(cista::type_hash<A>() != cista::type_hash<B>()); }
'''),
dict(id="c12-search-stop", prop="C12", edits=[(I+"containers/rtree.h","""        if (!node_search(get_node(current_node.children_[i]), search_rect,
                         fn)) {
          return false;
        }""","""        if (!node_search(get_node(current_node.children_[i]), search_rect,
                         fn) &&
            i + 1U == current_node.count_) {
          return false;
        }""")],
 needs="a search ended by its callback in a tree of several levels", breaks="the callback is called again",
 demo=C+'''#include "cista/containers/rtree.h"
int main() {
  cista::rtree<std::uint32_t> t; for (auto i = 0U; i < 500; ++i) { float x = static_cast<float>(i); t.insert({x, x}, {x + 1, x + 1}, i); }
  auto n = 0; t.search({0.F, 0.F}, {1000.F, 1000.F}, [&](auto&&, auto&&, auto&&) { ++n; return n < 3; }); REQ(n == 3);
}
'''),
dict(id="c05-resize-stale", prop="C05", edits=[(I+"containers/mmap_vec.h","""    for (auto i = used_size_; i < size; ++i) {
      new (data() + i) T{};
    }
    used_size_ = size;""","""    if (size > used_size_ && mmap_.size() == mmap_.size_) {
      for (auto i = used_size_; i < size; ++i) {
        new (data() + i) T{};
      }
    }
    used_size_ = size;""")],
 needs="shrinking a file-backed vector and growing it again to a size that is not a power of two", breaks="the removed values come back",
 demo=C+'''#include "cista/containers/mmap_vec.h"
#include <unistd.h>
int main() {
  char dir[] = "/tmp/demoXXXXXX"; REQ(mkdtemp(dir)); auto const p = std::string{dir} + "/f"; bool ok = true;
  { cista::mmap_vec<std::uint64_t> v{cista::mmap{p.c_str(), cista::mmap::protection::WRITE}};
    for (auto i = 0U; i < 16U; ++i) v.push_back(7U);
    v.resize(2U); v.resize(11U); for (auto i = 2U; i < 11U; ++i) ok = ok && v[i] == 0U; }
  unlink(p.c_str()); rmdir(dir); REQ(ok);
}
'''),
dict(id="c11-mm-erase-count", prop="C11", edits=[(I+"containers/mutable_fws_multimap.h","""        auto const count = std::distance(new_end, end());
        get_index().size_ -= count;
        mutable_mm().element_count_ -= count;""","""        auto const count = std::distance(new_end, end());
        get_index().size_ -= count;
        mutable_mm().element_count_ -= std::distance(first, last);
        mutable_mm().element_count_ += std::distance(new_end, end());""")],
 needs="erasing from the middle of a row", breaks="the number of elements is wrong or unchanged",
 demo=C+'''
int main() {
  data::mutable_fws_multimap<std::uint32_t, int> m; for (auto i = 0; i < 6; ++i) m[0U].push_back(i);
  auto b = m[0U]; b.erase(b.begin() + 1, b.begin() + 3); REQ(m.element_count() == 4U);
  b.erase(b.begin(), b.begin() + 1); REQ(m.element_count() == 3U); REQ(b.size() == 3U);
}
'''),
dict(id="c11-insert-shift", prop="C11", edits=[(I+"containers/mutable_fws_multimap.h","""      auto const pos = std::distance(begin(), it);
      auto& index = get_index();
      reserve(index.size_ + 1U);
      it = std::next(begin(), pos);""","""      auto const pos = it - begin();
      auto& index = get_index();
      if (index.size_ == index.capacity_) {
        mutable_mm().grow_bucket(index_, get_index(), index.size_ + 1U);
        it = std::next(begin(), pos);
      }""")],
 needs="never (equivalent): control", breaks="nothing",
 demo=C+'''
int main() { return 0; }
'''),
dict(id="c01-be-wide-last", prop="C01", edits=[(I+"serialization.h","""    for (std::size_t i = 0; i < size; ++i) {
      fn(&s[i]);
    }""","""    for (std::size_t i = 0; i < size && (i < 16U || size % 2U == 0U); ++i) {
      fn(&s[i]);
    }""")],
 needs="a wide string of odd length above 16 in an image of the other byte order", breaks="the rest of the characters are not converted",
 demo=C+'''
int main() {
  constexpr auto M = cista::mode::SERIALIZE_BIG_ENDIAN; constexpr auto L = cista::mode::DESERIALIZE_BIG_ENDIAN;
  data::u16string s{u"abcdefghijklmnopqrstuvwxyz01234", data::u16string::owning};
  auto b = cista::serialize<M>(s); auto r = cista::deserialize<data::u16string, L>(b);
  REQ(r->view() == s.view());
}
'''),
dict(id="c15-vec-set-shrink", prop="C15", edits=[(I+"containers/vector.h","""      for (auto it = new_end; it != end(); ++it) {
        it->~T();
      }
      used_size_ -= static_cast<size_type>(std::distance(new_end, end()));""","""      for (auto it = new_end; it != last; ++it) {
        it->~T();
      }
      used_size_ -= static_cast<size_type>(std::distance(new_end, end()));""")],
 needs="erasing a range in the middle of a vector whose elements own memory", breaks="elements behind the end are not destroyed",
 demo=C+'''
static int live = 0;
struct O { O() { ++live; } O(O const&) { ++live; } O(O&&) noexcept { ++live; } O& operator=(O const&) = default; O& operator=(O&&) = default; ~O() { --live; } };
int main() { { data::vector<O> v; for (auto i = 0; i < 8; ++i) v.emplace_back(); v.erase(v.begin() + 1, v.begin() + 3); REQ(live == 6); } REQ(live == 0); }
'''),
]
BUGS=[b for b in BUGS if b["id"]!="c11-insert-shift"]
