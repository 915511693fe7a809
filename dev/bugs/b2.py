H='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
I="include/cista/"
BUGS=[
dict(id="c01-range-end", prop="C01", edits=[(I+"serialization.h","    return ptr_int >= from && ptr_int < to;","    return ptr_int > from && ptr_int < to;")],
 needs="a pointer to the first element of an indexed vector that is stored before the vector's elements are registered by themselves", breaks="the pointer is resolved late or not at all",
 demo=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::raw;
struct R { data::indexed_vector<int> v; int const* p{nullptr}; int const* q{nullptr}; };
int main() {
  R r; r.v = {1, 2, 3}; r.p = &r.v[0]; r.q = &r.v[2];
  auto b = cista::serialize(r);
  auto const* l = data::deserialize<R>(b);
  REQ(l->q == &l->v[2]); REQ(l->p == &l->v[0]);
}
'''),
dict(id="c01-be-growth-left", prop="C01", edits=[(I+"serialization.h","""          convert_endian<Ctx::MODE>(origin->growth_left_));""","""          origin->growth_left_);""")],
 needs="a hash table stored in the other byte order", breaks="the table is rejected or unusable after loading",
 demo=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
int main() {
  data::hash_set<int> s; for (int i = 0; i < 20; ++i) s.insert(i);
  auto b = cista::serialize<cista::mode::SERIALIZE_BIG_ENDIAN>(s);
  auto const* l = data::deserialize<data::hash_set<int>, cista::mode::SERIALIZE_BIG_ENDIAN>(b);
  REQ(l->size() == 20); REQ(l->find(7) != l->end());
}
'''),
dict(id="c01-be-wide-short", prop="C01", edits=[(I+"serialization.h","                       static_cast<offset_t>(Type::short_length_limit));","                       static_cast<offset_t>(origin->size()) - 1);")],
 needs="a short string of wide characters stored in the other byte order", breaks="the last character comes back byte-swapped",
 demo=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
struct R { data::u16string s; };
int main() {
  R r; r.s = data::u16string{std::u16string_view{u"abc"}};
  auto b = cista::serialize<cista::mode::SERIALIZE_BIG_ENDIAN>(r);
  auto const* l = data::deserialize<R, cista::mode::SERIALIZE_BIG_ENDIAN>(b);
  REQ(l->s.view() == std::u16string_view{u"abc"});
}
'''),
dict(id="c02-short-write", prop="C02", edits=[(I+"targets/file.h","""    verify(std::fwrite(ptr, 1U, size, f_) == size, "write error");""","""    verify(size == 0U || std::fwrite(ptr, 1U, size, f_) != 0U, "write error");""")],
 needs="a write that the system accepts only in part", breaks="the save reports success although bytes are missing",
 demo=H+'''#include <sys/resource.h>
#include <csignal>
#include "cista/targets/file.h"
int main() {
  std::signal(SIGXFSZ, SIG_IGN);
  rlimit l{10000, 10000}; REQ(setrlimit(RLIMIT_FSIZE, &l) == 0);
  std::vector<char> v(100000, 'x');
  bool threw = false;
  try { cista::file f{"f.bin", "w+"}; setvbuf(f.f_, nullptr, _IONBF, 0); f.write(v.data(), v.size(), 8U); } catch (std::exception const&) { threw = true; }
  REQ(threw);
}
'''),
dict(id="c02-short-content", prop="C02", edits=[(I+"targets/file.h","""    verify(std::fread(b.data(), 1U, b.size(), f_) == b.size(), "read error");""","""    verify(std::fread(b.data(), 1U, b.size(), f_) == b.size() || !std::ferror(f_), "read error");""")],
 needs="a file that is shortened between asking for its size and reading it, or a read that ends early", breaks="the load returns bytes that were never stored",
 demo=H+'''#include <sys/stat.h>
extern "C" size_t fread(void* p, size_t s, size_t n, FILE*) { std::memset(p, 0, s * n / 2); return n / 2; }
#include "cista/targets/file.h"
int main() {
  { cista::file f{"f.bin", "w+"}; int x[4] = {1,2,3,4}; f.write(x, sizeof x, 4U); }
  bool threw = false;
  try { cista::file f{"f.bin", "r"}; auto b = f.content(); REQ(b.size() == 16); } catch (std::exception const&) { threw = true; }
  REQ(threw);
}
'''),
dict(id="c03-skip-root-head", prop="C03", edits=[
  (I+"serialization.h","""        c.checksum(integrity_offset + static_cast<offset_t>(sizeof(hash_t)));""","""        c.checksum(integrity_offset + static_cast<offset_t>(2U * sizeof(hash_t)));"""),
  (I+"serialization.h","""                    reinterpret_cast<char const*>(from + data_start(Mode)),
                    static_cast<std::size_t>(to - from - data_start(Mode))}),""","""                    reinterpret_cast<char const*>(from + data_start(Mode) + sizeof(hash_t)),
                    static_cast<std::size_t>(to - from - data_start(Mode)) - sizeof(hash_t)}),""")],
 needs="damage in the first eight bytes of the stored value", breaks="a damaged image is accepted and read as another value",
 demo=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
struct R { std::uint64_t a{1}, b{2}, c{3}; };
int main() {
  R r; constexpr auto M = cista::mode::WITH_INTEGRITY;
  auto b = cista::serialize<M>(r); REQ((data::deserialize<R, M>(b)->a == 1));
  for (std::size_t i = 0; i < b.size(); ++i) {
    auto d = b; d[i] ^= 4; bool threw = false;
    try { (void)data::deserialize<R, M>(d); } catch (std::exception const&) { threw = true; }
    REQ(threw);
  }
}
'''),
dict(id="c03-chunk-seed", prop="C03", edits=[(I+"targets/file.h","            c = hash(std::string_view{buf, s}, c);","            c ^= hash(std::string_view{buf, s});")],
 needs="an image of more than one checksum chunk (512 KiB)", breaks="an undamaged file is rejected", also=["C06"],
 demo=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
#include "cista/targets/file.h"
namespace data = cista::offset;
int main() {
  constexpr auto M = cista::mode::WITH_INTEGRITY;
  data::vector<std::uint64_t> v; v.resize(200000); for (std::size_t i = 0; i < v.size(); ++i) v[i] = i;
  { cista::file f{"f.bin", "w+"}; cista::serialize<M>(f, v); }
  auto b = cista::file{"f.bin", "r"}.content();
  try { REQ((data::deserialize<data::vector<std::uint64_t>, M>(b)->size() == 200000)); } catch (std::exception const&) { REQ(false); }
}
'''),
dict(id="c04-reserve-used", prop="C04", edits=[(I+"mmap.h","""    if (size_ < new_size) {
      resize_map(next_power_of_two(new_size));
    }
    used_size_ = new_size;""","""    if (size_ < new_size) {
      resize_map(next_power_of_two(new_size));
    } else if (new_size != 0U && size_ >= 4U * new_size) {
      resize_map(next_power_of_two(2U * used_size_));
    }
    used_size_ = new_size;""")],
 needs="shrinking a mapping to less than a quarter and growing it again inside the old capacity after the content was cut", breaks="shrinking changes the capacity by the old length",
 demo=H+'''#include "cista/mmap.h"
int main() {
  cista::mmap m{"f.bin", cista::mmap::protection::WRITE};
  m.resize(8 * 4096); m.resize(10); m.resize(5);
  REQ(m.size() == 5);
  m.resize(8 * 4096 - 1); std::memset(m.data(), 5, m.size());
}
'''),
dict(id="c05-insert-multi", prop="C05", edits=[(I+"containers/mmap_vec.h","""    mmap_.resize(size * sizeof(T));
    for (auto i = used_size_; i < size; ++i) {""","""    if (size > used_size_) {
      mmap_.resize(size * sizeof(T));
    }
    for (auto i = used_size_; i < size; ++i) {""")],
 needs="shrinking a file-backed vector and closing it without growing it again", breaks="after reopening the vector has its old length",
 demo=H+'''#include "cista/containers/mmap_vec.h"
int main() {
  { cista::mmap_vec<int> v{cista::mmap{"f.bin", cista::mmap::protection::WRITE}};
    for (int i = 0; i < 5; ++i) v.push_back(i);
    v.resize(2); REQ(v.size() == 2); }
  cista::mmap_vec<int> v{cista::mmap{"f.bin", cista::mmap::protection::READ}};
  REQ(v.size() == 2);
}
'''),
dict(id="c06-padding", prop="C06", edits=[(I+"targets/buf.h","REPLACE_ME","")], needs="", breaks="", demo=""),
dict(id="c07-vec-bytes", prop="C07", edits=[(I+"serialization.h","""              checked_multiplication(
                  static_cast<std::size_t>(el->allocated_size_), sizeof(T)));
  c.check_bool(el->self_allocated_);
  c.require(!el->self_allocated_, "vec self-allocated");""","""              static_cast<std::size_t>(el->allocated_size_));
  c.check_bool(el->self_allocated_);
  c.require(!el->self_allocated_, "vec self-allocated");""")],
 needs="a damaged image whose vector claims more elements than the image holds, but fewer than it has bytes", breaks="reading the accepted vector leaves the image",
 demo=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
struct R { data::vector<std::uint64_t> v; };
int main() {
  R r; for (int i = 0; i < 8; ++i) r.v.push_back(i);
  auto b = cista::serialize(r);
  auto* raw = reinterpret_cast<R*>(b.data()); raw->v.used_size_ = raw->v.allocated_size_ = 20;
  bool threw = false;
  try { (void)data::deserialize<R>(b); } catch (std::exception const&) { threw = true; }
  REQ(threw);
}
'''),
dict(id="c07-hash-end", prop="C07", edits=[(I+"serialization.h","""  c.require(el->ctrl_[el->capacity_] == Type::END,
            "hash storage: end ctrl byte");""","""  c.require(el->entries_ == nullptr ||
                !Type::is_full(el->ctrl_[el->capacity_]),
            "hash storage: end ctrl byte");""")],
 needs="a damaged image in which the control byte that ends the table is free or deleted", breaks="iterating the accepted table runs over its end",
 demo=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
int main() {
  data::hash_set<int> s; for (int i = 0; i < 5; ++i) s.insert(i);
  auto b = cista::serialize(s);
  auto* raw = reinterpret_cast<data::hash_set<int>*>(b.data());
  using C = data::hash_set<int>::ctrl_t;
  for (auto x : {C::DELETED, C::EMPTY}) {
    raw->ctrl_[raw->capacity_] = x;
    bool threw = false;
    try { (void)data::deserialize<data::hash_set<int>>(b); } catch (std::exception const&) { threw = true; }
    REQ(threw);
  }
}
'''),
dict(id="c11-paged-clear", prop="C11", edits=[(I+"containers/paged.h","""    for (auto& n : free_list_) {
      n.next_ = std::numeric_limits<size_type>::max();
    }
  }""","""    for (auto& n : free_list_) {
      if (n.empty()) {
        break;
      }
      n.next_ = std::numeric_limits<size_type>::max();
    }
  }""")],
 needs="a freed page of a larger size, none of the smallest size, then clear() and new rows of that size", breaks="pages are taken from storage that is gone or in use",
 demo=H+'''#include "cista/containers/paged.h"
#include "cista/containers/vector.h"
int main() {
  cista::paged<cista::raw::vector<std::uint64_t>> p;
  auto a = p.create_page(20); auto b = p.create_page(20); (void)b;
  p.free_page(a); p.clear();
  auto c = p.create_page(4); (void)c;
  auto d = p.create_page(20);
  REQ(d.start_ >= c.start_ + c.capacity_);
  REQ(p.data_.size() >= d.start_ + d.capacity_);
}
'''),
dict(id="c11-free-reuse", prop="C11", edits=[(I+"containers/paged.h","""      m.write(start, next_);
      next_ = start;""","""      if (!empty()) {
        m.write(start, next_);
      }
      next_ = start;""")],
 needs="a freed page whose first words held data, taken again from the free list, and then another page of that size", breaks="a row is placed inside another row or beyond the storage",
 demo=H+'''#include "cista/containers/paged.h"
#include "cista/containers/vector.h"
int main() {
  cista::paged<cista::raw::vector<std::uint64_t>> p;
  auto a = p.create_page(20);
  for (int i = 0; i < 20; ++i) p.data(a)[i] = 1;
  p.free_page(a);
  auto b = p.create_page(20); auto c = p.create_page(20);
  REQ(b.start_ == a.start_); REQ(c.start_ >= b.start_ + b.capacity_);
}
'''),
dict(id="c12-edge-touch", prop="C12", edits=[(I+"containers/rtree.h","""    if (!split) {
      get_node(n_idx).rects_[i].expand(insert_rect);
      return;
    }""","""    if (!split) {
      if (depth == 0U || !get_node(n_idx).rects_[i].intersects(insert_rect)) {
        get_node(n_idx).rects_[i].expand(insert_rect);
      }
      return;
    }""")],
 needs="a tree of at least three levels and an entry that sticks out of the box of the inner node it is placed in", breaks="searches beside the box miss the entry",
 demo=H+'''#include "cista/containers/rtree.h"
int main() {
  cista::rtree<int> t; unsigned x = 1; std::vector<std::pair<std::array<float,2>, std::array<float,2>>> all;
  auto rnd = [&] { x = x * 1664525u + 1013904223u; return static_cast<float>((x >> 8) % 1000); };
  for (int i = 0; i < 20000; ++i) {
    float a = rnd(), b = rnd(), w = rnd() / 20, h = rnd() / 20;
    t.insert({a, b}, {a + w, b + h}, i); all.push_back({{a, b}, {a + w, b + h}});
  }
  for (int i = 0; i < 20000; i += 7) {
    auto hi = all[i].second; bool found = false;
    t.search({hi[0], hi[1]}, {hi[0], hi[1]}, [&](auto const&, auto const&, int d) { found |= d == i; return true; });
    REQ(found);
  }
}
'''),
dict(id="c13-resize-mask", prop="C13", edits=[(I+"containers/bitvec.h","""    if (!empty() && (size_ % bits_per_block) != 0U) {
      blocks_[blocks_.size() - 1] &=""","""    if (!empty() && (size_ % bits_per_block) != 0U &&
        num_blocks(new_size) != blocks_.size()) {
      blocks_[blocks_.size() - 1] &=""")],
 needs="shrinking and growing again inside the last block", breaks="bits that were cut off reappear",
 demo=H+'''#include "cista/containers/bitvec.h"
int main() {
  cista::raw::bitvec b; b.resize(60); for (int i = 0; i < 60; ++i) b.set(i, true);
  b.resize(10); b.resize(50); REQ(b.count() == 10);
}
'''),
dict(id="c13-next-single", prop="C13", edits=[(I+"containers/bitvec.h","""    if (first_block_idx + 1U == blocks_.size()) {
      return std::nullopt;
    }

    auto const check_block""","""    if (first_block_idx + 1U >= num_blocks(size_ - 1U)) {
      return std::nullopt;
    }

    auto const check_block""")],
 needs="a bit set whose size is one above a multiple of the word size and whose only set bit is the last one", breaks="the search misses the last set bit",
 demo=H+'''#include "cista/containers/bitvec.h"
int main() {
  cista::raw::bitvec b; b.resize(129); b.set(128, true);
  auto r = b.next_set_bit(64); REQ(r.has_value() && *r == 128);
}
'''),
dict(id="c17-get-next-store", prop="C17", edits=[(I+"containers/bitvec.h","""      if (next.compare_exchange_weak(expected, *idx + 1U)) {
        return idx;
      }""","""      if (next.load() == expected) {
        next = *idx + 1U;
        return idx;
      }""")],
 needs="another thread drawing a bit between the comparison and the store", breaks="two threads get the same bit",
 flags="-fsanitize=thread -pthread", demo=H+'''#include <thread>
#include "cista/containers/bitvec.h"
int main() {
  for (int round = 0; round < 20; ++round) {
    cista::raw::bitvec b; b.resize(50000); for (int i = 0; i < 50000; ++i) b.set(i, true);
    std::atomic_size_t n{0}; std::vector<std::size_t> got[4]; std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { while (true) { auto r = b.get_next(n); if (!r) break; got[k].push_back(*r); } });
    for (auto& x : t) x.join();
    std::vector<int> c(50000); for (auto& g : got) for (auto i : g) ++c[i];
    for (auto x : c) REQ(x == 1);
  }
}
'''),
dict(id="c17-clear-plain", prop="C17", edits=[(I+"containers/bitvec.h","""        fetch_and(block, (~block_t{0U} ^ (block_t{1U} << bit)));
      }
    } else {""","""        block &= (~block_t{0U} ^ (block_t{1U} << bit));
      }
    } else {""")],
 needs="one thread clearing a bit while another sets a bit of the same word", breaks="a set bit is lost",
 flags="-fsanitize=thread -pthread", demo=H+'''#include <thread>
#include "cista/containers/bitvec.h"
int main() {
  for (int round = 0; round < 200; ++round) {
    cista::raw::bitvec b; b.resize(64); for (int i = 0; i < 32; ++i) b.set(i, true);
    std::thread t{[&] { for (int i = 0; i < 32; ++i) b.set<true>(i, false); }};
    for (int i = 32; i < 64; ++i) b.set<true>(i, true);
    t.join(); REQ(b.count() == 32);
  }
}
'''),
dict(id="c18-static-str", prop="C18", edits=[(I+"containers/bitvec.h","""    auto s = std::string{};
    s.resize(size_);
    for (auto i = 0U; i != size_; ++i) {
      s[i] = test(size_ - i - 1) ? '1' : '0';
    }
    return s;""","""    static auto s = std::string{};
    s.resize(size_);
    for (auto i = 0U; i != size_; ++i) {
      s[i] = test(size_ - i - 1) ? '1' : '0';
    }
    return s;""")],
 needs="two threads printing bit sets at the same time", breaks="the threads overwrite each other's text",
 flags="-fsanitize=thread -pthread", demo=H+'''#include <thread>
#include "cista/containers/bitvec.h"
int main() {
  cista::raw::bitvec b; b.resize(600);
  auto f = [&] { for (int i = 0; i < 200; ++i) REQ(b.str().size() == 600); };
  std::thread t{f}, u{f}; t.join(); u.join();
}
'''),
dict(id="c19-private-modify", prop="C19", edits=[(I+"mmap.h","""               MAP_SHARED, f_.fd(), OFFSET);""","""               prot_ == protection::MODIFY ? MAP_PRIVATE : MAP_SHARED, f_.fd(),
               OFFSET);""")],
 needs="changing a file through one mapping opened for modification while another mapping shows it", breaks="the change is not seen by the other mapping", also=["C04"],
 demo=H+'''#include "cista/mmap.h"
int main() {
  { cista::mmap m{"f.bin", cista::mmap::protection::WRITE}; m.resize(64); std::memset(m.data(), 1, 64); }
  cista::mmap a{"f.bin", cista::mmap::protection::READ};
  cista::mmap b{"f.bin", cista::mmap::protection::MODIFY};
  b[5] = 9; REQ(a[5] == 9);
}
'''),
]
BUGS=[b for b in BUGS if b["demo"]]
