H='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
C=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
'''
I="include/cista/"
ASAN="-fsanitize=address"
BUGS=[
dict(id="c08-erase-range-destroy", prop="C08", also=["C15"], edits=[(I+"containers/vector.h","""      for (auto it = new_end; it != end(); ++it) {""","""      for (auto it = last; it != end(); ++it) {""")],
 needs="erasing a range of owning elements that is not at the end", breaks="elements are leaked or destroyed twice",
 flags=ASAN, demo=C+'''
static int live = 0;
struct X { X() { ++live; } X(X const&) { ++live; } X(X&&) noexcept { ++live; } X& operator=(X const&) = default; X& operator=(X&&) = default; ~X() { --live; } };
int main() {
  { cista::raw::vector<X> v; for (int i = 0; i < 10; ++i) v.push_back(X{}); v.erase(v.begin() + 2, v.begin() + 7); REQ(live == 5); }
  REQ(live == 0);
}
'''),
dict(id="c08-copy-assign-shorter", prop="C08", edits=[(I+"containers/vector.h","""      used_size_ = arr.used_size_;
    } else {
      set(std::begin(arr), std::end(arr));""","""      used_size_ = std::max(used_size_, arr.used_size_);
    } else {
      set(std::begin(arr), std::end(arr));""")],
 needs="assigning a shorter vector to a longer one of plain elements", breaks="old elements remain behind the copied ones",
 demo=C+'''
int main() { data::vector<int> a{1,2,3,4}, b{7,8}; a = b; REQ(a.size() == 2 && a == b); }
'''),
dict(id="c08-resize-init-move", prop="C08", edits=[(I+"containers/vector.h","      new (el_ + used_size_) T{init};","      new (el_ + used_size_) T{std::move(init)};")],
 needs="growing a vector of owning elements by more than one copy of a value", breaks="only the first new element has the value",
 demo=C+'''
int main() { data::vector<data::string> a; a.resize(3, data::string{"a string that is longer than short", data::string::owning});
  for (auto const& s : a) REQ(s == "a string that is longer than short"); }
'''),
dict(id="c09-erase-growth", prop="C09", edits=[(I+"containers/hash_storage.h","    growth_left_ += wnf;","    growth_left_ += 1U;")],
 needs="many erase and insert operations that leave deleted marks in one table", breaks="no empty slot is left and a search for an absent key does not end",
 demo=C+'''#include <unistd.h>
int main() {
  alarm(20);
  cista::raw::hash_set<unsigned> s; unsigned x = 1;
  std::vector<unsigned> keys;
  for (int i = 0; i < 100000; ++i) { x = x * 1664525u + 1013904223u; s.insert(x); keys.push_back(x);
    if (keys.size() > 100) { s.erase(keys.front()); keys.erase(keys.begin()); } REQ(s.find(x ^ 1u) == s.end()); REQ(s.size() == keys.size()); }
}
'''),
dict(id="c09-mirror-ctrl", prop="C09", edits=[(I+"containers/hash_storage.h","    ctrl_[((i - WIDTH) & capacity_) + 1U + ((WIDTH - 1U) & capacity_)] =","    ctrl_[((i - WIDTH) & capacity_) + 1U + (WIDTH - 1U)] =")],
 needs="a table with fewer slots than a probe group", breaks="writes outside of the control bytes or misses an entry", flags=ASAN,
 demo=C+'''
int main() { for (int n = 1; n < 16; ++n) { cista::raw::hash_map<int, int> m; for (int i = 0; i < n; ++i) m.emplace(i, i); 
  for (int i = 0; i < n; i += 2) m.erase(i); int c = 0; for (auto const& e : m) { REQ(e.first % 2 == 1); ++c; } REQ(c == n / 2);
  for (int i = 0; i < n; ++i) REQ((m.find(i) != m.end()) == (i % 2 == 1)); } }
'''),
dict(id="c09-insert-deleted", prop="C09", edits=[(I+"containers/hash_storage.h","    growth_left_ -= (is_empty(ctrl_[target.offset_]) ? 1U : 0U);","    growth_left_ -= (is_full(ctrl_[target.offset_]) ? 1U : 0U);")],
 needs="inserting until the table should have grown", breaks="the table fills up completely and searches do not end",
 demo=C+'''#include <unistd.h>
int main() { alarm(20); cista::raw::hash_set<int> s; for (int i = 0; i < 100; ++i) { s.insert(i); REQ(s.find(-1 - i) == s.end()); REQ(s.size() == unsigned(i + 1)); } }
'''),
dict(id="c09-bracket-noreset", prop="C09", edits=[(I+"containers/hash_storage.h","""    for (auto const& el : *this) {
      auto const it = b.find(GetKey()(el));
      if (it == b.end() || GetValue()(el) != GetValue()(*it)) {""","""    for (auto const& el : *this) {
      auto const it = b.find(GetKey()(el));
      if (it != b.end() && GetValue()(el) != GetValue()(*it)) {""")],
 needs="comparing two tables of the same size with different keys", breaks="different tables compare equal",
 demo=C+'''
int main() { cista::raw::hash_map<int, int> a, b; a[1] = 1; b[2] = 1; REQ(!(a == b)); }
'''),
dict(id="c09-copy-partial", prop="C09", edits=[(I+"containers/hash_storage.h","""    clear();
    if (other.size() == 0U) {""","""    if (other.size() == 0U) {
      return *this;
    }
    clear();
    if (other.size() == 0U) {""")],
 needs="assigning an empty table to one that has entries", breaks="the old entries remain",
 demo=C+'''
int main() { cista::raw::hash_map<int, int> a, b; a[1] = 1; a = b; REQ(a.empty()); }
'''),
dict(id="c10-copy-nonowning-len", prop="C10", edits=[(I+"containers/string.h","      set_non_owning(s.data(), s.size());","      set_non_owning(s.data());")],
 needs="copying a non-owning string over a part of a longer buffer", breaks="the copy is longer than its source",
 demo=C+'''
int main() { char const* t = "a text of which only the first half is referenced by the string"; 
  data::string s; s.set_non_owning(t, 30); data::string c{s}; REQ(c.view() == s.view()); }
'''),
dict(id="c10-erase-nonowning", prop="C10", edits=[(I+"containers/string.h","""    if (!is_short() && !h_.self_allocated_) {
      set_owning(view());
    }
    auto const size_before = size();""","""    if (!is_short() && !h_.self_allocated_ && n != 0U && pos == 0U) {
      set_owning(view());
    }
    auto const size_before = size();""")],
 needs="erasing characters in the middle of a string that references a buffer it does not own", breaks="the referenced buffer is changed",
 demo=C+'''
int main() { char t[] = "a text of which a part is referenced by the string"; std::string const before = t;
  data::string s; s.set_non_owning(t); s.erase(5, 3); REQ(before == t); }
'''),
dict(id="c10-short-boundary", prop="C10", edits=[(I+"containers/string.h","""      for (auto i = len; i < short_length_limit; ++i) {""","""      for (auto i = len; i + 1U < short_length_limit; ++i) {""")],
 needs="a string that held a long text is set to one a character shorter than the in-place limit", breaks="a stray character can follow the text",
 demo=C+'''
int main() { alignas(8) unsigned char mem[sizeof(data::string)]; 
  for (int k = 0; k < 20; ++k) { data::string s; s = data::string{"a string much longer than sixteen characters", data::string::owning};
    s = data::string{"exactly fifteen", data::string::owning};
    std::memset(mem, 0xAB, sizeof mem); auto* p = new (mem) data::string(); 
    p->set_owning("this is a long string, longer than fifteen"); auto const pos = reinterpret_cast<char*>(p) + 15; (void)pos;
    p->set_owning("fourteen chars"); REQ(p->view() == "fourteen chars"); p->~basic_string(); 
  }
  // string over reused heap storage
  data::string t; char junk[16]; std::memset(junk, 'x', 16);
  t.h_ = data::string::heap{}; std::memcpy(reinterpret_cast<char*>(&t) + 1, junk, 15); 
  t.s_.is_short_ = true; t.set_owning("fourteen chars"); REQ(t.view() == "fourteen chars");
}
'''),
dict(id="c10-compare-prefix", prop="C10", edits=[(I+"containers/string.h","""    return !std::memcmp(s, data() + size() - size_s, size_s * sizeof(CharT));
  }
  constexpr bool ends_with(CharT ch) const noexcept {""","""    return !std::memcmp(s, data() + size() - size_s, size_s);
  }
  constexpr bool ends_with(CharT ch) const noexcept {""")],
 needs="a string of wide characters whose last characters differ from the ending asked for", breaks="ends_with answers yes",
 demo=C+'''
int main() { data::u16string s{u"abcd"}; REQ(!s.ends_with(std::u16string_view{u"bcX"})); REQ(!s.ends_with(std::u16string_view{u"cX"})); }
'''),
dict(id="c14-uptr-move-owner", prop="C14", also=["C15"], edits=[(I+"containers/unique_ptr.h","""    reset();
    el_ = o.el_;
    self_allocated_ = o.self_allocated_;""","""    reset();
    el_ = o.el_;
    self_allocated_ = true;""")],
 needs="move-assigning a pointer that does not own its object", breaks="the object is deleted although it is owned elsewhere", flags=ASAN,
 demo=C+'''
int main() { int x = 5; { data::unique_ptr<int> a{&x, false}, b; b = std::move(a); REQ(!b.self_allocated_); b.self_allocated_ = false; } REQ(x == 5); }
'''),
dict(id="c14-opt-copy-self", prop="C14", edits=[(I+"containers/optional.h","""    reset();
    if (other.has_value()) {
      new (&storage_[0]) T(std::move(other.value()));
    }""","""    if (valid_ && other.has_value()) {
      value() = std::move(other.value());
      return *this;
    }
    if (other.has_value()) {
      new (&storage_[0]) T(std::move(other.value()));
    }""")],
 needs="move-assigning an empty optional to one that holds an owning value", breaks="the old value is never destroyed",
 demo=C+'''
static int live = 0;
struct X { X() { ++live; } X(X const&) { ++live; } X(X&&) noexcept { ++live; } X& operator=(X&&) = default; ~X() { --live; } };
int main() { { cista::optional<X> a{X{}}, b; a = std::move(b); REQ(!a.has_value()); REQ(live == 0); } REQ(live == 0); }
'''),
dict(id="c15-uptr-null-assign", prop="C15", also=["C14"], edits=[(I+"containers/unique_ptr.h","""  basic_unique_ptr& operator=(std::nullptr_t) {
    reset();
    return *this;""","""  basic_unique_ptr& operator=(std::nullptr_t) {
    el_ = nullptr;
    return *this;""")],
 needs="assigning nullptr to a pointer that owns an object", breaks="the object is never freed",
 demo=C+'''
static int live = 0;
struct X { X() { ++live; } ~X() { --live; } };
int main() { auto p = data::make_unique<X>(); p = nullptr; REQ(live == 0); }
'''),
dict(id="c15-hash-resize-image", prop="C15", also=["C09"], edits=[(I+"containers/hash_storage.h","    if (old_capacity != 0U && old_self_allocated) {","    if (old_capacity > 1U && old_self_allocated) {")],
 needs="a table that grows beyond its first slot", breaks="the first block is never freed", flags=ASAN,
 demo=C+'''
int main() { cista::raw::hash_set<int> s; for (int i = 0; i < 5; ++i) s.insert(i); }
'''),
dict(id="c16-min-stale", prop="C16", edits=[(I+"atomic.h",'''    while (!a->compare_exchange_weak(old, std::min(old, val),''','''    while (!a->compare_exchange_weak(old, val,''')],
 needs="another thread lowering the value between the first read and the exchange", breaks="the minimum is raised again and a smaller value is lost",
 flags="-pthread -O2", demo=H+'''#include <thread>
#include "cista/atomic.h"
int main() {
  for (int r = 0; r < 3000; ++r) {
    std::int16_t m = 30000; std::atomic<int> go{0}; std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { ++go; while (go < 4) {} for (int i = 2000; i > 0; --i) cista::fetch_min(m, static_cast<std::int16_t>(i * 4 + k)); });
    for (auto& x : t) x.join();
    REQ(m == 4);
    if (r >= 60) {
      std::int16_t q = 30000; go = 0; std::vector<std::thread> u; 
      for (int k = 0; k < 4; ++k) u.emplace_back([&, k] { ++go; while (go < 4) {} cista::fetch_min(q, static_cast<std::int16_t>(k)); });
      for (auto& x : u) x.join();
      REQ(q == 0);
    }
  }
}
'''),
dict(id="c16-and-split", prop="C16", also=["C17"], edits=[(I+"atomic.h",'''  return __atomic_fetch_and(&block, mask, __ATOMIC_RELAXED);''','''  auto const old = __atomic_load_n(&block, __ATOMIC_RELAXED);
  __atomic_store_n(&block, old & mask, __ATOMIC_RELAXED);
  return old;''')],
 needs="two threads changing bits of the same word at the same time", breaks="one of the changes is lost",
 flags="-pthread -O2", demo=H+'''#include <thread>
#include "cista/atomic.h"
int main() {
  for (int r = 0; r < 20000; ++r) {
    std::uint64_t w = ~0ull; std::atomic<int> go{0}; std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { ++go; while (go < 4) {} for (int i = 0; i < 16; ++i) cista::fetch_and(w, ~(1ull << (i * 4 + k))); });
    for (auto& x : t) x.join();
    REQ(w == 0);
  }
}
'''),
dict(id="c16-max-skip", prop="C16", edits=[(I+"atomic.h",'''    while (!a->compare_exchange_weak(old, std::max(old, val),
                                     std::memory_order_release,
                                     std::memory_order_relaxed)) {
    }''','''    a->compare_exchange_strong(old, std::max(old, val),
                               std::memory_order_release,
                               std::memory_order_relaxed);''')],
 needs="another thread changing the value between the read and the exchange", breaks="the larger value is not stored",
 flags="-pthread -O2", demo=H+'''#include <thread>
#include "cista/atomic.h"
int main() {
  for (int r = 0; r < 3000; ++r) {
    std::int16_t m = 0; std::atomic<int> go{0}; std::vector<std::thread> t;
    for (int k = 0; k < 4; ++k) t.emplace_back([&, k] { ++go; while (go < 4) {} for (int i = 0; i < 4000; ++i) cista::fetch_max(m, static_cast<std::int16_t>(i * 4 + k)); });
    for (auto& x : t) x.join();
    REQ(m == 3999 * 4 + 3);
    if (r >= 60) {
      std::int16_t q = 0; go = 0; std::vector<std::thread> u; 
      for (int k = 0; k < 4; ++k) u.emplace_back([&, k] { ++go; while (go < 4) {} cista::fetch_max(q, static_cast<std::int16_t>(k + 1)); });
      for (auto& x : u) x.join();
      REQ(q == 4);
    }
  }
}
'''),
]
BUGS=[b for b in BUGS if b["demo"]]
