H='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
BUGS=[
dict(id="c04-msync-async", prop="C04", edits=[("include/cista/mmap.h","MS_SYNC","MS_ASYNC")],
 needs="power loss after a completed sync() and before the kernel wrote the pages back", breaks="bytes covered by a completed sync are not durable",
 demo=H+'''#include <sys/mman.h>
static int flags_seen = -1;
extern "C" int msync(void*, size_t, int f) noexcept { flags_seen = f; return 0; }
#include "cista/mmap.h"
int main() {
  cista::mmap m{"f.bin", cista::mmap::protection::WRITE};
  m.resize(100); std::memset(m.data(), 7, 100);
  m.sync();
  REQ(flags_seen != -1 && (flags_seen & MS_SYNC));
}
'''),
dict(id="c04-move-used-size", prop="C04", edits=[("include/cista/mmap.h","""        size_{o.size_},
        used_size_{o.used_size_},""","""        size_{o.size_},
        used_size_{o.size_},""")],
 needs="moving a mapping that was grown to a length that is no power of two", breaks="the moved mapping (and the closed file) has the rounded-up length instead of the length asked for",
 demo=H+'''#include "cista/mmap.h"
int main() {
  { cista::mmap m{"f.bin", cista::mmap::protection::WRITE};
    m.resize(100); std::memset(m.data(), 7, 100);
    cista::mmap n{std::move(m)};
    REQ(n.size() == 100); }
  cista::mmap r{"f.bin", cista::mmap::protection::READ};
  REQ(r.size() == 100);
}
'''),
dict(id="c05-set-shorter", prop="C05", edits=[("include/cista/containers/mmap_vec.h","""    mmap_.resize(static_cast<size_type>(range_size) * sizeof(T));
""","""    if (static_cast<size_type>(range_size) > used_size_) {
      mmap_.resize(static_cast<size_type>(range_size) * sizeof(T));
    }
""")],
 needs="replacing the content by a shorter range, then closing and reopening the file", breaks="after reopening the vector has its old, longer length",
 demo=H+'''#include "cista/containers/mmap_vec.h"
int main() {
  std::vector<int> a{1,2,3,4,5}, b{9,8};
  { cista::mmap_vec<int> v{cista::mmap{"f.bin", cista::mmap::protection::WRITE}};
    v.set(a.begin(), a.end()); v.set(b.begin(), b.end()); REQ(v.size() == 2); }
  cista::mmap_vec<int> v{cista::mmap{"f.bin", cista::mmap::protection::READ}};
  REQ(v.size() == 2 && v[0] == 9 && v[1] == 8);
}
'''),
dict(id="c08-copy-empty", prop="C08", edits=[("include/cista/containers/vector.h","""        std::memcpy(data(), arr.data(), arr.used_size_ * sizeof(T));
      }
      used_size_ = arr.used_size_;""","""        std::memcpy(data(), arr.data(), arr.used_size_ * sizeof(T));
        used_size_ = arr.used_size_;
      }""")],
 needs="copy-assigning an empty vector of trivial elements to a non-empty one", breaks="the target keeps its old elements",
 demo=H+'''#include "cista/containers/vector.h"
int main() {
  cista::raw::vector<int> a{1,2,3}, b;
  a.set(b); REQ(a.size() == 0);
  cista::raw::vector<int> c{1,2,3}; c = b; REQ(c.size() == 0);
}
'''),
dict(id="c09-growth-left", prop="C09", edits=[("include/cista/containers/hash_storage.h","    growth_left_ += wnf;","    growth_left_ += 1U;\n    (void)wnf;")],
 needs="a long mix of insertions and erasures that leaves tombstones in crowded groups until no free slot remains", breaks="lookups of absent keys never end",
 demo=H+'''#include <unistd.h>
#include "cista/containers/hash_map.h"
int main() {
  alarm(20);
  for (unsigned s = 1; s < 200; ++s) {
    cista::raw::hash_map<unsigned, unsigned> m; unsigned x = s * 2654435761u; std::vector<unsigned> in;
    for (int i = 0; i < 3000; ++i) {
      x = x * 1664525u + 1013904223u;
      if (in.size() < 25) { unsigned k = x >> 8; if (m.find(k) == m.end()) in.push_back(k); m[k] = k; }
      else { auto j = (x >> 8) % in.size(); m.erase(in[j]); in[j] = in.back(); in.pop_back(); }
      REQ(m.find(0xffffffffu) == m.end());
      REQ(m.size() == in.size());
    }
    for (auto k : in) REQ(m.at(k) == k);
  }
}
'''),
dict(id="c09-never-full", prop="C09", edits=[("include/cista/containers/hash_storage.h","""  bool was_never_full(std::size_t const index) const noexcept {
    auto const index_before = (index - WIDTH) & capacity_;

    auto const empty_after = group{ctrl_ + index}.match_empty();
    auto const empty_before = group{ctrl_ + index_before}.match_empty();

    return empty_before && empty_after &&
           (empty_after.trailing_zeros() + empty_before.leading_zeros()) <
               WIDTH;""","""  bool was_never_full(std::size_t const index) const noexcept {
    auto const index_before = (index - WIDTH) & capacity_;

    auto const empty_after = group{ctrl_ + index}.match_empty();
    auto const empty_before = group{ctrl_ + index_before}.match_empty();

    return empty_before && empty_after &&
           (empty_after.trailing_zeros() + empty_before.leading_zeros()) <=
               WIDTH;""")],
 needs="erasing the entry of a probe window of exactly eight occupied slots that another entry probed past", breaks="the other entry is no longer found",
 demo=H+'''#include "cista/containers/hash_map.h"
struct H { unsigned operator()(unsigned k) const { return k; } };
int main() {
  for (unsigned s = 1; s < 4000; ++s) {
    cista::raw::hash_map<unsigned, unsigned, H> m; unsigned x = s * 2654435761u; std::vector<unsigned> in;
    for (int i = 0; i < 80; ++i) {
      x = x * 1664525u + 1013904223u;
      if (((x >> 28) & 3) != 0 && in.size() < 24) { unsigned k = (x >> 8) & 0xffffu; if (m.find(k) == m.end()) in.push_back(k); m[k] = k; }
      else if (!in.empty()) { auto j = (x >> 8) % in.size(); REQ(m.erase(in[j]) == 1); in[j] = in.back(); in.pop_back(); }
      for (auto k : in) REQ(m.find(k) != m.end());
    }
  }
}
'''),
dict(id="c10-moved-from-size", prop="C10", edits=[("include/cista/containers/string.h","""        s.h_.ptr_ = nullptr;
        s.h_.size_ = 0U;""","""        s.h_.ptr_ = nullptr;""")],
 needs="reading a moved-from long offset string", breaks="the moved-from string claims a length with no characters",
 demo=H+'''#include "cista/containers/string.h"
int main() {
  namespace d = cista::offset;
  d::string a{"a string that is long enough", d::string::owning};
  d::string b{std::move(a)};
  REQ(b == std::string_view{"a string that is long enough"});
  REQ(a.size() == 0 || a.data() != nullptr);
  a = d::string{"x"}; REQ(a.view() == "x");
}
'''),
]
