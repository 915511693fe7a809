# Round 6: written from the property texts; see b1.py for the format.
H='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#define REQ(c) do { if (!(c)) { std::fprintf(stderr, "line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
C=H+'''#include "cista/containers.h"
#include "cista/serialization.h"
namespace data = cista::offset;
'''
I="include/cista/"
ASAN="-fsanitize=address"
BUGS=[
dict(id="c20-self-pointer", prop="C20", edits=[(I+"containers/offset_ptr.h","""  explicit operator bool() const noexcept { return offset_ != NULLPTR_OFFSET; }
  explicit operator void*() const noexcept { return get(); }
  explicit operator void const*() const noexcept { return get(); }
  operator T*() const noexcept { return get(); }""","""  explicit operator bool() const noexcept {
    return offset_ != NULLPTR_OFFSET && offset_ != 0;
  }
  explicit operator void*() const noexcept { return get(); }
  explicit operator void const*() const noexcept { return get(); }
  operator T*() const noexcept { return get(); }""")],
 needs="a relative pointer stored as the first member of the structure it refers to", breaks="it counts as empty",
 demo=C+'''
struct N { data::ptr<N> self_; int v_{3}; };
int main() { N n; n.self_ = &n; REQ(static_cast<bool>(n.self_)); REQ(n.self_->v_ == 3); n.self_ = nullptr; REQ(!static_cast<bool>(n.self_)); }
'''),
dict(id="c12-stale-ref", prop="C12", edits=[(I+"containers/rtree.h","""      get_node(n_idx).rects_[i].expand(insert_rect);
      return;""","""      current_node.rects_[i].expand(insert_rect);
      return;""")], flags=ASAN,
 needs="an insertion that splits a node two levels below while the node storage is reallocated", breaks="the enlarged box is written to freed memory and later searches miss the entry",
 demo=C+'''#include "cista/containers/rtree.h"
int main() {
  using T = cista::offset::rtree<unsigned, 2U, float, 4U>;
  T t; unsigned x = 1;
  for (unsigned i = 0; i < 600; ++i) { x = x * 1103515245u + 12345u; float a = float((x >> 8) % 1000), b = float((x >> 18) % 1000); t.insert({a, b}, {a + 1, b + 1}, i);
    unsigned n = 0; t.search({-10, -10}, {2000, 2000}, [&](auto, auto, unsigned) { ++n; return true; }); REQ(n == i + 1);
    unsigned k = 0; t.search({a, b}, {a + 1, b + 1}, [&](auto, auto, unsigned d) { if (d == i) ++k; return true; }); REQ(k == 1); }
}
'''),
dict(id="c18-bitvec-load", prop="C18", edits=[(I+"containers/bitvec.h","""  fn(&el->blocks_);
  c.require(""","""  fn(&el->blocks_);
  if (!el->empty() && el->blocks_.size() != 0U) {
    el->blocks_[el->blocks_.size() - 1U] = el->sanitized_last_block();
  }
  c.require(""")],
 needs="loading a read-only image with a bit set", breaks="loading writes to the image",
 demo=C+'''#include "cista/containers/bitvec.h"
#include <sys/mman.h>
#include "cista/mmap.h"
int main() {
  data::bitvec b; b.resize(70); b.set(3U, true); b = ~b; b.set(69U, false);
  auto buf = cista::serialize(b);
  auto p = static_cast<std::uint8_t*>(::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  std::memcpy(p, buf.data(), buf.size()); ::mprotect(p, 4096, PROT_READ);
  auto const* l = cista::deserialize<data::bitvec>(const_cast<std::uint8_t const*>(p), const_cast<std::uint8_t const*>(p) + buf.size());
  REQ(l->count() == 68);
}
'''),
dict(id="c05-insert-remap", prop="C05", edits=[(I+"containers/mmap_vec.h","""    pos = begin() + pos_idx;

""","""    pos = pos_idx == 0 ? begin() : pos;

""")],
 needs="inserting a range in the middle of a file-backed vector whose mapping has to grow for it", breaks="elements are written through the old mapping",
 demo=H+'''#include "cista/containers/mmap_vec.h"
#include <unistd.h>
int main() {
  char d[] = "/tmp/cista_demo_XXXXXX"; REQ(mkdtemp(d) != nullptr); std::string p = std::string(d) + "/f";
  int rc = 0;
  { pid_t c = fork(); if (c == 0) {
    cista::mmap_vec<std::uint64_t> v{cista::mmap{p.c_str()}};
    for (unsigned i = 0; i < 512; ++i) v.push_back(i);
    std::vector<std::uint64_t> n(700, 7u);
    v.insert(v.begin() + 100, n.begin(), n.end());
    bool ok = v.size() == 1212; for (unsigned i = 0; ok && i < 1212; ++i) ok = v[i] == (i < 100 ? i : i < 800 ? 7u : i - 700u);
    _exit(ok ? 0 : 1); }
    int st = 0; waitpid(c, &st, 0); rc = WIFEXITED(st) ? WEXITSTATUS(st) : 2; }
  unlink(p.c_str()); rmdir(d); REQ(rc == 0);
}
'''.replace('#include <unistd.h>','#include <unistd.h>\n#include <sys/wait.h>')),
dict(id="c04-unmap-size", prop="C04", edits=[(I+"mmap.h","""      ::munmap(addr_, old_size);
    }
    addr_ = new_addr;""","""      ::munmap(addr_, size_);
    }
    addr_ = new_addr;""")],
 needs="growing a mapping by more than a page while another mapping lies behind it", breaks="pages of the other mapping are released",
 demo=H+'''#include "cista/mmap.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
int main() {
  char d[] = "/tmp/cista_demo_XXXXXX"; REQ(mkdtemp(d) != nullptr); std::string p = std::string(d) + "/f", q = std::string(d) + "/g";
  pid_t c = fork(); if (c == 0) {
    cista::mmap a{p.c_str()}; a.resize(4096); a[5] = 9;
    std::vector<cista::mmap> o; o.reserve(40);
    std::vector<unsigned char*> anon; for (int i = 0; i < 64; ++i) anon.push_back(static_cast<unsigned char*>(::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)));
    cista::mmap b{q.c_str()}; b.resize(4096);
    a.resize(1 << 18); b.resize(1 << 18);
    for (auto* x : anon) *x = 1;
    _exit(a[5] == 9 ? 0 : 1); }
  int st = 0; waitpid(c, &st, 0); unlink(p.c_str()); unlink(q.c_str()); rmdir(d); REQ(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
'''),
dict(id="c02-head-unflushed", prop="C02", edits=[(I+"targets/file.h","""                       serialized_size<T>(), f_) == serialized_size<T>(),
           "write error");
    verify(!std::fflush(f_), "flush error");""","""                       serialized_size<T>(), f_) == serialized_size<T>(),
           "write error");""")],
 needs="the last bytes written stay in the stream buffer and the operating system refuses them when the file is closed", breaks="saving reports success although bytes were never handed over",
 demo=C+'''#include "cista/targets/file.h"
#include <unistd.h>
int main() {
  char d[] = "/tmp/cista_demo_XXXXXX"; REQ(mkdtemp(d) != nullptr); std::string p = std::string(d) + "/f";
  bool same = false;
  data::vector<int> v; for (int i = 0; i < 9; ++i) v.push_back(i);
  { cista::file f{p.c_str(), "w+"}; cista::serialize<cista::mode::WITH_INTEGRITY | cista::mode::WITH_VERSION>(f, v);
    auto m = cista::serialize<cista::mode::WITH_INTEGRITY | cista::mode::WITH_VERSION>(v);
    cista::file r{p.c_str(), "r"}; auto c = r.content(); same = c.size() == m.size() && std::memcmp(c.data(), m.data(), m.size()) == 0; }
  unlink(p.c_str()); rmdir(d); REQ(same);
}
'''),
dict(id="c13-next-cut", prop="C13", edits=[(I+"containers/bitvec.h","""      auto const n = std::min(size(), bits_per_block);""","""      auto const n =
          std::min(size() - first_block_idx * bits_per_block, bits_per_block - 1U);""")],
 needs="the 64th bit of a block", breaks="searching skips the last bit of the block it starts in",
 demo=C+'''#include "cista/containers/bitvec.h"
int main() { data::bitvec b; b.resize(200); b.set(127U, true); auto r = b.next_set_bit(100U); REQ(r.has_value() && *r == 127U); b.set(127U, false); b.set(191U, true); r = b.next_set_bit(130U); REQ(r.has_value() && *r == 191U); }
'''),
]
