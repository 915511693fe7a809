// Many files of many types under few names: a load of the type that was saved
// gives the saved value, a load of any other type is refused.
#include "types_impl.h"

namespace props {
static std::vector<TypeIo> const& table() {
  static std::vector<TypeIo> const t = [] {
    std::vector<TypeIo> r;
    for (auto* f : {types1, types2, types3, types4, types5})
      for (auto const& e : f()) r.push_back(e);
    return r;
  }();
  return t;
}
enum { TY_SAVE, TY_LOAD, TY_SWAP, TY_COPY, TY_BACK, TY_POWER, N_TY };
static char const* ty_name(int c) {
  static char const* n[] = {"save", "load", "swap files", "copy file", "put back an older file", "power loss"};
  return c >= 0 && c < N_TY ? n[c] : "?";
}
static char const* const kF[] = {"/simdisk/a", "/simdisk/b", "/simdisk/c"};
// Known findings (known_findings.txt): different layouts with equal
// fingerprints.  Integers of one width and strong types over them count as the
// same type.
static bool known_equal(char const* a, char const* b) {
  static std::vector<std::vector<char const*>> const sets = {
      {"Nst1", "Nst2"}, {"Vg1", "Vg2"}, {"Tg1", "Tg2"}, {"cista::bitset<200>", "cista::bitset<220>"}, {"cista::bitset<63>", "cista::bitset<64>"},
      {"uint32_t", "cista::strong<uint32_t, IdTag>"}, {"int64_t", "cista::strong<uint64_t, IdTag>"},
      {"Vec<cista::strong<uint16_t, IdTag>>", "data::vector<uint16_t>"}, {"Vec<cista::strong<uint64_t, IdTag>>", "data::vector<uint64_t>"},
      {"Vec<int32_t>", "data::vector<uint32_t>"}, {"Vec<int8_t>", "data::vector<bool>"}};
  auto in = [](std::vector<char const*> const& s, char const* x) { return std::any_of(s.begin(), s.end(), [&](char const* y) { return std::strcmp(x, y) == 0; }); };
  return std::strcmp(a, b) != 0 && std::any_of(sets.begin(), sets.end(), [&](auto const& s) { return in(s, a) && in(s, b); });
}
static Plan gen_types(Rng& r, int tier) {
  Plan p;
  auto const n_types = static_cast<ll>(table().size());
  // a handful of types per run, often neighbours of the table
  std::vector<ll> ts;
  auto first = r.range(0, n_types - 1);
  for (int i = 0; i < 4; ++i) ts.push_back(r.chance(600) ? (first + r.range(-3, 3) + n_types) % n_types : r.range(0, n_types - 1));
  auto type = [&] { return ts[r.below(ts.size())]; };
  ll n = r.range(4, 24) * (tier ? 2 : 1);
  auto const mode = static_cast<ll>(r.below(N_TM));
  for (ll i = 0; i < n; ++i) {
    Op o;
    auto const path = static_cast<ll>(r.below(3));
    auto const x = r.below(20);
    if (x < 6) {
      o.code = TY_SAVE;
      o.a = type();
      o.b = r.chance(600) ? mode : static_cast<ll>(r.below(N_TM));
      o.c = path | static_cast<ll>(r.below(4)) << 4 | static_cast<ll>(r.next() >> 24) << 8;
      if (r.chance(200)) {
        Fault f;
        static int const kinds[] = {F_POWER, F_CRASH, F_IO, F_IO_ALL, F_ALLOC};
        f.kind = kinds[r.below(5)];
        f.n = static_cast<int64_t>(r.below(30));
        f.arg = static_cast<int64_t>(r.next() >> 16);
        o.f.push_back(f);
      }
    } else if (x < 16) {
      o.code = TY_LOAD;
      o.a = r.chance(300) ? -1 : r.chance(60) ? -2 : type();  // -1: the type of the file, -2: each other type in turn
      o.b = static_cast<ll>(r.below(6));
      o.c = path;
      if (r.chance(60)) {
        Fault f;
        f.kind = r.chance(500) ? F_IO : F_ALLOC;
        f.n = static_cast<int64_t>(r.below(6));
        f.arg = static_cast<int64_t>(r.next() >> 16);
        o.f.push_back(f);
      }
    } else {
      o.code = x == 16 ? TY_SWAP : x == 17 ? TY_COPY : x == 18 ? TY_BACK : TY_POWER;
      o.a = path;
      o.b = static_cast<ll>(r.below(3));
      o.c = static_cast<ll>(r.next() >> 16);
    }
    p.ops.push_back(o);
  }
  return p;
}
struct Img {
  disk::Bytes bytes;
  int type, mode;
  std::string dump;
};
static bool has_integrity(int m) { return m == TM_VI || m == TM_SI || m == TM_BVI || m == TM_SIU; }
static void exec_types(Plan const& p) {
  auto const& t = table();
  std::vector<Img> done, begun;
  int mode_of[3] = {-1, -1, -1};  // the mode a reader expects under this name
  auto find = [&](disk::Bytes const& c, int m) -> Img const* {
    for (auto it = done.rbegin(); it != done.rend(); ++it)
      if (it->mode == m && it->bytes == c) return &*it;
    return nullptr;
  };
  for (auto const& op : p.ops) {
    log_event('O', static_cast<uint64_t>(op.code));
    auto const before = heap::live_blocks();
    switch (op.code) {
      case TY_SAVE: {
        auto const ti = static_cast<std::size_t>(op.a) % t.size();
        int const m = static_cast<int>(op.b % N_TM), path = static_cast<int>(op.c & 15) % 3, target = static_cast<int>((op.c >> 4) & 3);
        trace("    %s as %s, target %d, to %s", t[ti].name, tm_names[m], target, kF[path]);
        std::string dump;
        mode_of[path] = m;
        auto const seed = static_cast<uint64_t>(op.c);
        begun.push_back({{}, static_cast<int>(ti), m, {}});
        auto r = call(op, [&] { t[ti].save(m, target, kF[path], seed, &dump); }, true);
        if (disk::crashed() || r.out == Out::stopped) {
          CHK(disk::crashed() || r.faulted(), "save-spurious", "saving stopped the process without a fault");
          disk::reboot();
          count("process death while saving");
          begun.back().dump = dump;
          continue;
        }
        CHK(r.ok() || r.faulted(), "save-spurious", "saving a %s (%s) failed without a fault: %s", t[ti].name, tm_names[m], r.what.c_str());
        begun.back().dump = dump;
        if (r.ok()) done.push_back({disk::content(kF[path]), static_cast<int>(ti), m, dump});
        note_state(mix(ti, static_cast<uint64_t>(m * 4 + target)));
        break;
      }
      case TY_LOAD: {
        int const path = static_cast<int>(op.c % 3);
        int const m = mode_of[path];
        if (m < 0 || !disk::exists(kF[path])) break;
        auto const content = disk::content(kF[path]);
        auto const* img = find(content, m);
        if (img == nullptr && !has_integrity(m)) break;  // incomplete file without a checksum
        // a crash left the older image of another mode: which mode to expect is the user's business
        if (img == nullptr && std::any_of(done.begin(), done.end(), [&](Img const& i) { return i.bytes == content; })) break;
        auto load_as = [&](std::size_t const ti) {
          bool const same = img != nullptr && img->type == static_cast<int>(ti);
          if (img == nullptr && std::any_of(begun.begin(), begun.end(), [&](Img const& i) { return known_equal(t[ti].name, t[static_cast<std::size_t>(i.type)].name); })) return;
          if (img != nullptr && known_equal(t[ti].name, t[static_cast<std::size_t>(img->type)].name)) return;
          trace("    %s as %s (%s), way %d, holds %s", kF[path], t[ti].name, tm_names[m], (int)op.b, img != nullptr ? t[static_cast<std::size_t>(img->type)].name : "an incomplete image");
          auto* mem = static_cast<uint8_t*>(heap::image_alloc(content.size() + 1, 64));
          std::memcpy(mem, content.data(), content.size());
          std::string dump;
          auto r = call(op, [&] { t[ti].load(m, static_cast<int>(op.b % 6), kF[path], mem, mem + content.size(), &dump); }, true);
          heap::image_free(mem);
          if (r.out == Out::stopped) {
            CHK(r.faulted(), "load-spurious", "loading stopped the process without a fault");
            disk::reboot();
            return;
          }
          if (same) {
            CHK(r.ok() || r.faulted(), "load-spurious", "a complete image of %s (%s) was rejected: %s", t[ti].name, tm_names[m], r.what.c_str());
            if (r.ok()) CHK(dump == img->dump, "load-differs", "%s (%s) was loaded with other content", t[ti].name, tm_names[m]);
            count("loads of the right type");
          } else {
            // a save that ended early may have finished its file
            auto const finished = img == nullptr && r.ok() && std::any_of(begun.begin(), begun.end(), [&](Img const& i) { return i.type == static_cast<int>(ti) && i.dump == dump; });
            CHK(!r.ok() || finished, "wrong-type", "%s was accepted as a value of type %s (%s)",
                img != nullptr ? t[static_cast<std::size_t>(img->type)].name : "an incomplete image", t[ti].name, tm_names[m]);
            count(img != nullptr ? "loads of a wrong type refused" : "loads of an incomplete file refused");
            if (img != nullptr) note_state(mix(ti * 1000 + static_cast<uint64_t>(img->type), static_cast<uint64_t>(m)));
            mark_nontrivial();
          }
        };
        if (op.a == -2) {
          for (std::size_t ti = 0; ti < t.size(); ++ti) load_as(ti);
        } else load_as(op.a < 0 ? static_cast<std::size_t>(img != nullptr ? img->type : 0) : static_cast<std::size_t>(op.a) % t.size());
        break;
      }
      case TY_SWAP: case TY_COPY: {
        int const a = static_cast<int>(op.a), b = static_cast<int>(op.b);
        if (a == b || !disk::exists(kF[a]) || (op.code == TY_SWAP && !disk::exists(kF[b]))) break;
        auto const ca = disk::content(kF[a]);
        if (op.code == TY_SWAP) {
          disk::set_content(kF[a], disk::content(kF[b]));
          std::swap(mode_of[a], mode_of[b]);
        } else mode_of[b] = mode_of[a];
        disk::set_content(kF[b], ca);
        break;
      }
      case TY_BACK:
        if (!done.empty()) {
          auto const& i = done[static_cast<std::size_t>(op.c) % done.size()];
          disk::set_content(kF[op.a], i.bytes);
          mode_of[op.a] = i.mode;
        }
        break;
      case TY_POWER: disk::power_loss_now(static_cast<uint64_t>(op.c)); continue;
    }
    disk::expect_released(ty_name(op.code));
    if (heap::live_blocks() != before) check(false, O_MEM, "leak", "%s: %llu blocks are live, %llu before: %s", ty_name(op.code), (unsigned long long)heap::live_blocks(), (unsigned long long)before, heap::describe_live().c_str());
  }
}
}  // namespace props

std::vector<sim::Harness> const& sim::harnesses() {
  static std::vector<Harness> const h{{"types", props::ty_name, props::gen_types, props::exec_types}};
  return h;
}
