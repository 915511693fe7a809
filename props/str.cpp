// Histories over cista strings and C-strings, owning and not (C10, C15).
#include "common.h"
#include "cista/containers/cstring.h"
#include <sstream>

namespace data = cista::offset;
namespace props {

enum StrOp {
  S_OWN, S_BORROW, S_CTOR_OWN, S_CTOR_BORROW, S_ASSIGN, S_COPY_CONSTRUCT, S_MOVE_CONSTRUCT, S_COPY_ASSIGN, S_MOVE_ASSIGN,
  S_SELF_COPY, S_SELF_MOVE, S_ERASE, S_RESET, S_WRITE, S_SWAP, S_RESTART, S_COMPARE, S_AFFIX, S_HASH, N_STR_OPS
};
static char const* str_op_name(int c) {
  static char const* n[] = {"set_owning", "set_non_owning", "ctor(owning)", "ctor(non-owning)", "operator=", "copy-construct",
    "move-construct", "copy-assign", "move-assign", "self-copy", "self-move", "erase", "reset", "write", "swap", "restart",
    "compare", "starts/ends_with", "hash"};
  return c >= 0 && c < N_STR_OPS ? n[c] : "?";
}

enum StrKind { OWNING, VIEW, GENERIC };

template <typename Str, typename Ch, StrKind Kind, bool Nul /* text may contain NUL, always terminated */>
struct StrRun {
  using Text = std::basic_string<Ch>;
  using View = std::basic_string_view<Ch>;
  static constexpr int N = 3;
  Slot<Str> s[N];
  Text m[N];
  std::vector<Ch*> blocks;

  static Text text(ll seed, ll len) {
    Text t;
    Rng r{static_cast<uint64_t>(seed)};
    for (ll i = 0; i < len; ++i) {
      auto c = static_cast<Ch>(r.below(sizeof(Ch) == 1 ? 256 : 0xD000));
      if (c == 0 || seed % 3 == 0) c = static_cast<Ch>('a' + r.below(3));
      if (Nul && seed % 5 == 1 && r.chance(150)) c = 0;
      t.push_back(c);
    }
    return t;
  }
  static ll length(ll sel) {
    static int const l[] = {0, 1, 2, 3, 6, 7, 8, 13, 14, 15, 16, 17, 22, 31, 33, 64, 200};
    return l[static_cast<size_t>(sel) % 17];
  }
  // exact-size block, terminator only if asked for
  Ch* block(Text const& t, bool term) {
    auto p = static_cast<Ch*>(heap::image_alloc((t.size() + (term ? 1 : 0)) * sizeof(Ch) + (t.empty() && !term ? 1 : 0), alignof(Ch)));
    if (!t.empty()) std::memcpy(p, t.data(), t.size() * sizeof(Ch));
    if (term) p[t.size()] = 0;
    return p;
  }
  static std::string printable(View v) {
    std::string r = "\"";
    for (size_t i = 0; i < v.size() && i < 40; ++i) {
      auto c = static_cast<unsigned>(static_cast<std::make_unsigned_t<Ch>>(v[i]));
      if (c >= 32 && c < 127) r += static_cast<char>(c);
      else r += "\\" + std::to_string(c);
    }
    return r + "\"(" + std::to_string(v.size()) + ")";
  }
  void verify(int k, char const* after) {
    auto const& x = *s[k].p;
    View v = x.view();
    if (v.size() != m[k].size() || v != View{m[k]}) violation(O_MODEL, "str-content", std::string(after) + ": string is " + printable(v) + ", reference is " + printable(m[k]));
    CHK(x.size() == m[k].size() && x.empty() == m[k].empty(), "str-size", "%s: size/empty differ", after);
    size_t i = 0;
    for (auto c : x) {
      CHK(i < m[k].size() && c == m[k][i], "str-iterate", "%s: iteration differs at %zu", after, i);
      ++i;
    }
    CHK(i == m[k].size(), "str-iterate", "%s: iteration stops early", after);
    if (!m[k].empty()) CHK(x[m[k].size() - 1] == m[k].back(), "str-index", "%s: operator[] differs", after);
    if constexpr (Nul && Kind == OWNING) {
      if (!s[k].image) CHK(x.c_str()[x.size()] == 0, "str-terminator", "%s: no terminator", after);
    }
    note_state(mix(m[k].size(), mix(x.is_short(), s[k].in_image(x.data()))));
  }
  void resync_failed(int k, Text const& alt, char const* nm) {
    View v = s[k]->view();
    CHK(v.empty() || v == View{m[k]} || v == View{alt}, "str-failed-op", "failed %s leaves foreign content", nm);
    m[k] = Text{v};
  }
  static constexpr bool terminated_borrow = false;

  void exec(Plan const& p) {
    for (auto& x : s) sut([&] { x.construct([](void* w) { new (w) Str(); }); });
    for (auto const& op : p.ops) {
      char const* nm = str_op_name(op.code);
      int const k = static_cast<int>(op.a % N), o = static_cast<int>((op.a + 1 + op.a / N % (N - 1)) % N);
      if (tracing()) trace("  %s k=%d o=%d seed=%lld len=%lld", nm, k, o, (ll)op.b, length(op.c));
      log_event('O', static_cast<uint64_t>(op.code));
      auto& t = s[k];
      CallResult r;
      switch (op.code) {
        case S_OWN: case S_BORROW: case S_CTOR_OWN: case S_CTOR_BORROW: case S_ASSIGN: {
          auto txt = text(op.b, length(op.c));
          ll const how = op.c / 17 % 4;
          bool const cstr = how == 3 && txt.find(Ch{}) == Text::npos;
          bool const borrow = op.code == S_BORROW || op.code == S_CTOR_BORROW || (op.code == S_ASSIGN && Kind == VIEW);
          if (Kind == OWNING && borrow) break;
          if (Kind == VIEW && !borrow) break;
          auto b = block(txt, cstr);
          auto const len = static_cast<typename Str::msize_t>(txt.size());
          std::basic_string<Ch> stds;
          if (how == 2) stds = txt;
          Slot<Str> ns;
          bool done = true;
          r = call(op, [&] {
            switch (op.code) {
              case S_OWN:
                if (cstr) t->set_owning(b);
                else if (how == 2) t->set_owning(stds);
                else if (how == 1) t->set_owning(View{b, len});
                else t->set_owning(b, len);
                break;
              case S_BORROW:
                if (cstr) t->set_non_owning(b);
                else if (how == 1) t->set_non_owning(View{b, len});
                else t->set_non_owning(b, len);
                break;
              case S_ASSIGN:
                if constexpr (Kind != GENERIC) {
                  if (cstr) *t = static_cast<Ch const*>(b);
                  else if (how == 2 && Kind == OWNING) *t = std::as_const(stds);
                  else *t = View{b, len};
                } else done = false;
                break;
              case S_CTOR_OWN:
                if constexpr (Kind != VIEW) ns.construct([&](void* w) {
                  if (cstr) new (w) Str(static_cast<Ch const*>(b), Str::owning);
                  else if (how == 2) new (w) Str(std::as_const(stds), Str::owning);
                  else new (w) Str(View{b, len}, Str::owning);
                });
                break;
              case S_CTOR_BORROW:
                if constexpr (Kind != OWNING) ns.construct([&](void* w) {
                  if (cstr) new (w) Str(static_cast<Ch const*>(b), Str::non_owning);
                  else new (w) Str(View{b, len}, Str::non_owning);
                });
                break;
            }
          });
          if (!done) {
            heap::image_free(b);
            break;
          }
          if (r.ok()) {
            if (ns) {
              t.destroy();
              t = ns;
            }
            m[k] = txt;
          } else if (op.code != S_CTOR_OWN && op.code != S_CTOR_BORROW) resync_failed(k, txt, nm);
          if (borrow && r.ok()) {
            bool const refers = t->data() == b;
            CHK(refers || t->is_short() || txt.empty(), "str-borrow", "non-owning string does not refer to its source");
            blocks.push_back(b);
          } else {
            std::memset(b, 0xEE, txt.size() * sizeof(Ch));  // source changes and dies
            heap::image_free(b);
          }
          break;
        }
        case S_COPY_CONSTRUCT: case S_MOVE_CONSTRUCT: {
          if constexpr (std::is_copy_constructible_v<Str>) {
            Slot<Str> ns;
            r = call(op, [&] {
              ns.construct([&](void* w) {
                if (op.code == S_COPY_CONSTRUCT) new (w) Str(std::as_const(*t.p));
                else new (w) Str(std::move(*t.p));
              });
            });
            if (r.ok()) {
              s[o].destroy();
              s[o] = ns;
              m[o] = m[k];
              if (op.code == S_MOVE_CONSTRUCT) resync_failed(k, m[k], "move");
            }
          }
          break;
        }
        case S_COPY_ASSIGN:
          if constexpr (std::is_copy_constructible_v<Str>) {
            r = call(op, [&] { *t = std::as_const(*s[o].p); });
            if (r.ok()) m[k] = m[o];
            else resync_failed(k, m[o], nm);
          }
          break;
        case S_MOVE_ASSIGN:
          if constexpr (std::is_copy_constructible_v<Str>) {
            r = call(op, [&] { *t = std::move(*s[o].p); });
            m[k] = m[o];
            resync_failed(o, m[o], "move");
          }
          break;
        case S_SELF_COPY: case S_SELF_MOVE:
          if constexpr (std::is_copy_constructible_v<Str>) {
            r = call(op, [&] {
              auto& w = *t.p;
              if (op.code == S_SELF_COPY) *t.p = w;
              else *t.p = std::move(w);
            });
          }
          break;
        case S_ERASE:
          if constexpr (!Nul) {
            auto const n = static_cast<ll>(m[k].size());
            if (n == 0 || Kind == VIEW) break;
            auto const pos = op.b % n, cnt = op.c % (n - pos + 1);
            r = call(op, [&] { t->erase(static_cast<typename Str::msize_t>(pos), static_cast<typename Str::msize_t>(cnt)); });
            auto nt = m[k];
            nt.erase(static_cast<size_t>(pos), static_cast<size_t>(cnt));
            if (r.ok()) m[k] = nt;
            else resync_failed(k, nt, nm);
          }
          break;
        case S_RESET:
          r = call(op, [&] { t->reset(); });
          m[k].clear();
          break;
        case S_WRITE: {
          if (m[k].empty() || Kind != OWNING) break;
          auto const i = static_cast<size_t>(op.b) % m[k].size();
          auto const c = static_cast<Ch>('A' + op.c % 26);
          r = call(op, [&] { (*t)[i] = c; });
          m[k][i] = c;
          break;
        }
        case S_SWAP:
          if constexpr (std::is_copy_constructible_v<Str>) {
            r = call(op, [&] { std::swap(*s[k].p, *s[o].p); });
            std::swap(m[k], m[o]);
          }
          break;
        case S_RESTART:
          if constexpr (Nul && Kind != VIEW) {  // no type fingerprint: modes without version only
            if (op.b & 1) restart_slot<cista::mode::WITH_INTEGRITY>(t, op.f, r);
            else restart_slot<cista::mode::SERIALIZE_BIG_ENDIAN>(t, op.f, r);
          } else if constexpr (!std::is_same_v<Str, cista::basic_cstring_view<char const*>>) r = restart_any(t, static_cast<int>(op.b & 0xff), op.f);
          break;
        case S_COMPARE: {
          auto const& a = *s[k].p;
          auto const& b = *s[o].p;
          auto const &ma = m[k], &mb = m[o];
          CHK((a == b) == (ma == mb) && (a != b) == (ma != mb) && (a < b) == (ma < mb) && (a > b) == (ma > mb) && (a <= b) == (ma <= mb) && (a >= b) == (ma >= mb),
              "str-compare", "comparing %s with %s", printable(ma).c_str(), printable(mb).c_str());
          View vb{mb};
          CHK((a == vb) == (ma == mb) && (a != vb) == (ma != mb) && (a < vb) == (ma < mb) && (a > vb) == (ma > mb) && (a <= vb) == (ma <= mb) && (a >= vb) == (ma >= mb) &&
              (vb == a) == (ma == mb) && (vb != a) == (ma != mb) && (vb < a) == (mb < ma) && (vb > a) == (mb > ma) && (vb <= a) == (mb <= ma) && (vb >= a) == (mb >= ma),
              "str-compare", "comparing %s with view %s", printable(ma).c_str(), printable(mb).c_str());
          {
            CHK(a.str() == ma, "str-str", "str() of %s", printable(ma).c_str());
            CHK(View{a} == View{ma}, "str-view", "the view of %s", printable(ma).c_str());
            if constexpr (std::is_constructible_v<Text, Str const&>) {
              CHK(static_cast<Text>(a) == ma, "str-str", "conversion of %s", printable(ma).c_str());
            }
            Text via_begin(begin(a), end(a)), via_mut;
            {
              auto& mut = *s[k].p;
              via_mut.assign(begin(mut), end(mut));
              CHK(Text(mut.begin(), mut.end()) == ma, "str-iterate", "iterating the mutable %s", printable(ma).c_str());
            }
            CHK(via_begin == ma && via_mut == ma, "str-iterate", "begin()/end() of %s", printable(ma).c_str());
            if constexpr (std::is_same_v<Ch, char>) {
              NoSut ns;
              std::ostringstream out;
              out << a;
              CHK(out.str() == ma, "str-print", "printing %s", printable(ma).c_str());
            }
          }
          if (mb.find(Ch{}) == Text::npos) {
            auto cb = mb.c_str();
            CHK((a == cb) == (ma == mb) && (a != cb) == (ma != mb) && (a < cb) == (ma < mb) && (a > cb) == (ma > mb) && (a <= cb) == (ma <= mb) && (a >= cb) == (ma >= mb) &&
                (cb == a) == (ma == mb) && (cb != a) == (ma != mb) && (cb < a) == (mb < ma) && (cb > a) == (mb > ma) && (cb <= a) == (mb <= ma) && (cb >= a) == (mb >= ma),
                "str-compare", "comparing %s with char* %s", printable(ma).c_str(), printable(mb).c_str());
          }
          break;
        }
        case S_AFFIX:
          if constexpr (!Nul) {
            auto const& a = *s[k].p;
            auto const& ma = m[k];
            auto probe = op.c % 3 == 0 ? m[o] : op.c % 3 == 1 ? ma.substr(0, static_cast<size_t>(op.b) % (ma.size() + 1)) : ma.substr(static_cast<size_t>(op.b) % (ma.size() + 1));
            if (op.c % 7 == 0 && !probe.empty()) probe.back() ^= 1;
            bool const sw = probe.size() <= ma.size() && ma.compare(0, probe.size(), probe) == 0;
            bool const ew = probe.size() <= ma.size() && ma.compare(ma.size() - probe.size(), probe.size(), probe) == 0;
            View pv{probe};
            CHK(a.starts_with(pv) == sw, "str-affix", "starts_with(%s) of %s", printable(pv).c_str(), printable(ma).c_str());
            CHK(a.ends_with(pv) == ew, "str-affix", "ends_with(%s) of %s", printable(pv).c_str(), printable(ma).c_str());
            auto const& b = *s[o].p;
            auto const& mb = m[o];
            bool const swb = mb.size() <= ma.size() && ma.compare(0, mb.size(), mb) == 0;
            bool const ewb = mb.size() <= ma.size() && ma.compare(ma.size() - mb.size(), mb.size(), mb) == 0;
            CHK(a.starts_with(b) == swb && a.ends_with(b) == ewb, "str-affix", "starts/ends_with the string %s of %s", printable(mb).c_str(), printable(ma).c_str());
            auto const plen = static_cast<typename Str::msize_t>(probe.size());
            CHK(a.starts_with(probe.data(), plen) == sw && a.ends_with(probe.data(), plen) == ew, "str-affix", "starts/ends_with(pointer, length) of %s", printable(ma).c_str());
            if (probe.find(Ch{}) == Text::npos) {
              CHK(a.starts_with(probe.c_str()) == sw && a.ends_with(probe.c_str()) == ew, "str-affix", "starts/ends_with(char*) of %s", printable(ma).c_str());
            }
            if (!probe.empty()) {
              CHK(a.starts_with(probe[0]) == (!ma.empty() && ma[0] == probe[0]), "str-affix", "starts_with(char)");
              CHK(a.ends_with(probe[0]) == (!ma.empty() && ma.back() == probe[0]), "str-affix", "ends_with(char)");
            }
          }
          break;
        case S_HASH:
          if constexpr (sizeof(Ch) == 1) {
            auto h1 = cista::hashing<Str>{}(*s[k].p);
            View mv{m[k]};
            auto h2 = cista::hashing<std::string_view>{}(mv);
            CHK(h1 == h2, "str-hash", "hash of %s differs from the hash of the equal std::string_view", printable(mv).c_str());
          }
          break;
      }
      CHK(r.ok() || r.faulted(), "str-spurious", "%s failed without a fault: %s", nm, r.what.c_str());
      if (!r.ok()) mark_nontrivial();
      for (int i = 0; i < N; ++i) verify(i, nm);
    }
    for (auto& x : s) x.destroy();
    for (auto b : blocks) heap::image_free(b);
    heap::expect_no_leak("string history");
  }
};

static Plan gen_str(Rng& r, int tier) {
  Plan p;
  bool const faults = r.chance(500);
  p.cfg = {static_cast<ll>(r.below(13)), faults};
  ll n = r.range(3, r.chance(150) ? 200 : 40) * (tier ? 2 : 1);
  std::vector<int> w(N_STR_OPS);
  for (auto& x : w) x = static_cast<int>(r.pick({0, 1, 1, 2, 4}));
  w[S_OWN] += 3;
  w[S_BORROW] += 2;
  if (r.chance(500)) w[S_RESTART] = 0;
  int total = 0;
  for (auto x : w) total += x;
  for (ll i = 0; i < n; ++i) {
    Op op;
    int t = static_cast<int>(r.below(static_cast<uint64_t>(total)));
    while (t >= w[static_cast<size_t>(op.code)]) t -= w[static_cast<size_t>(op.code++)];
    op.a = static_cast<int64_t>(r.below(6));
    op.b = static_cast<int64_t>(r.chance(300) ? r.below(6) : r.below(100000));
    op.c = static_cast<int64_t>(r.below(17 * 4));
    if (faults) random_alloc_fault(r, op, 200);
    p.ops.push_back(op);
  }
  return p;
}
static void exec_str(Plan const& p) {
  namespace raw = cista::raw;
  switch (p.c(0) % 13) {
    case 0: StrRun<data::string, char, OWNING, false>{}.exec(p); break;
    case 1: StrRun<raw::string, char, OWNING, false>{}.exec(p); break;
    case 2: StrRun<data::string_view, char, VIEW, false>{}.exec(p); break;
    case 3: StrRun<raw::string_view, char, VIEW, false>{}.exec(p); break;
    case 4: StrRun<data::generic_string, char, GENERIC, false>{}.exec(p); break;
    case 5: StrRun<raw::generic_string, char, GENERIC, false>{}.exec(p); break;
    case 6: StrRun<data::u16string, char16_t, OWNING, false>{}.exec(p); break;
    case 7: StrRun<raw::u32string, char32_t, OWNING, false>{}.exec(p); break;
    case 8: StrRun<data::cstring, char, OWNING, true>{}.exec(p); break;
    case 9: StrRun<cista::basic_cstring_view<char const*>, char, VIEW, true>{}.exec(p); break;
    case 10: StrRun<cista::basic_cstring<char const*>, char, OWNING, true>{}.exec(p); break;
    case 11: StrRun<data::generic_cstring, char, GENERIC, true>{}.exec(p); break;
    case 12: StrRun<cista::generic_cstring<char const*>, char, GENERIC, true>{}.exec(p); break;
  }
}
}  // namespace props
#ifndef PROPS_COMBINED
static std::vector<sim::Harness> const g_h = {{"str", props::str_op_name, props::gen_str, props::exec_str}};
std::vector<sim::Harness> const& sim::harnesses() { return g_h; }
#endif
