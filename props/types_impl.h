// One storage type of the wrong-type harness: saved and loaded in every
// fingerprinted mode.
#pragma once
#include "store_types.h"
#include "cista/io.h"

namespace props {
using cista::mode;
struct TypeIo {
  char const* name;
  // both run as calls of the library; the dump goes to *out
  void (*save)(int mode, int target, char const* file, uint64_t seed, std::string* out);
  void (*load)(int mode, int way, char const* file, uint8_t* from, uint8_t* to, std::string* out);
};
enum { TM_VI, TM_SI, TM_V, TM_SD, TM_BVI, TM_SIU, TM_BS, N_TM };
inline char const* const tm_names[] = {"version|integrity", "static_version|integrity", "version", "static_version|deep", "big_endian|version|integrity", "default", "big_endian|static_version"};

template <typename T>
std::string tdump(T const& t) {
  NoSut n;
  Dump d;
  G<T>::dump(d, t);
  return d.s;
}
template <typename T, mode M>
void tsave(int target, char const* file, T& t) {
  switch (target) {
    case 0: {
      cista::byte_buf b = cista::serialize<M>(t);
      NoSut n;
      disk::set_content(file, disk::Bytes(b.begin(), b.end()));
      break;
    }
    case 1: { cista::file f{file, "w+"}; cista::serialize<M>(f, t); break; }
    case 2: { cista::buf<cista::mmap> b{cista::mmap{file, cista::mmap::protection::WRITE}}; cista::serialize<M>(b, t); break; }
    default: cista::write<M>(std::filesystem::path{file}, t);
  }
}
template <typename T, mode M>
void tload(int way, char const* file, uint8_t* from, uint8_t* to, std::string* out) {
  constexpr bool fresh = kOffset && !cista::is_mode_enabled(M, mode::SERIALIZE_BIG_ENDIAN);
  if (way == 1) { auto w = cista::read<T, M>(std::filesystem::path{file}); *out = tdump<T>(*w.get()); return; }
  if constexpr (fresh) {
    if (way == 2) { auto w = cista::read_mmap<T, M>(std::filesystem::path{file}); *out = tdump<T>(*w.get()); return; }
    if (way == 3) { *out = tdump<T>(*cista::deserialize<T, M>(const_cast<uint8_t const*>(from), const_cast<uint8_t const*>(to))); return; }
    if (way == 4) { cista::mmap m{file, cista::mmap::protection::READ}; *out = tdump<T>(*cista::deserialize<T, M>(m)); return; }
  }
  *out = tdump<T>(*cista::deserialize<T, M>(from, to));
}
namespace tm {
constexpr auto V = mode::WITH_VERSION, I = mode::WITH_INTEGRITY, S = mode::WITH_STATIC_VERSION, U = mode::UNCHECKED, B = mode::SERIALIZE_BIG_ENDIAN, D = mode::DEEP_CHECK;
}
template <typename T>
TypeIo type_io(char const* name) {
  TypeIo r;
  r.name = name;
  r.save = [](int m, int target, char const* file, uint64_t seed, std::string* out) {
    using namespace tm;
    T t{};
    GR g{seed, 3};
    G<T>::gen(t, g);
    *out = tdump(t);
    switch (m) {
      case TM_VI: tsave<T, V | I>(target, file, t); break;
      case TM_SI: tsave<T, S | I>(target, file, t); break;
      case TM_V: tsave<T, V>(target, file, t); break;
      case TM_SD: tsave<T, S | D>(target, file, t); break;
      case TM_BVI: tsave<T, B | V | I>(target, file, t); break;
      case TM_SIU: tsave<T, S | I | U>(target, file, t); break;
      case TM_BS: tsave<T, B | S>(target, file, t); break;
    }
  };
  r.load = [](int m, int way, char const* file, uint8_t* a, uint8_t* b, std::string* out) {
    using namespace tm;
    switch (m) {
      case TM_VI: tload<T, V | I>(way, file, a, b, out); break;
      case TM_SI: tload<T, S | I>(way, file, a, b, out); break;
      case TM_V: tload<T, V>(way, file, a, b, out); break;
      case TM_SD: tload<T, S | D>(way, file, a, b, out); break;
      case TM_BVI: tload<T, B | V | I>(way, file, a, b, out); break;
      case TM_SIU: tload<T, S | I | U>(way, file, a, b, out); break;
      case TM_BS: tload<T, B | S>(way, file, a, b, out); break;
    }
  };
  return r;
}

// layouts that differ in one place
struct A1 { uint32_t a_{}, b_{}; };
struct A2 { uint32_t a_{}; uint16_t b_{}; };
struct A3 { uint32_t a_{}, b_{}, c_{}; };
struct A4 { uint64_t a_{}; };
struct A5 { uint32_t a_{}; float b_{}; };
struct A6 { double a_{}; };
struct AB1 { A1 x_; A4 y_; A1 z_; };
struct AB2 { A1 x_; A4 y_; A4 z_; };
struct AB3 { A1 x_; A1 y_; A4 z_; };
struct SN { data::string s_; uint32_t n_{}; };
struct NS { uint32_t n_{}; data::string s_; };
struct Deep1 { data::vector<data::unique_ptr<data::vector<SN>>> v_; };
struct Deep2 { data::vector<data::unique_ptr<data::vector<NS>>> v_; };
enum class E1 : uint8_t { A, B, C };
enum class E2 : uint16_t { A, B, C };
struct En1 { E1 a_{}; uint32_t b_{}; };
struct En2 { E2 a_{}; uint32_t b_{}; };
struct P1 { data::vector<uint32_t> v_; data::ptr<uint32_t> p_{nullptr}; };
struct P2 { data::vector<uint32_t> v_; data::ptr<uint16_t> p_{nullptr}; };
struct L1 { uint32_t a_{}; data::vector<data::ptr<L1>> l_; };
struct L2 { uint16_t a_{}; data::vector<data::ptr<L2>> l_; };
struct Inh1 { auto cista_members() noexcept { return std::tie(a_, s_); } uint16_t a_{}; data::string s_; };
struct Inh2 : Inh1 { auto cista_members() noexcept { return std::tie(*static_cast<Inh1*>(this), b_); } uint64_t b_{}; };
struct In1 { uint32_t a_{}; uint8_t b_{}; };
struct In2 { uint32_t a_{}; };
struct Nst1 { In1 x_; uint8_t y_{}; };
struct Nst2 { In2 x_; uint8_t y_{}, z_{}; };
template <typename... T> using Tup = cista::tuple<T...>;
template <typename... T> using Var = data::variant<T...>;
template <typename A, typename B> using Pr = data::pair<A, B>;
using V64 = cista::basic_vector<uint32_t, data::ptr, false, uint64_t>;
using V16 = cista::basic_vector<uint32_t, data::ptr, false, uint16_t>;
struct Sec { std::chrono::duration<int64_t, std::ratio<1>> d_{}; };
struct Msec { std::chrono::duration<int64_t, std::milli> d_{}; };
struct Sec32 { std::chrono::duration<int32_t, std::ratio<1>> d_{}; int32_t pad_{}; };
template <> struct G<P1> {
  static void gen(P1& t, GR& g) { G<data::vector<uint32_t>>::gen(t.v_, g); }
  static void dump(Dump& d, P1 const& t) { G<data::vector<uint32_t>>::dump(d, t.v_); d.num(t.p_ == nullptr ? -1 : static_cast<ll>(*t.p_)); }
};
template <> struct G<P2> {
  static void gen(P2& t, GR& g) { G<data::vector<uint32_t>>::gen(t.v_, g); }
  static void dump(Dump& d, P2 const& t) { G<data::vector<uint32_t>>::dump(d, t.v_); }
};
template <typename L> struct GL {
  static void gen(L& t, GR& g) { G<decltype(t.a_)>::gen(t.a_, g); for (auto n = g.r.below(3); n > 0; --n) t.l_.emplace_back(nullptr); }
  static void dump(Dump& d, L const& t) { d.num(static_cast<ll>(t.a_)); d.num(static_cast<ll>(t.l_.size())); }
};
template <> struct G<L1> : GL<L1> {};
template <> struct G<L2> : GL<L2> {};
struct Vg1 { Var<uint64_t, uint32_t> v_; uint16_t x_{}; };
struct Vg2 { Var<uint64_t, uint32_t, uint16_t> v_; };
struct Tg1 { Tup<uint32_t, uint8_t> t_; uint16_t x_{}; };
struct Tg2 { Tup<uint32_t, uint8_t, uint16_t> t_; };
struct Tp1 { std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<int64_t, std::micro>> t_{}; };
struct Tp2 { std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<int64_t, std::nano>> t_{}; };
std::vector<TypeIo> types1();
std::vector<TypeIo> types2();
std::vector<TypeIo> types3();
std::vector<TypeIo> types4();
std::vector<TypeIo> types5();
}  // namespace props
