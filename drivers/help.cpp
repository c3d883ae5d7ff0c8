// Entry points for C18 (shift, cast, visiting) and C23 (array builders).
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <array>
#include <utils/common.h>
using namespace utils;
#define E extern "C"
// ---- shifts
#define SH(n, T) \
  E T w_shl_##n(T v, std::size_t k) { return shift_left(v, k); } E T w_shr_##n(T v, std::size_t k) { return shift_right(v, k); } \
  E T w_shlr_##n(T v, std::size_t k) { return shift_left(static_cast<T &&>(v), k); } E T w_shrr_##n(T v, std::size_t k) { return shift_right(static_cast<T &&>(v), k); } \
  E T w_shlc_##n(const T v, std::size_t k) { return shift_left(v, k); } E T w_shrc_##n(const T v, std::size_t k) { return shift_right(v, k); } \
  E bool w_sht_##n() { T v = 0; const T c = 0; return std::is_same_v<decltype(shift_left(v, 1)), T> && std::is_same_v<decltype(shift_right(v, 1)), T> && std::is_same_v<decltype(shift_left(c, 1)), T> && std::is_same_v<decltype(shift_right(c, 1)), T> && std::is_same_v<decltype(shift_left(std::declval<T>(), 1)), T> && std::is_same_v<decltype(shift_right(std::declval<T>(), 1)), T>; }
SH(i8, signed char) SH(u8, unsigned char) SH(i16, short) SH(u16, unsigned short) SH(i32, int) SH(u32, unsigned) SH(i64, long) SH(u64, unsigned long) SH(ill, long long) SH(ull, unsigned long long) SH(c, char) SH(wc, wchar_t) SH(c16, char16_t)
// ---- bit_cast
struct s13 { unsigned char b[13]; }; struct s8 { std::uint16_t a; std::uint8_t b; std::uint8_t c; std::uint32_t d; }; struct s40 { std::uint64_t a[5]; }; struct p40 { double d; void *p[3]; unsigned char b[8]; }; enum class en32 : std::uint32_t { a };
#define BC(n, A, B) E void w_bc_##n(const A *a, B *b) { *b = bit_cast<B>(*a); } E void w_bcr_##n(const B *a, A *b) { *b = bit_cast<A>(*a); } E void w_bc2_##n(const A *a, A *b) { *b = bit_cast<A>(bit_cast<B>(*a)); }
using a13 = std::array<std::byte, 13>; using a8 = std::array<unsigned char, 8>; using a4 = std::array<unsigned short, 2>;
BC(f, float, std::uint32_t) BC(d, double, std::uint64_t) BC(i, int, float) BC(l, long, double) BC(s13, s13, a13) BC(s8, s8, std::uint64_t) BC(a8, a8, double) BC(s40, s40, p40) BC(e, en32, a4) BC(c, signed char, unsigned char) BC(h, short, unsigned short) BC(p, void *, std::uint64_t)
// ---- to_underlying
#define EN(n, T) enum class e_##n : T { a }; E T w_un_##n(e_##n e) { return to_underlying(e); } E bool w_unt_##n() { return std::is_same_v<decltype(to_underlying(e_##n::a)), T>; }
EN(i8, signed char) EN(u8, unsigned char) EN(i16, short) EN(u16, unsigned short) EN(i32, int) EN(u32, unsigned) EN(i64, long) EN(u64, unsigned long) EN(c, char) EN(b, bool)
enum eold : unsigned char { o1, o2 }; E unsigned char w_un_old(eold e) { return to_underlying(e); } E bool w_unt_old() { return std::is_same_v<decltype(to_underlying(o1)), unsigned char>; }
// ---- visiting: opaque functors, every call an event
struct X { char c[5]; }; struct Y { long y; }; struct Z { ~Z(); int z[3]; Z(const Z &); };
struct F { void operator()(X &) const; void operator()(const X &) const; void operator()(X &&) const; void operator()(Y &) const; void operator()(const Y &) const; void operator()(Y &&) const; void operator()(Z &) const; void operator()(const Z &) const; void operator()(Z &&) const; void operator()(int &) const; void operator()(const int &) const; void operator()(int &&) const; };
struct G { int n; int operator()(X &); int operator()(const X &); int operator()(X &&); int operator()(Y &); int operator()(const Y &); int operator()(Y &&); int operator()(Z &); int operator()(const Z &); int operator()(Z &&); int operator()(int &); int operator()(const int &); int operator()(int &&); };
E {
void w_fe0(F *f) { for_each_arg(*f); }
void w_fe1(F *f, X *a) { for_each_arg(*f, *a); }
void w_fe3(F *f, X *a, Y *b, Z *c) { for_each_arg(*f, *a, *b, *c); }
void w_fe3c(const F *f, const X *a, const Y *b, const Z *c) { for_each_arg(*f, *a, *b, *c); }
void w_fe3r(F *f, X *a, Y *b, Z *c) { for_each_arg(std::move(*f), std::move(*a), std::move(*b), std::move(*c)); }
void w_fe5(G *f, int *a, X *b, int *c, Y *d, Z *e) { for_each_arg(*f, *a, std::move(*b), static_cast<const int &>(*c), *d, *e); }
void w_fe12(F *f, int *a, int *b, int *c, int *d, int *e, int *g, int *h, int *i, int *j, int *k, X *l, Y *m) { for_each_arg(*f, *a, *b, *c, *d, *e, *g, *h, *i, *j, *k, *l, *m); }
void w_ft12(F *f, int *a, int *b, int *c, int *d, int *e, int *g, int *h, int *i, int *j, int *k, X *l, Y *m) { auto t = std::tie(*a, *b, *c, *d, *e, *g, *h, *i, *j, *k, *l, *m); for_each_in_tuple(*f, t); }
void w_fe2same(G *f, Y *a, Y *b) { for_each_arg(*f, *a, *b); }
void w_ftr(G *f, X *a, Y *b, Z *c) { auto t = std::tie(*a, *b, *c); for_each_in_tuple(*f, t); }
void w_ft0(G *f) { std::tuple<> t; for_each_in_tuple(*f, t); }
using T3 = std::tuple<X, Y, int>;
void w_ft3(F *f, T3 *t) { for_each_in_tuple(*f, *t); }
void w_ft3c(F *f, const T3 *t) { for_each_in_tuple(*f, *t); }
void w_ft3r(F *f, T3 *t) { for_each_in_tuple(*f, std::move(*t)); }
X *w_t3_0(T3 *t) { return &std::get<0>(*t); } Y *w_t3_1(T3 *t) { return &std::get<1>(*t); } int *w_t3_2(T3 *t) { return &std::get<2>(*t); }
using P2 = std::pair<int, Y>;
void w_fp2(G *f, P2 *t) { for_each_in_tuple(*f, *t); }
int *w_p2_0(P2 *t) { return &t->first; } Y *w_p2_1(P2 *t) { return &t->second; }
void w_fa(F *f, std::array<int, 4> *t) { for_each_in_tuple(*f, *t); }
T3 v_t3; P2 v_p2;
}
