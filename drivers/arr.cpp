// Entry points for C23 (array builders).
#include <cstdint>
#include <cstddef>
#include <string>
#include <string_view>
#include <memory>
#include <algorithm>
#include <new>
#include <array>
#include <utils/common.h>
using namespace utils;
#define E extern "C"
template <class A> struct el; template <class T, std::size_t N> struct el<std::array<T, N>> { using type = T; static constexpr std::size_t n = N; };
// every function stores the result and the driver's type check (1 if the array type is the expected one)
template <class T, std::size_t N, class R> bool put(std::array<T, N> *o, const R &r) { if constexpr (std::is_same_v<R, std::array<T, N>>) { for (std::size_t i = 0; i < N; ++i) (*o)[i] = r[i]; return true; } else return false; }
#define ARR(T, N) std::array<T, N>
// an element whose move empties its source, so that an element built from a moved-from one is visible
struct mv { std::uint64_t v; mv() noexcept : v(0) {} mv(std::uint64_t x) noexcept : v(x) {} mv(const mv &o) noexcept : v(o.v) {} mv(mv &&o) noexcept : v(o.v) { o.v = ~std::uint64_t{}; } mv &operator=(const mv &o) noexcept { v = o.v; return *this; } mv &operator=(mv &&o) noexcept { std::uint64_t x = o.v; o.v = ~std::uint64_t{}; v = x; return *this; } };
E {
bool w_ma1(ARR(int, 1) *o, int a) { return put(o, make_array(a)); }
bool w_ma3(ARR(int, 3) *o, int a, short b, signed char c) { return put(o, make_array(a, b, c)); }
bool w_ma3m(ARR(long, 3) *o, int a, long b, unsigned char c) { return put(o, make_array(static_cast<int &&>(a), b, static_cast<const unsigned char &>(c))); }
bool w_ma6(ARR(unsigned char, 6) *o, unsigned char a, unsigned char b, unsigned char c, unsigned char d, unsigned char e, unsigned char f) { return put(o, make_array(a, b, c, d, e, f)); }
bool w_ma2u(ARR(unsigned long, 2) *o, unsigned long a, unsigned long b) { const unsigned long ca = a; return put(o, make_array(ca, static_cast<unsigned long &&>(b))); }
bool w_map(ARR(void *, 2) *o, void *a, void *b) { return put(o, make_array(a, b)); }
bool w_ma0() { return std::is_same_v<decltype(make_array<int>()), std::array<int, 0>>; }
bool w_mv1(ARR(int, 1) *o, int v) { return put(o, make_array<int, 1>(v)); }
bool w_mv2(ARR(unsigned char, 2) *o, unsigned char v) { return put(o, make_array<unsigned char, 2>(v)); }
bool w_mv7(ARR(unsigned long, 7) *o, unsigned long v) { return put(o, make_array<unsigned long, 7>(v)); }
bool w_mv64(ARR(short, 64) *o, short v) { return put(o, make_array<short, 64>(v)); }
bool w_mv300(ARR(int, 300) *o, int v) { return put(o, make_array<int, 300>(v)); }
bool w_mvm1(ARR(mv, 1) *o, std::uint64_t v) { return put(o, make_array<mv, 1>(mv(v))); }
bool w_mvm4(ARR(mv, 4) *o, std::uint64_t v) { mv x(v); return put(o, make_array<mv, 4>(x)) && x.v == v; }
bool w_mvm17(ARR(mv, 17) *o, std::uint64_t v) { return put(o, make_array<mv, 17>(mv(v))); }
bool w_mvd(ARR(int, 5) *o) { return put(o, make_array<int, 5>()); }
bool w_mv0() { return std::is_same_v<decltype(make_array<int, 0>(3)), std::array<int, 0>>; }
bool w_mz1(ARR(long, 1) *o) { return put(o, make_zero_array<long, 1>()); }
bool w_mz9(ARR(unsigned char, 9) *o) { return put(o, make_zero_array<unsigned char, 9>()); }
bool w_mz65(ARR(int, 65) *o) { return put(o, make_zero_array<int, 65>()); }
bool w_mzm(ARR(mv, 5) *o) { return put(o, make_zero_array<mv, 5>()); }
bool w_mam3(ARR(mv, 3) *o, std::uint64_t a, std::uint64_t b, std::uint64_t c) { mv x(a); const mv y(b); mv z(c); return put(o, make_array(x, y, std::move(z))) && x.v == a && y.v == b; }
bool w_mam2(ARR(mv, 2) *o, std::uint64_t a, std::uint64_t b) { mv x(a); return put(o, make_array(x, mv(b))) && x.v == a; }
bool w_mz0() { return std::is_same_v<decltype(make_zero_array<int, 0>()), std::array<int, 0>>; }
bool w_sv4(ARR(char, 4) *o, const char *p, std::size_t n) { return put(o, sv_to_array<0, 1, 2, 3>(std::string_view(p, n))); }
bool w_sv1(ARR(char, 1) *o, const char *p, std::size_t n) { return put(o, sv_to_array<0>(std::string_view(p, n))); }
bool w_sv3(ARR(char, 3) *o, const char *p, std::size_t n) { return put(o, sv_to_array<5, 0, 2>(std::string_view(p, n))); }
bool w_sv11(ARR(char, 11) *o, const char *p, std::size_t n) { return put(o, sv_to_array<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>(std::string_view(p, n))); }
bool w_sv0(const char *p, std::size_t n) { return std::is_same_v<decltype(sv_to_array<>(std::string_view(p, n))), std::array<char, 0>>; }
bool w_ms1(ARR(char, 1) *o, const char *p, std::size_t n) { return put(o, make_array<1, char>(std::string_view(p, n))); }
bool w_ms5(ARR(unsigned char, 5) *o, const char *p, std::size_t n) { return put(o, make_array<5, unsigned char>(std::string_view(p, n))); }
bool w_ms8(ARR(int, 8) *o, const char *p, std::size_t n) { return put(o, make_array<8, int>(std::string_view(p, n))); }
bool w_ms6w(ARR(wchar_t, 6) *o, const wchar_t *p, std::size_t n) { return put(o, make_array<6, wchar_t>(std::wstring_view(p, n))); }
bool w_ms0(const char *p, std::size_t n) { return std::is_same_v<decltype(make_array<0, char>(std::string_view(p, n))), std::array<char, 0>>; }
bool w_cc1(ARR(int, 3) *o, const ARR(int, 3) *a) { return put(o, concatenate_arrays(*a)); }
bool w_cc2(ARR(int, 5) *o, const ARR(int, 3) *a, ARR(int, 2) *b) { return put(o, concatenate_arrays(*a, *b)); }
bool w_cc2r(ARR(int, 5) *o, ARR(int, 3) *a, ARR(int, 2) *b) { return put(o, concatenate_arrays(std::move(*a), std::move(*b))); }
bool w_cc3(ARR(unsigned char, 7) *o, ARR(unsigned char, 1) *a, ARR(unsigned char, 4) *b, ARR(unsigned char, 2) *c) { return put(o, concatenate_arrays(*a, std::move(*b), *c)); }
bool w_cc4(ARR(long, 8) *o, ARR(long, 2) *a, ARR(long, 1) *b, ARR(long, 3) *c, ARR(long, 2) *d) { return put(o, concatenate_arrays(*a, *b, *c, *d)); }
bool w_cc7(ARR(short, 52) *o, ARR(short, 1) *a, ARR(short, 2) *b, ARR(short, 3) *c, ARR(short, 1) *d, ARR(short, 2) *e, ARR(short, 3) *f, ARR(short, 40) *g) { return put(o, concatenate_arrays(*a, *b, *c, *d, std::move(*e), *f, *g)); }
bool w_ccm3(ARR(mv, 6) *o, ARR(mv, 2) *a, ARR(mv, 1) *b, ARR(mv, 3) *c) { mv x = (*a)[0], y = (*a)[1], z = (*c)[2]; bool k = put(o, concatenate_arrays(*a, std::move(*b), *c)); return k && (*a)[0].v == x.v && (*a)[1].v == y.v && (*c)[2].v == z.v; }
bool w_ccm4(ARR(mv, 7) *o, ARR(mv, 2) *a, ARR(mv, 1) *b, ARR(mv, 2) *c, ARR(mv, 2) *d) { return put(o, concatenate_arrays(std::move(*a), *b, std::move(*c), *d)); }
bool w_ccm1(ARR(mv, 2) *o, ARR(mv, 2) *a) { return put(o, concatenate_arrays(std::move(*a))); }
bool w_ccmd(ARR(mv, 6) *o, ARR(mv, 2) *a) { return put(o, concatenate_arrays(*a, *a, *a)); }
bool w_cc0(ARR(long, 3) *o, ARR(long, 2) *a, ARR(long, 1) *b) { ARR(long, 0) z; return put(o, concatenate_arrays(z, *a, z, *b, z)); }
#define EQ(n, T, N) bool w_eq_##n(const ARR(T, N) *a, const ARR(T, N) *b, std::size_t k) { return is_equal(*a, *b, k); } bool w_eqd_##n(const ARR(T, N) *a, const ARR(T, N) *b) { return is_equal(*a, *b); }
EQ(c1, unsigned char, 1) EQ(c3, unsigned char, 3) EQ(i4, int, 4) EQ(l9, long, 9) EQ(s20, short, 20) EQ(i200, int, 200)
}
E bool w_eq_z(std::size_t k) { std::array<int, 0> a, b; return is_equal(a, b, k); }
// ranges: the expected array is computed by the specification from the template arguments
#define RG(n, B, E_, S, T, N) E bool w_rg_##n(std::array<T, N> *o) { return put(o, make_array_from_range<B, E_, S>()); }
#include "ranges.inc"
