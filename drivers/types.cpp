// Entry points for C19 (integer type selection, widths). Every selected type is reported as a number.
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <array>
#include <utils/common.h>
using namespace utils;
template <class T> constexpr int kind() { return std::is_same_v<T, std::uint8_t> ? 8 : std::is_same_v<T, std::uint16_t> ? 16 : std::is_same_v<T, std::uint32_t> ? 32 : std::is_same_v<T, std::uint64_t> ? 64 : 0; }
template <class T> constexpr int fast() { return (std::is_same_v<T, std::uint_fast8_t> ? 1 : 0) | (std::is_same_v<T, std::uint_fast16_t> ? 2 : 0) | (std::is_same_v<T, std::uint_fast32_t> ? 4 : 0) | (std::is_same_v<T, std::uint_fast64_t> ? 8 : 0); }
struct s3 { char c[3]; }; struct s12 { int a; char b; long long : 0; }; struct empty {}; enum class e16 : short { a }; union u8 { double d; char c; };
#define BITS(N) extern "C" int w_b_##N() { return kind<uint_from_nbits_t<N>>(); } extern "C" int w_bt_##N() { return kind<typename uint_from_nbits<N>::type>(); } extern "C" int w_fb_##N() { return fast<fast_uint_from_nbits_t<N>>(); } extern "C" int w_fbt_##N() { return fast<typename fast_uint_from_nbits<N>::type>(); }
#define BYTES(N) extern "C" int w_y_##N() { return kind<uint_from_nbytes_t<N>>(); } extern "C" int w_yu_##N() { return kind<UInt<N>>(); } extern "C" int w_fy_##N() { return fast<fast_uint_from_nbytes_t<N>>(); } extern "C" int w_fyu_##N() { return fast<FastUInt<N>>(); }
#define NB(n, ...) extern "C" std::size_t w_n_##n() { return num_bits<__VA_ARGS__>(); }
#define SS(n, ...) extern "C" std::size_t w_s_##n() { return sum_size<__VA_ARGS__>(); }

BITS(1) BITS(2) BITS(3) BITS(4) BITS(5) BITS(6) BITS(7) BITS(8) BITS(9) BITS(10) BITS(11) BITS(12) BITS(13) BITS(14) BITS(15) BITS(16) BITS(17) BITS(18) BITS(19) BITS(20) BITS(21) BITS(22) BITS(23) BITS(24) BITS(25) BITS(26) BITS(27) BITS(28) BITS(29) BITS(30) BITS(31) BITS(32) BITS(33) BITS(34) BITS(35) BITS(36) BITS(37) BITS(38) BITS(39) BITS(40) BITS(41) BITS(42) BITS(43) BITS(44) BITS(45) BITS(46) BITS(47) BITS(48) BITS(49) BITS(50) BITS(51) BITS(52) BITS(53) BITS(54) BITS(55) BITS(56) BITS(57) BITS(58) BITS(59) BITS(60) BITS(61) BITS(62) BITS(63) BITS(64)
BYTES(1) BYTES(2) BYTES(3) BYTES(4) BYTES(5) BYTES(6) BYTES(7) BYTES(8)
// number of bits of a type: NB(name, type)  // expected
NB(0, bool) // 1
NB(1, char) // 8
NB(2, signed char) // 8
NB(3, unsigned char) // 8
NB(4, short) // 16
NB(5, unsigned short) // 16
NB(6, int) // 32
NB(7, unsigned) // 32
NB(8, long) // 64
NB(9, unsigned long) // 64
NB(10, long long) // 64
NB(11, unsigned long long) // 64
NB(12, float) // 32
NB(13, double) // 64
NB(14, long double) // 128
NB(15, wchar_t) // 32
NB(16, char16_t) // 16
NB(17, char32_t) // 32
NB(18, std::byte) // 8
NB(19, void *) // 64
NB(20, s3) // 24
NB(21, s12) // 64
NB(22, empty) // 8
NB(23, e16) // 16
NB(24, u8) // 64
NB(25, int[7]) // 224
NB(26, bool[5]) // 40
NB(27, const int) // 32
// size of a pack: SS(name, types...)  // expected
SS(0, bool) // 1
SS(1, bool, bool, bool, bool, bool, bool, bool, bool) // 1
SS(2, bool, bool, bool, bool, bool, bool, bool, bool, bool) // 2
SS(3, bool, bool, bool, bool, bool, bool, bool) // 1
SS(4, int, bool) // 5
SS(5, bool, int, bool) // 5
SS(6, char, short, int, long) // 15
SS(7, std::byte) // 1
SS(8, bool, bool, bool, bool, bool, bool, bool, bool, char) // 2
SS(9, s3, bool, s3) // 7
SS(10, long long, long long, long long, long long, long long, long long) // 48
SS(11, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool) // 3
SS(12, unsigned char, unsigned char, unsigned char, unsigned char) // 4
SS(13, double, float, bool, bool, bool, e16) // 15
SS(14, bool, bool, char, bool) // 2
SS(15, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool) // 9
