// Entry points for the bit counting, alignment and division contracts. Every function only forwards to the
// public function of /repo under contract; all code reached below it is compiled from /repo's headers.
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <array>
#include <utils/common.h>
#include <utils/clz.h>
#include <utils/ctz.h>
#include <utils/memory/memory.h>
using namespace utils;
#define E extern "C"
#define FOR_U(X) X(u8, unsigned char) X(u16, unsigned short) X(u32, unsigned int) X(u64, unsigned long) X(ull, unsigned long long)
#define D(n, T) \
  E unsigned long w_clz_##n(T v) { return static_cast<unsigned long>(clz(v)); } \
  E unsigned long w_ctz_##n(T v) { return static_cast<unsigned long>(ctz(v)); } \
  E T w_gd_##n(T v) { return greatest_divisor_that_is_power_of_2(v); } \
  E std::size_t w_nbits_##n(T& v) { return nbits_occupied(v); } \
  E std::size_t w_nbitsc_##n(const T& v) { return nbits_occupied(v); }
FOR_U(D)
E unsigned w_bits_count(std::uint64_t v) { return bits_count(v); }
E unsigned w_num_bits(std::size_t i) { return kNumBitsTable[i]; }
E std::size_t w_table_size() { return kNumBitsTable.size(); }
E std::size_t w_get_alignment(const void* p) { return memory::get_alignment(p); }
E bool w_is_power_of_2(std::size_t v) { return is_power_of_2(v); }
E std::uintptr_t w_next_multiple_of(std::uintptr_t m, std::uintptr_t v) { return next_multiple_of(m, v); }
E std::uintptr_t w_skip_to_align(const void* p, std::size_t a) { return skip_to_align(p, a); }
E bool w_is_aligned(const void* p, std::size_t a) { return is_aligned(p, a); }
E std::size_t w_max_align(std::size_t a, std::size_t s) { return max_alignment_inside_block(a, s); }
struct alignas(1) T1 { char c; }; struct alignas(2) T2 { char c; }; struct alignas(4) T4 { char c; }; struct alignas(8) T8 { char c; };
struct alignas(16) T16 { char c; }; struct alignas(64) T64 { char c; }; struct alignas(4096) T4096 { char c; };
#define A(n) E std::uintptr_t w_skip_##n(const void* p) { return skip_to_align<T##n>(p); } E bool w_isal_##n(const void* p) { return is_aligned<T##n>(p); }
A(1) A(2) A(4) A(8) A(16) A(64) A(4096)
#define NM(P, n, T) E T w_nm_##P##_##n(T v) { return next_multiple_of<P, T>(v); }
#define NMA(P) NM(P, u8, std::uint8_t) NM(P, u16, std::uint16_t) NM(P, u32, std::uint32_t) NM(P, u64, std::uint64_t)
NMA(1) NMA(2) NMA(4) NMA(8) NMA(16) NMA(32) NMA(64) NMA(128)
#define NMB(P) NM(P, u16, std::uint16_t) NM(P, u32, std::uint32_t) NM(P, u64, std::uint64_t)
NMB(256) NMB(4096) NMB(32768)
#define NMC(P) NM(P, u32, std::uint32_t) NM(P, u64, std::uint64_t)
NMC(65536) NMC(2147483648)
NM(8, i32, int) NM(8, i64, long) NM(4096, i32, int) NM(4096, i64, long)
E std::uint64_t w_nm_huge(std::uint64_t v) { return next_multiple_of<(std::uint64_t{1} << 63), std::uint64_t>(v); }
// the power of two given in other integer types
#define NMT(t, P, n, T) E T w_nmt_##t##_##n(T v) { return next_multiple_of<P, T>(v); }
#define NMTA(t, P) NMT(t, P, u16, std::uint16_t) NMT(t, P, u32, std::uint32_t) NMT(t, P, u64, std::uint64_t) NMT(t, P, ull, unsigned long long)
NMTA(8u, 8u) NMTA(8ul, 8ul) NMTA(8l, 8l) NMTA(8ull, 8ull) NMTA(8uc, static_cast<unsigned char>(8)) NMTA(64c, static_cast<signed char>(64)) NMTA(128uc, static_cast<unsigned char>(128)) NMTA(256us, static_cast<unsigned short>(256)) NMTA(16384s, static_cast<short>(16384)) NMTA(1u, 1u) NMTA(1ul, 1ul) NMTA(32768u, 32768u) NMTA(4096ul, 4096ul)
NMT(65536u, 65536u, u64, std::uint64_t) NMT(65536ul, 65536ul, u32, std::uint32_t) NMT(2147483648u, 2147483648u, u64, std::uint64_t) NMT(2147483648ul, 2147483648ul, u32, std::uint32_t) NMT(1073741824i, 1073741824, u64, std::uint64_t) NMT(4294967296l, 4294967296l, u64, std::uint64_t) NMT(4294967296ul, 4294967296ul, ull, unsigned long long) NMT(128uc8, static_cast<unsigned char>(128), u8, std::uint8_t) NMT(64u8, 64u, u8, std::uint8_t) NMT(2ul8, 2ul, u8, std::uint8_t)
