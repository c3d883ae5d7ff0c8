// Entry points for the division contracts (C17).
#include <cstdint>
#include <cstddef>
#include <utility>
#include <utils/common.h>
using namespace utils;
#define E extern "C"
#define W(tn, T, un, U) E void w_div_##tn##_##un(T a, U b, std::common_type_t<T, U>* q, std::common_type_t<T, U>* r) { auto d = utils::div(a, b); *q = d.quot; *r = d.rem; } \
  E bool w_type_##tn##_##un() { return std::is_same_v<decltype(utils::div(std::declval<T>(), std::declval<U>())), utils::div_t<std::common_type_t<T, U>>>; }
#define ROW(tn, T) W(tn, T, i8, signed char) W(tn, T, u8, unsigned char) W(tn, T, i16, short) W(tn, T, u16, unsigned short) W(tn, T, i32, int) W(tn, T, u32, unsigned) \
  W(tn, T, i64, long) W(tn, T, u64, unsigned long) W(tn, T, ill, long long) W(tn, T, ull, unsigned long long)
ROW(i8, signed char) ROW(u8, unsigned char) ROW(i16, short) ROW(u16, unsigned short) ROW(i32, int) ROW(u32, unsigned) ROW(i64, long) ROW(u64, unsigned long) ROW(ill, long long) ROW(ull, unsigned long long)
#define AS(rn, R, tn, T, un, U) E void w_as_##rn##_##tn##_##un(T a, U b, R* q, R* r) { auto d = div_as<R>(a, b); *q = d.quot; *r = d.rem; }
#define ASR(rn, R) AS(rn, R, i8, signed char, i8, signed char) AS(rn, R, u8, unsigned char, i64, long) AS(rn, R, i16, short, u64, unsigned long) AS(rn, R, i32, int, i32, int) AS(rn, R, i32, int, u32, unsigned) \
  AS(rn, R, u32, unsigned, i8, signed char) AS(rn, R, i64, long, i64, long) AS(rn, R, u64, unsigned long, u64, unsigned long) AS(rn, R, u64, unsigned long, i32, int) AS(rn, R, i64, long, u16, unsigned short)
ASR(i8, signed char) ASR(u8, unsigned char) ASR(i16, short) ASR(u16, unsigned short) ASR(i32, int) ASR(u32, unsigned) ASR(i64, long) ASR(u64, unsigned long) ASR(ill, long long) ASR(ull, unsigned long long)
