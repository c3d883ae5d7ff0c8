// Portable implementations (utils::details), checked where the tree has them.
#include <cstdint>
#include <cstddef>
#include <utils/common.h>
#include <utils/clz.h>
#include <utils/ctz.h>
using namespace utils;
#define E extern "C"
#define FOR_U(X) X(u8, unsigned char) X(u16, unsigned short) X(u32, unsigned int) X(u64, unsigned long) X(ull, unsigned long long)
#define D(n, T) \
  E unsigned long w_craft_clz_##n(T v) { return static_cast<unsigned long>(details::crafted_clz(v)); } \
  E unsigned long w_craft_ctz_##n(T v) { return static_cast<unsigned long>(details::crafted_ctz(v)); }
FOR_U(D)
