// Uses of the byte-block functions inside constant expressions (compile-only obligation of C11, C12).
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <utils/common.h>
#include <utils/memory/memory.h>
template <unsigned N> struct blk { std::byte b[N ? N : 1]{}; };
constexpr int zero(std::size_t n) { blk<9> x{}; for (auto& b : x.b) b = std::byte{7}; utils::memory::secure_zero_memory(x.b + 1, n); int r = utils::memory::secure_zero_memory_safe(x.b, n); r += utils::memory::secure_zero_memory_safe(nullptr, n); for (auto b : x.b) r += int(b); return r; }
constexpr int cz = zero(0) + zero(1) + zero(8);
constexpr int mv(std::size_t d, std::size_t s, std::size_t n) { blk<9> x{}; utils::memory::memmove(x.b + d, x.b + s, n); int r = 0; for (auto b : x.b) r += int(b); return r; }
constexpr int mv2(std::size_t d, std::size_t s, std::size_t n) { blk<9> x{}, y{}; utils::memory::memmove(x.b + d, y.b + s, n); int r = 0; for (auto b : x.b) r += int(b); return r; }
constexpr int cm = mv(0, 0, 9) + mv(1, 0, 8) + mv(0, 1, 8) + mv(0, 4, 4) + mv(8, 0, 0) + mv(0, 8, 0) + mv2(0, 0, 9) + mv2(1, 0, 8) + mv2(0, 8, 1);
constexpr int cp(std::size_t n) { blk<9> x{}, y{}; utils::memory::memcpy(x.b, y.b, n); char a[4]{}; const unsigned char c[4]{1, 2, 3, 255}; utils::memory::memcpy(a, c, n > 4 ? 4 : n); utils::memory::memcpy((unsigned char*)nullptr == nullptr ? x.b : x.b, x.b + n, 0); return a[0]; }
constexpr int cc = cp(0) + cp(1) + cp(8);
extern "C" int w_ce() { return cz + cm + cc; }
