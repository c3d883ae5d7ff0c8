// Entry points for the byte-block contracts (C11, C12, C13).
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <utils/common.h>
#include <utils/memory/memory.h>
using namespace utils;
#define E extern "C"
E void w_zero(std::byte* p, std::size_t n) { memory::secure_zero_memory(p, n); }
E int w_zero_safe(std::byte* p, std::size_t n) { return memory::secure_zero_memory_safe(p, n); }
E std::byte* w_move(std::byte* d, const std::byte* s, std::size_t n) { return memory::memmove(d, s, n); }
E void w_copy_b(std::byte* d, const std::byte* s, std::size_t n) { memory::memcpy(d, s, n); }
E void w_copy_c(char* d, const unsigned char* s, std::size_t n) { memory::memcpy(d, s, n); }
E void w_copy_u(unsigned char* d, const std::byte* s, std::size_t n) { memory::memcpy(d, s, n); }
E void w_copy_v(void* d, const void* s, std::size_t n) { memory::memcpy(d, s, n); }
E void w_copy_bv(std::byte* d, const void* s, std::size_t n) { memory::memcpy(d, s, n); }
E bool w_cmp(const void* p, unsigned char v, std::size_t n) { return memvcmp(p, v, n); }
