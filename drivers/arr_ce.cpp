// The array builders are usable in constant expressions (compile-time check only).
#include <cstdint>
#include <cstddef>
#include <string>
#include <string_view>
#include <memory>
#include <algorithm>
#include <new>
#include <array>
#include <utils/common.h>
using namespace utils;
constexpr auto a = make_array(1, 2, 3);
constexpr auto b = make_array<int, 5>(7);
constexpr auto c = make_zero_array<long, 4>();
constexpr auto d = sv_to_array<0, 1, 2>(std::string_view("abc"));
constexpr auto e = make_array<3, char>(std::string_view("abc"));
constexpr auto f = concatenate_arrays(a, b);
constexpr auto g = make_array_from_range<1, 9, 3>();
constexpr bool h = is_equal(a, a);
