#include "harness.h"
#include <algorithm>
#include <array>
#include <memory>
#include <new>
#include <utils/common.h>
#include <utils/clz.h>
#include <utils/ctz.h>
#include <utils/memory/memory.h>
using namespace hz;
typedef unsigned __int128 u128;
template <class T> static unsigned o_clz(T v) { unsigned n = 0; for (int i = int(sizeof(T) * 8) - 1; i >= 0 && !(u128(v) >> i & 1); --i) ++n; return n; }
template <class T> static unsigned o_ctz(T v) { unsigned n = 0; while (!(u128(v) >> n & 1)) ++n; return n; }
template <class T> static unsigned o_top(T v) { return v ? unsigned(sizeof(T) * 8) - o_clz(v) : 0; }
template <class T, class F> static void values(F f)
{
    const unsigned w = sizeof(T) * 8;
    if (model.count("v")) f(T(model["v"]));
    if (w <= 16) { for (uint32_t i = 0; i < (1u << w); ++i) f(T(i)); return; }
    for (unsigned i = 0; i < w; ++i) for (int d = -2; d <= 2; ++d) f(T((u128(1) << i) + d));
    for (unsigned i = 0; i < w; ++i) for (unsigned j = 0; j < w; ++j) { f(T((T(1) << i) | (T(1) << j))); f(T(~(T(1) << i) >> j)); }
    Rng r(seed); for (int i = 0; i < 200000 && time_left(); ++i) f(T(interesting(r, w)));
}
template <class T> static void cz()
{
    values<T>([](T v) { if (!v) return; desc("v=%llu width=%zu", (unsigned long long)v, sizeof(T) * 8);
        if ((unsigned long)utils::clz(v) != o_clz(v)) fail("clz returned %lu, expected %u", (unsigned long)utils::clz(v), o_clz(v));
        if ((unsigned long)utils::ctz(v) != o_ctz(v)) fail("ctz returned %lu, expected %u", (unsigned long)utils::ctz(v), o_ctz(v));
#ifdef CRAFTED
        if (utils::details::crafted_clz(v) != o_clz(v)) fail("crafted_clz returned %lu, expected %u", utils::details::crafted_clz(v), o_clz(v));
        if (utils::details::crafted_ctz(v) != o_ctz(v)) fail("crafted_ctz returned %lu, expected %u", utils::details::crafted_ctz(v), o_ctz(v));
#endif
    });
}
static void c14()
{
    cz<uint8_t>(); cz<uint16_t>(); cz<uint32_t>(); cz<uint64_t>(); cz<unsigned long long>();
    values<uint64_t>([](uint64_t v) { if (model.count("p") && model["p"]) v = model["p"], model.erase("p"); if (!v) return; desc("pointer=0x%llx", (unsigned long long)v);
        if (utils::memory::get_alignment((void *)v) != (size_t)1 << o_ctz(v)) fail("get_alignment returned %zu", utils::memory::get_alignment((void *)v)); });
}
template <class T> static void gd()
{
    values<T>([](T v) { desc("greatest_divisor_that_is_power_of_2(%llu) width=%zu", (unsigned long long)v, sizeof(T) * 8);
        T e = v ? T(T(1) << o_ctz(v)) : T(T(1) << (sizeof(T) * 8 - 1));
        if (utils::greatest_divisor_that_is_power_of_2(v) != e) fail("returned %llu, expected %llu", (unsigned long long)utils::greatest_divisor_that_is_power_of_2(v), (unsigned long long)e); });
}
template <auto P, class T> static void nm1()
{
    values<T>([](T v) { u128 e = (u128(v) + P - 1) / P * P; if (e > u128(T(-1))) return; desc("next_multiple_of<%llu>(%llu) width=%zu", (unsigned long long)P, (unsigned long long)v, sizeof(T) * 8);
        if (utils::next_multiple_of<P, T>(v) != T(e)) fail("returned %llu, expected %llu", (unsigned long long)utils::next_multiple_of<P, T>(v), (unsigned long long)e); });
}
template <class T> static void nms() { nm1<1, T>(); nm1<2, T>(); nm1<4, T>(); nm1<8, T>(); nm1<64, T>(); nm1<128, T>(); if constexpr (sizeof(T) > 1) { nm1<256, T>(); nm1<32768, T>(); } if constexpr (sizeof(T) > 2) nm1<65536, T>(); nm1<8u, T>(); nm1<8ul, T>(); nm1<8l, T>(); nm1<(unsigned char)128, T>(); nm1<1u, T>(); if constexpr (sizeof(T) > 2) { nm1<4096u, T>(); nm1<0x80000000ul, T>(); } if constexpr (sizeof(T) > 4) { nm1<0x80000000u, T>(); nm1<0x100000000l, T>(); } }
struct alignas(8) A8 { char c; }; struct alignas(64) A64 { char c; };
static void c15()
{
    gd<uint8_t>(); gd<uint16_t>(); gd<uint32_t>(); gd<uint64_t>();
    nms<uint8_t>(); nms<uint16_t>(); nms<uint32_t>(); nms<uint64_t>();
    values<uint64_t>([](uint64_t v) { desc("is_power_of_2(%llu)", (unsigned long long)v); bool e = __builtin_popcountll(v) == 1; if (utils::is_power_of_2(v) != e) fail("returned %d", !e); });
    auto one = [](uint64_t v, uint64_t m) {
        u128 e = (u128(v) + m - 1) / m * m;
        desc("value=%llu power of two=%llu", (unsigned long long)v, (unsigned long long)m);
        if (e <= u128(~0ull) && utils::next_multiple_of(m, v) != uint64_t(e)) fail("next_multiple_of returned %llu, expected %llu", (unsigned long long)utils::next_multiple_of(m, v), (unsigned long long)e);
        if (utils::skip_to_align((void *)v, m) != (m - v % m) % m) fail("skip_to_align returned %llu", (unsigned long long)utils::skip_to_align((void *)v, m));
        if (utils::is_aligned((void *)v, m) != (v % m == 0)) fail("is_aligned returned %d", utils::is_aligned((void *)v, m));
        if (m == 8 && (utils::skip_to_align<A8>((void *)v) != (8 - v % 8) % 8 || utils::is_aligned<A8>((void *)v) != (v % 8 == 0))) fail("typed form for alignment 8");
        if (m == 64 && (utils::skip_to_align<A64>((void *)v) != (64 - v % 64) % 64 || utils::is_aligned<A64>((void *)v) != (v % 64 == 0))) fail("typed form for alignment 64");
    };
    for (const char *k : {"v", "p"}) for (const char *q : {"multiple", "alignment"}) if (model.count(k) && model.count(q)) one(model[k], model[q]);
    auto ma = [](uint64_t a, uint64_t n) { u128 t = u128(a) + n - 1; if (!n || t > u128(~0ull)) return; uint64_t v = uint64_t(t); desc("max_alignment_inside_block(%llu, %llu)", (unsigned long long)a, (unsigned long long)n);
        if (utils::max_alignment_inside_block(a, n) != 1ull << (o_top(v) - 1)) fail("returned %llu, expected %llu", (unsigned long long)utils::max_alignment_inside_block(a, n), 1ull << (o_top(v) - 1)); };
    if (model.count("alignment") && model.count("size")) ma(model["alignment"], model["size"]);
    for (unsigned k = 0; k < 64; ++k) { for (uint64_t v = 0; v < 300; ++v) { one(v, 1ull << k); one(~v, 1ull << k); ma(1ull << k, v); }
        values<uint64_t>([&](uint64_t v) { one(v, 1ull << k); ma(1ull << k, v); }); }
}
template <class T> static void nb()
{
    values<T>([](T v) { desc("nbits_occupied(%llu) width=%zu", (unsigned long long)v, sizeof(T) * 8); T w = v; const T c = v;
        if (utils::nbits_occupied(w) != o_top(v)) fail("returned %zu, expected %u", utils::nbits_occupied(T(v)), o_top(v));
        if (w != v) fail("argument changed to %llu", (unsigned long long)w);
        if (utils::nbits_occupied(c) != o_top(v) || utils::nbits_occupied(T(v)) != o_top(v)) fail("const/rvalue form is wrong"); });
}
static void c16()
{
    values<uint64_t>([](uint64_t v) { desc("bits_count(%llu)", (unsigned long long)v); if (utils::bits_count(v) != o_top(v)) fail("returned %u, expected %u", utils::bits_count(v), o_top(v)); });
    nb<uint8_t>(); nb<uint16_t>(); nb<uint32_t>(); nb<uint64_t>(); nb<unsigned long long>();
    desc("kNumBitsTable size"); if (utils::kNumBitsTable.size() != 256) fail("size %zu", utils::kNumBitsTable.size());
    for (unsigned i = 0; i < 256; ++i) { desc("kNumBitsTable[%u]", i); if (utils::kNumBitsTable[i] != __builtin_popcount(i)) fail("is %u", utils::kNumBitsTable[i]); }
}
int main(int argc, char **argv)
{
#if PROP == 14
    return run(argc, argv, {{"clz/ctz/get_alignment", c14}});
#elif PROP == 15
    return run(argc, argv, {{"alignment arithmetic", c15}});
#else
    return run(argc, argv, {{"bit counting", c16}});
#endif
}
