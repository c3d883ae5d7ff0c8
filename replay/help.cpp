#include "harness.h"
#include <algorithm>
#include <array>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include <utils/common.h>
using namespace hz;
template <class T> static void sh_one(T v, std::size_t k)
{
    desc("value=%lld count=%zu width=%zu signed=%d", (long long)v, k, sizeof(T) * 8, (int)std::is_signed_v<T>);
    using U = std::make_unsigned_t<T>; const unsigned w = sizeof(T) * 8;
    uint64_t u = uint64_t(U(v)), m = w == 64 ? ~0ull : (1ull << w) - 1;
    T l = T(U((u << k) & m)); uint64_t rr = u >> k; if (std::is_signed_v<T> && v < 0 && k) rr |= m & ~(m >> k); T r = T(U(rr));
    const T c = v;
    if (!std::is_same_v<decltype(utils::shift_left(c, k)), T> || !std::is_same_v<decltype(utils::shift_right(v, k)), T> || !std::is_same_v<decltype(utils::shift_right(T(v), k)), T> || !std::is_same_v<decltype(utils::shift_left(v, k)), T>) fail("result type is not the argument's type");
    if (utils::shift_left(v, k) != l || utils::shift_left(c, k) != l || utils::shift_left(T(v), k) != l) fail("shift_left returned %lld, expected %lld", (long long)utils::shift_left(v, k), (long long)l);
    if (utils::shift_right(v, k) != r || utils::shift_right(c, k) != r || utils::shift_right(T(v), k) != r) fail("shift_right returned %lld, expected %lld", (long long)utils::shift_right(v, k), (long long)r);
}
template <class T> static void sh_()
{
    if (model.count("v") && model.count("k") && model["k"] < sizeof(T) * 8) sh_one(T(model["v"]), model["k"]);
    Rng r(seed);
    for (std::size_t k = 0; k < sizeof(T) * 8; ++k)
    {
        if (sizeof(T) == 1) for (int v = 0; v < 256; ++v) sh_one(T(v), k);
        for (int i = 0; i < 300; ++i) sh_one(T(interesting(r, sizeof(T) * 8)), k);
    }
}
static void shifts() { sh_<signed char>(); sh_<unsigned char>(); sh_<short>(); sh_<unsigned short>(); sh_<int>(); sh_<unsigned>(); sh_<long>(); sh_<unsigned long>(); sh_<long long>(); sh_<unsigned long long>(); sh_<char>(); sh_<wchar_t>(); sh_<char16_t>(); }
template <class A, class B> static void bc(Rng &r)
{
    for (int i = 0; i < 2000; ++i)
    {
        unsigned char raw[sizeof(A)]; for (auto &b : raw) b = i == 0 ? 0 : i == 1 ? 0xff : (unsigned char)r.next();
        A a; memcpy(&a, raw, sizeof a); B b; memcpy(&b, raw, sizeof b);
        desc("bit_cast of %zu bytes, case %d", sizeof(A), i);
        B x = utils::bit_cast<B>(a); A y = utils::bit_cast<A>(b); A z = utils::bit_cast<A>(utils::bit_cast<B>(a));
        if (memcmp(&x, raw, sizeof raw) || memcmp(&y, raw, sizeof raw) || memcmp(&z, raw, sizeof raw)) fail("bytes differ");
    }
}
struct s13 { unsigned char b[13]; }; struct s40 { uint64_t a[5]; }; struct p40 { double d; void *p[3]; unsigned char b[8]; };
static void casts() { Rng r(seed); bc<float, uint32_t>(r); bc<double, uint64_t>(r); bc<int, float>(r); bc<long, double>(r); bc<s13, std::array<std::byte, 13>>(r); bc<s40, p40>(r); bc<signed char, unsigned char>(r); bc<short, unsigned short>(r); bc<void *, uint64_t>(r); }
template <class T> static void un() { enum class e : T {}; Rng r(seed);
    for (int i = 0; i < 1000; ++i) { T v = T(i < 256 ? uint64_t(i) : interesting(r, sizeof(T) * 8)); desc("to_underlying(%lld)", (long long)v); if (!std::is_same_v<decltype(utils::to_underlying(e(v))), T>) fail("type"); if (utils::to_underlying(e(v)) != v) fail("returned %lld", (long long)utils::to_underlying(e(v))); } }
static void under() { un<signed char>(); un<unsigned char>(); un<short>(); un<unsigned short>(); un<int>(); un<unsigned>(); un<long>(); un<unsigned long>(); un<char>(); un<bool>(); }
struct El { int v; static int copies; El(int x) : v(x) {} El(const El &o) : v(o.v) { ++copies; } El(El &&o) : v(o.v) { ++copies; } };
int El::copies = 0;
struct Call { const void *self, *arg; int cat; };
static std::vector<Call> calls;
struct Fn { int n = 0;
    template <class T> void operator()(T &x) { calls.push_back({this, &x, std::is_const_v<T> ? 1 : 0}); }
    template <class T, class = std::enable_if_t<!std::is_lvalue_reference_v<T>>> int operator()(T &&x) { calls.push_back({this, &x, 2}); return 0; } };
static void expect(const char *what, const void *f, std::vector<std::pair<const void *, int>> w)
{
    desc("%s", what);
    if (El::copies) fail("elements were copied or moved %d times", El::copies);
    if (calls.size() != w.size()) fail("%zu calls, expected %zu", calls.size(), w.size());
    for (size_t i = 0; i < w.size(); ++i) { if (calls[i].arg != w[i].first) fail("call %zu got another object", i); if (calls[i].cat != w[i].second) fail("call %zu got category %d, expected %d", i, calls[i].cat, w[i].second); if (calls[i].self != f) fail("another function object was called"); }
    calls.clear();
}
static void visit()
{
    Fn f; El a(1), b(2); int i = 3; const El c(4); desc("visiting");
    utils::for_each_arg(f); expect("no argument", &f, {});
    utils::for_each_arg(f, a); expect("one argument", &f, {{&a, 0}});
    utils::for_each_arg(f, a, b, i, c); expect("four arguments", &f, {{&a, 0}, {&b, 0}, {&i, 0}, {&c, 1}});
    utils::for_each_arg(f, std::move(a), i, std::move(b), std::move(i), c); expect("rvalues", &f, {{&a, 2}, {&i, 0}, {&b, 2}, {&i, 2}, {&c, 1}});
    utils::for_each_arg(f, a, a, b); expect("same object twice", &f, {{&a, 0}, {&a, 0}, {&b, 0}});
    auto t = std::tie(a, i, c); utils::for_each_in_tuple(f, t); expect("tuple of references", &f, {{&a, 0}, {&i, 0}, {&c, 1}});
    std::tuple<El, int, El> u(1, 2, 3); El::copies = 0; const auto &k = u;
    const void *p0 = &std::get<0>(u), *p1 = &std::get<1>(u), *p2 = &std::get<2>(u);
    utils::for_each_in_tuple(f, u); expect("tuple", &f, {{p0, 0}, {p1, 0}, {p2, 0}});
    utils::for_each_in_tuple(f, k); expect("const tuple", &f, {{p0, 1}, {p1, 1}, {p2, 1}});
    utils::for_each_in_tuple(f, std::move(u)); expect("rvalue tuple", &f, {{p0, 2}, {p1, 2}, {p2, 2}});
    std::pair<int, El> pr(1, 2); El::copies = 0; utils::for_each_in_tuple(f, pr); expect("pair", &f, {{&pr.first, 0}, {&pr.second, 0}});
    std::array<int, 4> ar{}; utils::for_each_in_tuple(f, ar); expect("array", &f, {{&ar[0], 0}, {&ar[1], 0}, {&ar[2], 0}, {&ar[3], 0}});
    std::tuple<> e; utils::for_each_in_tuple(f, e); expect("empty tuple", &f, {});
    std::string s = "x"; std::vector<std::string> got; utils::for_each_arg([&](auto &&x) { got.push_back(x); }, s, std::string("y"), "z"); desc("strings"); if (got != std::vector<std::string>{"x", "y", "z"}) fail("wrong values");
}
int main(int argc, char **argv) { return run(argc, argv, {{"shifts", shifts}, {"bit_cast", casts}, {"to_underlying", under}, {"visiting", visit}}); }
