#include "harness.h"
#include <utility>
#include <utils/common.h>
using namespace hz;
typedef __int128 i128;
template <class T> static std::vector<T> vals()
{
    std::vector<T> v; const unsigned w = sizeof(T) * 8;
    if (w == 8) { for (int i = 0; i < 256; ++i) v.push_back(T(i)); return v; }
    for (int d = -6; d <= 6; ++d) { v.push_back(T(d)); v.push_back(T(std::numeric_limits<T>::max()) - T(d > 0 ? d : 0)); v.push_back(T(std::numeric_limits<T>::min()) + T(d > 0 ? d : 0)); }
    for (unsigned i = 3; i < w; ++i) for (int d = -1; d <= 1; ++d) { v.push_back(T((uint64_t(1) << i) + d)); v.push_back(T(~(uint64_t(1) << i) + 1 + d)); }
    Rng r(seed); for (int i = 0; i < 30; ++i) v.push_back(T(r.next() >> r.below(64)));
    return v;
}
template <class C, class F, class A, class B> static void one(F f, A a, B b, const char *what)
{
    C x = C(a), y = C(b);
    if (b == 0 || y == 0) return;
    if (std::is_signed_v<C> && i128(x) == i128(std::numeric_limits<C>::min()) && i128(y) == -1) return;
    i128 q = i128(x) / i128(y), r = i128(x) % i128(y);
    desc("%s a=%lld b=%lld (as unsigned %llu %llu) sizes %zu %zu signed %d %d", what, (long long)a, (long long)b, (unsigned long long)a, (unsigned long long)b, sizeof(A), sizeof(B), std::is_signed_v<A>, std::is_signed_v<B>);
    auto d = f(a, b);
    if (i128(d.quot) != q || i128(d.rem) != r) fail("quotient %lld remainder %lld, expected %lld %lld", (long long)d.quot, (long long)d.rem, (long long)q, (long long)r);
}
template <class A, class B> static void pair_()
{
    using C = std::common_type_t<A, B>;
    auto f = [](A a, B b) { return utils::div(a, b); };
    desc("result type for sizes %zu %zu", sizeof(A), sizeof(B)); if (!std::is_same_v<typename decltype(f(A(1), B(1)))::value_type, C>) fail("div's result is not in the common type");
    if (model.count("a") && model.count("b")) one<C>(f, A(model["a"]), B(model["b"]), "div");
    unsigned k = 0; for (A a : vals<A>()) for (B b : vals<B>())
    {
        one<C>(f, a, b, "div"); if (++k % 7) continue;
        one<signed char>([](A x, B y) { return utils::div_as<signed char>(x, y); }, a, b, "div_as<signed char>");
        one<unsigned>([](A x, B y) { return utils::div_as<unsigned>(x, y); }, a, b, "div_as<unsigned>");
        one<long long>([](A x, B y) { return utils::div_as<long long>(x, y); }, a, b, "div_as<long long>");
        one<unsigned long>([](A x, B y) { return utils::div_as<unsigned long>(x, y); }, a, b, "div_as<unsigned long>");
        one<unsigned short>([](A x, B y) { return utils::div_as<unsigned short>(x, y); }, a, b, "div_as<unsigned short>");
    }
}
template <class A> static void row() { pair_<A, signed char>(); pair_<A, unsigned char>(); pair_<A, short>(); pair_<A, unsigned short>(); pair_<A, int>(); pair_<A, unsigned>(); pair_<A, long>(); pair_<A, unsigned long>(); pair_<A, long long>(); pair_<A, unsigned long long>(); }
// constant evaluation
template <class A, class B, int N> constexpr A va(int i, uint64_t seed)
{
    uint64_t x = (seed + i + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
    if (i % 5 == 0) return std::numeric_limits<A>::max() - A(i / 5);
    if (i % 5 == 1) return std::numeric_limits<A>::min() + A(i / 5);
    if (i % 5 == 2) return A(i / 5) - A(3);
    return A(x >> (x % 60));
}
template <class C> struct rec { C x[24], y[24], q[24], r[24]; int n; };
template <class A, class B> constexpr auto ce()
{
    using C = std::common_type_t<A, B>;
    rec<C> o{};
    for (int i = 0; i < 24; ++i)
    {
        A a = va<A, B, 0>(i, 11); B b = va<B, A, 0>(i * 7 % 24, 23);
        C x = C(a), y = C(b);
        if (b == 0 || y == 0 || (std::is_signed_v<C> && x == std::numeric_limits<C>::min() && y == C(-1))) continue;
        auto d = utils::div(a, b);
        o.x[o.n] = x; o.y[o.n] = y; o.q[o.n] = d.quot; o.r[o.n] = d.rem; ++o.n;
    }
    return o;
}
template <class A, class B> static void cpair()
{
    static constexpr auto o = ce<A, B>();
    for (int i = 0; i < o.n; ++i)
    {
        i128 q = i128(o.x[i]) / i128(o.y[i]), r = i128(o.x[i]) % i128(o.y[i]);
        desc("constant evaluation: div of %lld by %lld (converted to the common type)", (long long)o.x[i], (long long)o.y[i]);
        if (i128(o.q[i]) != q || i128(o.r[i]) != r) fail("quotient %lld remainder %lld", (long long)o.q[i], (long long)o.r[i]);
    }
}
template <class A> static void crow() { cpair<A, signed char>(); cpair<A, unsigned char>(); cpair<A, short>(); cpair<A, int>(); cpair<A, unsigned>(); cpair<A, long>(); cpair<A, unsigned long>(); cpair<A, unsigned long long>(); }
static void all() { row<signed char>(); row<unsigned char>(); row<short>(); row<unsigned short>(); row<int>(); row<unsigned>(); row<long>(); row<unsigned long>(); row<long long>(); row<unsigned long long>(); }
static void call() { crow<signed char>(); crow<unsigned char>(); crow<int>(); crow<unsigned>(); crow<long>(); crow<unsigned long>(); crow<long long>(); }
int main(int argc, char **argv) { return run(argc, argv, {{"constant evaluation", call}, {"run time", all}}); }
