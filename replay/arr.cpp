#include "harness.h"
#include <algorithm>
#include <array>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <utils/common.h>
using namespace hz; using namespace utils;
template <class T, std::size_t N, class R> static void same(const char *what, const R &r, const std::array<T, N> &w)
{
    desc("%s", what);
    if constexpr (!std::is_same_v<R, std::array<T, N>>) fail("result type is not the expected array type (%zu elements)", N);
    else for (std::size_t i = 0; i < N; ++i) if (!(r[i] == w[i])) fail("element %zu is %lld, expected %lld", i, (long long)r[i], (long long)w[i]);
}
template <class T, std::size_t N> static std::array<T, N> rnd(Rng &r) { std::array<T, N> a; for (auto &x : a) x = T(interesting(r, sizeof(T) * 8)); return a; }
template <class T, std::size_t N> static std::array<T, N> rep(T v) { std::array<T, N> a; for (auto &x : a) x = v; return a; }
template <class T, std::size_t N> static void reps(Rng &r) { for (int i = 0; i < 50; ++i) { T v = T(interesting(r, sizeof(T) * 8)); same<T, N>("make_array<T, N>(value)", make_array<T, N>(v), rep<T, N>(v)); } same<T, N>("make_zero_array", make_zero_array<T, N>(), rep<T, N>(0)); same<T, N>("make_array<T, N>()", make_array<T, N>(), rep<T, N>(0)); }
template <class T, std::size_t A, std::size_t B, std::size_t C> static void cat(Rng &r)
{
    for (int k = 0; k < 50; ++k)
    {
        auto a = rnd<T, A>(r); auto b = rnd<T, B>(r); auto c = rnd<T, C>(r); std::array<T, A + B> ab; std::array<T, A + B + C> abc; std::array<T, A + B + C + A> abca;
        for (size_t i = 0; i < A; ++i) ab[i] = abc[i] = abca[i] = abca[i + A + B + C] = a[i]; for (size_t i = 0; i < B; ++i) ab[A + i] = abc[A + i] = abca[A + i] = b[i]; for (size_t i = 0; i < C; ++i) abc[A + B + i] = abca[A + B + i] = c[i];
        same<T, A>("concatenate 1", concatenate_arrays(a), a); same<T, A + B>("concatenate 2", concatenate_arrays(a, b), ab);
        same<T, A + B + C>("concatenate 3", concatenate_arrays(a, std::move(b), c), abc); same<T, A + B + C + A>("concatenate 4", concatenate_arrays(a, b, c, std::move(a)), abca);
    }
}
template <class T, std::size_t N> static void eqs(Rng &r)
{
    for (int k = 0; k < 400; ++k)
    {
        auto a = rnd<T, N>(r), b = a; std::size_t d = r.below(N + 1); if (d < N) b[d] = T(b[d] ^ T(T(1) << r.below(sizeof(T) * 8 - 1))); if (r.below(3) == 0) b[r.below(N)] = T(r.next());
        for (std::size_t n = 0; n <= N; ++n)
        {
            bool w = true; for (std::size_t i = 0; i < n; ++i) if (a[i] != b[i]) w = false;
            desc("is_equal length=%zu count=%zu first difference at %zu", N, n, d);
            if (is_equal(a, b, n) != w) fail("returned %d", !w);
            if (n == N && is_equal(a, b) != w) fail("default count returned %d", !w);
        }
    }
}
static void all()
{
    Rng r(seed);
    for (int i = 0; i < 200; ++i)
    {
        int a = int(interesting(r, 32)); short b = short(interesting(r, 16)); signed char c = (signed char)r.next(); unsigned char d = (unsigned char)r.next(); long e = long(interesting(r, 64));
        same<int, 1>("make_array(a)", make_array(a), {a}); same<int, 3>("make_array(int, short, char)", make_array(a, b, c), {a, b, c}); same<long, 3>("make_array(int, long, uchar)", make_array(int(a), e, d), {a, e, d});
        same<int, 5>("make_array of 5", make_array(a, 1, 2, int(b), 4), {a, 1, 2, b, 4});
    }
    same<int, 0>("make_array<int>()", make_array<int>(), {});
    { std::string s[3] = {"alpha long enough to allocate", "b", "gamma"}; auto q = make_array(s[0], s[1], s[2]); desc("make_array of strings"); if (q[0] != s[0] || q[1] != "b" || q[2] != "gamma" || s[0].size() < 20) fail("wrong strings"); }
    { std::string s = "a value long enough to be allocated"; auto q = make_array<std::string, 3>(s); desc("make_array<string, 3>(value)"); for (int i = 0; i < 3; ++i) if (q[i] != s) fail("element %d is \"%s\"", i, q[i].c_str()); }
    { std::array<std::string, 2> a{"a value long enough to be allocated", "b"}, b{"c", "another value long enough to be allocated"}; const auto a0 = a, b0 = b; auto q = concatenate_arrays(a, b, a); desc("concatenate_arrays of strings"); for (int i = 0; i < 6; ++i) if (q[i] != (i / 2 == 1 ? b0 : a0)[i % 2]) fail("element %d is \"%s\"", i, q[i].c_str()); if (a != a0 || b != b0) fail("an argument changed");
      auto w = concatenate_arrays(std::move(a), b, std::array<std::string, 2>(a0)); for (int i = 0; i < 6; ++i) if (w[i] != (i / 2 == 1 ? b0 : a0)[i % 2]) fail("element %d is \"%s\" (rvalues)", i, w[i].c_str()); }
    reps<int, 1>(r); reps<unsigned char, 2>(r); reps<long, 7>(r); reps<short, 64>(r); reps<int, 300>(r); reps<unsigned, 33>(r);
    for (int k = 0; k < 200; ++k)
    {
        char t[16]; wchar_t w[16]; for (int i = 0; i < 16; ++i) { t[i] = char(r.next()); w[i] = wchar_t(r.next()); }
        size_t n = 11 + r.below(5); std::string_view v(t, n);
        same<char, 4>("sv_to_array 4", sv_to_array<0, 1, 2, 3>(v), {t[0], t[1], t[2], t[3]}); same<char, 3>("sv_to_array 3", sv_to_array<5, 0, 2>(v), {t[5], t[0], t[2]}); same<char, 1>("sv_to_array 1", sv_to_array<0>(v), {t[0]});
        same<char, 11>("sv_to_array 11", sv_to_array<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>(v), {t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8], t[9], t[10]});
        same<unsigned char, 5>("make_array<5> of a view", make_array<5, unsigned char>(v), {(unsigned char)t[0], (unsigned char)t[1], (unsigned char)t[2], (unsigned char)t[3], (unsigned char)t[4]});
        same<int, 8>("make_array<8, int> of a view", make_array<8, int>(v), {t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]});
        same<wchar_t, 6>("make_array<6> of a wide view", make_array<6, wchar_t>(std::wstring_view(w, n)), {w[0], w[1], w[2], w[3], w[4], w[5]});
    }
    cat<int, 3, 2, 1>(r); cat<unsigned char, 1, 4, 2>(r); cat<long, 2, 1, 3>(r); cat<short, 5, 40, 1>(r);
    eqs<unsigned char, 1>(r); eqs<unsigned char, 3>(r); eqs<int, 4>(r); eqs<long, 9>(r); eqs<short, 20>(r); eqs<int, 60>(r);
#define RG(n, B, E_, S, T, N) { std::array<T, N> w; auto x = B; for (size_t i = 0; i < N; ++i) w[i] = static_cast<T>(static_cast<T>(x) + static_cast<T>(i) * static_cast<T>(S)); same<T, N>("make_array_from_range<" #B ", " #E_ ", " #S ">", make_array_from_range<B, E_, S>(), w); }
#include "../drivers/ranges.inc"
}
int main(int argc, char **argv) { return run(argc, argv, {{"array builders", all}}); }
