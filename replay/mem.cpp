#include "harness.h"
#include <cstddef>
#include <memory>
#include <algorithm>
#include <new>
#include <string>
#include <utils/common.h>
#include <utils/memory/memory.h>
using namespace hz;
namespace um = utils::memory;
typedef std::vector<unsigned char> bytes;
static bytes rnd(Rng &r, size_t n, unsigned k = 256) { bytes b(n); for (auto &x : b) x = (unsigned char)(1 + r.below(k)); return b; }
// an exact-size heap copy, so that the sanitizer sees any access outside it
struct Ex { unsigned char *p; size_t n; explicit Ex(const bytes &b) : p((unsigned char *)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Ex() { free(p); } bytes get() const { return bytes(p, p + n); } std::byte *b(size_t i = 0) { return (std::byte *)(p + i); } };
#if PROP == 11
static void z(size_t size, size_t off, size_t n, bool safe, Rng &r)
{
    bytes b = rnd(r, size, 255); Ex e(b); desc("secure_zero_memory%s buffer %zu offset %zu count %zu", safe ? "_safe" : "", size, off, n);
    int rc = 0, want = safe && !n ? -2 : 0;
    if (safe) rc = um::secure_zero_memory_safe(e.b(off), n); else um::secure_zero_memory(e.b(off), n);
    for (size_t i = off; i < off + n; ++i) b[i] = 0;
    if (e.get() != b) fail("block content differs from the expected one"); if (rc != want) fail("returned %d, expected %d", rc, want);
}
static void rt()
{
    Rng r(seed);
    for (size_t n = 0; n < 100; ++n) for (size_t off = 0; off < 9; ++off) for (int s = 0; s < 2; ++s) z(n + off + n % 5, off, n, s, r);
    for (size_t n : {128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537, 1 << 20}) for (int s = 0; s < 2; ++s) { z(n, 0, n, s, r); z(n + 7, 3, n, s, r); }
    for (size_t n : {0, 1, 100}) { desc("secure_zero_memory_safe null, count %zu", n); if (um::secure_zero_memory_safe(nullptr, n) != -1) fail("did not return -1"); }
    desc("secure_zero_memory null, count 0"); um::secure_zero_memory(nullptr, 0);
}
#ifdef CONSTEXPR
struct O { int n, off, safe, rc; unsigned char a[12]; };
constexpr O cone(int n, int off, int safe) { std::byte x[12]{}; for (int i = 0; i < 12; ++i) x[i] = std::byte(i + 1); O o{n, off, safe, 0, {}}; if (safe) o.rc = um::secure_zero_memory_safe(x + off, n); else um::secure_zero_memory(x + off, n); for (int i = 0; i < 12; ++i) o.a[i] = (unsigned char)x[i]; return o; }
struct Os { O o[13 * 13 * 2]; int n; };
constexpr Os call() { Os s{}; for (int off = 0; off < 12; ++off) for (int n = 0; n + off <= 12; ++n) for (int f = 0; f < 2; ++f) s.o[s.n++] = cone(n, off, f); return s; }
static void ce() { static constexpr Os s = call(); for (int i = 0; i < s.n; ++i) { const O &o = s.o[i]; desc("constant evaluation: secure_zero_memory%s of 12 bytes, offset %d count %d", o.safe ? "_safe" : "", o.off, o.n); for (int k = 0; k < 12; ++k) if (o.a[k] != (k >= o.off && k < o.off + o.n ? 0 : k + 1)) fail("byte %d is %d", k, o.a[k]); if (o.rc != (o.safe && !o.n ? -2 : 0)) fail("returned %d", o.rc); } }
#endif
#elif PROP == 12
static void mv(size_t size, size_t d, size_t s, size_t n, Rng &r)
{
    bytes b = rnd(r, size); Ex e(b); desc("memmove in a buffer of %zu: destination %zu source %zu count %zu", size, d, s, n);
    bytes w = b; for (size_t i = 0; i < n; ++i) w[d + i] = b[s + i];
    auto *p = um::memmove(e.b(d), e.b(s), n);
    if (p != e.b(d)) fail("did not return the destination"); if (e.get() != w) fail("wrong content");
}
template <class T, class F> static void cp(size_t ds, size_t d, size_t ss, size_t s, size_t n, Rng &r, const char *nm)
{
    bytes a = rnd(r, ds), b = rnd(r, ss); Ex x(a), y(b); desc("memcpy (%s) destination size %zu offset %zu, source size %zu offset %zu, count %zu", nm, ds, d, ss, s, n);
    for (size_t i = 0; i < n; ++i) a[d + i] = b[s + i];
    um::memcpy((T *)(x.p + d), (const F *)(y.p + s), n);
    if (x.get() != a) fail("wrong destination content"); if (y.get() != b) fail("source changed");
}
static void two(size_t ds, size_t d, size_t ss, size_t s, size_t n, Rng &r)
{
    bytes a = rnd(r, ds), b = rnd(r, ss); Ex x(a), y(b); desc("memmove between buffers: destination size %zu offset %zu, source size %zu offset %zu, count %zu", ds, d, ss, s, n);
    for (size_t i = 0; i < n; ++i) a[d + i] = b[s + i];
    if (um::memmove(x.b(d), y.b(s), n) != x.b(d)) fail("did not return the destination");
    if (x.get() != a) fail("wrong destination content"); if (y.get() != b) fail("source changed");
    cp<std::byte, std::byte>(ds, d, ss, s, n, r, "byte"); cp<char, unsigned char>(ds, d, ss, s, n, r, "char"); cp<unsigned char, std::byte>(ds, d, ss, s, n, r, "unsigned char");
    cp<void, void>(ds, d, ss, s, n, r, "void"); cp<std::byte, void>(ds, d, ss, s, n, r, "byte from void"); cp<signed char, char>(ds, d, ss, s, n, r, "signed char");
}
static void rt()
{
    Rng r(seed);
    for (size_t size = 1; size < 14; ++size) for (size_t d = 0; d <= size; ++d) for (size_t s = 0; s <= size; ++s) for (size_t n = 0; n + std::max(d, s) <= size; ++n) mv(size, d, s, n, r);
    for (size_t n = 0; n < 300; n += 1 + n / 8) for (size_t d = 0; d < 3; ++d) for (size_t s = 0; s < 3; ++s) two(n + d + 1, d, n + s + 2, s, n, r);
    for (size_t n : {255, 256, 257, 1000, 4096, 65535, 65536, 65537, 100000}) for (size_t k : {0, 1, 7, 63, 256, 5000}) { mv(n + k, 0, k, n, r); mv(n + k, k, 0, n, r); two(n + k, k, n + 1, 1, n, r); }
    while (time_left()) { size_t size = 1 + r.below(400), d = r.below(size), s = r.below(size); mv(size, d, s, r.below(size - std::max(d, s) + 1), r); }
}
#ifdef CONSTEXPR
struct O { int d, s, n, k, ret; unsigned char a[8]; };
constexpr O cone(int d, int s, int n, int k)
{
    std::byte x[8]{}, y[8]{}; for (int i = 0; i < 8; ++i) { x[i] = std::byte(i + 1); y[i] = std::byte(i + 101); }
    O o{d, s, n, k, 1, {}};
    if (k == 0) o.ret = um::memmove(x + d, x + s, n) == x + d;
    else if (k == 1) o.ret = um::memmove(x + d, y + s, n) == x + d;
    else if (k == 2) um::memcpy(x + d, y + s, n);
    else { unsigned char p[8]{}; char q[8]{}; for (int i = 0; i < 8; ++i) { p[i] = (unsigned char)(i + 1); q[i] = (char)(i + 101); } um::memcpy(p + d, q + s, n); for (int i = 0; i < 8; ++i) x[i] = std::byte(p[i]); }
    for (int i = 0; i < 8; ++i) o.a[i] = (unsigned char)x[i];
    return o;
}
struct Os { O o[2000]; int n; };
constexpr Os call() { Os t{}; for (int k = 0; k < 4; ++k) for (int d = 0; d < 8; ++d) for (int s = 0; s < 8; ++s) for (int n = 0; n + (d > s ? d : s) <= 8; ++n) t.o[t.n++] = cone(d, s, n, k); return t; }
static void ce() { static constexpr Os t = call(); for (int i = 0; i < t.n; ++i) { const O &o = t.o[i];
    desc("constant evaluation: %s destination %d source %d count %d in 8 bytes", o.k == 0 ? "memmove in one buffer" : o.k == 1 ? "memmove between buffers" : "memcpy", o.d, o.s, o.n);
    for (int j = 0; j < 8; ++j) { int w = j + 1; if (j >= o.d && j < o.d + o.n) w = (o.k ? 101 : 1) + o.s + j - o.d; if (o.a[j] != w) fail("byte %d is %d, expected %d", j, o.a[j], w); } if (!o.ret) fail("did not return the destination"); } }
#endif
#else
static void cmp(size_t n, unsigned char v, long diff, unsigned char dv)
{
    bytes b(n, v); if (diff >= 0) b[diff] = dv; Ex e(b);
    bool want = n > 0; for (auto c : b) if (c != v) want = false;
    desc("memvcmp of %zu bytes of %d, byte %ld is %d", n, v, diff, dv);
    bool got = utils::memvcmp(e.p, v, n); if (got != want) fail("returned %d", got);
}
static void rt()
{
    for (size_t n = 0; n < 70; ++n) for (int v : {0, 1, 42, 127, 128, 255}) { cmp(n, v, -1, 0); for (long d = 0; d < (long)n; ++d) for (int dv : {0, 1, 43, 128, 254, 255}) cmp(n, v, d, dv); }
    for (size_t n : {255, 256, 257, 511, 4096, 65536, 65537}) for (int v : {0, 200}) { cmp(n, v, -1, 0); for (long d : {0l, 1l, 2l, (long)n / 2, (long)n - 256, (long)n - 255, (long)n - 2, (long)n - 1}) if (d >= 0) { cmp(n, v, d, v ^ 1); cmp(n, v, d, v ^ 128); } }
    for (int v = 0; v < 256; ++v) for (int w = 0; w < 256; ++w) { cmp(3, v, 0, w); cmp(3, v, 2, w); cmp(1, v, 0, w); }
    for (size_t n : {0, 1, 5}) { desc("memvcmp null, count %zu", n); if (utils::memvcmp(nullptr, 0, n)) fail("returned true"); }
    // the content is all that matters, whatever the alignment
    Rng r(seed); while (time_left()) { size_t n = 1 + r.below(64), off = r.below(16); bytes b(n + off + 3); for (auto &x : b) x = (unsigned char)r.below(2); unsigned char v = (unsigned char)r.below(2); if (r.below(2)) { for (size_t i = 0; i < n; ++i) b[off + i] = v; if (r.below(2)) b[off + r.below(n)] ^= 1 << r.below(8); } desc("memvcmp offset %zu count %zu value %d", off, n, v); bool w = true; for (size_t i = 0; i < n; ++i) w &= b[off + i] == v; if (utils::memvcmp(b.data() + off, v, n) != w) fail("returned %d", !w); }
    {   // a block beyond 4 GiB (never written: one shared zero page)
        size_t n = (size_t(1) << 32) + 5; if (model.empty()) return; unsigned char *q = (unsigned char *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q != MAP_FAILED && !model.empty()) { q[n] = 9; for (size_t k : {n - 4}) for (size_t d : {k - 1}) { desc("memvcmp of %zu bytes, other byte at %zu", k, d); q[d] = 1; bool w = d >= k; if (utils::memvcmp(q, 0, k) != w) fail("returned %d", !w); q[d] = 0; beat(); } munmap(q, n + 4096); }
    }
}
#endif
int main(int argc, char **argv) { return run(argc, argv, {
#ifdef CONSTEXPR
    {"constant evaluation", ce},
#endif
    {"run time", rt}}); }
