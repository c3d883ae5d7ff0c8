#include "harness.h"
#include <cstddef>
#include <memory>
#include <algorithm>
#include <new>
#include <string>
#include <cassert>
#include <utils/memory/simple_resource.h>
using namespace hz;
using namespace utils::memory;
struct call_t { char op; size_t s, a; void *p; };
struct Rec : memory_resource
{
    std::vector<call_t> log; uintptr_t at = uintptr_t(1) << 44; bool null = false; void *last = nullptr;
    Rec() : memory_resource(&Rec::allocate<Rec>, &Rec::deallocate<Rec>) {}
    void *allocate_impl(size_t s, size_t a) noexcept { log.push_back({'a', s, a, nullptr}); if (null || !a || a & (a - 1) || a > (uintptr_t(1) << 40)) return last = nullptr; at = ((at + a - 1) & -a) + a; return last = (void *)at; }
    void deallocate_impl(void *p) noexcept { log.push_back({'d', 0, 0, p}); }
    bool is_equal(const memory_resource &o) const noexcept override { return this == &o; }
    using memory_resource::allocate; using memory_resource::deallocate;
};
template <size_t M, size_t B> struct Test
{
    using R = simple_resource<M, B>; using I = typename R::BIndex;
    struct reg { size_t first, last; bool used; };
    struct live { uintptr_t p; size_t s, first, blocks; };
    alignas(R) unsigned char mem[sizeof(R)]; R *r; Rec u; bool up; std::vector<live> al; uintptr_t base; size_t n; std::byte *buf; size_t size;
    memory_resource *mr() { return r; } const R *cr() const { return r; }
    // what the accessors report
    std::vector<reg> walk()
    {
        std::vector<reg> v; size_t k = 0, prev = 0; if (!n) return v;
        for (;;)
        {
            if (v.size() > n) fail("the region list does not end");
            size_t next = cr()->at(I(k)).next_index();
            if (PROP == 2 || PROP == 4) { if (k && cr()->at(I(k)).prev_index() != prev) fail("region %zu reports predecessor %zu, expected %zu", k, (size_t)cr()->at(I(k)).prev_index(), prev); if (!k && cr()->at(0).prev_index() != 0) fail("region 0 has a predecessor"); }
            if (next && (next <= k || next >= n)) fail("region %zu has next index %zu of %zu blocks", k, next, n);
            v.push_back({k, (next ? next : n) - 1, r->in_use(I(k))});
            if (r->block_size(I(k)) != v.back().last - k + 1 || r->block_size_in_bytes(I(k)) != (v.back().last - k + 1) * B) if (PROP == 2) fail("block_size(%zu) is %zu", k, (size_t)r->block_size(I(k)));
            if (!next) break; prev = k; k = next;
        }
        return v;
    }
    void consistent(bool alloc_ok = true)
    {
        if (!n) return; auto v = walk(); size_t f = 0, b = 0; for (auto &x : v) ++(x.used ? b : f);
        if (PROP == 2 || PROP == 4)
        {
            for (size_t i = 1; i < v.size(); ++i) if (!v[i].used && !v[i - 1].used) fail("neighbouring free regions at %zu and %zu", v[i - 1].first, v[i].first);
            if (r->free_count() != f) fail("free_count() is %zu, %zu regions are free", (size_t)r->free_count(), f);
            if (r->busy_count() != b) fail("busy_count() is %zu, %zu regions are allocated", (size_t)r->busy_count(), b);
            if (b != al.size()) fail("%zu regions are allocated, %zu allocations are live", b, al.size());
            for (auto &a : al) { bool ok = false; for (auto &x : v) if (x.used && x.first == a.first && x.last - x.first + 1 == a.blocks) ok = true; if (!ok) fail("the region of the live allocation at block %zu (%zu blocks) changed", a.first, a.blocks); }
            if (al.empty() && (v.size() != 1 || v[0].used)) fail("nothing is allocated but the resource is not one free region");
        }
    }
    void build(std::byte *b_, size_t size_, bool up_)
    {
        buf = b_; size = size_; up = up_; base = ((uintptr_t)buf + B - 1) & -(uintptr_t)B; size_t skip = base - (uintptr_t)buf; n = buf && skip < size ? std::min<size_t>((size - skip) / B, M) : 0;
        r = new (mem) R(buf, size, up ? &u : nullptr); al.clear(); u.log.clear();
    }
    void snapshot(std::vector<reg> &v, size_t &f, size_t &b) { v = n ? walk() : std::vector<reg>(); f = r->free_count(); b = r->busy_count(); }
    void unchanged(const std::vector<reg> &v, size_t f, size_t b, const char *what) { std::vector<reg> w; size_t f2, b2; snapshot(w, f2, b2); bool same = v.size() == w.size() && f == f2 && b == b2; for (size_t i = 0; same && i < v.size(); ++i) same = v[i].first == w[i].first && v[i].last == w[i].last && v[i].used == w[i].used; if (!same) fail("%s changed the resource", what); }
    void allocate(size_t s, size_t a)
    {
        note(" allocate(%zu,%zu)", s, a); std::vector<reg> v; size_t f, b; snapshot(v, f, b); u.log.clear();
        uintptr_t p = (uintptr_t)mr()->allocate(s, a); bool own = n && p >= base && p < base + n * B;
        if (PROP == 1)
        {
            if (p & (a - 1)) fail("returned %#zx, not a multiple of %zu", (size_t)p, a);
            if (own && (s == 0 || s > base + n * B - p)) fail("returned %#zx: %zu bytes do not fit in the storage [%#zx, %#zx)", (size_t)p, s, (size_t)base, (size_t)(base + n * B));
            if (p && !own && !(up && p == (uintptr_t)u.last)) fail("returned %#zx, which is neither in the storage nor from upstream", (size_t)p);
            if (own) for (auto &x : al) if (p < x.p + x.s && x.p < p + s) fail("returned %#zx (%zu bytes), which overlaps the live allocation %#zx (%zu bytes)", (size_t)p, s, (size_t)x.p, x.s);
        }
        if (PROP == 3)
        {
            bool must = false; if (s && a <= B) for (auto &x : v) if (!x.used && (x.last - x.first + 1) * B >= s) must = true;
            if (must && !own) fail("a free region fits, but %#zx was returned", (size_t)p);
            if (own && !u.log.empty()) fail("served locally, but upstream was called");
            if (own && !s) fail("size zero was served");
            if (!own)
            {
                unchanged(v, f, b, "a request not served locally");
                if (s && up) { if (u.log.size() != 1 || u.log[0].op != 'a' || u.log[0].s != s || u.log[0].a < a || (u.log[0].a & (u.log[0].a - 1))) fail("upstream was not asked once for the same size and at least that alignment"); if (p != (uintptr_t)u.last) fail("upstream's answer %p was not returned but %#zx", u.last, (size_t)p); }
                else if (p || !u.log.empty()) fail("null and no upstream call expected, got %#zx", (size_t)p);
            }
        }
        if (own) { size_t first = (p - base) / B, blocks = (p + (s - 1) - base) / B - first + 1; auto w = walk(); for (auto &x : w) if (x.first == first && x.used) { if (x.last - first + 1 < blocks && PROP == 2) fail("the region is shorter than the allocation"); blocks = x.last - first + 1; } al.push_back({p, s, first, blocks}); }
        consistent();
    }
    void deallocate(size_t i) { uintptr_t p = al[i].p; note(" deallocate(%#zx)", (size_t)p); al.erase(al.begin() + i); u.log.clear(); mr()->deallocate((void *)p); if (PROP == 5 && !u.log.empty()) fail("upstream was called"); consistent(); }
    void release() { note(" release"); u.log.clear(); std::vector<reg> v; size_t f, b; snapshot(v, f, b); r->release(); al.clear();
        if (PROP == 4) { if (!u.log.empty()) fail("upstream was called"); if (r->busy_count()) fail("busy_count() is %zu", (size_t)r->busy_count()); if (n) { auto w = walk(); if (w.size() != 1 || w[0].used || r->free_count() != 1) fail("not one free region: %zu regions, free_count() %zu", w.size(), (size_t)r->free_count()); for (size_t k = 0; k < n; ++k) if (r->in_use(I(k))) fail("block %zu is in use", k); } else unchanged(v, f, b, "release"); }
        consistent(); }
    void finish() { while (!al.empty()) deallocate(al.size() / 2); r->~R(); }
    void constructed()
    {
        if (PROP != 6) return; uintptr_t d = (uintptr_t)r->data(); if (n ? d != base : d != 0) fail("data() is %#zx, expected %#zx", (size_t)d, n ? (size_t)base : (size_t)0); if (r->size() != n * B) fail("size() is %zu, expected %zu", (size_t)r->size(), n * B); if (r->busy_count()) fail("busy_count() is not zero");
        if (n) { if (r->free_count() != 1) fail("free_count() is %zu", (size_t)r->free_count()); if (cr()->at(0).next_index() || cr()->at(0).prev_index()) fail("not one region"); for (size_t k = 0; k < n; ++k) if (r->in_use(I(k))) fail("block %zu is in use", k); }
    }
    void misuse(Rng &g)
    {
        if (PROP != 5) return;
        for (int t = 0; t < 3; ++t)
        {
            uintptr_t p; switch (g.below(7)) { case 0: p = base + g.below(n + 2) * B; break; case 1: p = base - g.below(3) * B; break; case 2: p = base + n * B + g.below(3) * B; break; case 3: p = base + g.below(n * B + 3) ; break; case 4: p = g.next() & -(uintptr_t)B; break; case 5: p = 0; break; default: p = base + g.below(n + 1) * B + g.below(B); }
            bool inside = n && p >= base && p < base + n * B, live = false, aligned = p % B == 0; for (auto &x : al) if (aligned && x.p == p) live = true;   /* a live allocation starts where its block starts */
            for (auto &x : al) if (aligned && !live && base + x.first * B == p) live = true;
            if (live) continue; char want = !p || (aligned && !inside && up) ? 'R' : 'A'; bool fw = p && aligned && !inside && up;
            size_t L = strlen(sh()->desc); note(" deallocate(%#zx)?", (size_t)p);
            char got = (char)ends([&] { std::vector<reg> v; size_t f, b; snapshot(v, f, b); u.log.clear(); mr()->deallocate((void *)p); if (fw ? u.log.size() != 1 || u.log[0].op != 'd' || u.log[0].p != (void *)p : !u.log.empty()) _exit(77); unchanged(v, f, b, "it"); });
            if (got != want) fail("%s, expected %s", got == 'A' ? "aborts" : got == 'R' ? "returns" : got == 'F' ? "wrong upstream calls or state changed" : "crashes", want == 'A' ? "an abort" : "to return"); sh()->desc[L] = 0;
        }
        size_t L = strlen(sh()->desc); note(" destroy?"); char got = (char)ends([&] { r->~R(); }); if (got != (al.empty() ? 'R' : 'A')) fail("%s with %zu live allocations", got == 'A' ? "aborts" : "returns", al.size()); sh()->desc[L] = 0;
    }
    void random(std::byte *b, size_t sz, bool up_, Rng &g, unsigned steps)
    {
        desc("simple_resource<%zu,%zu> on %p size %zu%s:", M, B, b, sz, up_ ? " with upstream" : ""); build(b, sz, up_); constructed(); consistent(); unsigned style = g.below(4); u.null = g.below(8) == 0;
        for (unsigned i = 0; i < steps; ++i)
        {
            unsigned k = g.below(style == 0 ? 5 : 3);
            if (k < 2 || al.empty())
            {
                size_t a = size_t(1) << (g.below(6) ? g.below(8) : g.below(13)), s; if (g.below(20) == 0) a = size_t(1) << g.below(64);
                switch (g.below(9)) { case 0: s = g.below(3); break; case 1: s = n * B + g.below(3) - 1; break; case 2: s = (1 + g.below(n + 1)) * B + g.below(3) - 1; break; case 3: s = size_t(0) - g.below(3 * B); break; case 4: s = (size_t(1) << 63) + g.below(5) - 2; break; case 5: { auto v = walk(); s = B; if (!v.empty()) { auto &x = v[g.below(v.size())]; s = (x.last - x.first + 1) * B + g.below(3) - 1; } break; } default: s = 1 + g.below(style == 2 ? n * B : 4 * B); }
                allocate(s, a);
            }
            else deallocate(g.below(al.size()));
            if (g.below(style == 1 ? 12 : 60) == 0) release(); if (g.below(PROP == 5 ? 10 : 1000) == 0) misuse(g);
        }
        if (PROP == 5) misuse(g);
        if (PROP == 4 || g.below(2)) release(); finish();
    }
    // every sequence of a few operations on a few blocks
    void small(unsigned blocks, unsigned depth, std::byte *b)
    {
        unsigned ops = 2 * blocks + 2, tot = 1; for (unsigned i = 0; i < depth; ++i) tot *= ops;
        for (unsigned c = 0; c < tot && time_left(); ++c)
        {
            desc("simple_resource<%zu,%zu> with %u blocks:", M, B, blocks); build(b, blocks * B, c & 1); unsigned x = c;
            for (unsigned i = 0; i < depth; ++i, x /= ops) { unsigned o = x % ops; if (o < blocks) allocate((o + 1) * B, B); else if (o < 2 * blocks) { if (o - blocks < al.size()) deallocate(o - blocks); } else if (o == 2 * blocks) release(); else allocate(1, 2 * B); }
            release(); finish();
        }
    }
};
alignas(4096) static std::byte store[1 << 20];
template <size_t M, size_t B> static void drive(bool sm)
{
    static Test<M, B> t; Rng g(seed + M * 31 + B);
    if (PROP == 6)
    {
        for (size_t off = 0; off < 2 * B + 2 && off < 70; ++off) for (size_t len : {(size_t)0, (size_t)1, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, M * B - 1, M * B, M * B + 1, M * B + B - 1, M * B + B, (M + 1) * B + off, (M + 3) * B, B - off % B, 2 * B - off % B, M * B + B - off % B})
        { if (len > sizeof store - 4096) continue; for (int up = 0; up < 2; ++up) { desc("simple_resource<%zu,%zu> on %p size %zu", M, B, store + off, len); t.build(store + off, len, up); t.constructed(); t.allocate(t.n * B + 1, 1); if (t.u.log.size() != size_t(up)) fail("upstream was %scalled", up ? "not " : ""); t.finish(); } }
        for (size_t len : {(size_t)0, (size_t)100}) { desc("simple_resource<%zu,%zu> on null size %zu", M, B, len); t.build(nullptr, len, true); t.constructed(); t.finish(); }
        Rec u; set_default_resource(&u); alignas(8) static std::byte arr[3 * B + 5]; desc("simple_resource<%zu,%zu> from an array", M, B); using R = simple_resource<M, B>; static R a(arr), b(arr, &u), c(arr, sizeof arr);
        for (R *r : {&a, &b, &c}) { uintptr_t base = ((uintptr_t)arr + B - 1) & -(uintptr_t)B; size_t n = std::min<size_t>((sizeof arr - (base - (uintptr_t)arr)) / B, M); if ((uintptr_t)r->data() != base || r->size() != n * B) fail("data() or size() wrong"); u.log.clear(); memory_resource *m = r; m->allocate(n * B + 1, 1); if (u.log.size() != 1) fail("the upstream is not the given (or the default) resource"); }
        set_default_resource(system_memory_resource());
    }
    if (sm) { t.small(3, 4, store); t.small(2, 5, store + 4096); t.small(1, 4, store); }
    double stop = now() + part_budget / 4;
    for (int i = 0; time_left() && now() < stop; ++i)
    {
        size_t off = g.below(4) ? g.below(300) : 0, len; switch (g.below(4)) { case 0: len = g.below(6) * B + g.below(3); break; case 1: len = (M + g.below(3)) * B; break; default: len = g.below(std::min<size_t>((M + 2) * B, 40000)); }
        t.random(g.below(40) ? store + off : nullptr, std::min(len, sizeof store - 4096), g.below(2), g, 4 + g.below(60));
    }
    if (PROP == 4 || PROP == 2) for (size_t k : {M, (size_t)M - 1, (size_t)65, (size_t)64, (size_t)5}) if (k && k <= M && k * B < sizeof store) { desc("simple_resource<%zu,%zu> full of %zu single blocks, then release:", M, B, k); t.build(store, k * B, false); if (k <= 1000) { for (size_t i = 0; i < k; ++i) { t.al.push_back({(uintptr_t)t.mr()->allocate(1, 1), 1, i, 1}); } t.release(); } t.finish(); }
}
static void all() { drive<32, 8>(true); drive<1000, 64>(false); drive<256, 16>(false); drive<257, 8>(false); drive<2, 8>(true); }
int main(int argc, char **argv) { return run(argc, argv, {{"simple_resource", all}}); }
