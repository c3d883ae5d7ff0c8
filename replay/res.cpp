#include "harness.h"
#include <cstddef>
#include <memory>
#include <algorithm>
#include <new>
#include <string>
#include <cassert>
#include <utils/common.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/allocator.h>
using namespace hz;
using namespace utils::memory;
typedef unsigned __int128 u128;
struct call_t { char op; size_t s, a; void *p; };
struct Rec : memory_resource
{
    std::vector<call_t> log; void *answer = (void *)0x1230; std::vector<int> *order = nullptr;
    Rec() : memory_resource(&Rec::allocate<Rec>, &Rec::deallocate<Rec>) {}
    void *allocate_impl(size_t s, size_t a) noexcept { log.push_back({'a', s, a, nullptr}); return answer; }
    void deallocate_impl(void *p) noexcept { if (order) order->push_back('d'); log.push_back({'d', 0, 0, p}); }
    bool is_equal(const memory_resource &o) const noexcept override { return this == &o; }
    using memory_resource::allocate; using memory_resource::deallocate;
};
struct Pad { virtual ~Pad() {} long z = 1; };
struct Rec2 : Pad, memory_resource
{
    std::vector<call_t> log; void *self = 0; void *answer = (void *)0x4560;
    Rec2() : memory_resource(&Rec2::allocate<Rec2>, &Rec2::deallocate<Rec2>) {}
    void *allocate_impl(size_t s, size_t a) noexcept { self = this; log.push_back({'a', s, a, nullptr}); return answer; }
    void deallocate_impl(void *p) noexcept { self = this; log.push_back({'d', 0, 0, p}); }
    bool is_equal(const memory_resource &o) const noexcept override { return this == static_cast<const Rec2 *>(&o); }
};
static void expect(std::vector<call_t> &log, std::vector<call_t> want, const char *who)
{
    if (log.size() != want.size()) fail("%s saw %zu calls, expected %zu", who, log.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) { call_t &l = log[i], &w = want[i]; if (l.op != w.op || l.s != w.s || l.a != w.a || l.p != w.p) fail("%s saw %s(size %zu alignment %zu pointer %p), expected %s(%zu %zu %p)", who, l.op == 'a' ? "allocate" : "deallocate", l.s, l.a, l.p, w.op == 'a' ? "allocate" : "deallocate", w.s, w.a, w.p); }
    log.clear();
}
#if PROP == 7 || PROP == 8
static void mono_case(std::byte *buf, size_t n, bool up, Rng &r, unsigned steps, size_t mstep)
{
    Rec u; std::byte *B = n ? buf : nullptr;
    desc("monotonic buffer at %p size %zu %s:", buf, n, up ? "with upstream" : "without upstream");
    monotonic_buffer_resource m(buf, n, up ? &u : nullptr);
    size_t N = B ? n : 0; uintptr_t base = (uintptr_t)B, next = base, end = base + N;
    if (m.size() != N) fail("size() is %zu", m.size());
    if ((uintptr_t)m.data() != base) fail("data() differs");
    for (unsigned i = 0; i < steps; ++i)
    {
        unsigned k = r.below(10);
        if (k == 0) { note(" release"); m.release(); next = base; continue; }
        if (k == 1) { note(" deallocate"); m.memory_resource::deallocate((void *)(base + r.below(N + 1))); if (!u.log.empty()) fail("deallocate reached upstream"); continue; }
        size_t a = size_t(1) << (r.below(8) ? r.below(8) : r.below(64)), s;
        if (mstep) { s = mstep == 1 ? model["s"] : r.below(40); if (model.count("a") && !(model["a"] & (model["a"] - 1)) && model["a"]) a = model["a"]; }
        else switch (r.below(8)) { case 0: s = 0; break; case 1: s = end - next + r.below(3) - 1; break; case 2: s = size_t(0) - r.below(300); break; case 3: { uintptr_t A = (next + a - 1) & -a; s = end - A + r.below(3) - 1; break; } case 4: s = size_t(0) - ((next + a - 1) & -a) + r.below(5) - 2; break; case 5: s = (size_t(1) << 63) + r.below(5) - 2; break; default: s = r.below(24); }
        note(" allocate(%zu,%zu)", s, a);
        u128 A = ((u128)next + a - 1) / a * a; bool fits = B && s && A + s <= end;
        uintptr_t got = (uintptr_t)m.memory_resource::allocate(s, a);
        if (fits) { if (got != (uintptr_t)A) fail("returned %#zx, expected %#zx (buffer %#zx size %zu)", got, (size_t)A, base, N); next = got + s; expect(u.log, {}, "upstream"); }
        else if (s && up) { if (got != 0x1230) fail("returned %#zx, upstream's answer expected (buffer %#zx size %zu)", got, base, N); expect(u.log, {{'a', s, a, 0}}, "upstream"); }
        else { if (got) fail("returned %#zx, null expected (buffer %#zx size %zu)", got, base, N); expect(u.log, {}, "upstream"); }
    }
}
static void rt()
{
    alignas(256) static std::byte store[2048]; Rng r(seed);
    if (model.count("s")) for (size_t k : {0, 1, 2, 3, 4}) for (size_t n : {(size_t)1, (size_t)64, (size_t)1000}) for (int up = 0; up < 2; ++up) mono_case(store + k, n, up, r, 3, 1);
    for (int up = 0; up < 2; ++up) { mono_case(nullptr, 0, up, r, 8, 0); mono_case(nullptr, 50, up, r, 8, 0); mono_case(store, 0, up, r, 8, 0); }
    // a fit test that is off by one shows on an exactly filled buffer
    for (size_t off = 0; off < 20; ++off) for (size_t n = 1; n < 20; ++n) for (size_t s = 0; s <= n + 1; ++s) for (size_t a = 1; a <= 16; a *= 2)
    {
        desc("monotonic buffer at %p size %zu: allocate(%zu,%zu)", store + off, n, s, a);
        Rec u; monotonic_buffer_resource m(store + off, n, &u); uintptr_t b = (uintptr_t)(store + off), A = (b + a - 1) & -a; uintptr_t g = (uintptr_t)m.memory_resource::allocate(s, a);
        bool fits = s && A + s <= b + n; if (g != (fits ? A : s ? 0x1230 : 0)) fail("returned %#zx", g);
        if (u.log.size() != (s && !fits)) fail("upstream calls: %zu", u.log.size());
    }
    { desc("array constructors"); Rec u; set_default_resource(&u); static std::byte arr[37]; monotonic_buffer_resource a(arr), b(arr, &u), c(arr, sizeof arr); for (auto *m : {&a, &b, &c}) { if (m->data() != arr || m->size() != 37) fail("data() or size() wrong"); if (m->memory_resource::allocate(38, 1) != u.answer) fail("default upstream not used"); if (m->memory_resource::allocate(37, 1) != arr) fail("whole array not served"); } set_default_resource(system_memory_resource()); }
    while (time_left()) { size_t off = r.below(70), n = r.below(8) ? r.below(400) : 0; mono_case(store + off, n, r.below(2), r, 1 + r.below(12), 0); }
}
#elif PROP == 9
struct alignas(32) al_t { char c[96]; }; struct odd_t { char c[13]; };
template <class R> static void disp(const char *nm)
{
    R r; memory_resource *b = &r; Rng g(seed);
    for (int i = 0; i < 400; ++i)
    {
        size_t s = interesting(g, 64), a = size_t(1) << g.below(64); desc("%s: allocate(%zu,%zu)", nm, s, a);
        if (b->allocate(s, a) != r.answer) fail("answer not passed through"); expect(r.log, {{'a', s, a, 0}}, nm);
        if (b->allocate(s) != r.answer) fail("answer not passed through"); expect(r.log, {{'a', s, 16, 0}}, nm);
        void *p = (void *)interesting(g, 64); desc("%s: deallocate(%p)", nm, p); b->deallocate(p); expect(r.log, {{'d', 0, 0, p}}, nm);
    }
    desc("%s: typed allocate", nm);
    b->template allocate<char>(); expect(r.log, {{'a', 1, 1, 0}}, nm); b->template allocate<al_t>(); expect(r.log, {{'a', 96, 32, 0}}, nm); b->template allocate<odd_t>(); expect(r.log, {{'a', 13, 1, 0}}, nm); b->template allocate<double>(); expect(r.log, {{'a', 8, 8, 0}}, nm);
    R q; memory_resource *c = &q; desc("%s: equality", nm); if (!(*b == *b) || *b != *b || *b == *c || !(*b != *c)) fail("wrong");
}
static void rt()
{
    desc("default resource at start"); if (get_default_resource() != system_memory_resource()) fail("is not the system resource");
    { Rec2 r; memory_resource *b = &r; desc("this pointer"); b->allocate(1, 1); if (r.self != static_cast<void *>(&r)) fail("implementation got another object"); b->deallocate(0); }
    disp<Rec>("resource"); disp<Rec2>("resource with a second base");
    memory_resource *s = system_memory_resource(), *n = null_memory_resource();
    for (int viaf = 0; viaf < 2; ++viaf) for (size_t a = 1; a <= 65536; a *= 2) for (size_t z : {(size_t)0, (size_t)1, (size_t)7, (size_t)100, (size_t)4096, (size_t)1 << 40, ~(size_t)0, ~(size_t)0 - 4096}) for (int f = 0; f < 2; ++f)
    {
        desc("%s(%zu,%zu)%s", viaf ? "aligned_malloc" : "system resource allocate", z, a, f ? " with the system failing" : ""); sys.clear(); sys_fail = f;
        void *p = viaf ? aligned_malloc(z, a) : s->allocate(z, a); sys_fail = false;
        if (sys.size() != 1 || sys[0].op != 'm') fail("%zu system calls", sys.size());
        if (sys[0].size != z) fail("system was asked for %zu bytes", sys[0].size); if (sys[0].align < a || sys[0].align < 8 || (sys[0].align & (sys[0].align - 1))) fail("system was asked for alignment %zu", sys[0].align);
        if (p != sys[0].p) fail("returned %p, the system returned %p", p, sys[0].p);
        if (!p) continue;
        sys.clear(); note(" deallocate"); if (viaf) aligned_free(p); else s->deallocate(p); if (sys.size() != 1 || sys[0].op != 'f' || sys[0].p != p) fail("did not free exactly that pointer");
    }
    desc("null resource"); for (size_t z : {(size_t)0, (size_t)1, (size_t)100, ~(size_t)0}) for (size_t a : {1, 8, 4096}) if (n->allocate(z, a)) fail("returned non-null for %zu,%zu", z, a);
    sys.clear(); n->deallocate((void *)0x10); n->deallocate(nullptr); if (!sys.empty()) fail("reached the system");
    desc("default resource"); Rec a, b; if (get_default_resource() != s) fail("changed by itself"); if (set_default_resource(&a) != s) fail("set did not return the previous one"); if (get_default_resource() != &a) fail("get"); if (set_default_resource(&b) != &a) fail("set"); if (set_default_resource(nullptr) != &b) fail("set"); if (get_default_resource() != nullptr) fail("null not stored"); if (set_default_resource(s) != nullptr || get_default_resource() != s) fail("set");
    desc("equality"); if (!(*s == *s) || *s != *s || *s == *n || !(*n == *n) || !(*s != *n) || *n == *s) fail("system/null");
    static std::byte buf[32]; monotonic_buffer_resource m(buf, 32, n), k(buf, 32, n); memory_resource *mp = &m, *kp = &k; if (!(*mp == *mp) || *mp == *kp || *mp != *mp || !(*mp != *kp)) fail("monotonic");
}
#else
static std::vector<std::pair<int, void *>> ev; static std::vector<int> ord; static int ai; static void *ap; static const void *from;
struct obj { obj(int i, void *p) noexcept { ev.push_back({1, this}); ai = i; ap = p; } obj() noexcept { ev.push_back({2, this}); } obj(const obj &o) noexcept { ev.push_back({3, this}); from = &o; } obj(obj &&o) noexcept { ev.push_back({4, this}); from = &o; } ~obj() { ord.push_back('x'); ev.push_back({5, this}); } char c[24]; };
struct alignas(64) obj2 { obj2(const obj &a, obj &&, int &) noexcept { ev.push_back({6, this}); from = &a; } ~obj2() { ord.push_back('x'); ev.push_back({7, this}); } char c[192]; };
struct alignas(32) al_t { char c[96]; }; struct odd_t { char c[13]; }; struct big_t { char c[4096]; };
template <class T> static void alloc(const char *nm)
{
    Rec r; allocator<T> a(&r); allocator<char> ac(&r); Rng g(seed); const u128 lim = ~(size_t)0;
    for (int i = 0; i < 3000; ++i)
    {
        size_t n; switch (g.below(5)) { case 0: n = lim / sizeof(T) + g.below(5) - 2; break; case 1: n = interesting(g, 64); break; case 2: n = size_t(((u128)1 << 64) * (1 + g.below(sizeof(T))) / sizeof(T)) + g.below(5) - 2; break; default: n = g.below(40); }
        if (i == 0 && model.count("n")) n = model["n"];
        bool big = (u128)n * sizeof(T) > lim; r.answer = (void *)(0x1000 + 64 * g.below(3)); if (!g.below(4)) r.answer = 0;
        for (int k = 0; k < 2; ++k)
        {
            desc("allocator<%s>: %s(%zu)", nm, k ? "allocate_object" : "allocate", n); void *p = k ? (void *)ac.template allocate_object<T>(n) : (void *)a.allocate(n);
            if (big) { if (p) fail("returned %p although the size is not representable", p); expect(r.log, {}, "resource"); }
            else { if (p != r.answer) fail("returned %p", p); expect(r.log, {{'a', n * sizeof(T), alignof(T), 0}}, "resource"); }
        }
        T *q = (T *)(n & ~63ull); desc("allocator<%s>: deallocate(%p)", nm, q); a.deallocate(q); expect(r.log, {{'d', 0, 0, q}}, "resource"); ac.deallocate_object(q); expect(r.log, {{'d', 0, 0, q}}, "resource");
    }
    desc("allocator<%s>: allocate_object()", nm); (void)ac.template allocate_object<T>(); expect(r.log, {{'a', sizeof(T), alignof(T), 0}}, "resource");
}
static void rt()
{
    alloc<char>("char"); alloc<short>("short"); alloc<long>("long"); alloc<odd_t>("13 bytes"); alloc<al_t>("96 bytes"); alloc<long double>("long double"); alloc<big_t>("4096 bytes");
    Rec r, r2; allocator<long> a(&r); alignas(64) static char st[192];
    for (void *ans : {(void *)st, (void *)0})
    {
        r.answer = ans; obj o1; obj o2; int iv = 5; ev.clear();
        auto chk = [&](const char *nm, void *p, size_t s, size_t al, int e) { desc("%s, storage %p", nm, ans); if (p != ans) fail("returned %p", p); expect(r.log, {{'a', s, al, 0}}, "resource"); if (ev.size() != (ans ? 1u : 0u)) fail("%zu constructor or destructor calls", ev.size()); if (ans && (ev[0].first != e || ev[0].second != ans)) fail("wrong constructor or place"); ev.clear(); };
        chk("new_object(int, void*)", a.new_object<obj>(-7, (void *)0x77), 24, 1, 1); if (ans && (ai != -7 || ap != (void *)0x77)) fail("arguments");
        chk("new_object()", a.new_object<obj>(), 24, 1, 2); chk("new_object(const&)", a.new_object<obj>(o1), 24, 1, 0 + 3);
        chk("new_object(const&) const", a.new_object<obj>(static_cast<const obj &>(o1)), 24, 1, 3); if (ans && from != &o1) fail("argument"); chk("new_object(&&)", a.new_object<obj>(std::move(o2)), 24, 1, 4); if (ans && from != &o2) fail("argument");
        chk("new_object of 3 arguments", a.new_object<obj2>(static_cast<const obj &>(o1), std::move(o2), iv), 192, 64, 6);
        r.order = &ord; ord.clear(); desc("delete_object(%p)", ans); a.delete_object((obj *)ans); if (ans && ord != std::vector<int>{'x', 'd'}) fail("not destroyed and then deallocated"); if (ans) { expect(r.log, {{'d', 0, 0, ans}}, "resource"); if (ev.size() != 1 || ev[0].first != 5 || ev[0].second != ans) fail("not destroyed once"); } else { expect(r.log, {}, "resource"); if (!ev.empty()) fail("destroyed null"); }
        ev.clear(); desc("delete_object(%p) of another type", ans); ord.clear(); a.delete_object((obj2 *)ans); if (ans && ord != std::vector<int>{'x', 'd'}) fail("not destroyed and then deallocated"); if (ans) { expect(r.log, {{'d', 0, 0, ans}}, "resource"); if (ev.size() != 1 || ev[0].first != 7) fail("not destroyed once"); } else expect(r.log, {}, "resource");
        ev.clear();
    }
    desc("construct"); ev.clear(); a.construct((obj *)st, 3, (void *)0x9); if (ev.size() != 1 || ev[0].first != 1 || ev[0].second != st || ai != 3 || ap != (void *)9) fail("wrong"); expect(r.log, {}, "resource");
    desc("bytes"); r.answer = st; Rng g(seed); for (int i = 0; i < 300; ++i) { size_t n = interesting(g, 64), al = size_t(1) << g.below(64); if (a.allocate_bytes(n, al) != st) fail("answer"); expect(r.log, {{'a', n, al, 0}}, "resource"); a.allocate_bytes(n); expect(r.log, {{'a', n, 16, 0}}, "resource"); a.deallocate_bytes((void *)n); expect(r.log, {{'d', 0, 0, (void *)n}}, "resource"); }
    desc("copies and equality"); allocator<long> b(a), d(&r2); allocator<char> e(a), f(&r2); allocator<long> dflt; if (b.resource() != &r || e.resource() != &r || dflt.resource() != get_default_resource()) fail("resource()");
    if (!(a == b) || a != b || a == d || !(a != d) || !(a == e) || a != e || a == f || !(a != f)) fail("equality");
}
#endif
int main(int argc, char **argv) { return run(argc, argv, {{"run time", rt}}); }
