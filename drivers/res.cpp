// Entry points for the resource and allocator contracts (C07-C10).
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <cassert>
#include <utils/common.h>
#include <utils/memory/memory.h>
#include <utils/memory/monotonic_buffer_resource.h>
#include <utils/memory/allocator.h>
using namespace utils::memory;
using MR = memory_resource;
using M = monotonic_buffer_resource;
#define E extern "C"
// ---- monotonic buffer
E {
M v_mono{nullptr, 0, nullptr};   // gives the verifier the object type
void *w_m_allocate(M *r, std::size_t s, std::size_t a) { return static_cast<MR *>(r)->allocate(s, a); }
void w_m_deallocate(M *r, void *p) { static_cast<MR *>(r)->deallocate(p); }
void w_m_release(M *r) { r->release(); }
const std::byte *w_m_data(const M *r) { return r->data(); }
std::size_t w_m_size(const M *r) { return r->size(); }
bool w_m_equal(const M *r, const MR *o) { return *static_cast<const MR *>(r) == *o; }
bool w_m_not_equal(const M *r, const MR *o) { return *static_cast<const MR *>(r) != *o; }
void w_m_ctor3(M *r, std::byte *b, std::size_t n, MR *u) { new (r) M(b, n, u); }
void w_m_ctor2(M *r, std::byte *b, std::size_t n) { new (r) M(b, n); }
void w_m_ctor_arr(M *r, std::byte (&b)[37]) { new (r) M(b); }
void w_m_ctor_arr2(M *r, std::byte (&b)[37], MR *u) { new (r) M(b, u); }
}
// ---- dispatch: resources whose implementation is opaque
E void *ext_alloc(void *self, std::size_t s, std::size_t a) noexcept;
E void ext_free(void *self, void *p) noexcept;
struct pad { virtual ~pad(); long x; };
struct res1 : MR { res1(); void *allocate_impl(std::size_t s, std::size_t a) noexcept { return ext_alloc(this, s, a); } void deallocate_impl(void *p) noexcept { ext_free(this, p); } bool is_equal(const MR &o) const noexcept override { return this == &o; } };
res1::res1() : MR(&res1::allocate<res1>, &res1::deallocate<res1>) {}
struct res2 : pad, MR { long y; res2(); void *allocate_impl(std::size_t s, std::size_t a) noexcept { return ext_alloc(this, s, a); } void deallocate_impl(void *p) noexcept { ext_free(this, p); } bool is_equal(const MR &o) const noexcept override { return this == static_cast<const res2 *>(&o); } };
res2::res2() : MR(&res2::allocate<res2>, &res2::deallocate<res2>) {}
pad::~pad() {}
struct alignas(32) t_al { char c[96]; }; struct t_odd { char c[13]; };
E {
res1 v_res1; res2 v_res2;
MR *w_base2(res2 *r) { return r; }
void w_r1_ctor(res1 *r) { new (r) res1; }
void w_r2_ctor(res2 *r) { new (r) res2; }
void *w_alloc(MR *r, std::size_t s, std::size_t a) { return r->allocate(s, a); }
void *w_alloc_default(MR *r, std::size_t s) { return r->allocate(s); }
void *w_alloc_c(MR *r) { return r->allocate<char>(); }
void *w_alloc_odd(MR *r) { return r->allocate<t_odd>(); }
void *w_alloc_al(MR *r) { return r->allocate<t_al>(); }
void *w_alloc_d(MR *r) { return r->allocate<long double>(); }
void w_dealloc(MR *r, void *p) { r->deallocate(p); }
bool w_eq(const MR *a, const MR *b) { return *a == *b; }
bool w_ne(const MR *a, const MR *b) { return *a != *b; }
// ---- system, null, default
MR *w_system() { return system_memory_resource(); }
MR *w_null() { return null_memory_resource(); }
MR *w_get() { return get_default_resource(); }
MR *w_set(MR *r) { return set_default_resource(r); }
void *w_aligned_malloc(std::size_t s, std::size_t a) { return aligned_malloc(s, a); }
void w_aligned_free(void *p) { aligned_free(p); }
}
// ---- allocator
#define ALLOC(N, T) E { using A_##N = allocator<T>; \
 T *w_a_alloc_##N(A_##N *a, std::size_t n) { return a->allocate(n); } \
 void w_a_free_##N(A_##N *a, T *p) { a->deallocate(p); } \
 T *w_a_obj_##N(allocator<char> *a, std::size_t n) { return a->allocate_object<T>(n); } \
 T *w_a_obj1_##N(allocator<char> *a) { return a->allocate_object<T>(); } \
 void w_a_fobj_##N(allocator<char> *a, T *p) { a->deallocate_object(p); } }
struct t_big { char c[4096]; };
ALLOC(c, char) ALLOC(s, short) ALLOC(l, long) ALLOC(odd, t_odd) ALLOC(al, t_al) ALLOC(ld, long double) ALLOC(big, t_big)
struct obj { obj(int, void *) noexcept; obj() noexcept; obj(const obj &) noexcept; obj(obj &&) noexcept; ~obj(); char c[24]; };
struct alignas(64) obj2 { obj2(const obj &, obj &&, int &) noexcept; ~obj2(); char c[192]; };
E {
using A = allocator<long>;
void *w_a_bytes(A *a, std::size_t n, std::size_t al) { return a->allocate_bytes(n, al); }
void *w_a_bytes_default(A *a, std::size_t n) { return a->allocate_bytes(n); }
void w_a_fbytes(A *a, void *p) { a->deallocate_bytes(p); }
obj *w_a_new2(A *a, int i, void *p) { return a->new_object<obj>(i, p); }
obj *w_a_new0(A *a) { return a->new_object<obj>(); }
obj *w_a_newc(A *a, const obj *o) { return a->new_object<obj>(*o); }
obj *w_a_newm(A *a, obj *o) { return a->new_object<obj>(std::move(*o)); }
obj2 *w_a_new3(A *a, const obj *o, obj *p, int *i) { return a->new_object<obj2>(*o, std::move(*p), *i); }
void w_a_con2(A *a, obj *at, int i, void *p) { a->construct(at, i, p); }
void w_a_con3(A *a, obj2 *at, const obj *o, obj *p, int *i) { a->construct(at, *o, std::move(*p), *i); }
void w_a_del(A *a, obj *p) { a->delete_object(p); }
void w_a_del2(A *a, obj2 *p) { a->delete_object(p); }
void w_a_ctor(A *a, MR *r) { new (a) A(r); }
void w_a_ctor0(A *a) { new (a) A(); }
void w_a_copy(A *a, const A *b) { new (a) A(*b); }
void w_a_conv(A *a, const allocator<char> *b) { new (a) A(*b); }
MR *w_a_res(const A *a) { return a->resource(); }
bool w_a_eq(const A *a, const A *b) { return *a == *b; }
bool w_a_ne(const A *a, const A *b) { return *a != *b; }
bool w_a_eqx(const A *a, const allocator<char> *b) { return *a == *b; }
bool w_a_nex(const A *a, const allocator<char> *b) { return *a != *b; }
A v_alloc{nullptr};
}
