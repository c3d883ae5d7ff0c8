#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <utils/memory/simple_resource.h>
#ifndef VMAX
#define VMAX 32
#endif
#ifndef VBS
#define VBS 8
#endif
using R = utils::memory::simple_resource<VMAX, VBS>;
using MR = utils::memory::memory_resource;
using BI = R::BIndex;
extern "C" {
R v_object{nullptr, 0, nullptr};   // gives the verifier the object type
std::size_t w_sizeof() { return sizeof(R); }
void *w_allocate(R *r, std::size_t s, std::size_t a) { return static_cast<MR*>(r)->allocate(s, a); }
void w_deallocate(R *r, void *p) { static_cast<MR*>(r)->deallocate(p); }
void w_release(R *r) { r->release(); }
void w_destroy(R *r) { r->~R(); }
void w_ctor3(R *r, std::byte *b, std::size_t n, MR *u) { new (r) R(b, n, u); }
void w_ctor2(R *r, std::byte *b, std::size_t n) { new (r) R(b, n); }
void w_ctor_arr(R *r, std::byte (&b)[3 * VBS + 5]) { new (r) R(b); }
void w_ctor_arr2(R *r, std::byte (&b)[3 * VBS + 5], MR *u) { new (r) R(b, u); }
MR *w_get() { return utils::memory::get_default_resource(); }
std::byte const *w_data(const R *r) { return r->data(); }
std::size_t w_size(const R *r) { return r->size(); }
std::size_t w_free_count(const R *r) { return r->free_count(); }
std::size_t w_busy_count(const R *r) { return r->busy_count(); }
bool w_in_use(const R *r, BI i) { return r->in_use(i); }
BI w_next(const R *r, BI i) { return r->at(i).next_index(); }
BI w_prev(const R *r, BI i) { return r->at(i).prev_index(); }
BI w_infos_next(const R *r, std::size_t i) { return r->infos()[i].next_index(); }
std::size_t w_block_size(const R *r, BI i) { return r->block_size(i); }
std::size_t w_block_size_in_bytes(const R *r, BI i) { return r->block_size_in_bytes(i); }
bool w_is_equal(const R *r, const MR *o) { return r->is_equal(*o); }
}
