// Entry points for C20 (fast_pimpl). The wrapped types' special members are only declared: every use is an event.
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <utility>
#include <utils/fast_pimpl.h>
using namespace utils;
struct X { char c[5]; };
#define DECL(P, AL, SZ) struct alignas(AL) P { char data[SZ]; P(); P(const P &); P(P &&); P(int &); P(const int &); P(int &&); P(int &, X &&); P(int &, X &); P(const int &, const X &); P(int &&, X &&); P(int &&, X &); P(int &, const X &, P &); P(int &, const X &, P &&); P(int &, const X &, const P &); P(X *, X *, X *, X *); P &operator=(const P &); P &operator=(P &&); P &operator=(int); ~P(); };
DECL(A, 1, 1) DECL(B, 16, 48) DECL(C, 8, 200) DECL(D, 4, 12)
#define OPS(P) using W##P = fast_pimpl<P, sizeof(P), alignof(P)>; extern "C" { W##P *v_##P; \
  void w_##P##_def(W##P *w) { new (w) W##P(); } void w_##P##_fwd0(W##P *w) { new (w) W##P(forwarding_constructor{}); } \
  void w_##P##_fwd1(W##P *w, int *a) { new (w) W##P(forwarding_constructor{}, *a); } void w_##P##_fwd1c(W##P *w, const int *a) { new (w) W##P(forwarding_constructor{}, *a); } void w_##P##_fwd1r(W##P *w, int *a) { new (w) W##P(forwarding_constructor{}, std::move(*a)); } \
  void w_##P##_fwd2(W##P *w, int *a, X *x) { new (w) W##P(forwarding_constructor{}, *a, std::move(*x)); } void w_##P##_fwd2l(W##P *w, int *a, X *x) { new (w) W##P(forwarding_constructor{}, *a, *x); } void w_##P##_fwd2c(W##P *w, const int *a, const X *x) { new (w) W##P(forwarding_constructor{}, *a, *x); } void w_##P##_fwd2r(W##P *w, int *a, X *x) { new (w) W##P(forwarding_constructor{}, std::move(*a), std::move(*x)); } void w_##P##_fwd2m(W##P *w, int *a, X *x) { new (w) W##P(forwarding_constructor{}, std::move(*a), *x); } \
  void w_##P##_fwd3(W##P *w, int *a, const X *x, P *p) { new (w) W##P(forwarding_constructor{}, *a, *x, *p); } void w_##P##_fwd3r(W##P *w, int *a, const X *x, P *p) { new (w) W##P(forwarding_constructor{}, *a, *x, std::move(*p)); } void w_##P##_fwd3c(W##P *w, int *a, const X *x, const P *p) { new (w) W##P(forwarding_constructor{}, *a, *x, *p); } \
  void w_##P##_fwd4(W##P *w, X *a, X *b, X *c, X *d) { new (w) W##P(forwarding_constructor{}, a, b, c, d); } \
  void w_##P##_fwdc(W##P *w, const P *p) { new (w) W##P(forwarding_constructor{}, *p); } void w_##P##_fwdm(W##P *w, P *p) { new (w) W##P(forwarding_constructor{}, std::move(*p)); } \
  void w_##P##_copy(W##P *w, const W##P *o) { new (w) W##P(*o); } void w_##P##_copyl(W##P *w, W##P *o) { new (w) W##P(*o); } void w_##P##_move(W##P *w, W##P *o) { new (w) W##P(std::move(*o)); } \
  void w_##P##_copyT(W##P *w, const P *o) { new (w) W##P(*o); } void w_##P##_copyTl(W##P *w, P *o) { new (w) W##P(*o); } void w_##P##_moveT(W##P *w, P *o) { new (w) W##P(std::move(*o)); } \
  W##P *w_##P##_acopy(W##P *w, const W##P *o) { return &(*w = *o); } W##P *w_##P##_acopyl(W##P *w, W##P *o) { return &(*w = *o); } W##P *w_##P##_amove(W##P *w, W##P *o) { return &(*w = std::move(*o)); } \
  W##P *w_##P##_acopyT(W##P *w, const P *o) { return &(*w = *o); } W##P *w_##P##_acopyTl(W##P *w, P *o) { return &(*w = *o); } W##P *w_##P##_amoveT(W##P *w, P *o) { return &(*w = std::move(*o)); } \
  void w_##P##_dtor(W##P *w) { w->~W##P(); } \
  P *w_##P##_get(W##P *w) { return reinterpret_cast<P *>(&w->get()); } const P *w_##P##_getc(const W##P *w) { return &w->get(); } P *w_##P##_arrow(W##P *w) { return w->operator->(); } const P *w_##P##_arrowc(const W##P *w) { return w->operator->(); } \
  std::size_t w_##P##_size() { return sizeof(P); } std::size_t w_##P##_align() { return alignof(P); } std::size_t w_##P##_wsize() { return sizeof(W##P); } std::size_t w_##P##_walign() { return alignof(W##P); } }
OPS(A) OPS(B) OPS(C) OPS(D)
// a type whose initializer_list constructors would be preferred by list initialisation
#include <initializer_list>
struct L { char data[8]; L(); L(const L &); L(L &&); L(int); L(int, int); L(int, int, int); L(std::initializer_list<int>); L(std::initializer_list<L>); L &operator=(const L &); L &operator=(L &&); ~L(); };
using WL = fast_pimpl<L, sizeof(L), alignof(L)>; extern "C" { WL *v_L;
  void w_L_il1(WL *w, int a) { new (w) WL(forwarding_constructor{}, a); } void w_L_il2(WL *w, int a, int b) { new (w) WL(forwarding_constructor{}, a, b); } void w_L_il3(WL *w, int a, int b, int c) { new (w) WL(forwarding_constructor{}, a, b, c); }
  void w_L_def(WL *w) { new (w) WL(); } void w_L_fwd0(WL *w) { new (w) WL(forwarding_constructor{}); } void w_L_copy(WL *w, const WL *o) { new (w) WL(*o); } void w_L_move(WL *w, WL *o) { new (w) WL(std::move(*o)); } void w_L_copyT(WL *w, const L *o) { new (w) WL(*o); } void w_L_moveT(WL *w, L *o) { new (w) WL(std::move(*o)); } void w_L_fwdc(WL *w, const L *o) { new (w) WL(forwarding_constructor{}, *o); }
  WL *w_L_acopy(WL *w, const WL *o) { return &(*w = *o); } WL *w_L_amove(WL *w, WL *o) { return &(*w = std::move(*o)); } WL *w_L_acopyT(WL *w, const L *o) { return &(*w = *o); } WL *w_L_amoveT(WL *w, L *o) { return &(*w = std::move(*o)); } void w_L_dtor(WL *w) { w->~WL(); }
  L *w_L_get(WL *w) { return &w->get(); } const L *w_L_getc(const WL *w) { return &w->get(); } L *w_L_arrow(WL *w) { return w->operator->(); } const L *w_L_arrowc(const WL *w) { return w->operator->(); }
  std::size_t w_L_size() { return sizeof(L); } std::size_t w_L_align() { return alignof(L); } std::size_t w_L_wsize() { return sizeof(WL); } std::size_t w_L_walign() { return alignof(WL); } }
