// Entry points for C21 (timer). The clock and the user's callbacks are only declared: every use is an event.
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <utility>
#include <functional>
#include <chrono>
#include <utils/timer.h>
#ifdef CLK2
struct Clk { using rep = long; using period = std::milli; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<Clk>; static constexpr bool is_steady = true; static time_point now() noexcept; };
using tm_t = utils::details::timer<32, 96, Clk>;
struct alignas(32) F { char data[96]; F(const F &); F(F &&) noexcept; ~F(); void operator()(const tm_t &) noexcept; void operator()(const tm_t &) const noexcept; };
#else
using tm_t = utils::timer;
struct F { char data[8]; F(const F &); F(F &&) noexcept; ~F(); void operator()(const tm_t &) noexcept; void operator()(const tm_t &) const noexcept; };
#endif
struct S { S(const S &); S(S &&); void operator()(const tm_t &) const; };   // const call operator, no data
void cb(const tm_t &) noexcept; void cb2(const tm_t &) noexcept; void cb3(const tm_t &);
extern "C" {
tm_t *v_timer; F *v_f; S *v_s;
void w_fn(tm_t *t) { new (t) tm_t(cb); } void w_fn2(tm_t *t) { new (t) tm_t(cb2); }
void w_fp(tm_t *t) { auto p = &cb; new (t) tm_t(p); } void w_fpr(tm_t *t) { new (t) tm_t(&cb2); } void w_fp3(tm_t *t) { void (*const p)(const tm_t &) = &cb3; new (t) tm_t(p); }
void w_f(tm_t *t, F *f) { new (t) tm_t(*f); } void w_fc(tm_t *t, const F *f) { new (t) tm_t(*f); } void w_fr(tm_t *t, F *f) { new (t) tm_t(std::move(*f)); }
void w_s(tm_t *t, S *f) { new (t) tm_t(std::move(*f)); } void w_sc(tm_t *t, const S *f) { new (t) tm_t(*f); }
void w_dtor(tm_t *t) { t->~tm_t(); } void w_move(tm_t *t, tm_t *o) { new (t) tm_t(std::move(*o)); } tm_t *w_assign(tm_t *t, tm_t *o) { return &(*t = std::move(*o)); } void w_reset(tm_t *t) { t->reset(); }
long w_start(const tm_t *t) { return t->start_tp().time_since_epoch().count(); }
long w_leaked(const tm_t *t) { return t->leaked().count(); } long w_sec(const tm_t *t) { return t->leaked_sec().count(); } long w_milli(const tm_t *t) { return t->leaked_milli_sec().count(); } long w_micro(const tm_t *t) { return t->leaked_micro_sec().count(); } long w_nano(const tm_t *t) { return t->leaked_nano_sec().count(); }
bool w_types(const tm_t *t) { return std::is_same_v<decltype(t->leaked()), tm_t::duration> && std::is_same_v<decltype(t->leaked_sec()), std::chrono::seconds> && std::is_same_v<decltype(t->leaked_milli_sec()), std::chrono::milliseconds> && std::is_same_v<decltype(t->leaked_micro_sec()), std::chrono::microseconds> && std::is_same_v<decltype(t->leaked_nano_sec()), std::chrono::nanoseconds>; }
std::size_t w_size() { return sizeof(tm_t); } std::size_t w_align() { return alignof(tm_t); } std::size_t w_fsize() { return sizeof(F); } std::size_t w_falign() { return alignof(F); }
}
