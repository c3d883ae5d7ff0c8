// Entry points for C22 (abort_if and its macros).
#include <cstdint>
#include <cstddef>
#include <string>
#include <memory>
#include <algorithm>
#include <new>
#include <utils/common.h>
using namespace utils;
bool opaque_condition(int);   // evaluated by the macros' argument: an event
extern "C" {
void w_a0(bool c) { abort_if(c); }
void w_a1(bool c, const char *f) { abort_if(c, f); }
void w_a2(bool c, const char *f, int a) { abort_if(c, f, a); }
void w_a5(bool c, const char *f, int a, const char *b, long d, unsigned e, void *p) { abort_if(c, f, a, b, d, e, p); }
void w_m0(bool c) { UTILS_ABORT_IF(c); }
void w_m1(bool c) { UTILS_ABORT_IF(c, "\nplain text"); }
void w_m2(bool c, int a) { UTILS_ABORT_IF(c, "\nvalue=<%d>", a); }
void w_m4(bool c, const char *b, long d, void *p) { UTILS_ABORT_IF(c, "\n[%s] %ld %p", b, d, p); }
void w_me(int a, int b) { UTILS_ABORT_IF(a < b, "\nless %d %d", a, b); }
void w_mo(int a) { UTILS_ABORT_IF(opaque_condition(a), "\nopaque %d", a); }
void w_mp(const void *p) { UTILS_ABORT_IF(!p, "\nnull"); }
#ifndef NDEBUG
void w_d0(bool c) { UTILS_DEBUG_ABORT_IF(c); }
void w_d2(bool c, int a) { UTILS_DEBUG_ABORT_IF(c, "\ndebug=<%d>", a); }
void w_do(int a) { UTILS_DEBUG_ABORT_IF(opaque_condition(a), "\nopaque %d", a); }
#endif
void w_twice(bool c, bool d, int a) { UTILS_ABORT_IF(c, "\nfirst %d", a); UTILS_ABORT_IF(d, "\nsecond %d", a); }
}
