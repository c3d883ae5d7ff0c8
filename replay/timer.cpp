#include "harness.h"
#include <chrono>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include <utils/timer.h>
using namespace hz;
struct Clk { using rep = long; using period = std::milli; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<Clk>; static constexpr bool is_steady = true;
    static long t; static long step; static std::vector<long> reads; static time_point now() noexcept { t += step; reads.push_back(t); return time_point(duration(t)); } };
long Clk::t = 0, Clk::step = 1; std::vector<long> Clk::reads;
struct NClk { using rep = long; using period = std::nano; using duration = std::chrono::duration<rep, period>; using time_point = std::chrono::time_point<NClk>; static constexpr bool is_steady = true;
    static time_point now() noexcept { Clk::t += Clk::step; Clk::reads.push_back(Clk::t); return time_point(duration(Clk::t)); } };
struct Called { int id; const void *timer; };
static std::vector<Called> calls;
template <class T> struct F { int id; char more[60]; explicit F(int i) : id(i) { memset(more, i, sizeof more); }
    void operator()(const T &t) const { for (char c : more) if (c != char(id)) { calls.push_back({-1, &t}); return; } calls.push_back({id, &t}); } };
template <class T> static void fn1(const T &t) noexcept { calls.push_back({1001, &t}); }
template <class T> static void fn2(const T &t) noexcept { calls.push_back({1002, &t}); }
template <class T> static void fn3(const T &t) { calls.push_back({1003, &t}); }
template <class T> struct Slot { alignas(T) unsigned char s[sizeof(T)]; T *t = nullptr; int cb = 0; long start = 0; };
template <class T, class C> static void life(long unit, bool big)
{
    Rng r(seed);
    for (int it = 0; it < 3000 && time_left(); ++it)
    {
        Slot<T> sl[3]; int next = 1; desc("timer history (unit %ld):", unit); calls.clear();
        auto ctor = [&](int i) {
            int k = int(r.below(big ? 6 : 4)); Slot<T> &s = sl[i]; Clk::reads.clear(); note(" construct(%d, kind %d)", i, k);
            memset(s.s, 0xa5, sizeof s.s);
            switch (k) {
                case 0: s.t = new (s.s) T(fn1<T>); s.cb = 1001; break;
                case 1: s.t = new (s.s) T(fn2<T>); s.cb = 1002; break;
                case 2: { auto p = &fn1<T>; s.t = new (s.s) T(p); s.cb = 1001; break; }
                case 3: s.t = new (s.s) T(&fn3<T>); s.cb = 1003; break;
                default: if constexpr (T::kMaxCallbackSize >= sizeof(F<T>)) { F<T> f(next); if (k == 4) s.t = new (s.s) T(f); else s.t = new (s.s) T(std::move(f)); s.cb = next++; } }
            s.start = s.t->start_tp().time_since_epoch().count(); bool ok = false; for (long x : Clk::reads) ok |= x == s.start;
            if (!ok) fail("start point %ld is not a clock reading taken during construction", s.start);
            if (calls.size()) fail("callback ran during construction"); };
        auto dtor = [&](int i) { Slot<T> &s = sl[i]; note(" destroy(%d)", i); calls.clear(); s.t->~T();
            if (calls.size() != (s.cb ? 1 : 0)) fail("callback ran %zu times, expected %d", calls.size(), s.cb ? 1 : 0);
            if (s.cb && calls[0].id != s.cb) fail("another callback ran"); if (s.cb && calls[0].timer != s.t) fail("callback got another timer"); s.t = nullptr; calls.clear(); };
        Clk::t = long(interesting(r, unit == 1 ? 60 : 38)); 
        for (int op = 0; op < 8; ++op)
        {
            Clk::step = long(r.below(3) ? r.below(5000) : r.below(unit == 1 ? 1l << 40 : 1l << 30)); if (r.below(8) == 0) Clk::step = -Clk::step;
            int i = int(r.below(3)), j = int(r.below(3)); Slot<T> &s = sl[i], &o = sl[j];
            if (!s.t) { if (o.t && i != j && r.below(2)) { note(" move(%d <- %d)", i, j); memset(s.s, 0x5a, sizeof s.s); s.t = new (s.s) T(std::move(*o.t)); s.cb = o.cb; s.start = o.start; o.cb = 0; if (calls.size()) fail("callback ran during a move"); } else ctor(i); continue; }
            switch (r.below(4))
            {
                case 0: dtor(i); break;
                case 1: if (o.t) { note(" assign(%d <- %d)", i, j); T *q = &(*s.t = std::move(*o.t)); if (q != s.t) fail("assignment does not return the timer"); if (i != j) { s.cb = o.cb; s.start = o.start; o.cb = 0; } if (calls.size()) fail("callback ran during an assignment"); } break;
                case 2: note(" reset(%d)", i); Clk::reads.clear(); s.t->reset(); s.start = s.t->start_tp().time_since_epoch().count(); { bool ok = false; for (long x : Clk::reads) ok |= x == s.start; if (!ok) fail("reset did not take a new reading"); } break;
                default: {
                    note(" elapsed(%d)", i); auto chk = [&](const char *w, long got, long div, long mul) { bool ok = false; for (long x : Clk::reads) ok |= (x - s.start) / div * mul == got; if (!ok) fail("%s returned %ld; start %ld, reading %ld", w, got, s.start, Clk::reads.empty() ? 0 : Clk::reads.back()); Clk::reads.clear(); };
                    Clk::reads.clear(); const T &ct = *s.t;
                    chk("leaked", ct.leaked().count(), 1, 1); chk("leaked_nano_sec", ct.leaked_nano_sec().count(), 1, unit); chk("leaked_micro_sec", ct.leaked_micro_sec().count(), unit >= 1000 ? 1 : 1000 / unit, unit >= 1000 ? unit / 1000 : 1);
                    chk("leaked_milli_sec", ct.leaked_milli_sec().count(), 1000000 / unit, 1); chk("leaked_sec", ct.leaked_sec().count(), 1000000000 / unit, 1); }
            }
            if (s.t && s.t->start_tp().time_since_epoch().count() != s.start) fail("start point is %ld, expected %ld", (long)s.t->start_tp().time_since_epoch().count(), s.start);
        }
        for (int i = 0; i < 3; ++i) if (sl[i].t) dtor(i);
    }
}
static void real_clock()
{
    calls.clear(); desc("utils::timer with function callbacks");
    auto before = std::chrono::steady_clock::now();
    { utils::timer t(fn1<utils::timer>); utils::timer u(fn2<utils::timer>); if (t.start_tp() < before || t.start_tp() > std::chrono::steady_clock::now()) fail("start point"); auto st = t.start_tp(); utils::timer v(std::move(t)); if (v.start_tp() != st) fail("start point not transferred"); if (v.leaked().count() < 0) fail("negative"); u = std::move(v); if (u.start_tp() != st) fail("start point not transferred"); if (calls.size()) fail("callback ran early"); }
    if (calls.size() != 1 || calls[0].id != 1001) fail("callback ran %zu times", calls.size());
}
int main(int argc, char **argv) { return run(argc, argv, {
    {"utils::timer", real_clock},
#ifdef CLK2T
    {"nanosecond clock", [] { life<utils::details::timer<8, 8, NClk>, NClk>(1, false); }}, {"large callbacks", [] { life<utils::details::timer<32, 96, NClk>, NClk>(1, true); }}, {"millisecond clock", [] { life<utils::details::timer<8, 64, Clk>, Clk>(1000000, true); }},
#endif
}); }
