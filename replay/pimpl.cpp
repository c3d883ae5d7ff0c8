#include "harness.h"
#include <memory>
#include <new>
#include <string>
#include <utility>
#include <utils/fast_pimpl.h>
using namespace hz; using namespace utils;
struct Ev { const char *op; const void *self; const void *a, *b; };
static std::vector<Ev> log_;
static unsigned char tag_ = 1;
struct X { char c[5]; };
template <int AL, int SZ> struct alignas(AL) P
{
    unsigned char data[SZ];
    void fill() { ++tag_; for (auto &b : data) b = tag_; }
    P() { fill(); log_.push_back({"default constructor", this, 0, 0}); }
    P(const P &o) { fill(); log_.push_back({"copy constructor", this, &o, 0}); }
    P(P &&o) { fill(); log_.push_back({"move constructor", this, &o, 0}); }
    P(int &a) { fill(); log_.push_back({"(int&)", this, &a, 0}); } P(const int &a) { fill(); log_.push_back({"(const int&)", this, &a, 0}); } P(int &&a) { fill(); log_.push_back({"(int&&)", this, &a, 0}); }
    P(int &a, X &b) { fill(); log_.push_back({"(int&, X&)", this, &a, &b}); } P(int &a, X &&b) { fill(); log_.push_back({"(int&, X&&)", this, &a, &b}); } P(int &&a, X &b) { fill(); log_.push_back({"(int&&, X&)", this, &a, &b}); } P(const int &a, const X &b) { fill(); log_.push_back({"(const int&, const X&)", this, &a, &b}); }
    P &operator=(const P &o) { fill(); log_.push_back({"copy assignment", this, &o, 0}); return other(); }
    P &operator=(P &&o) { fill(); log_.push_back({"move assignment", this, &o, 0}); return other(); }
    P &operator=(int) { log_.push_back({"assignment from int", this, 0, 0}); return *this; }
    ~P() { log_.push_back({"destructor", this, 0, 0}); }
    static P &other() { alignas(P) static unsigned char s[sizeof(P)]; return reinterpret_cast<P &>(s); }
};
static void want(const char *what, const char *op, const void *self, const void *a, const void *b, const unsigned char *content, size_t n, bool alive = true)
{
    desc("%s, object of %zu bytes", what, n);
    if (log_.size() != 1) fail("%zu operations on the wrapped type instead of one%s%s", log_.size(), log_.size() > 0 ? ": " : "", log_.size() ? log_[0].op : "");
    Ev e = log_[0]; log_.clear();
    if (strcmp(e.op, op)) fail("ran %s, expected %s", e.op, op);
    if (e.self != self) fail("ran on another object"); if (e.a != a || e.b != b) fail("got other arguments");
    if (alive) for (size_t i = 0; i < n; ++i) if (content[i] != tag_) fail("byte %zu of the object was changed afterwards", i);
}
template <class T> static void all()
{
    using W = fast_pimpl<T, sizeof(T), alignof(T)>;
    struct alignas(64) Room { unsigned char pad[64]; alignas(W) unsigned char s[sizeof(W)]; unsigned char pad2[64]; }; static Room r1, r2, r3; memset(&r1, 0xa5, sizeof r1); memset(&r2, 0xa5, sizeof r2);
    int i = 0; const int ci = 0; X x; const X cx{}; static T t; log_.clear();
    W *w; T *o; auto data = [&] { return (const unsigned char *)o; };
#define C(what, expr, op, a, b) { log_.clear(); w = new (r1.s) W expr; o = (T *)&w->get(); if ((void *)o < (void *)w || (void *)(o + 1) > (void *)(w + 1) || (uintptr_t)o % alignof(T)) { desc(what); fail("object outside the wrapper or misaligned"); } want(what, op, o, a, b, data(), sizeof(T)); w->~W(); want("destructor", "destructor", o, 0, 0, 0, sizeof(T), false); }
    C("default", (), "default constructor", 0, 0) C("forward()", (forwarding_constructor{}), "default constructor", 0, 0)
    C("forward(int&)", (forwarding_constructor{}, i), "(int&)", &i, 0) C("forward(const int&)", (forwarding_constructor{}, ci), "(const int&)", &ci, 0) C("forward(int&&)", (forwarding_constructor{}, std::move(i)), "(int&&)", &i, 0)
    C("forward(int&, X&)", (forwarding_constructor{}, i, x), "(int&, X&)", &i, &x) C("forward(int&, X&&)", (forwarding_constructor{}, i, std::move(x)), "(int&, X&&)", &i, &x) C("forward(int&&, X&)", (forwarding_constructor{}, std::move(i), x), "(int&&, X&)", &i, &x) C("forward(const int&, const X&)", (forwarding_constructor{}, ci, cx), "(const int&, const X&)", &ci, &cx)
    C("from const T&", (std::as_const(t)), "copy constructor", &t, 0) C("from T&", (t), "copy constructor", &t, 0) C("from T&&", (std::move(t)), "move constructor", &t, 0)
    W *v = new (r2.s) W(); log_.clear(); const void *vo = &v->get();
    C("copy", (std::as_const(*v)), "copy constructor", vo, 0) C("copy of non-const", (*v), "copy constructor", vo, 0) C("move", (std::move(*v)), "move constructor", vo, 0)
    w = new (r1.s) W(); o = (T *)&w->get(); const W &cw = *w; desc("access");
    if (&cw.get() != o || w->operator->() != o || cw.operator->() != o) fail("get() and -> denote different objects"); log_.clear();
#define A(what, expr, op, a) { log_.clear(); W *q = &(*w = expr); want(what, op, o, a, 0, data(), sizeof(T)); if (q != w) fail("does not return the wrapper"); }
    A("copy assignment", std::as_const(*v), "copy assignment", vo) A("copy assignment from non-const", *v, "copy assignment", vo) A("move assignment", std::move(*v), "move assignment", vo) A("assignment from const T&", std::as_const(t), "copy assignment", &t) A("assignment from T&", t, "copy assignment", &t) A("assignment from T&&", std::move(t), "move assignment", &t)
    A("self copy assignment", std::as_const(*w), "copy assignment", o) A("self move assignment", std::move(*w), "move assignment", o)
    desc("neighbouring memory"); for (unsigned k = 0; k < 64; ++k) if (r1.pad[k] != 0xa5 || r1.pad2[k] != 0xa5) fail("bytes outside the wrapper were changed");
    w->~W(); v->~W(); log_.clear();
}
#include <initializer_list>
static int which, va, vb, vc;
struct L { int d = 0; L() { which = 0; } L(const L &) { which = -1; } L(L &&) { which = -2; } L(int a) { which = 1; va = a; } L(int a, int b) { which = 2; va = a; vb = b; } L(int a, int b, int c) { which = 3; va = a; vb = b; vc = c; } L(std::initializer_list<int>) { which = 100; } L(std::initializer_list<L>) { which = 101; } L &operator=(const L &) { which = -3; return *this; } L &operator=(L &&) { which = -4; return *this; } };
static void lists()
{
    using W = fast_pimpl<L, sizeof(L), alignof(L)>; forwarding_constructor f; W *p;
#define LC(what, w, ...) { desc("type with initializer_list constructors: " what); which = 99; W x __VA_ARGS__; p = &x; if (which != w) fail("ran constructor %d instead of %d", which, w); }
    L t; LC("default", 0, ) LC("forward()", 0, (f)) LC("forward(int)", 1, (f, 5)) if (va != 5) fail("argument"); LC("forward(int, int)", 2, (f, 6, 7)) if (va != 6 || vb != 7) fail("arguments"); LC("forward(int, int, int)", 3, (f, 1, 2, 3)) if (vc != 3) fail("arguments");
    LC("forward(const T&)", -1, (f, std::as_const(t))) LC("from const T&", -1, (std::as_const(t))) LC("from T&&", -2, (std::move(t))) W y; LC("copy", -1, (std::as_const(y))) LC("move", -2, (std::move(y))) (void)p;
    desc("vector(3, 7)"); fast_pimpl<std::vector<int>, sizeof(std::vector<int>), alignof(std::vector<int>)> v(f, 3, 7); if (v->size() != 3 || v.get()[2] != 7) fail("has %zu elements", v->size());
}
int main(int argc, char **argv) { return run(argc, argv, {{"fast_pimpl", [] { all<P<1, 1>>(); all<P<16, 48>>(); all<P<8, 200>>(); all<P<4, 12>>(); lists(); }}}); }
