"""Contracts for C07/C08 (monotonic_buffer_resource), C09 (memory_resource and the standard resources), C10 (allocator)."""
import z3
from vcg.task import Task
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies, isint
from vcg.ll import Unsupported
from vcg.sym import Ptr, PtrInt, NULL, lin, lin_scale, lin_bv
from vcg.contracts import Contract, event
from vcg.res import *
BV = z3.BitVecVal
POW2 = lambda a: And(a != 0, a & (a - 1) == 0)
VOID = ('ptr',)
# ------------------------------------------------------------------ monotonic buffer
class Mono:
    """an arbitrary monotonic_buffer_resource satisfying the class invariant: its first `used` bytes are taken"""
    def __init__(s, c, st, has_buf, upstream, kind='w_m_ctor3'):
        s.c = c; ex = c.ex; ex.contracts = list(RESOURCE)
        s.up = opaque(c, st, 'upstream') if upstream else NULL
        if has_buf:
            s.n = c.var('size'); c.require(st, s.n != 0, z3.ULE(s.n, BV(1 << 46, 64)))
            s.buf = c.buf(st, 'buffer', s.n); s.data = Ptr(s.buf, lin(0))
        else: s.n = BV(0, 64); s.buf = None; s.data = NULL
        s.o = object_of(c, st, 'v_mono', 'resource'); s.p = Ptr(s.o, lin(0))
        r = c.call(st, 'w_m_ctor3', [s.p, s.data, s.n, s.up])
        if len(r) != 1: raise Unsupported('constructor has several outcomes')
        s.st0 = r[0][0]
        c.post(s.st0, True, 'constructor establishes the invariant')
        # which cells of the object vary, and how they encode the number of used bytes
        s.mut = {}
        probe = []
        for k in range(2):
            x = s.st0.fork(); sz = bv.fresh('probe_size', 64); al = bv.fresh('probe_align', 64); x.assume(POW2(al))
            probe += run_quiet(c, x, 'w_m_allocate', [s.p, sz, al])
        probe += run_quiet(c, s.st0.fork(), 'w_m_release', [s.p])
        base = cells(s.st0, s.o)
        from vcg.sym import same
        for x, _ in probe:
            for off, cell in cells(x, s.o).items():
                if off not in base or base[off][0] != cell[0] or not same(base[off][1], cell[1]):
                    s.mut[off] = cell[0]
        s.forms = {}
        for off, sz in s.mut.items():
            if off not in base or base[off][0] != sz or sz != 8: raise Unsupported('representation of the free space')
            v = base[off][1]
            if isinstance(v, (Ptr, PtrInt)) and has_buf and ex.as_ptr(v).obj is s.buf and lin_bv(ex.as_ptr(v).off) == 0: s.forms[off] = lambda u: Ptr(s.buf, lin_scale(u, 1))
            elif has_buf and s.equal(v, 0): s.forms[off] = lambda u: u
            elif has_buf and s.equal(v, s.n): s.forms[off] = lambda u: s.n - u
            else: raise Unsupported('representation of the free space')
    def equal(s, v, w):
        if isinstance(v, (Ptr, PtrInt)): return False
        return s.c.ex.prove(s.st0, bv.eq(s.c.ex.as_int(v, 64), w, 64))[0] == 'ok'
    def state(s, used):
        st = s.st0.fork(); x = st.wr(s.o)
        for off, f in s.forms.items(): x.cells[off] = (8, f(used))
        st.assume(z3.ULE(used, s.n)); st.trace = []
        return st
    def inv(s, st, used, name):
        """the object's state is exactly the invariant with `used` bytes taken; nothing else in it changed"""
        c = s.c; base = cells(s.st0, s.o); now = cells(st, s.o)
        for off in sorted(set(base) | set(now)):
            if off in s.forms: w = s.forms[off](used)
            elif off in base: w = base[off][1]
            else: continue
            if off not in now or now[off][0] != (8 if off in s.forms else base[off][0]): raise Unsupported('object shape changed')
            v = now[off][1]; sz = now[off][0]
            from vcg.sym import same
            if same(v, w): c.post(st, True, name); continue
            c.post(st, eq(c, st, v, w, 8 * sz), name)
        c.post(st, z3.ULE(used, s.n), name + ' (used part within the buffer)')
    def frame_buf(s, st, name):
        if s.buf is not None:
            a, b = s.st0.mem[s.buf.id].barr, st.mem[s.buf.id].barr
            if a is not b and not a.eq(b): s.c.post(st, z3.BoolVal(False), name)
def roundup(p, a):
    """smallest multiple of a not below p, in 65 bits"""
    P, A_ = z3.ZeroExt(1, p), z3.ZeroExt(1, a)
    return (P + A_ - 1) & ~(A_ - 1)
def mono(c, has_buf, upstream, which):
    st = c.state(); m = Mono(c, st, has_buf, upstream)
    used = c.var('used') if has_buf else BV(0, 64)
    s = c.var('s'); a = c.var('a')
    st = m.state(used); st.assume(POW2(a)); c.cover(st, 'valid state')
    for x, r in c.call(st, 'w_m_allocate', [m.p, s, a]):
        r = c.ex.as_ptr(r)
        base = c.ex.base(m.buf) if has_buf else None
        own = r.obj is not None and r.obj is m.buf
        if which == 7:
            if r.obj is not None and not own: c.post(x, z3.BoolVal(False), 'result is in the buffer, from upstream, or null')
            if own:
                off = V(lin_bv(r.off), 64)
                c.post(x, (base + off) & (a - 1) == 0, 'address is a multiple of the alignment')
                c.post(x, And(z3.ULE(used, off), z3.ULE(off, m.n)), 'block starts after every earlier allocation, inside the buffer')
                c.post(x, z3.ULE(s, m.n - off), 'block ends inside the buffer')
                m.inv(x, off + s, 'the used part grows to the end of the block')
            else: m.inv(x, used, 'the used part is unchanged')
            if not x.trace and not own: c.post(x, bv.eq(c.ex.addr(r), 0), 'a result from nowhere is null')
        else:
            if has_buf:
                A_ = roundup(base + used, a); end = z3.ZeroExt(1, base) + z3.ZeroExt(1, m.n)
                fits = And(s != 0, z3.ULE(A_, end), z3.ULE(z3.ZeroExt(1, s), end - A_))
            else: fits = z3.BoolVal(False)
            if own:
                c.post(x, fits, 'served from the buffer only if the aligned block fits')
                c.post(x, z3.ZeroExt(1, base + V(lin_bv(r.off), 64)) == roundup(base + used, a), 'the block is the first aligned one after the used part')
                events(c, x, [], 'upstream is not called')
                m.inv(x, V(lin_bv(r.off), 64) + s, 'the used part grows to the end of the block')
            else:
                c.post(x, Not(fits), 'a request that fits is served from the buffer')
                m.inv(x, used, 'the buffer is left as it was')
                if x.trace:
                    c.post(x, s != 0, 'size zero does not reach upstream')
                    if events(c, x, [('allocate', m.up, s, a, None)], 'upstream is asked once for the same size and alignment'):
                        c.post(x, eq(c, x, r, x.trace[0][4]), "upstream's answer is returned")
                else:
                    c.post(x, Or(s == 0, z3.BoolVal(not upstream)), 'a request that does not fit goes upstream')
                    c.post(x, bv.eq(c.ex.addr(r), 0), 'null otherwise')
        m.frame_buf(x, 'no byte of the buffer is written')
def mono_ops(c, has_buf, upstream, which):
    st = c.state(); m = Mono(c, st, has_buf, upstream)
    m.inv(m.st0, BV(0, 64), 'construction: nothing is used')
    c.post(m.st0, eq(c, m.st0, m.n, m.n), 'size')
    used = c.var('used') if has_buf else BV(0, 64)
    for x, _ in c.call(m.state(used), 'w_m_release', [m.p]):
        m.inv(x, BV(0, 64), 'release: nothing is used'); events(c, x, [], 'release calls nothing'); m.frame_buf(x, 'release writes nothing')
    for nm, p in (('any pointer', Ptr(None, c.var('p'))), ('a pointer into the buffer', Ptr(m.buf, lin_scale(c.var('off'), 1)) if has_buf else NULL)):
        for x, _ in c.call(m.state(used), 'w_m_deallocate', [m.p, p]):
            m.inv(x, used, 'deallocate of %s has no effect' % nm); events(c, x, [], 'deallocate calls nothing'); m.frame_buf(x, 'deallocate writes nothing')
    for x, r in c.call(m.state(used), 'w_m_data', [m.p]): c.post(x, eq(c, x, r, m.data), 'data() is the buffer'); m.inv(x, used, 'data() changes nothing')
    for x, r in c.call(m.state(used), 'w_m_size', [m.p]): c.post(x, eq(c, x, r, m.n), 'size() is the buffer size'); m.inv(x, used, 'size() changes nothing')
def mono_ctors(c):
    """every constructor leaves the object in the state of the general one with the corresponding arguments"""
    from vcg.sym import same
    ex = c.ex; ex.contracts = list(RESOURCE)
    st = c.state(); n = c.var('size'); c.require(st, z3.ULE(n, BV(1 << 46, 64)), n != 0)
    buf = c.buf(st, 'buffer', n); arr = c.buf(st, 'array', 37); up = Ptr(None, c.var('up'))
    dflt = None
    for x, d in c.call(st.fork(), 'w_get', []): dflt = d
    def run(fn, args):
        x = st.fork(); o = object_of(c, x, 'v_mono', 'resource'); r = c.call(x, fn, [Ptr(o, lin(0))] + args)
        if len(r) != 1: raise Unsupported('constructor has several outcomes')
        return r[0][0], o
    def cmp_(a, b, name):
        (s1, o1), (s2, o2) = a, b; A_, B_ = cells(s1, o1), cells(s2, o2)
        for off in B_:
            if off not in A_ or A_[off][0] != B_[off][0]: c.post(s1, z3.BoolVal(False), name); continue
            c.post(s1, True if same(A_[off][1], B_[off][1]) else eq(c, s1, A_[off][1], B_[off][1], 8 * A_[off][0]), name)
    cmp_(run('w_m_ctor2', [Ptr(buf, lin(0)), n]), run('w_m_ctor3', [Ptr(buf, lin(0)), n, dflt]), 'two-argument constructor uses the default resource')
    cmp_(run('w_m_ctor_arr', [Ptr(arr, lin(0))]), run('w_m_ctor3', [Ptr(arr, lin(0)), 37, dflt]), 'array constructor uses the whole array and the default resource')
    cmp_(run('w_m_ctor_arr2', [Ptr(arr, lin(0)), up]), run('w_m_ctor3', [Ptr(arr, lin(0)), 37, up]), 'array constructor uses the whole array')
    none = run('w_m_ctor3', [NULL, 0, up])
    cmp_(run('w_m_ctor3', [NULL, n, up]), none, 'a null buffer counts as empty')
    e = run('w_m_ctor3', [Ptr(buf, lin(0)), 0, up])
    for x, r in c.call(e[0].fork(), 'w_m_size', [Ptr(e[1], lin(0))]): c.post(x, bv.eq(ex.as_int(r, 64), 0), 'size zero: no buffer')
    s = c.var('s'); a = c.var('a')
    for who in (none, e):
        x0 = who[0].fork(); x0.assume(POW2(a)); x0.assume(up.off == 0)
        for x, r in c.call(x0, 'w_m_allocate', [Ptr(who[1], lin(0)), s, a]): c.post(x, bv.eq(ex.addr(ex.as_ptr(r)), 0), 'without buffer and upstream every request yields null')
MONO = [(1, 1), (1, 0), (0, 1), (0, 0)]
def mname(h, u): return '%s, %s' % ('buffer' if h else 'no buffer', 'upstream' if u else 'no upstream')
def C07(tier):
    return [Task('allocate: ' + mname(h, u), 'res.cpp', mono, (h, u, 7)) for h, u in MONO] + [Task('construct, release, deallocate: ' + mname(h, u), 'res.cpp', mono_ops, (h, u, 7)) for h, u in MONO]
def C08(tier):
    return [Task('allocate: ' + mname(h, u), 'res.cpp', mono, (h, u, 8)) for h, u in MONO] + [Task('construct, release, deallocate: ' + mname(h, u), 'res.cpp', mono_ops, (h, u, 8)) for h, u in MONO] + [Task('constructors', 'res.cpp', mono_ctors)]
# ------------------------------------------------------------------ C09
EXT = [event('ext_alloc', r'^ext_alloc$', lambda ex, st, a, t: Ptr(None, z3.BitVec('ext_result', 64))), event('ext_free', r'^ext_free$', lambda ex, st, a, t: None)]
def c_memalign(ex, st, fname, args, rty):
    """posix_memalign: zero and a fresh pointer in *result, or an error number (result then unspecified)"""
    rc = z3.BitVec('memalign_rc', 32); out = ex.as_ptr(args[0])
    p = Ptr(None, z3.BitVec('memalign_ptr', 64))
    x = st.fork(); st.trace.append(('posix_memalign', args[1], args[2])); x.trace.append(('posix_memalign', args[1], args[2]))
    st.assume(rc == 0); x.assume(rc != 0); st.assume(p.off != 0)
    ex.store(st, out, ('ptr',), p)
    ex.store(x, out, ('ptr',), Ptr(None, bv.fresh('unspecified', 64)))
    return [(st, rc), (x, rc)]
SYS = [Contract('posix_memalign (assumed: POSIX)', r'sysops::memory::ops::posix_memalign\(', c_memalign), event('free', r'sysops::memory::ops::free\(', lambda ex, st, a, t: None)]
def once(c, fn, args, want, name, ret=None, setup=None):
    st = c.state()
    if setup: args = setup(st)
    n0 = len(st.trace)
    for x, r in c.call(st, fn, args):
        events(c, x, want, name, n0)
        if ret is not None: c.post(x, eq(c, x, r, ret), name + ': result passed through')
SIZES = {'c': (1, 1), 'odd': (13, 1), 'al': (96, 32), 'd': (16, 16)}
def dispatch(c, k):
    ex = c.ex; ex.contracts = EXT
    s = c.var('s'); a = c.var('a'); p = Ptr(None, c.var('p')); res = Ptr(None, z3.BitVec('ext_result', 64))
    st = c.state(); o = object_of(c, st, 'v_res%d' % k, 'resource'); me = Ptr(o, lin(0))
    (st, _), = c.call(st, 'w_r%d_ctor' % k, [me])
    base = me
    if k == 2:
        (st, base), = c.call(st, 'w_base2', [me])
    def go(fn, args, want, name, ret=None):
        for x, r in c.call(st.fork(), fn, [base] + args):
            events(c, x, want, name)
            if ret is not None: c.post(x, eq(c, x, r, ret), name + ': result passed through')
    go('w_alloc', [s, a], [('ext_alloc', me, s, a)], 'allocate reaches the implementation once with unchanged arguments', res)
    go('w_dealloc', [p], [('ext_free', me, p)], 'deallocate reaches the implementation once with the same pointer')
    go('w_alloc_default', [s], [('ext_alloc', me, s, 16)], 'the default alignment is that of max_align_t', res)
    for t, (sz, al) in SIZES.items(): go('w_alloc_' + t, [], [('ext_alloc', me, sz, al)], 'typed allocate passes the size and alignment of the type', res)
    for x, r in c.call(st.fork(), 'w_eq', [base, base]): c.post(x, V(r, 1), 'a resource equals itself')
    for x, r in c.call(st.fork(), 'w_ne', [base, base]): c.post(x, Not(V(r, 1)), 'a resource is not different from itself')
    o2 = object_of(c, st, 'v_res%d' % k, 'other'); (st2, _), = c.call(st.fork(), 'w_r%d_ctor' % k, [Ptr(o2, lin(0))])
    b2 = Ptr(o2, base.off)
    for x, r in c.call(st2.fork(), 'w_eq', [base, b2]): c.post(x, Not(V(r, 1)), 'distinct resources differ')
    for x, r in c.call(st2.fork(), 'w_ne', [base, b2]): c.post(x, V(r, 1), 'distinct resources differ (!=)')
def globals_ready(c, st):
    """dynamic initialisation of the translation unit"""
    for f in c.mod.ctors:
        c.ex.push(st, f, [], 'ROOT')
        r = [t for t in c.ex.run(st) if t.kind == 'ret']
        if len(r) != 1: raise Unsupported('dynamic initialisation')
        st = r[0].state
    return st
def system(c, direct):
    ex = c.ex; ex.contracts = SYS
    s = c.var('s'); a = c.var('a'); st = c.state(); st.assume(POW2(a)); p = Ptr(None, c.var('p'))
    if direct: pre = []; fa, ff = 'w_aligned_malloc', 'w_aligned_free'
    else:
        (st, me), = c.call(st, 'w_system', []); pre = [me]; fa, ff = 'w_alloc', 'w_dealloc'
        for x, r in c.call(st.fork(), 'w_system', []): c.post(x, eq(c, x, r, me), 'always the same system resource'); c.post(x, z3.BoolVal(me.obj is not None), 'the system resource exists')
        for x, r in c.call(st.fork(), 'w_eq', [me, me]): c.post(x, V(r, 1), 'equals itself')
    st.trace = []
    c.cover(st, 'valid alignment')
    for x, r in c.call(st.fork(), fa, pre + [s, a]):
        c.cover(x, 'outcome')
        if not events(c, x, [('posix_memalign', None, s)], 'one system allocation of the same size'): continue
        al = V(ex.as_int(x.trace[0][1], 64), 64)
        c.post(x, And(POW2(al), z3.UGE(al, a), z3.UGE(al, 8)), 'the system is asked for a valid alignment that is no weaker')
        rc = z3.BitVec('memalign_rc', 32)
        c.post(x, V(ex.as_int(r, 64), 64) == z3.If(rc == 0, z3.BitVec('memalign_ptr', 64), BV(0, 64)), "returns the system's block, null on failure")
    for x, _ in c.call(st.fork(), ff, pre + [p]): events(c, x, [('free', p)], 'frees exactly the pointer given, once')
def null_default(c):
    ex = c.ex; ex.contracts = SYS
    s = c.var('s'); a = c.var('a'); p = Ptr(None, c.var('p')); r1 = Ptr(None, c.var('r1')); r2 = Ptr(None, c.var('r2'))
    st = globals_ready(c, c.state())
    (st, sysr), = c.call(st, 'w_system', []); (st, null), = c.call(st, 'w_null', []); st.trace = []
    for x, r in c.call(st.fork(), 'w_null', []): c.post(x, eq(c, x, r, null), 'always the same null resource')
    for x, r in c.call(st.fork(), 'w_alloc', [null, s, a]): c.post(x, bv.eq(ex.addr(ex.as_ptr(r)), 0), 'the null resource returns null'); events(c, x, [], 'the null resource calls nothing')
    for x, r in c.call(st.fork(), 'w_dealloc', [null, p]): events(c, x, [], 'the null resource calls nothing')
    for x, r in c.call(st.fork(), 'w_eq', [null, null]): c.post(x, V(r, 1), 'null resource equals itself')
    for x, r in c.call(st.fork(), 'w_eq', [null, sysr]): c.post(x, Not(V(r, 1)), 'null and system resource differ')
    for x, r in c.call(st.fork(), 'w_ne', [sysr, null]): c.post(x, V(r, 1), 'system and null resource differ')
    for x, r in c.call(st.fork(), 'w_get', []): c.post(x, eq(c, x, r, sysr), 'the default resource is initially the system resource')
    for x, r in c.call(st.fork(), 'w_set', [r1]):
        c.post(x, eq(c, x, r, sysr), 'set_default_resource returns the previous one')
        for y, q in c.call(x.fork(), 'w_get', []): c.post(y, eq(c, y, q, r1), 'get_default_resource returns the one set')
        for y, q in c.call(x.fork(), 'w_set', [r2]):
            c.post(y, eq(c, y, q, r1), 'set_default_resource returns the previous one, every time')
            for z, w in c.call(y.fork(), 'w_get', []): c.post(z, eq(c, z, w, r2), 'get_default_resource returns the one set last')
            for z, w in c.call(y.fork(), 'w_system', []): c.post(z, eq(c, z, w, sysr), 'the system resource is not affected')
def mono_equal(c):
    st = c.state(); m = Mono(c, st, 1, 0); st = m.state(c.var('used'))
    o2 = object_of(c, st, 'v_mono', 'other'); (st, _), = c.call(st, 'w_m_ctor3', [Ptr(o2, lin(0)), m.data, m.n, NULL])
    for fn, same_, diff in (('w_m_equal', 1, 0), ('w_m_not_equal', 0, 1)):
        for x, r in c.call(st.fork(), fn, [m.p, m.p]): c.post(x, B(V(r, 1)) == z3.BoolVal(bool(same_)), fn[4:] + ' to itself')
        for x, r in c.call(st.fork(), fn, [m.p, Ptr(o2, lin(0))]): c.post(x, B(V(r, 1)) == z3.BoolVal(bool(diff)), fn[4:] + ' to another resource with equal content')
def C09(tier):
    return [Task('dispatch', 'res.cpp', dispatch, (1,)), Task('dispatch with a second base class', 'res.cpp', dispatch, (2,)), Task('system resource', 'res.cpp', system, (0,)), Task('aligned_malloc, aligned_free', 'res.cpp', system, (1,)),
            Task('null and default resources', 'res.cpp', null_default), Task('monotonic equality', 'res.cpp', mono_equal)]
# ------------------------------------------------------------------ C10
TYPES = {'c': (1, 1), 's': (2, 2), 'l': (8, 8), 'odd': (13, 1), 'al': (96, 32), 'ld': (16, 16), 'big': (4096, 1)}
CT = [event(n, r'^%s\(' % n.replace('(', r'\('), lambda ex, st, a, t: None) for n in ()]
OBJ = [event('obj(int, void*)', r'^obj::obj\(int, void\*\)', lambda ex, st, a, t: None), event('obj()', r'^obj::obj\(\)', lambda ex, st, a, t: None), event('obj(const&)', r'^obj::obj\(obj const&\)', lambda ex, st, a, t: None),
       event('obj(&&)', r'^obj::obj\(obj&&\)', lambda ex, st, a, t: None), event('~obj', r'^obj::~obj\(\)', lambda ex, st, a, t: None),
       event('obj2', r'^obj2::obj2\(obj const&, obj&&, int&\)', lambda ex, st, a, t: None), event('~obj2', r'^obj2::~obj2\(\)', lambda ex, st, a, t: None)]
def make_alloc(c, st, res):
    o = object_of(c, st, 'v_alloc', 'allocator', 'undef')
    r = c.call(st, 'w_a_ctor', [Ptr(o, lin(0)), res])
    if len(r) != 1: raise Unsupported('constructor has several outcomes')
    r[0][0].trace = []
    return r[0][0], Ptr(o, lin(0))
def start(c, res=None):
    c.ex.contracts = RESOURCE + OBJ
    st = c.state(); R = res or opaque(c, st, 'resource')
    st, me = make_alloc(c, st, R)
    return st, me, R
def alloc_n(c, t):
    sz, al = TYPES[t]; st, me, R = start(c); n = c.var('n'); p = Ptr(None, c.var('p'))
    total = z3.ZeroExt(64, n) * BV(sz, 128); big = z3.UGT(total, BV((1 << 64) - 1, 128))
    for fn in ('w_a_alloc_' + t, 'w_a_obj_' + t):
        for x, r in c.call(st.fork(), fn, [me, n]):
            if x.trace:
                c.post(x, Not(big), 'nothing is requested when the total size is not representable')
                if events(c, x, [('allocate', R, z3.Extract(63, 0, total), al, None)], 'the resource is asked once for exactly n times the size, at the alignment of the type'):
                    c.post(x, eq(c, x, r, x.trace[0][4]), "the resource's answer is returned")
            else:
                c.post(x, big, 'the resource is asked whenever the total size is representable')
                c.post(x, bv.eq(c.ex.addr(c.ex.as_ptr(r)), 0), 'null when the total size is not representable')
    for x, r in c.call(st.fork(), 'w_a_obj1_' + t, [me]):
        if events(c, x, [('allocate', R, sz, al, None)], 'one object by default'): c.post(x, eq(c, x, r, x.trace[0][4]), "the resource's answer is returned")
    for fn in ('w_a_free_' + t, 'w_a_fobj_' + t):
        for x, r in c.call(st.fork(), fn, [me, p]): events(c, x, [('deallocate', R, p)], 'the pointer is passed on unchanged, once')
def objects(c):
    st, me, R = start(c); n = c.var('n'); al = c.var('a'); p = Ptr(None, c.var('p')); i = c.var('i', 32)
    o1 = opaque(c, st, 'o1'); o2 = opaque(c, st, 'o2'); o3 = opaque(c, st, 'o3')
    for x, r in c.call(st.fork(), 'w_a_bytes', [me, n, al]):
        if events(c, x, [('allocate', R, n, al, None)], 'allocate_bytes asks for exactly that'): c.post(x, eq(c, x, r, x.trace[0][4]), "the resource's answer is returned")
    for x, r in c.call(st.fork(), 'w_a_bytes_default', [me, n]): events(c, x, [('allocate', R, n, 16, None)], 'allocate_bytes default alignment')
    for x, r in c.call(st.fork(), 'w_a_fbytes', [me, p]): events(c, x, [('deallocate', R, p)], 'the pointer is passed on unchanged, once')
    for fn, args, ev, sz, a in (('w_a_new2', [i, p], ('obj(int, void*)', (i, 32), p), 24, 1), ('w_a_new0', [], ('obj()',), 24, 1), ('w_a_newc', [o1], ('obj(const&)', o1), 24, 1), ('w_a_newm', [o1], ('obj(&&)', o1), 24, 1), ('w_a_new3', [o1, o2, o3], ('obj2', o1, o2, o3), 192, 64)):
        got = 0
        for x, r in c.call(st.fork(), fn, [me] + args):
            if not x.trace or x.trace[0][0] != 'allocate': c.post(x, z3.BoolVal(False), 'storage is requested first'); continue
            st_p = x.trace[0][4]
            null = bv.eq(c.ex.addr(st_p), 0)
            if len(x.trace) == 1: c.post(x, null, 'an object is constructed whenever storage was obtained'); events(c, x, [('allocate', R, sz, a, None)], 'storage for one object')
            else: got = 1; c.post(x, Not(null), 'nothing is constructed in null'); events(c, x, [('allocate', R, sz, a, None), (ev[0], st_p) + ev[1:]], 'constructed exactly once, in the obtained storage, with the given arguments')
            c.post(x, eq(c, x, r, st_p), 'returns the storage or null')
    for fn, args, ev in (('w_a_con2', [i, p], ('obj(int, void*)', o3, (i, 32), p)), ('w_a_con3', [o1, o2, p], ('obj2', o3, o1, o2, p))):
        for x, r in c.call(st.fork(), fn, [me, o3] + args): events(c, x, [ev], 'construct: once, in place, with the given arguments')
    for fn, ev in (('w_a_del', '~obj'), ('w_a_del2', '~obj2')):
        for x, r in c.call(st.fork(), fn, [me, p]):
            if x.trace: c.post(x, p.off != 0, 'null is ignored'); events(c, x, [(ev, p), ('deallocate', R, p)], 'destroyed, then deallocated, once')
            else: c.post(x, p.off == 0, 'a non-null object is destroyed and deallocated')
def alloc_ctor(c):
    st, me, R = start(c)
    def res(st, a, want, name):
        for x, r in c.call(st.fork(), 'w_a_res', [a]): c.post(x, eq(c, x, r, want), name)
    res(st, me, R, 'resource() is the one given')
    for fn in ('w_a_copy', 'w_a_conv'):
        x = st.fork(); o = object_of(c, x, 'v_alloc', 'copy')
        for y, _ in c.call(x, fn, [Ptr(o, lin(0)), me]): res(y, Ptr(o, lin(0)), R, 'a copied or converted allocator uses the same resource'); events(c, y, [], 'copying calls nothing')
    for y, d in c.call(st.fork(), 'w_get', []):
        o = object_of(c, y, 'v_alloc', 'default')
        for z, _ in c.call(y, 'w_a_ctor0', [Ptr(o, lin(0))]): res(z, Ptr(o, lin(0)), d, 'a default allocator uses the default resource')
def alloc_eq(c):
    """equality of the allocators is equality of the resources, which is their virtual is_equal"""
    ex = c.ex; ex.contracts = EXT
    st = c.state(); o1 = object_of(c, st, 'v_res1', 'r1'); o2 = object_of(c, st, 'v_res1', 'r2')
    for o in (o1, o2): (st, _), = c.call(st, 'w_r1_ctor', [Ptr(o, lin(0))])
    st, a = make_alloc(c, st, Ptr(o1, lin(0))); st, b = make_alloc(c, st, Ptr(o1, lin(0))); st, d = make_alloc(c, st, Ptr(o2, lin(0)))
    for fn, e in (('w_a_eq', 1), ('w_a_ne', 0), ('w_a_eqx', 1), ('w_a_nex', 0)):
        for x, r in c.call(st.fork(), fn, [a, b]): c.post(x, B(V(r, 1)) == z3.BoolVal(bool(e)), fn[4:] + ': same resource')
        for x, r in c.call(st.fork(), fn, [a, d]): c.post(x, B(V(r, 1)) == z3.BoolVal(not e), fn[4:] + ': different resources')
def alloc_eq_virtual(c):
    """with a resource whose is_equal is arbitrary, the answer is exactly that of is_equal"""
    ex = c.ex
    q = z3.Bool('is_equal_result')
    def f(ex, st, fname, args, rty):
        st.trace.append(('is_equal', args[0], args[1])); return q
    ex.contracts = EXT + [Contract('res1::is_equal (any answer)', r'^res1::is_equal', f)]
    st = c.state(); o1 = object_of(c, st, 'v_res1', 'r1'); o2 = object_of(c, st, 'v_res1', 'r2')
    for o in (o1, o2): (st, _), = c.call(st, 'w_r1_ctor', [Ptr(o, lin(0))])
    st, a = make_alloc(c, st, Ptr(o1, lin(0))); st, d = make_alloc(c, st, Ptr(o2, lin(0)))
    for fn, e in (('w_a_eq', 1), ('w_a_ne', 0), ('w_a_eqx', 1), ('w_a_nex', 0)):
        for x, r in c.call(st.fork(), fn, [a, d]): c.post(x, B(V(r, 1)) == (q if e else Not(q)), fn[4:] + ' is the answer of the resources')
def C10(tier):
    return [Task('allocate<%s>' % t, 'res.cpp', alloc_n, (t,)) for t in TYPES] + [Task('objects', 'res.cpp', objects), Task('constructors', 'res.cpp', alloc_ctor), Task('equality', 'res.cpp', alloc_eq), Task('equality follows the resource', 'res.cpp', alloc_eq_virtual)]
UPS = 'upstream resources are other objects: a call on one returns an arbitrary pointer and changes nothing of the resource under test'
META = {
 'C07': {'harness': ('res.cpp', ['-DPROP=7']), 'assumptions': [UPS, 'alignments are powers of two; buffers are at most 2^46 bytes', 'disjointness over a history follows from the proved step: every block starts at or after the used prefix, which then grows to the end of the block (induction over the history)']},
 'C08': {'harness': ('res.cpp', ['-DPROP=8']), 'assumptions': [UPS, 'alignments are powers of two; buffers are at most 2^46 bytes']},
 'C09': {'harness': ('res.cpp', ['-DPROP=9']), 'assumptions': ['posix_memalign and free (through the sysops dependency, which is not available offline and is declared by a stand-in header) meet POSIX', 'the default resource is observed after dynamic initialisation of its translation unit, single-threaded']},
 'C10': {'harness': ('res.cpp', ['-DPROP=10']), 'assumptions': ['element types of size 1, 2, 8, 13, 16, 96, 4096 (alignment 1 to 32) stand for all element types; object construction with 0 to 3 arguments', 'element constructors and destructors are opaque and do not throw']}}
PROPS = {'C07': C07, 'C08': C08, 'C09': C09, 'C10': C10}
