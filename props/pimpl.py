"""Contracts for C20: fast_pimpl. The wrapped type is opaque: its constructors, assignments and destructor are events."""
import re, z3
from vcg.task import Task
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies, isint
from vcg.ll import Unsupported
from vcg.sym import Ptr, PtrInt, NULL, lin, lin_bv, UNDEF, Failed
from vcg.contracts import Contract
from vcg.res import eq
BV = z3.BitVecVal
def num(c, f):
    (s, r), = c.call(c.state(), f, []); v = c.ex.as_int(r, 64)
    if not isint(v): raise Unsupported('size')
    return v
def op_event(T, size):
    def f(ex, st, fname, args, rty):
        d = ex.dem(fname); p = ex.as_ptr(args[0]); st.trace.append((d,) + tuple(args))
        if '~' not in d and p.obj is not None and p.obj.id in st.mem:   # the operation gives the object new contents
            ex.check_bounds(st, p, size, 'opaque operation')
            for i in range(size): ex.store_raw(st, Ptr(p.obj, (p.off[0] + i, p.off[1])), 1, bv.fresh('content', 8))
        if rty is not None and ex.mod.res(rty)[0] == 'ptr': return Ptr(None, bv.fresh('result', 64))
        return None
    return Contract('member functions of the wrapped type (any behaviour)', r'^%s::(%s|~%s|operator=)\(' % (T, T, T), f)
class W:
    def __init__(s, c, T):
        s.c = c; s.T = T; s.size = num(c, 'w_%s_size' % T); s.al = num(c, 'w_%s_align' % T); s.ws = num(c, 'w_%s_wsize' % T); s.wal = num(c, 'w_%s_walign' % T)
        c.ex.contracts = [op_event(T, s.size)]
        st = c.state(); p = s.new(st, 'probe'); s.d = None
        for f in ('get', 'getc', 'arrow', 'arrowc'):
            (x, r), = c.call(st.fork(), 'w_%s_%s' % (T, f), [p]); r = c.ex.as_ptr(r)
            c.post(x, z3.BoolVal(r.obj is p.obj and not r.off[1]), f + ': the object lies inside the wrapper')
            if r.obj is not p.obj or r.off[1]: raise Failed()
            if s.d is None: s.d = r.off[0]
            c.post(x, z3.BoolVal(r.off[0] == s.d), f + ': always the same object')
            c.post(x, z3.BoolVal(not x.trace), f + ': access runs no operation of the wrapped type')
        c.post(st, z3.BoolVal(s.d + s.size <= s.ws), 'the whole object lies inside the wrapper')
        c.post(st, z3.BoolVal(s.d % s.al == 0 and s.wal % s.al == 0), 'the object is aligned')
    def new(s, st, name): return Ptr(s.c.ex.new_obj(st, name, s.ws, 'input', align=s.wal, default='input'), lin(0))
    def obj(s, p): return Ptr(p.obj, lin(s.d))
    def content(s, st, p, off, n): return [s.c.ex.as_int(s.c.ex.load_raw(st, Ptr(p.obj, lin(off + i)), 1), 8) for i in range(n)]
def op(c, T, name, sig, args, kind, self_=False):
    """kind: ctor / assign / dtor; args: 'W' a wrapper, 'P' an object of the type, 'x' anything else"""
    try: w = W(c, T)
    except Failed: return
    st = c.state(); p = w.new(st, 'wrapper'); al = []; ev = [w.obj(p)]; watched = []
    for i, a in enumerate(args):
        if a == 'W':
            q = p if self_ else w.new(st, 'other'); al.append(q); ev.append(w.obj(q))
            if not self_: watched.append((q, w.ws))
        elif a == 'i': v = c.var('i%d' % i, 32); al.append(v); ev.append(v)
        else:
            n = w.size if a == 'P' else 8; q = Ptr(c.ex.new_obj(st, 'arg%d' % i, n, 'input', align=w.al, default='input'), lin(0)); al.append(q); ev.append(q); watched.append((q, n))
            if a == 'p': pass
    before = [w.content(st, q, 0, n) for q, n in watched]; cont = w.content(st, p, w.d, w.size)
    for s, r in c.call(st, 'w_%s_%s' % (T, name), [p] + al):
        want = sig.replace('T', T); tr = s.trace
        c.post(s, z3.BoolVal(len(tr) == 1 and tr[0][0] == want), 'exactly one operation of the wrapped type: %s [done: %s]' % (want, ', '.join(t[0] for t in tr) or 'none'))
        if len(tr) != 1 or tr[0][0] != want: continue
        for i, (a, b) in enumerate(zip(tr[0][1:], ev)): c.post(s, eq(c, s, a, b), 'on the object inside the wrapper' if i == 0 else 'with exactly the arguments given')
        for (q, n), old in zip(watched, before): c.post(s, And(*[V(x, 8) == V(y, 8) for x, y in zip(w.content(s, q, 0, n), old)]), 'no other object is changed')
        if kind != 'dtor':
            now = w.content(s, p, w.d, w.size)
            c.post(s, z3.BoolVal(all(not isint(x) and 'content' in str(x) for x in now)), 'the object is left as the operation made it')
        if kind == 'assign': c.post(s, eq(c, s, r, p), 'returns the wrapper')
OPS = [('def', 'T::T()', '', 'ctor'), ('fwd0', 'T::T()', '', 'ctor'), ('fwd1', 'T::T(int&)', 'x', 'ctor'), ('fwd1c', 'T::T(int const&)', 'x', 'ctor'), ('fwd1r', 'T::T(int&&)', 'x', 'ctor'),
       ('fwd2', 'T::T(int&, X&&)', 'xx', 'ctor'), ('fwd2l', 'T::T(int&, X&)', 'xx', 'ctor'), ('fwd2c', 'T::T(int const&, X const&)', 'xx', 'ctor'), ('fwd2r', 'T::T(int&&, X&&)', 'xx', 'ctor'), ('fwd2m', 'T::T(int&&, X&)', 'xx', 'ctor'),
       ('fwd3', 'T::T(int&, X const&, T&)', 'xxP', 'ctor'), ('fwd3r', 'T::T(int&, X const&, T&&)', 'xxP', 'ctor'), ('fwd3c', 'T::T(int&, X const&, T const&)', 'xxP', 'ctor'), ('fwd4', 'T::T(X*, X*, X*, X*)', 'xxxx', 'ctor'),
       ('fwdc', 'T::T(T const&)', 'P', 'ctor'), ('fwdm', 'T::T(T&&)', 'P', 'ctor'), ('copy', 'T::T(T const&)', 'W', 'ctor'), ('copyl', 'T::T(T const&)', 'W', 'ctor'), ('move', 'T::T(T&&)', 'W', 'ctor'),
       ('copyT', 'T::T(T const&)', 'P', 'ctor'), ('copyTl', 'T::T(T const&)', 'P', 'ctor'), ('moveT', 'T::T(T&&)', 'P', 'ctor'),
       ('acopy', 'T::operator=(T const&)', 'W', 'assign'), ('acopyl', 'T::operator=(T const&)', 'W', 'assign'), ('amove', 'T::operator=(T&&)', 'W', 'assign'),
       ('acopyT', 'T::operator=(T const&)', 'P', 'assign'), ('acopyTl', 'T::operator=(T const&)', 'P', 'assign'), ('amoveT', 'T::operator=(T&&)', 'P', 'assign'), ('dtor', 'T::~T()', '', 'dtor')]
IL = [('il1', 'T::T(int)', 'i', 'ctor'), ('il2', 'T::T(int, int)', 'ii', 'ctor'), ('il3', 'T::T(int, int, int)', 'iii', 'ctor')]
def C20(tier):
    has = ('def', 'fwd0', 'copy', 'move', 'copyT', 'moveT', 'fwdc', 'acopy', 'amove', 'acopyT', 'amoveT', 'dtor')
    t = [Task('L %s' % o[0], 'pimpl.cpp', op, ('L',) + o) for o in OPS + IL if o[0] in has or o in IL]
    for T in 'ABCD':
        t += [Task('%s %s' % (T, o[0]), 'pimpl.cpp', op, (T,) + o) for o in OPS]
        t += [Task('%s %s to itself' % (T, o[0]), 'pimpl.cpp', op, (T,) + o + (True,)) for o in OPS if o[3] == 'assign' and o[2] == 'W']
    return t
META = {'C20': {'harness': ('pimpl.cpp',), 'assumptions': [
    'the wrapped type is opaque (any constructors, assignments, destructor); four sizes and alignments (1/1, 48/16, 200/8, 12/4), one type with initializer_list constructors, and the constructor argument lists of drivers/pimpl.cpp are instantiated; other instantiations are assumed to behave alike',
    'the wrapped type\'s operations change only their own object']}}
PROPS = {'C20': C20}
