"""Contracts for C11 (secure_zero_memory), C12 (memcpy/memmove), C13 (memvcmp)."""
import z3
from vcg.task import Task, CE
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies
from vcg.sym import Ptr, NULL, lin, lin_scale, lin_bv, QProp, Term
from vcg.contracts import Contract
BV = z3.BitVecVal
def at(o, off): return Ptr(o, lin_scale(off, 1))
def in_range(k, off, n): return z3.ULT(k - off, n)
def block(c, st, name):
    """a block of bytes of symbolic size, and a range [off, off+n) inside it"""
    size = c.var(name + '_size'); off = c.var(name + '_off')
    c.require(st, z3.ULE(size, BV(1 << 46, 64)), z3.ULE(off, size))
    return c.buf(st, name, size), size, off
# ---------------------------------------------------------------- C11
def zero(c, safe):
    st = c.state(); n = c.var('n'); o, size, off = block(c, st, 'buf')
    c.require(st, z3.ULE(n, size - off)); c.cover(st, 'valid range'); c.cover2 = None
    old = c.bytes(st, o)
    for s, r in c.call(st, 'w_zero_safe' if safe else 'w_zero', [at(o, off), n]):
        new = c.bytes(s, o)
        c.post(s, QProp('zeroed', c.ex.dom(o), lambda k: Implies(in_range(k, off, n), z3.Select(new, k) == 0)), 'all n bytes are zero')
        c.post(s, QProp('frame', c.ex.dom(o), lambda k: Implies(Not(in_range(k, off, n)), z3.Select(new, k) == z3.Select(old, k))), 'no other byte changed')
        if safe: c.post(s, V(r, 32) == z3.If(n == 0, BV(0xfffffffe, 32), BV(0, 32)), 'returns 0, or -2 for size zero')
def zero_null(c, safe):
    st = c.state(); n = c.var('n')
    if not safe: c.require(st, n == 0)
    for s, r in c.call(st, 'w_zero_safe' if safe else 'w_zero', [NULL, n]):
        c.post(s, V(r, 32) == BV(0xffffffff, 32) if safe else True, 'null pointer: returns -1, touches nothing' if safe else 'size zero: nothing is accessed')
# ---------------------------------------------------------------- C12
def move(c, same):
    st = c.state(); n = c.var('n'); d, ds, doff = block(c, st, 'dst')
    if same:
        so, ss, soff = d, ds, c.var('src_off'); c.require(st, z3.ULE(soff, ss))
    else: so, ss, soff = block(c, st, 'src')
    c.require(st, z3.ULE(n, ds - doff), z3.ULE(n, ss - soff)); c.cover(st, 'valid ranges')
    od, os_ = c.bytes(st, d), c.bytes(st, so)
    for s, r in c.call(st, 'w_move', [at(d, doff), at(so, soff), n]):
        copied(c, s, d, od, doff, so, os_, soff, n)
        p = c.ex.as_ptr(r)
        c.post(s, c.ex.icmp(s, 'eq', ('ptr',), p, at(d, doff)), 'returns the destination')
def copied(c, s, d, od, doff, so, os_, soff, n):
    new = c.bytes(s, d)
    c.post(s, QProp('copied', c.ex.dom(d), lambda k: Implies(in_range(k, doff, n), z3.Select(new, k) == z3.Select(os_, k - doff + soff)), terms=None), 'destination bytes equal the original source bytes')
    c.post(s, QProp('frame', c.ex.dom(d), lambda k: Implies(Not(in_range(k, doff, n)), z3.Select(new, k) == z3.Select(od, k))), 'no other byte of the destination buffer changed')
    if so is not d:
        ns = c.bytes(s, so)
        c.post(s, QProp('src', c.ex.dom(so), lambda k: z3.Select(ns, k) == z3.Select(os_, k)), 'source unchanged')
def copy(c, fn, same):
    st = c.state(); n = c.var('n'); d, ds, doff = block(c, st, 'dst')
    if same:
        so, ss, soff = d, ds, c.var('src_off'); c.require(st, z3.ULE(soff, ss))
        c.require(st, Or(z3.ULE(doff + n, soff), z3.ULE(soff + n, doff)))
    else: so, ss, soff = block(c, st, 'src')
    c.require(st, z3.ULE(n, ds - doff), z3.ULE(n, ss - soff)); c.cover(st, 'valid disjoint ranges')
    od, os_ = c.bytes(st, d), c.bytes(st, so)
    for s, r in c.call(st, fn, [at(d, doff), at(so, soff), n]): copied(c, s, d, od, doff, so, os_, soff, n)
# ---------------------------------------------------------------- C13
def c_memcmp(ex, st, fname, args, rty):
    """C library memcmp: zero iff the blocks are equal; reads both blocks entirely within n"""
    a, b, n = ex.as_ptr(args[0]), ex.as_ptr(args[1]), V(ex.as_int(args[2], 64), 64)
    for p in (a, b):
        if p.obj is None: ex.raw_access(st, p, 'memcmp')
        ex.check_bounds_n(st, p, n, 'memcmp')
    A, Bb = st.mem[a.obj.id].barr, st.mem[b.obj.id].barr
    if A is None or Bb is None:
        from vcg.ll import Unsupported
        raise Unsupported('memcmp on a structured object')
    ao, bo = V(lin_bv(a.off), 64), V(lin_bv(b.off), 64)
    r = bv.fresh('memcmp', 32); w = bv.fresh('memcmp_w', 64)
    st.facts.append(QProp('memcmp', ex.dom(a.obj), lambda k: Implies(And(r == 0, in_range(k, ao, n)), z3.Select(A, k) == z3.Select(Bb, k - ao + bo))))
    st.assume(Implies(r != 0, And(z3.ULT(w, n), z3.Select(A, ao + w) != z3.Select(Bb, bo + w))))
    for t in (ao + w, bo + w): st.touch(ex.dom(a.obj), z3.simplify(t))
    if a.obj is b.obj and z3.is_true(z3.simplify(bo - ao == 1)):
        # lemma (induction): if A[ao+k] == A[ao+k+1] for all k < n then A[ao+k] == A[ao] for all k <= n
        k = bv.fresh('ind', 64); P = lambda j: z3.Select(A, ao + j) == z3.Select(A, ao)
        x = st.fork()
        ex.oblige(x, P(BV(0, 64)), 'chain lemma: base')
        x = st.fork(); x.assume(z3.ULT(k, n)); x.assume(P(k)); x.assume(z3.Select(A, ao + k) == z3.Select(A, ao + k + 1))
        ex.oblige(x, P(k + 1), 'chain lemma: step')
        st.facts.append(QProp('chain', ex.dom(a.obj), lambda j: Implies(And(r == 0, z3.ULE(j - ao, n)), z3.Select(A, j) == z3.Select(A, ao))))
        st.touch(ex.dom(a.obj), z3.simplify(ao))
    return r
MEMCMP = [Contract('C library memcmp', r'^memcmp$|^memcmp\(|^bcmp$', c_memcmp)]
def cmp_(c):
    c.ex.contracts = MEMCMP
    st = c.state(); n = c.var('n'); v = c.var('v', 8); o, size, off = block(c, st, 'buf')
    # the readable block is exactly [off, off+n) for n > 0, so any read outside it is out of bounds
    c.require(st, off == 0, size == n); c.cover(st, 'valid block')
    A = c.bytes(st, o)
    for s, r in c.call(st, 'w_cmp', [at(o, off), v, n]):
        R = V(r, 1)
        c.post(s, QProp('all equal', c.ex.dom(o), lambda k: Implies(And(R, z3.ULT(k, n)), z3.Select(A, k) == v)), 'true: every byte equals the value')
        c.post(s, Implies(R, n != 0), 'true: n is positive')
        x = s.fork(); x.assume(Not(R)); x.assume(n != 0)
        x.assume(QProp('assumed equal', c.ex.dom(o), lambda k: Implies(z3.ULT(k, n), z3.Select(A, k) == v)))
        x.touch(c.ex.dom(o), BV(0, 64))
        c.post(x, z3.BoolVal(False), 'false only if some byte differs or n is zero')
        n2 = bv.fresh('k', 64)
        new = c.bytes(s, o)
        c.post(s, QProp('frame', c.ex.dom(o), lambda k: z3.Select(new, k) == z3.Select(A, k)), 'nothing is written')
def cmp_null(c):
    c.ex.contracts = MEMCMP
    st = c.state(); n = c.var('n'); v = c.var('v', 8)
    for s, r in c.call(st, 'w_cmp', [NULL, v, n]): c.post(s, Not(V(r, 1)), 'false for a null pointer')
VIEWS = (('', ()), (' (constant evaluation)', tuple(CE)))
U = dict(unroll=3)
def compile_only(c): pass
def C11(tier):
    t = []
    for vn, fl in VIEWS:
        for safe in (0, 1):
            f = 'secure_zero_memory' + ('_safe' if safe else '')
            t += [Task(f + vn, 'mem.cpp', zero, (safe,), fl, **U), Task(f + ' null' + vn, 'mem.cpp', zero_null, (safe,), fl, **U)]
    t.append(Task('usable in constant expressions', 'mem_ce.cpp', compile_only, noobs=True))
    return t
def C12(tier):
    t = []
    for vn, fl in VIEWS:
        for same in (0, 1):
            t.append(Task('memmove %s%s' % ('same buffer' if same else 'two buffers', vn), 'mem.cpp', move, (same,), fl, **U))
            for f in ('b', 'c', 'u') + (() if fl else ('v', 'bv')):
                t.append(Task('memcpy_%s %s%s' % (f, 'same buffer' if same else 'two buffers', vn), 'mem.cpp', copy, ('w_copy_' + f, same), fl, **U))
    t.append(Task('usable in constant expressions', 'mem_ce.cpp', compile_only, noobs=True))
    return t
def C13(tier):
    return [Task('memvcmp', 'mem.cpp', cmp_, **U), Task('memvcmp null', 'mem.cpp', cmp_null, **U)]
CEA = 'the constant-evaluation branch is verified as ordinary code (compiled with __builtin_is_constant_evaluated() defined to 1); that the constant evaluator computes what that code means is assumed'
CEF = ['-fconstexpr-ops-limit=500000000', '-fconstexpr-loop-limit=1000000']
META = {'C11': {'harness': ('mem.cpp', ['-DPROP=11', '-DCONSTEXPR'] + CEF, ['-DPROP=11']), 'assumptions': [CEA, 'stores the compiler may remove as dead are assumed to be performed (the IR is taken before optimisation)']},
        'C12': {'harness': ('mem.cpp', ['-DPROP=12', '-DCONSTEXPR'] + CEF, ['-DPROP=12']), 'assumptions': [CEA, 'std::memcpy and std::memmove of the C library meet their ISO C specification', 'the void forms of memcpy are verified for run time only (they cannot be constant-evaluated)']},
        'C13': {'harness': ('mem.cpp', ['-DPROP=13']), 'assumptions': ['C library memcmp meets its ISO C specification and reads only the two blocks']}}
PROPS = {'C11': C11, 'C12': C12, 'C13': C13}
