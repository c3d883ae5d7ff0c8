"""Contracts for C21: timer. Clock readings and calls of the user's callback are events with arbitrary results."""
import re, z3
from vcg.task import Task
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies, isint
from vcg.ll import Unsupported
from vcg.sym import Ptr, PtrInt, NULL, lin, lin_bv, UNDEF, Failed
from vcg.contracts import Contract
from vcg.res import eq, run_quiet
BV = z3.BitVecVal
LIM = {0: 62, 1: 40}
class Tm:
    def __init__(s, c, clk2):
        s.c = c; s.clk2 = clk2; s.unit = 10**6 if clk2 else 1   # nanoseconds per tick
        n = lambda f: V(c.ex.as_int(c.call(c.state(), f, [])[0][1], 64), 64).as_long()
        s.size, s.al, s.fs, s.fal = n('w_size'), n('w_align'), n('w_fsize'), n('w_falign')
        c.ex.contracts = [Contract('clock (any reading)', r'^(std::chrono::_V2::steady_clock|std::chrono::steady_clock|Clk)::now\(\)', s.now),
                          Contract("user callback function object (copies carry its value)", r'^[FS]::[FS]\(', s.copy), Contract('user callback function object: destructor', r'^F::~F\(', s.dtor),
                          Contract('user callback (call recorded)', r'^([FS]::operator\(\)|cb\d?)\(', s.callback)]
    def now(s, ex, st, fname, args, rty):
        r = bv.fresh('reading', 64); st.assume(And(r < BV(1 << LIM[s.clk2], 64), r > BV(-(1 << LIM[s.clk2]), 64)))
        st.trace.append(('now', r)); return r
    def nbytes(s, d): return s.fs if d.startswith('F') else 1
    def bytes(s, st, p, n): return [s.c.ex.as_int(s.c.ex.load_raw(st, Ptr(p.obj, (p.off[0] + i, p.off[1])), 1), 8) for i in range(n)]
    def copy(s, ex, st, fname, args, rty):
        d = ex.dem(fname); a, b = ex.as_ptr(args[0]), ex.as_ptr(args[1]); n = s.nbytes(d)
        for i, v in enumerate(s.bytes(st, b, n)): ex.store_raw(st, Ptr(a.obj, (a.off[0] + i, a.off[1])), 1, v)
        st.trace.append(('copy', d, a, b)); return None
    def dtor(s, ex, st, fname, args, rty): st.trace.append(('dtor', args[0])); return None
    def callback(s, ex, st, fname, args, rty):
        d = ex.dem(fname)
        if d.startswith('cb'): st.trace.append(('call', d.split('(')[0], None, ex.as_ptr(args[0]), None))
        else:
            p = ex.as_ptr(args[0]); n = s.nbytes(d)
            if not s.c.ex.quiet:
                al = s.fal if d[0] == 'F' else 1
                s.c.post(st, bv.eq(bv.and_(lin_bv(p.off), al - 1, 64), 0) if p.obj is not None and p.obj.align >= al else False, 'the stored callback is aligned')
            st.trace.append(('call', d[0], p, ex.as_ptr(args[1]), s.bytes(st, p, n)))
        return None
    def new(s, st, name): return Ptr(s.c.ex.new_obj(st, name, s.size, 'obj', align=s.al, default='undef'), lin(0))
    def one(s, st, f, args):
        r = s.c.call(st, f, args)
        if len(r) != 1: raise Unsupported('several outcomes of ' + f)
        return r[0]
    def construct(s, st, name, kind):
        """-> state, timer, what its callback is"""
        t = s.new(st, name); c = s.c; args = [t]; cbk = None
        if kind in ('f', 'fc', 'fr', 's', 'sc'):
            n = s.fs if kind[0] == 'f' else 1
            f = Ptr(c.ex.new_obj(st, name + '_callback', n, 'input', align=max(s.fal, 1), default='input'), lin(0)); args.append(f)
            cbk = (kind[0].upper(), s.bytes(st, f, n))
        else: cbk = ({'fn': 'cb', 'fn2': 'cb2', 'fp': 'cb', 'fpr': 'cb2', 'fp3': 'cb3'}[kind], None)
        n0 = len(st.trace); st, _ = s.one(st, 'w_' + kind, args)
        tr = st.trace[n0:]
        c.post(st, z3.BoolVal(not [e for e in tr if e[0] == 'call']), 'construction does not run the callback')
        if len(args) > 1: c.post(st, z3.BoolVal(not [e for e in tr if e[0] == 'copy' and e[2].obj is not t.obj and e[3].obj is args[1].obj and False]), 'callback stored')
        reads = [e[1] for e in tr if e[0] == 'now']; x = s.start(st, t)
        c.post(st, Or(*[x == r for r in reads]) if reads else False, 'the start point is a clock reading taken during construction')
        return st, t, cbk
    def start(s, st, t):
        st2, r = s.one(st.fork(), 'w_start', [t]); return V(s.c.ex.as_int(r, 64), 64)
    def destroy(s, st, t, cbk, who):
        """destroys t; its callback (or none) runs exactly once with t"""
        n0 = len(st.trace); st, _ = s.one(st, 'w_dtor', [t]); c = s.c
        calls = [e for e in st.trace[n0:] if e[0] == 'call']
        if cbk is None: c.post(st, z3.BoolVal(not calls), '%s: destruction runs no callback' % who); return st
        c.post(st, z3.BoolVal(len(calls) == 1 and calls[0][1] == cbk[0]), '%s: destruction runs its callback exactly once [calls: %s]' % (who, ', '.join(e[1] for e in calls) or 'none'))
        for e in calls[:1]:
            if e[1] != cbk[0]: continue
            c.post(st, c.ex.icmp(st, 'eq', ('ptr',), e[3], t), '%s: the callback gets that timer' % who)
            if cbk[1] is not None: c.post(st, And(*[V(a, 8) == V(b, 8) for a, b in zip(e[4], cbk[1])]), '%s: the callback that runs is the one that was given' % who)
        return st
    def snap(s, st, t):
        x = st.mem[t.obj.id]; offs = set()
        for o, (n, _) in x.cells.items(): offs.update(range(o, o + n))
        for lo, hi, _ in x.fills: offs.update(range(lo, hi))
        return {o: s.bytes(st, Ptr(t.obj, lin(o)), 1)[0] for o in sorted(offs) if o < s.size}
    def carried(s, st, d, before):
        """lemma for histories of any length: the destination is now, byte for byte, what the source was"""
        g = And(*[V(s.bytes(st, Ptr(d.obj, lin(o)), 1)[0], 8) == V(v, 8) for o, v in before.items()])
        if not z3.is_true(z3.simplify(g)) and s.c.ex.prove(st.fork(), g)[0] != 'ok': s.open = True
        else: s.c.ex.oblige(st, g, 'the destination is byte for byte what the source was (any length of history)')
    open = False
    def nocalls(s, st, n0, name): s.c.post(st, z3.BoolVal(not [e for e in st.trace[n0:] if e[0] == 'call']), name + ' runs no callback')
    def move(s, st, d, o):
        n0 = len(st.trace); x = s.start(st, o); q = s.snap(st, o); st, r = s.one(st, 'w_move', [d, o]); s.carried(st, d, q); s.nocalls(st, n0, 'moving')
        s.c.post(st, s.start(st, d) == x, 'moving transfers the start point'); return st
    def assign(s, st, d, o):
        n0 = len(st.trace); x = s.start(st, o); q = s.snap(st, o); st, r = s.one(st, 'w_assign', [d, o]); s.carried(st, d, q); s.nocalls(st, n0, 'move assignment')
        s.c.post(st, s.start(st, d) == x, 'move assignment transfers the start point')
        s.c.post(st, s.c.ex.icmp(st, 'eq', ('ptr',), s.c.ex.as_ptr(r), d), 'move assignment returns the timer'); return st
def life(c, clk2, kind, kind2):
    T = Tm(c, clk2)
    st0, a, ca = T.construct(c.state(), 'a', kind)
    T.destroy(st0.fork(), a, ca, 'constructed timer')
    st = st0.fork(); b = T.new(st, 'b'); st = T.move(st, b, a)
    x = T.destroy(st.fork(), a, None, 'moved-from timer'); T.destroy(x, b, ca, 'destination')
    y = T.destroy(st.fork(), b, ca, 'destination'); T.destroy(y, a, None, 'moved-from timer')
    d = T.new(st, 'd'); s2 = T.move(st.fork(), d, b)                                     # chain of moves
    s2 = T.destroy(s2, a, None, 'moved-from timer'); s2 = T.destroy(s2, b, None, 'moved-from timer'); T.destroy(s2, d, ca, 'destination of two moves')
    s3 = T.assign(st.fork(), a, b); s3 = T.destroy(s3, b, None, 'moved-from timer'); T.destroy(s3, a, ca, 'revived timer')   # back again
    s4, e, ce = T.construct(st.fork(), 'e', kind2)
    s5 = T.assign(s4.fork(), e, b); s6 = T.destroy(s5.fork(), b, None, 'moved-from timer'); T.destroy(s6, e, ca, 'assigned timer')
    s5 = T.assign(s5, b, e); s5 = T.destroy(s5, e, None, 'moved-from timer'); T.destroy(s5, b, ca, 'assigned back')
    s7 = T.assign(s4.fork(), a, e); s7 = T.destroy(s7, e, None, 'moved-from timer'); s7 = T.destroy(s7, a, ce, 'assigned to a moved-from timer'); T.destroy(s7, b, ca, 'untouched timer')
    s8 = T.assign(s4.fork(), e, a); s8 = T.destroy(s8, e, None, 'assigned from a moved-from timer'); T.destroy(s8, b, ca, 'untouched timer')
    s9 = T.assign(st0.fork(), a, a); T.destroy(s9, a, ca, 'timer assigned to itself')
    sa = T.assign(st.fork(), a, a); T.destroy(sa, a, None, 'moved-from timer assigned to itself')
    if T.open: raise Unsupported('the state is not transferred byte for byte: only the histories enumerated here (at most four operations) are verified')
UNITS = {'leaked': None, 'sec': 10**9, 'milli': 10**6, 'micro': 1000, 'nano': 1}
def elapsed(c, clk2, kind):
    T = Tm(c, clk2); st0, a, ca = T.construct(c.state(), 'a', kind)
    for moved in (0, 1, 2):
        st = st0.fork(); t = a
        if moved: t = T.new(st, 'b'); st = T.move(st, t, a)
        if moved == 2:
            n0 = len(st.trace); st, _ = T.one(st, 'w_reset', [t]); T.nocalls(st, n0, 'reset')
            reads = [e[1] for e in st.trace[n0:] if e[0] == 'now']
            c.post(st, Or(*[T.start(st, t) == r for r in reads]) if reads else False, 'reset: the start point is a new clock reading')
        x = T.start(st, t)
        for f, u in UNITS.items():
            s = st.fork(); n0 = len(s.trace); s, r = T.one(s, 'w_' + f, [t]); R = V(c.ex.as_int(r, 64), 64)
            reads = [e[1] for e in s.trace[n0:] if e[0] == 'now']
            def value(d):
                if u is None or T.unit == u: return d
                return d / BV(u // T.unit, 64) if u > T.unit else d * BV(T.unit // u, 64)
            c.post(s, Or(*[R == value(q - x) for q in reads]) if reads else False, '%s is the current reading minus the start, truncated' % f)
            c.post(s, T.start(s, t) == x, 'the start point is unchanged'); T.destroy(s, t, ca, 'timer after ' + f)
    (s, r), = c.call(st0.fork(), 'w_types', [a]); c.post(s, B(r), 'each accessor has its unit')
def C21(tier):
    t = []
    K = ('fn', 'fn2', 'fp', 'fpr', 'fp3', 'f', 'fc', 'fr', 's', 'sc')
    for clk2 in (0, 1):
        fl = ('-DCLK2',) if clk2 else (); v = ' (coarse clock, large callback)' if clk2 else ''
        t += [Task('life %s/%s%s' % (k, k2, v), 'timer.cpp', life, (clk2, k, k2), fl, optional=bool(clk2)) for k in K for k2 in (K if tier == 'thorough' else ('fn', 'fr', 'sc'))]
        t += [Task('elapsed %s%s' % (k, v), 'timer.cpp', elapsed, (clk2, k), fl, optional=bool(clk2)) for k in ('fn', 'f', 's')]
    return t
META = {'C21': {'harness': ('timer.cpp', ['-DCLK2T'], []), 'assumptions': [
    'clock readings stay below 2^62 (2^40 for the millisecond clock) in magnitude, so elapsed times do not overflow their representation',
    'the user\'s callback does not modify the timer being destroyed and is copied by value (its copies behave like the original); it is bitwise relocatable, which the class requires',
    'the clock and callbacks are opaque; callback kinds: function references, function pointers, function objects by copy and by move, of two sizes and alignments']}}
PROPS = {'C21': C21}
