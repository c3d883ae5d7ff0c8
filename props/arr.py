"""Contracts for C23: array builders and array comparison."""
import re, z3
from vcg.task import Task, VERIF, CE
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies, isint
from vcg.ll import Unsupported
from vcg.sym import Ptr, NULL, lin, lin_bv, QProp
BV = z3.BitVecVal
def out(c, st, n, es): return Ptr(c.ex.new_obj(st, 'result', n * es, 'obj', align=8, default='undef'), lin(0))
def elems(c, s, o, n, es): return [c.ex.as_int(c.ex.load_raw(s, Ptr(o.obj, lin(i * es)), es), 8 * es) for i in range(n)]
def check(c, s, r, o, want, es, name):
    c.post(s, B(r), 'the array has the expected element type and length')
    for i, (a, w) in enumerate(zip(elems(c, s, o, len(want), es), want)): c.post(s, V(a, 8 * es) == V(w, 8 * es), '%s: element %d' % (name, i))
def conv(v, w, sg, to): return v if w == to else (z3.SignExt(to - w, v) if sg else z3.ZeroExt(to - w, v)) if w < to else z3.Extract(to - 1, 0, v)
# name -> (result bytes, [(argument width, signed)])
MA = {'ma1': (4, [(32, 1)]), 'ma3': (4, [(32, 1), (16, 1), (8, 1)]), 'ma3m': (8, [(32, 1), (64, 1), (8, 0)]), 'ma6': (1, [(8, 0)] * 6), 'ma2u': (8, [(64, 0)] * 2), 'map': (8, None), 'mam3': (8, [(64, 0)] * 3), 'mam2': (8, [(64, 0)] * 2)}
def make(c, n):
    es, ar = MA[n]; st = c.state()
    if ar is None:
        args = [Ptr(None, c.var('a0')), Ptr(None, c.var('a1'))]; want = [a.off for a in args]
    else:
        args = [c.var('a%d' % i, w) for i, (w, sg) in enumerate(ar)]; want = [conv(a, w, sg, 8 * es) for a, (w, sg) in zip(args, ar)]
    o = out(c, st, len(args), es)
    for s, r in c.call(st, 'w_' + n, [o] + args): check(c, s, r, o, want, es, 'the given values in order')
MV = {'mv1': (4, 1), 'mv2': (1, 2), 'mv7': (8, 7), 'mv64': (2, 64), 'mv300': (4, 300), 'mvm1': (8, 1), 'mvm4': (8, 4), 'mvm17': (8, 17)}
def value(c, n):
    es, k = MV[n]; st = c.state(); v = c.var('v', 8 * es); o = out(c, st, k, es)
    for s, r in c.call(st, 'w_' + n, [o, v]): check(c, s, r, o, [v] * k, es, 'the value repeated')
MZ = {'mz1': (8, 1), 'mz9': (1, 9), 'mz65': (4, 65), 'mvd': (4, 5), 'mzm': (8, 5)}
def zero(c, n):
    es, k = MZ[n]; st = c.state(); o = out(c, st, k, es)
    for s, r in c.call(st, 'w_' + n, [o]): check(c, s, r, o, [BV(0, 8 * es)] * k, es, 'zeros')
# name -> (result bytes, character bytes, signed, indices)
SV = {'sv4': (1, 1, 1, (0, 1, 2, 3)), 'sv1': (1, 1, 1, (0,)), 'sv3': (1, 1, 1, (5, 0, 2)), 'ms1': (1, 1, 1, (0,)), 'ms5': (1, 1, 1, tuple(range(5))), 'ms8': (4, 1, 1, tuple(range(8))), 'ms6w': (4, 4, 1, tuple(range(6))), 'sv11': (1, 1, 1, tuple(range(11)))}
def view(c, n):
    es, cs, sg, ix = SV[n]; st = c.state(); ln = c.var('length'); size = c.var('bytes')
    c.require(st, z3.ULE(ln, BV(1 << 40, 64)), size == ln * cs, z3.UGE(ln, BV(max(ix) + 1, 64)))
    src = c.buf(st, 'text', size, align=cs); A = c.bytes(st, src); o = out(c, st, len(ix), es); c.cover(st, 'long enough view')
    for s, r in c.call(st, 'w_' + n, [o, Ptr(src, lin(0)), ln]):
        ch = [z3.Concat(*[z3.Select(A, BV(i * cs + b, 64)) for b in reversed(range(cs))]) if cs > 1 else z3.Select(A, BV(i, 64)) for i in ix]
        check(c, s, r, o, [conv(x, 8 * cs, sg, 8 * es) for x in ch], es, 'the characters in order')
CC = {'cc1': (4, [3]), 'cc2': (4, [3, 2]), 'cc2r': (4, [3, 2]), 'cc3': (1, [1, 4, 2]), 'cc4': (8, [2, 1, 3, 2]), 'cc0': (8, [2, 1]), 'cc7': (2, [1, 2, 3, 1, 2, 3, 40]), 'ccm3': (8, [2, 1, 3]), 'ccm4': (8, [2, 1, 2, 2]), 'ccm1': (8, [2]), 'ccmd': (8, [2])}
def concat(c, n):
    es, ks = CC[n]; st = c.state(); o = out(c, st, sum(ks), es); args = []; want = []
    for i, k in enumerate(ks):
        vs = [c.var('a%d_%d' % (i, j), 8 * es) for j in range(k)]; want += vs
        a = Ptr(c.ex.new_obj(st, 'array%d' % i, k * es, 'obj', align=8, default='undef'), lin(0)); args.append(a)
        for j, v in enumerate(vs): c.ex.store_raw(st, Ptr(a.obj, lin(j * es)), es, v)
    if n == 'ccmd': want = want * 3; o = out(c, st, len(want), es)
    for s, r in c.call(st, 'w_' + n, [o] + args): check(c, s, r, o, want, es, 'all arrays one after another')
EQ = {'c1': (1, 1), 'c3': (1, 3), 'i4': (4, 4), 'l9': (8, 9), 's20': (2, 20), 'i200': (4, 200)}
def equal(c, n, dflt):
    es, N = EQ[n]; st = c.state(); k = BV(N, 64) if dflt else c.var('count')
    c.require(st, z3.ULE(k, BV(N, 64)))
    def mk(name):
        o = c.ex.new_obj(st, name, N * es, 'input', ty=('arr', N, ('i', 8 * es)), align=8, default='input')
        c.ex.promote(st, o, c.ex.layout(o)[0]); return o, next(iter(st.mem[o.id].segs.values()))
    (a, A), (b, Bb) = mk('a'), mk('b')
    for s, r in c.call(st, ('w_eqd_' if dflt else 'w_eq_') + n, [Ptr(a, lin(0)), Ptr(b, lin(0))] + ([] if dflt else [k])):
        R = B(r); x = s.fork()
        c.post(s, QProp('agree', c.ex.dom(a), lambda j: Implies(And(R, z3.ULT(j, k)), z3.Select(A, j) == z3.Select(Bb, j))), 'true only if the first Count elements agree')
        x.assume(Not(R)); x.assume(QProp('all agree', c.ex.dom(a), lambda j: Implies(z3.ULT(j, k), z3.Select(A, j) == z3.Select(Bb, j))))
        x.touch(c.ex.dom(a), BV(0, 64))
        c.post(x, z3.BoolVal(False), 'false only if one of the first Count elements differs')
def ranges():
    r = []
    for l in open(VERIF + '/drivers/ranges.inc'):
        m = re.match(r'RG\((\w+), (-?\d+)\w*, (-?\d+)\w*, (-?\d+)\w*, ([\w ]+), (\d+)\)', l)
        if m: r.append((m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), 8 if 'long' in m.group(5) else 4, int(m.group(6))))
    return r
def range_(c, n, b, e, stp, es, cnt):
    want = [x for x in range(b, e + 1, stp)]
    if len(want) != cnt: raise Unsupported('range table')
    st = c.state(); o = out(c, st, cnt, es)
    for s, r in c.call(st, 'w_rg_' + n, [o]): check(c, s, r, o, [BV(x, 8 * es) for x in want], es, 'Begin, Begin+Step, ...')
def flag(c, n, args):
    st = c.state(); a = []
    if args: src = c.buf(st, 'text', 16); a = [Ptr(src, lin(0)), BV(16, 64)]
    for s, r in c.call(st, 'w_' + n, a): c.post(s, B(r), 'an empty array of the element type')
def eqz(c):
    st = c.state(); k = c.var('count'); c.require(st, k == 0)
    for s, r in c.call(st, 'w_eq_z', [k]): c.post(s, B(r), 'two empty arrays are equal')
def compile_only(c): pass
U = dict(unroll=3)
def C23(tier):
    t = [Task('make_array values ' + n, 'arr.cpp', make, (n,)) for n in MA]
    t += [Task('make_array repeated ' + n, 'arr.cpp', value, (n,)) for n in MV]
    t += [Task('zeros ' + n, 'arr.cpp', zero, (n,)) for n in MZ]
    t += [Task('from view ' + n, 'arr.cpp', view, (n,)) for n in SV]
    t += [Task('concatenate ' + n, 'arr.cpp', concat, (n,)) for n in CC]
    for n in EQ:
        t += [Task('is_equal ' + n, 'arr.cpp', equal, (n, False), unroll=25 if n != 'i200' else 3), Task('is_equal default count ' + n, 'arr.cpp', equal, (n, True), unroll=25 if n != 'i200' else 3)]
    t.append(Task('is_equal empty', 'arr.cpp', eqz))
    t += [Task('empty ' + n, 'arr.cpp', flag, (n, a)) for n, a in (('ma0', 0), ('mv0', 0), ('mz0', 0), ('sv0', 1), ('ms0', 1))]
    t += [Task('range ' + r[0], 'arr.cpp', range_, r) for r in ranges()]
    t.append(Task('usable in constant expressions', 'arr_ce.cpp', compile_only, noobs=True))
    return t
META = {'C23': {'harness': ('arr.cpp',), 'assumptions': [
    'verified for all element values at the element types, lengths and (for ranges) template arguments listed in drivers/arr.cpp and drivers/ranges.inc; other instantiations are assumed to behave alike',
    'element types are scalars and one class type whose move empties its source; other element types are assumed to copy faithfully']}}
PROPS = {'C23': C23}
