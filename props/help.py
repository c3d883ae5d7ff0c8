"""Contracts for C18: shift_left/shift_right, bit_cast, to_underlying, for_each_arg, for_each_in_tuple."""
import z3
from vcg.task import Task
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies, isint
from vcg.ll import Unsupported
from vcg.sym import Ptr, NULL, lin, lin_bv
from vcg.contracts import Contract, fresh_value
from vcg.res import eq, object_of
BV = z3.BitVecVal
# name -> (width, signed)
INTS = {'i8': (8, 1), 'u8': (8, 0), 'i16': (16, 1), 'u16': (16, 0), 'i32': (32, 1), 'u32': (32, 0), 'i64': (64, 1), 'u64': (64, 0), 'ill': (64, 1), 'ull': (64, 0), 'c': (8, 1), 'wc': (32, 1), 'c16': (16, 0)}
def shift(c, n):
    w, sg = INTS[n]
    for f in ('shl', 'shr', 'shlr', 'shrr', 'shlc', 'shrc'):
        st = c.state(); v = c.var('v', w); k = c.var('k')
        c.require(st, z3.ULT(k, BV(w, 64))); c.cover(st, 'count below the width')
        kk = z3.Extract(w - 1, 0, z3.ZeroExt(64, k))
        for s, r in c.call(st, 'w_%s_%s' % (f, n), [v, k]):
            want = v << kk if f.startswith('shl') else (v >> kk if sg else z3.LShR(v, kk))
            c.post(s, V(c.ex.as_int(r, w), w) == want, 'the argument shifted %s by k' % ('left' if f.startswith('shl') else 'right'))
    st = c.state()
    for s, r in c.call(st, 'w_sht_' + n, []): c.post(s, B(r), "the result has the argument's own type")
CASTS = {'f': 4, 'd': 8, 'i': 4, 'l': 8, 's13': 13, 's8': 8, 'a8': 8, 's40': 40, 'e': 4, 'c': 1, 'h': 2, 'p': 8}
def cast(c, n):
    size = CASTS[n]
    for f in ('bc', 'bcr', 'bc2'):
        st = c.state(); a = c.buf(st, 'from', size); b = c.buf(st, 'to', size)
        old = c.bytes(st, a)
        for s, r in c.call(st, 'w_%s_%s' % (f, n), [Ptr(a, lin(0)), Ptr(b, lin(0))]):
            new = c.bytes(s, b); src = c.bytes(s, a)
            c.post(s, And(*[z3.Select(new, BV(i, 64)) == z3.Select(old, BV(i, 64)) for i in range(size)]), 'every byte is preserved' if f != 'bc2' else 'casting there and back gives the original bytes')
            c.post(s, And(*[z3.Select(src, BV(i, 64)) == z3.Select(old, BV(i, 64)) for i in range(size)]), 'the source is unchanged')
def under(c, n):
    w = 8 if n in ('old', 'b') else INTS[n][0]
    if n == 'b': w = 1
    st = c.state(); v = c.var('e', w)
    for s, r in c.call(st, 'w_un_' + n, [v]): c.post(s, V(c.ex.as_int(r, w), w) == v if w > 1 else B(r) == v, "the enumerator's value")
    for s, r in c.call(c.state(), 'w_unt_' + n, []): c.post(s, B(r), 'the underlying type')
# ---------------------------------------------------------------- visiting
def c_call(ex, st, fname, args, rty):
    st.trace.append(('call', ex.dem(fname), ex.as_ptr(args[0]), ex.as_ptr(args[1])))
    return fresh_value(ex, rty, 'functor')
def c_copy(ex, st, fname, args, rty):
    st.trace.append(('element copied or destroyed: ' + ex.dem(fname), '', ex.as_ptr(args[0]), NULL)); return None
VISIT = [Contract('user function object (any call, recorded)', r'^[FG]::operator\(\)\(', c_call), Contract('user element type', r'^Z::(Z|~Z)\(', c_copy)]
def visited(c, s, f, want, name):
    tr = s.trace
    ok = len(tr) == len(want) and all(t[0] == 'call' for t in tr)
    if not ok:
        c.post(s, z3.BoolVal(False), 'called exactly once per %s [calls: %s]' % (name, ', '.join(t[1] or t[0] for t in tr) or 'none')); return
    if not want: c.post(s, True, 'no call for no element')
    for t, (sig, p) in zip(tr, want):
        c.post(s, c.ex.icmp(s, 'eq', ('ptr',), t[3], p), 'called in order with that very %s' % name)
        c.post(s, c.ex.icmp(s, 'eq', ('ptr',), t[2], f), "the caller's function object is called")
        c.post(s, z3.BoolVal('(%s)' % sig in t[1]), '%s passed with its own value category' % name)
def elem(c, st, name, size, const=False): return Ptr(c.ex.new_obj(st, name, size, 'input', align=8, default='input'), lin(0))
FE = {'w_fe0': '', 'w_fe1': 'X&', 'w_fe3': 'X& Y& Z&', 'w_fe3c': 'X_const& Y_const& Z_const&', 'w_fe3r': 'X&& Y&& Z&&', 'w_fe5': 'int& X&& int_const& Y& Z&', 'w_fe2same': 'Y& Y&', 'w_ftr': 'X& Y& Z&', 'w_ft0': '', 'w_fe12': 'int& ' * 10 + 'X& Y&', 'w_ft12': 'int& ' * 10 + 'X& Y&'}
def each(c, fn):
    c.ex.contracts = VISIT
    st = c.state(); f = elem(c, st, 'functor', 4); sigs = [x.replace('_', ' ') for x in FE[fn].split()]
    es = [elem(c, st, 'arg%d' % i, 16) for i in range(len(sigs))]
    for s, r in c.call(st, fn, [f] + es): visited(c, s, f, list(zip(sigs, es)), 'argument')
def each_tuple(c, fn, glob, acc, sigs):
    c.ex.contracts = VISIT
    st = c.state(); f = elem(c, st, 'functor', 4); o = object_of(c, st, glob, 'tuple', 'input'); t = Ptr(o, lin(0)); es = []
    for a in acc:
        (s, r), = c.call(st.fork(), a, [t]); es.append(c.ex.as_ptr(r))
    for s, r in c.call(st, fn, [f, t]): visited(c, s, f, list(zip([x.replace('_', ' ') for x in sigs], es)), 'element')
def each_array(c):
    c.ex.contracts = VISIT
    st = c.state(); f = elem(c, st, 'functor', 4); t = elem(c, st, 'array', 16)
    for s, r in c.call(st, 'w_fa', [f, t]): visited(c, s, f, [('int&', Ptr(t.obj, lin(4 * i))) for i in range(4)], 'element')
def C18(tier):
    t = [Task('shift ' + n, 'help.cpp', shift, (n,)) for n in INTS]
    t += [Task('bit_cast ' + n, 'help.cpp', cast, (n,)) for n in CASTS]
    t += [Task('to_underlying ' + n, 'help.cpp', under, (n,)) for n in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'c', 'b', 'old')]
    t += [Task('for_each ' + f, 'help.cpp', each, (f,)) for f in FE]
    A3 = ('w_t3_0', 'w_t3_1', 'w_t3_2'); A2 = ('w_p2_0', 'w_p2_1')
    t += [Task('for_each_in_tuple', 'help.cpp', each_tuple, ('w_ft3', 'v_t3', A3, ('X&', 'Y&', 'int&'))),
          Task('for_each_in_tuple const', 'help.cpp', each_tuple, ('w_ft3c', 'v_t3', A3, ('X_const&', 'Y_const&', 'int_const&'))),
          Task('for_each_in_tuple rvalue', 'help.cpp', each_tuple, ('w_ft3r', 'v_t3', A3, ('X&&', 'Y&&', 'int&&'))),
          Task('for_each_in_tuple pair', 'help.cpp', each_tuple, ('w_fp2', 'v_p2', A2, ('int&', 'Y&'))),
          Task('for_each_in_tuple array', 'help.cpp', each_array)]
    return t
META = {'C18': {'harness': ('help.cpp', ['-fno-sanitize=shift']), 'assumptions': [
    'shift_left/shift_right and to_underlying are verified for every integer type named in drivers/help.cpp, bit_cast for 12 type pairs of 1 to 40 bytes, the visitors for the element lists there (0 to 12 elements); other instantiations of the templates are assumed to behave alike',
    'left shift of a negative signed value has the two\'s complement meaning both compilers give it',
    'the caller\'s function object and the element types\' copy operations are opaque: any behaviour that does not modify the visiting function\'s own state']}}
PROPS = {'C18': C18}
