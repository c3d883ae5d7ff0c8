"""Contracts for C22: abort_if and the macros built on it."""
import re, z3
from vcg.task import Task
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies, isint
from vcg.ll import Unsupported
from vcg.sym import Ptr, PtrInt, NULL, lin, lin_bv
from vcg.contracts import Contract
from vcg.res import eq
BV = z3.BitVecVal
def c_print(ex, st, fname, args, rty):
    """C library vfprintf: writes the formatted message; consumes the argument list it is given"""
    ap = ex.as_ptr(args[2]); va = st.ghost.get(('va', ap.obj.id if ap.obj else None, ap.off[0] if ap.obj else ap.off))
    if va is None: ex.oblige(st, z3.BoolVal(False), 'vfprintf gets a started argument list'); va = ()
    st.trace.append(('print', ex.as_ptr(args[0]), ex.as_ptr(args[1]), va)); return bv.fresh('printed', 32)
def c_fprintf(ex, st, fname, args, rty):
    st.trace.append(('print', ex.as_ptr(args[0]), ex.as_ptr(args[1]), tuple(args[2:]))); return bv.fresh('printed', 32)
def c_cond(ex, st, fname, args, rty):
    r = z3.Bool(bv.fresh_name('condition')); st.trace.append(('condition', args[0], r)); return r
def c_flush(ex, st, fname, args, rty): return bv.fresh('flushed', 32)
LIB = [Contract('C library vfprintf', r'^vfprintf(\(|$)', c_print), Contract('C library fprintf', r'^fprintf(\(|$)', c_fprintf), Contract('C library fflush', r'^fflush(\(|$)', c_flush), Contract('user condition', r'^opaque_condition\(', c_cond)]
def text(c, p):
    if p.obj is None or p.off[1] or not p.obj.name.startswith('@'): return None
    g = c.mod.globals.get(p.obj.name[1:])
    if not g or not g[2] or g[2][0] != 'bytes': return None
    return bytes(g[2][1])[p.off[0]:].split(b'\0')[0].decode('latin1')
def stderr(c, st):
    return c.ex.as_ptr(c.ex.load_raw(st.fork(), Ptr(c.ex.gobj(st, 'stderr'), lin(0)), 8))
def conversions(t): return len(re.findall(r'%[^%]', t.replace('%%', '')))
def message(c, s, prints, fmt, args, widths, name):
    """exactly one message, on standard error, formatted from the given format and arguments"""
    c.post(s, z3.BoolVal(len(prints) == 1), name + ': one message is written before aborting')
    for pr in prints[:1]:
        c.post(s, c.ex.icmp(s, 'eq', ('ptr',), pr[1], stderr(c, s)), name + ': to standard error')
        va = pr[3]; k = 0
        if isinstance(fmt, str):
            t = text(c, pr[2])
            if t is None: raise Unsupported('format string is not a constant')
            if fmt not in t: c.post(s, z3.BoolVal(False), name + ': the format contains the given message'); return
            k = conversions(t[:t.index(fmt)])
            c.post(s, z3.BoolVal(conversions(t) <= len(va)), name + ': every conversion has an argument')
        else: c.post(s, c.ex.icmp(s, 'eq', ('ptr',), pr[2], fmt), name + ': with the given format')
        c.post(s, z3.BoolVal(len(va) >= k + len(args)), name + ': with the given arguments')
        for a, b, w in zip(va[k:], args, widths): c.post(s, eq(c, s, a, b, w), name + ': with the given arguments in order')
def run(c, fn, params, cond, fmt, args, widths, conds=0):
    """params: driver arguments; cond(path events) -> the condition; fmt: None, text or pointer"""
    c.ex.contracts = LIB; st = c.state(); outs, abs_ = c.call(st, fn, params, abort='collect')
    c.covers.append(('returning from ' + fn, bool(outs))); c.covers.append(('aborting in ' + fn, bool(abs_)))
    for s, r in outs:
        c.post(s, Not(cond(s.trace)), 'returns only if the condition is false')
        c.post(s, z3.BoolVal(not [e for e in s.trace if e[0] == 'print']), 'no output if the condition is false')
    for s in abs_:
        c.post(s, cond(s.trace), 'aborts only if the condition is true')
        pr = [e for e in s.trace if e[0] == 'print']
        if fmt is None: continue
        if isinstance(fmt, Ptr) and (isint(fmt.off) or c.ex.feasible(s, bv.eq(fmt.off, 0))):
            c.post(s, z3.BoolVal(not pr), 'no output without a format')
            c.post(s, bv.eq(fmt.off, 0), 'a given format is printed'); continue
        message(c, s, pr, fmt, args, widths, 'message')
    for s in [x for x, _ in outs] + abs_:
        if conds: c.post(s, z3.BoolVal(len([e for e in s.trace if e[0] == 'condition']) == 1), 'the condition is evaluated exactly once')
def fn_(c, which):
    cv = c.var('condition', 1); f = Ptr(None, c.var('format')); P = lambda n: Ptr(None, c.var(n)); k = lambda tr: cv
    if which == 0: return run(c, 'w_a0', [cv], k, NULL, [], [])
    if which == 1: return run(c, 'w_a1', [cv, f], k, f, [], [])
    if which == 2: a = c.var('a', 32); return run(c, 'w_a2', [cv, f, a], k, f, [a], [32])
    ar = [c.var('a', 32), P('b'), c.var('d'), c.var('e', 32), P('p')]
    return run(c, 'w_a5', [cv, f] + ar, k, f, ar, [32, 64, 64, 32, 64])
def macro(c, fn):
    cv = c.var('condition', 1); k = lambda tr: cv; P = lambda n: Ptr(None, c.var(n)); a = c.var('a', 32); b = c.var('b', 32)
    oc = lambda tr: [e for e in tr if e[0] == 'condition'][-1][2] if [e for e in tr if e[0] == 'condition'] else z3.BoolVal(False)
    if fn in ('w_m0', 'w_d0'): return run(c, fn, [cv], k, '', [], [])
    if fn == 'w_m1': return run(c, fn, [cv], k, '\nplain text', [], [])
    if fn == 'w_m2': return run(c, fn, [cv, a], k, '\nvalue=<%d>', [a], [32])
    if fn == 'w_d2': return run(c, fn, [cv, a], k, '\ndebug=<%d>', [a], [32])
    if fn == 'w_m4': ar = [P('s'), c.var('d'), P('p')]; return run(c, fn, [cv] + ar, k, '\n[%s] %ld %p', ar, [64] * 3)
    if fn == 'w_me': return run(c, fn, [a, b], lambda tr: a < b, '\nless %d %d', [a, b], [32, 32])
    if fn in ('w_mo', 'w_do'): return run(c, fn, [a], oc, '\nopaque %d', [a], [32], conds=1)
    if fn == 'w_mp': p = P('p'); return run(c, fn, [p], lambda tr: p.off == 0, '\nnull', [], [])
    d = c.var('condition2', 1); return run(c, fn, [cv, d, a], lambda tr: Or(cv, d), None, [], [])
M = ['w_m0', 'w_m1', 'w_m2', 'w_m4', 'w_me', 'w_mo', 'w_mp', 'w_twice']; D = ['w_d0', 'w_d2', 'w_do']
def C22(tier):
    t = []
    for v, fl in (('', ()), (' (NDEBUG)', ('-DNDEBUG',))):
        t += [Task('abort_if form %d%s' % (i, v), 'abort.cpp', fn_, (i,), fl) for i in (0, 1, 2, 3)]
        t += [Task('macro %s%s' % (f, v), 'abort.cpp', macro, (f,), fl) for f in M + (D if not fl else [])]
    return t
META = {'C22': {'harness': ('abort.cpp', []), 'assumptions': ['vfprintf of the C library formats its argument list as ISO C says and returns; std::abort ends the process', 'the argument lists of drivers/abort.cpp stand for all (C variadic arguments are passed through, not interpreted)']}}
PROPS = {'C22': C22}
