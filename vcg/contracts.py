"""Assumed contracts on functions outside /repo (the C library, opaque user types) and modular contracts on functions of
/repo that are verified separately."""
import re
import z3
from . import bv
from .bv import V, And, Or, Not
from .ll import Unsupported
from .sym import Ptr, PtrInt, NULL, UNDEF, Term, lin

class Contract:
    """name, regex over the demangled or mangled callee name, call(ex, st, fname, args, rty) -> [(state, value)] or Terms"""
    def __init__(s, name, rx, fn, declared_only=False, when=None):
        s.name = name; s.rx = re.compile(rx); s.fn = fn; s.declared_only = declared_only; s.when = when
    def matches(s, dem, fname): return bool(s.rx.search(dem))
    def applies(s, ex, st, args):
        return s.when is None or s.when(ex, st, args)
    def call(s, ex, st, fname, args, rty):
        r = s.fn(ex, st, fname, args, rty)
        if isinstance(r, list): return r
        return [(st, r)]

def event(name, rx, ret=None):
    """an opaque operation: recorded in the trace, no other effect, returns ret(ex, st, args, rty)"""
    def f(ex, st, fname, args, rty):
        st.trace.append((name,) + tuple(args))
        if ret: return ret(ex, st, args, rty)
        return fresh_value(ex, rty, name)
    return Contract(name, rx, f)
def fresh_value(ex, rty, name):
    t = ex.mod.res(rty) if rty is not None else ('void',)
    if t[0] == 'void': return None
    if t[0] == 'i': return bv.fresh(name, t[1])
    if t[0] == 'ptr': return Ptr(None, bv.fresh(name, 64))
    raise Unsupported('opaque result %r' % (t,))

def c_div(w, packed):
    def f(ex, st, fname, args, rty):
        a, b = ex.as_int(args[0], w), ex.as_int(args[1], w)
        q = ex.binop(st, 'sdiv', ('i', w), a, b, ()); r = ex.binop(st, 'srem', ('i', w), a, b, ())
        if packed:
            return z3.Concat(V(r, w), V(q, w))
        return (q, r)
    return f
CDIV = [Contract('C library div', r'^div(\(.*\))?$', c_div(32, True)), Contract('C library ldiv', r'^ldiv(\(.*\))?$', c_div(64, False)), Contract('C library lldiv', r'^lldiv(\(.*\))?$', c_div(64, False))]
