"""Shared pieces of the resource specifications: opaque resources, events, comparisons, arbitrary objects of a class."""
import z3
from . import bv
from .bv import V, And, Or, Not, isint
from .ll import Unsupported
from .sym import Obj, OState, Ptr, PtrInt, NULL, UNDEF, lin, lin_bv, lin_scale, Term
from .contracts import Contract, fresh_value

def is_opaque(ex, st, args):
    p = ex.as_ptr(args[0])
    return p.obj is None and not (isint(p.off) and p.off == 0) or p.obj is not None and p.obj.kind == 'opaque'
def null_receiver(ex, st, p):
    if p.obj is None: ex.oblige(st, bv.ne(p.off, 0), 'no call on a null resource')
def c_alloc(ex, st, fname, args, rty):
    p = ex.as_ptr(args[0]); null_receiver(ex, st, p)
    r = Ptr(None, bv.fresh('res_alloc', 64))
    st.trace.append(('allocate', p, args[1], args[2], r))
    return r
def c_dealloc(ex, st, fname, args, rty):
    p = ex.as_ptr(args[0]); null_receiver(ex, st, p)
    st.trace.append(('deallocate', p, args[1])); return None
def c_equal(ex, st, fname, args, rty):
    r = z3.Bool(bv.fresh_name('res_equal'))
    st.trace.append(('equal', ex.as_ptr(args[0]), ex.as_ptr(args[1]), r)); return r
RESOURCE = [Contract('memory_resource::allocate (contract: one call to that resource, any result)', r'^utils::memory::memory_resource::allocate\(unsigned long, unsigned long\)$', c_alloc, when=is_opaque),
            Contract('memory_resource::deallocate (contract: one call to that resource)', r'^utils::memory::memory_resource::deallocate\(void\*\)$', c_dealloc, when=is_opaque)]
def opaque(c, st, name, size=64):
    o = c.ex.new_obj(st, name, size, 'opaque', align=8, default='input')
    return Ptr(o, lin(0))
def eq(c, st, a, b, w=64):
    """are two values (integers or pointers) equal?"""
    if isinstance(a, (Ptr, PtrInt)) or isinstance(b, (Ptr, PtrInt)): return c.ex.icmp(st, 'eq', ('ptr',), c.ex.as_ptr(a), c.ex.as_ptr(b))
    return V(c.ex.as_int(a, w), w) == V(c.ex.as_int(b, w), w)
def events(c, st, want, name, since=0, widths={}):
    """the calls recorded since position `since` are exactly `want` (None matches anything)"""
    tr = st.trace[since:]
    ok = len(tr) == len(want) and all(t[0] == w[0] and len(t) >= len(w) for t, w in zip(tr, want))
    if not ok:
        c.post(st, z3.BoolVal(False), '%s [calls made: %s]' % (name, ', '.join(t[0] for t in tr) or 'none')); return False
    for t, w in zip(tr, want):
        for a, b in zip(t[1:], w[1:]):
            if b is None: continue
            if isinstance(b, tuple): b, wd = b
            else: wd = 64
            c.post(st, eq(c, st, a, b, wd), name)
    if not want: c.post(st, True, name)
    return True
def object_of(c, st, glob, name, default='undef'):
    """fresh object with the type of a global of the driver"""
    g = c.mod.globals.get(glob)
    if g is None: raise Unsupported('global ' + glob)
    ty = g[1]
    return c.ex.new_obj(st, name, c.mod.size(ty), 'obj', ty=ty, align=max(g[4] or 1, c.mod.align(ty)), default=default)
def run_quiet(c, st, fname, args):
    c.ex.quiet += 1
    try:
        c.ex.push(st, fname, args, 'ROOT')
        return [(t.state, t.val) for t in c.ex.run(st) if t.kind == 'ret']
    finally: c.ex.quiet -= 1
def cells(st, o): return st.mem[o.id].cells
