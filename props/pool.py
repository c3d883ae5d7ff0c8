"""Contracts for C01-C06: simple_resource.  The class invariant is stated over what the accessors report (data, size, at,
in_use, free_count, busy_count) in an arbitrary state of the object; `heads` is the ghost set of region starts."""
import z3
from vcg.task import Task
from vcg import bv
from vcg.bv import V, B, And, Or, Not, Implies, isint
from vcg.ll import Unsupported
from vcg.sym import Ptr, PtrInt, NULL, lin, lin_scale, lin_bv, QProp, Cand, same, UNDEF
from vcg.contracts import Contract
from vcg.res import *
from props import bits
BV = lambda v: z3.BitVecVal(v, 64)
POW2 = lambda a: And(a != 0, a & (a - 1) == 0)
def c_bits_count(ex, st, fname, args, rty):
    """bits_count(v): the index of the highest set bit plus one (proved separately, see task 'bits_count')"""
    v = ex.as_int(args[0], 64)
    if isint(v): return v.bit_length()
    r = bv.fresh('bits_count', 8); W = z3.ZeroExt(56, r)
    st.assume(z3.If(v == 0, r == 0, And(z3.ULE(1, r), z3.ULE(r, 64), z3.LShR(v, W - 1) == 1)))
    return r
def c_upstream(ex, st, fname, args, rty):
    """upstream's allocate: null or a block with the requested alignment (its interface contract); changes nothing else"""
    p = ex.as_ptr(args[0]); null_receiver(ex, st, p)
    r = bv.fresh('res_alloc', 64); a = V(ex.as_int(args[2], 64), 64)
    st.assume(Or(r == 0, Not(POW2(a)), r & (a - 1) == 0))
    r = Ptr(None, r); st.trace.append(('allocate', p, args[1], args[2], r))
    return r
def is_other(ex, st, args):
    """the receiver is a resource other than the one under test"""
    p = ex.as_ptr(args[0]); return p.obj is None or not p.obj.name.startswith('pool')
RES = [Contract('memory_resource::allocate (contract: one call to that resource, which returns null or an aligned block)', r'^utils::memory::memory_resource::allocate\(unsigned long, unsigned long\)$', c_upstream, when=is_other),
       Contract('memory_resource::deallocate (contract: one call to that resource)', r'^utils::memory::memory_resource::deallocate\(void\*\)$', c_dealloc, when=is_other)]
def c_skip(ex, st, fname, args, rty):
    """skip_to_align(p, a), a a power of two: the least number of bytes that makes the address a multiple of a (proved
    separately, see task 'skip_to_align')"""
    a = ex.as_int(args[1], 64); p = ex.addr(ex.as_ptr(args[0])); r = bv.fresh('skip', 64)
    if not isint(a) or a & (a - 1) or not a: ex.oblige(st, POW2(V(a, 64)), 'skip_to_align requires a power of two')
    st.assume(And((V(p, 64) + r) & (a - 1) == 0, z3.ULT(r, V(a, 64))))
    return r
BITS = [Contract('utils::skip_to_align (contract proved in this check)', r'^utils::skip_to_align\(void const\*, unsigned long\)$', c_skip), Contract('utils::bits_count (contract proved in this check)', r'^utils::bits_count\(unsigned long\)$', c_bits_count)]
def bits_count(c):
    st = c.state(); v = c.var('v')
    for x, r in c.call(st, 'w_bits_count', [v]):
        r = V(c.ex.as_int(r, 64), 64)
        c.post(x, z3.If(v == 0, r == 0, And(z3.ULE(1, r), z3.ULE(r, 64), z3.LShR(v, r - 1) == 1)), 'bits_count is the position of the highest set bit')

class View:
    """what the accessors report in a state"""
    def __init__(s, pool, st):
        s.p = pool; s.st = st; ex = pool.c.ex
        s.N = pool.observe(st, 'w_next'); s.P = pool.observe(st, 'w_prev'); s.U = pool.observe(st, 'w_in_use')
        s.fc = pool.scalar(st, 'w_free_count'); s.bc = pool.scalar(st, 'w_busy_count')
    def end(s, k): return z3.If(s.N(k) == 0, s.p.n, s.N(k))
class Pool:
    def __init__(s, c, st, MAX, BS, up, storage=True):
        s.c = c; s.MAX = MAX; s.BS = BS; ex = c.ex; ex.contracts = RES + BITS; ex.oneshot = True; ex.sol.first = 700
        s.up = opaque(c, st, 'upstream') if up else NULL
        if storage:
            s.n = c.var('n'); c.require(st, s.n != 0, z3.ULE(s.n, BV(MAX)))
            s.buf = c.buf(st, 'storage', s.n * BS, align=BS); s.data = Ptr(s.buf, lin(0)); size = s.n * BS
        else: s.n = BV(0); s.buf = None; s.data = NULL; size = BV(0)
        s.o = object_of(c, st, 'v_object', 'pool'); s.me = Ptr(s.o, lin(0))
        r = c.call(st, 'w_ctor3', [s.me, s.data, size, s.up])
        if len(r) != 1: raise Unsupported('constructor has several outcomes')
        s.st0 = st = r[0][0]
        for seg in ex.layout(s.o):
            if seg[1] > 1: ex.promote(st, s.o, seg)
            if seg[1] != MAX: ex.notouch.add((s.o.id, seg[0]))   # indexed by something other than a block
        s.iw = c.mod.res(c.mod.funcs['w_next'].params[1][0])[1]
        # fixed cells in canonical form
        x = st.wr(s.o)
        for off, (sz, v) in list(x.cells.items()):
            if isinstance(v, (Ptr, PtrInt)):
                p = ex.as_ptr(v)
                if storage and p.obj is s.buf and p.off[1] and ex.prove(st, lin_bv(p.off) == 0)[0] == 'ok': x.cells[off] = (sz, Ptr(s.buf, lin(0)))
            elif not isint(v) and sz == 8:
                for w in (s.n, s.n * BS):
                    if ex.prove(st, v == w)[0] == 'ok': x.cells[off] = (sz, w); break
        # mutable parts: what allocate and deallocate change
        base = st.mem[s.o.id]; s.mcells = {}; s.msegs = set()
        if storage:
            probe = []
            y = st.fork(); a = bv.fresh('probe_align', 64); y.assume(POW2(a))
            for z, r in run_quiet(c, y, 'w_allocate', [s.me, bv.fresh('probe_size', 64), a]):
                probe.append(z)
                if ex.as_ptr(r).obj is s.buf: probe += [q for q, _ in run_quiet(c, z.fork(), 'w_deallocate', [s.me, r])]
            for z in probe:
                m = z.mem[s.o.id]
                for off, cell in m.cells.items():
                    if off not in base.cells or base.cells[off][0] != cell[0] or not same(base.cells[off][1], cell[1]): s.mcells[off] = cell[0]
                for k, a in m.segs.items():
                    if k not in base.segs or not base.segs[k].eq(a): s.msegs.add(k)
        s.fixed = {off: cell for off, cell in base.cells.items() if off not in s.mcells}
        s.fixedsegs = {k: a for k, a in base.segs.items() if k not in s.msegs}
        s.dom = ex.dom(s.o)
    def observe(s, st, fn):
        """the accessor's result for a block index, as a function on 64-bit index terms"""
        c = s.c; ex = c.ex
        k = z3.BitVec(bv.fresh_name('k'), 64)
        y = st.fork(); y.assume(z3.ULT(k, s.n)); base = set(y.pcids)
        r = run_quiet(c, y, fn, [s.me, z3.simplify(z3.Extract(s.iw - 1, 0, k)) if s.iw < 64 else k])
        res = None
        for z, v in r:
            v = ex.as_int(v, s.iw if fn != 'w_in_use' else 1)
            if fn == 'w_in_use': v = B(V(v, 1))
            else: v = bv.zext(V(v, s.iw), s.iw, 64)
            cond = And(*[q for q in z.pc if q.get_id() not in base])
            res = v if res is None else z3.If(cond, v, res)
        if res is None: raise Unsupported('accessor ' + fn)
        res = z3.simplify(res)
        memo = {}
        def f(i):
            i = BV(i) if isint(i) else i
            if i.get_id() not in memo: memo[i.get_id()] = (z3.simplify(z3.substitute(res, (k, i))), i)
            return memo[i.get_id()][0]
        f.res = res
        return f
    def scalar(s, st, fn):
        r = run_quiet(s.c, st.fork(), fn, [s.me])
        if len(r) != 1: raise Unsupported('accessor ' + fn)
        return V(s.c.ex.as_int(r[0][1], 64), 64)
    def arbitrary(s, counts=True, tag=''):
        """an arbitrary state satisfying the invariant; ghost['H'] is the set of heads"""
        st = s.st0.fork(); x = st.wr(s.o); vs = []
        for off, sz in s.mcells.items():
            v = z3.BitVec(bv.fresh_name('%scell%d' % (tag, off)), 8 * sz); x.cells[off] = (sz, v); vs.append(v)
        for k in s.msegs:
            v = z3.Array(bv.fresh_name('%sseg%d_%d' % (tag, k[0], k[2])), z3.BitVecSort(64), z3.BitVecSort(8 * k[3])); x.segs[k] = v; vs.append(v)
        st.trace = []
        if s.buf is None: return st, None
        w = View(s, st)
        seen = [w.N.res, w.P.res, w.U.res, w.fc, w.bc]
        for v in vs:
            from vcg.sym import mentions
            if not any(mentions(e, {v.get_id()}) for e in seen): raise Unsupported('state that no accessor reports')
        harr = z3.Array(bv.fresh_name('heads'), z3.BitVecSort(64), z3.BoolSort())
        st.ghost['H'] = lambda k: z3.Select(harr, k)
        for nm, f in s.struct(st, w, st.ghost['H']): st.assume(f)
        st.assume(s.coal(w, st.ghost['H']))
        st.assume(s.agree(w))
        if counts:
            for f in s.cards(st, w, st.ghost['H'], w.fc, w.bc): st.assume(f)
        st.touch(s.dom, BV(0))
        return st, w
    def agree(s, w):
        """the two ways of reading next indices report the same"""
        return True
    def q(s, name, fn, arity=1, w=None):
        def terms(st, *sk):
            r = [BV(0)]
            for k in sk:
                for vw in ([w] if w else []) + ([s.pre] if getattr(s, 'pre', None) else []): r += [vw.N(k), vw.P(k)]
            return r
        return QProp(name, s.dom, fn, arity, terms)
    def struct(s, st, w, H):
        n = s.n; N, P, U = w.N, w.P, w.U
        ult = z3.ULT
        return [('region 0 starts at block 0', H(BV(0))),
                ('the first region has no predecessor', P(BV(0)) == 0),
                ('next index is 0 or a later region whose previous index points back', s.q('next', lambda k: Implies(H(k), And(ult(k, n), Or(N(k) == 0, And(ult(k, N(k)), ult(N(k), n), H(N(k)), P(N(k)) == k)))), 1, w)),
                ('no region starts inside another', s.q('tile', lambda i, j: Implies(And(H(i), H(j), ult(i, j)), And(N(i) != 0, z3.ULE(N(i), j))), 2, w)),
                ('previous index is the region before', s.q('prev', lambda k: Implies(And(H(k), k != 0), And(ult(P(k), k), H(P(k)), N(P(k)) == k)), 1, w)),
                ('only regions are marked in use', s.q('used', lambda k: Implies(And(ult(k, n), U(k)), H(k)), 1, w))]
    def coal(s, w, H):
        return s.q('coalesced', lambda k: Implies(And(H(k), Not(w.U(k)), w.N(k) != 0), w.U(w.N(k))), 1, w)
    def cards(s, st, w, H, cf, cu):
        """facts about cf = number of free regions and cu = number of allocated regions (both are sizes of subsets of [0,n))"""
        n = s.n; free = lambda k: And(H(k), Not(w.U(k))); used = lambda k: And(H(k), w.U(k))
        e = [z3.BitVec(bv.fresh_name('witness'), 64) for _ in range(3)]
        for x in e: st.touch(s.dom, x); s.c.ex.lazy_terms[x.get_id()] = x
        def lazy(p): p.lazy = True; return p
        return [z3.ULE(cf, n), z3.ULE(cu, n), z3.ULE(cf + cu, n),
                lazy(QProp('card u', s.dom, lambda k: Implies(used(k), cu != 0))), lazy(QProp('card f', s.dom, lambda k: Implies(free(k), cf != 0))),
                lazy(QProp('card f2', s.dom, lambda k: Implies(And(free(k), k != e[1]), z3.ULE(2, cf)))),
                Or(cu == 0, used(e[0])), Or(cf == 0, free(e[1])), Or(z3.ULE(cf, 1), And(free(e[1]), free(e[2]), e[1] != e[2]))]
    def frame(s, st, name):
        """the fixed parts of the object and the bytes of the storage are unchanged"""
        c = s.c; m = st.mem[s.o.id]
        for off, (sz, v) in s.fixed.items():
            if off not in m.cells or m.cells[off][0] != sz: raise Unsupported('object shape changed')
            if not same(v, m.cells[off][1]): c.post(st, eq(c, st, m.cells[off][1], v, 8 * sz), name)
        for off in m.cells:
            if off not in s.fixed and off not in s.mcells: raise Unsupported('object shape changed')
        for k, a in s.fixedsegs.items():
            if not m.segs[k].eq(a): raise Unsupported('object shape changed')
        if s.buf is not None and not m is None:
            a, b = s.st0.mem[s.buf.id].barr, st.mem[s.buf.id].barr
            if a is not b and not a.eq(b): c.post(st, z3.BoolVal(False), name)
        c.post(st, True, name)
    def unchanged(s, pre, st, name):
        c = s.c; a, b = pre.mem[s.o.id], st.mem[s.o.id]; s.frame(st, name)
        for off, sz in s.mcells.items():
            if off not in b.cells or b.cells[off][0] != sz: raise Unsupported('object shape changed')
            if not same(a.cells[off][1], b.cells[off][1]): c.post(st, eq(c, st, a.cells[off][1], b.cells[off][1], 8 * sz), name)
        for k in s.msegs:
            if not a.segs[k].eq(b.segs[k]): c.post(st, QProp(name, s.dom, lambda i: z3.Select(a.segs[k], i) == z3.Select(b.segs[k], i)), name)
    def deltas(s, w, H, w2, H2, W):
        """change of the numbers of free and allocated regions, if only the indices in W change"""
        df = du = BV(0); one = BV(1)
        for i, k in enumerate(W):
            first = And(z3.ULT(k, s.n), *[k != x for x in W[:i]])
            ind = lambda b: z3.If(b, BV(1), BV(0))
            df = df + z3.If(first, ind(And(H2(k), Not(w2.U(k)))) - ind(And(H(k), Not(w.U(k)))), BV(0))
            du = du + z3.If(first, ind(And(H2(k), w2.U(k))) - ind(And(H(k), w.U(k))), BV(0))
        fr = s.q('frame of the region sets', lambda k: Or(z3.UGE(k, s.n), *([k == x for x in W] + [And(H(k) == H2(k), Or(Not(H(k)), w.U(k) == w2.U(k)))])), 1, w2)
        return df, du, fr
    def inv(s, pre, w, st, H2, W, name, coal=True, counts=True):
        """st satisfies the invariant with heads H2; only the regions starting in W differ from those of pre"""
        c = s.c; w2 = View(s, st); H = pre.ghost['H']; s.pre = w
        for x in W: st.touch(s.dom, x)
        for nm, f in s.struct(st, w2, H2): c.post(st, f, '%s: %s' % (name, nm))
        if coal: c.post(st, s.coal(w2, H2), name + ': no two neighbouring regions are free')
        if counts:
            df, du, fr = s.deltas(w, H, w2, H2, W)
            c.post(st, fr, name + ': other regions keep their state')
            c.post(st, w2.fc == w.fc + df, name + ': free_count() is the number of free regions')
            c.post(st, w2.bc == w.bc + du, name + ': busy_count() is the number of allocated regions')
        s.frame(st, name + ': nothing else changes')
        return w2

class Search:
    """loop client for the search over regions: the index is a region start and no earlier region would do"""
    def __init__(s, pool, w, H, fits): s.p = pool; s.w = w; s.H = H; s.fits = fits
    def owns(s, loc): return loc[0] == 'mem' and loc[1] == s.p.o.id   # cells of the pool are covered by the invariant
    def havoc_ghost(s, ex, entry, x, mods): pass
    def ghost_step(s, ex, entry, x, b, mods): pass
    def loop_cands(s, ex, info, entry, x):
        out = []
        for loc, md in info.mods.items():
            if md['kind'] not in ('cell', 'reg') or md['w'] not in (8, 16, 32, 64) or (md['kind'] == 'cell' and loc[1] == s.p.o.id): continue
            def val(st, loc=loc, md=md):
                v, w = ex.scalar(st, loc, md)
                if v is None: raise Unsupported('scalar')
                return V(bv.zext(v, w, 64), 64)
            def head(st, t, val=val):
                v = val(st); st.touch(s.p.dom, v); return s.H(v)
            out.append(Cand('%s is a region start' % (loc[-1],), head))
            out.append(Cand('%s is 0 or a region start' % (loc[-1],), lambda st, t, val=val: Or(val(st) == 0, s.H(val(st)))))
            out.append(Cand('no free region before %s fits' % (loc[-1],), lambda st, t, val=val: (lambda v: QProp('search', s.p.dom, lambda k: Implies(And(s.H(k), Not(s.w.U(k)), z3.ULT(k, v)), Not(s.fits(k)))))(val(st))))
        return out

def alloc(c, MAX, BS, up, which):
    st = c.state(); m = Pool(c, st, MAX, BS, up); ex = c.ex
    pre, w = m.arbitrary(); H = pre.ghost['H']
    sz = c.var('s'); a = c.var('a')
    pre.assume(POW2(a)); 
    if which == 3: pass
    c.cover(pre, 'valid state')
    base = ex.base(m.buf)
    fits = lambda k: z3.ULE(sz, (w.end(k) - k) * BS)
    ex.loop_client = Search(m, w, H, lambda k: And(z3.ULE(a, BS), fits(k)))
    pt = pre.fork()
    res = c.call(pt, 'w_allocate', [m.me, sz, a])
    for x, r in res:
        r = ex.as_ptr(r); own = r.obj is m.buf and r.obj is not None
        if own:
            off = z3.simplify(V(lin_bv(r.off), 64)); first = z3.simplify(bv.udiv(off, BS, 64)); last = z3.simplify(bv.udiv(off + (sz - 1), BS, 64))
            x.touch(m.dom, first)
            if which in (1, 2, 5): c.post(x, And(z3.ULT(off, m.n * BS), z3.ULE(sz, m.n * BS - off), sz != 0), 'the block lies inside the storage')
            if which == 1:
                c.post(x, (base + off) & (a - 1) == 0, 'the address is a multiple of the alignment')
                c.post(x, m.q('disjoint', lambda j: Implies(And(H(j), w.U(j)), Or(z3.ULE(w.end(j), first), z3.ULT(last, j))), 1, w), 'no block of a live allocation is used')
            if which in (1, 5): c.post(x, off & (BS - 1) == 0, 'the address is block aligned')
            if which == 3:
                events(c, x, [], 'upstream is not called'); c.post(x, sz != 0, 'size zero yields null')
            w2 = View(m, x); x.touch(m.dom, w2.N(first))
            H2 = lambda k: Or(H(k), k == first, k == w2.N(first))
            W = [first, w2.N(first)]
            m.inv(pre, w, x, H2, W, 'after allocate', coal=which == 2, counts=which in (2, 5))
            c.post(x, And(w2.U(first), H2(first)), 'the block starts an allocated region')
            c.post(x, z3.ULT(last, w2.end(first)), 'the allocated region covers the block')
            c.post(x, m.q('others', lambda j: Implies(And(H(j), w.U(j)), And(w2.U(j), w2.N(j) == w.N(j), j != first)), 1, w2), 'other allocations keep their regions')
            c.post(x, m.q('only one', lambda j: Implies(And(z3.ULT(j, m.n), w2.U(j)), Or(j == first, w.U(j))), 1, w2), 'only the new region becomes allocated')
        else:
            m.unchanged(pre, x, 'a request not served locally leaves the resource unchanged')
            if which == 1:
                if x.trace: c.post(x, z3.BoolVal(True), 'served upstream')
                else: c.post(x, bv.eq(ex.addr(r), 0), 'a result from nowhere is null')
            if which == 3:
                c.post(x, m.q('search', lambda k: Implies(And(H(k), Not(w.U(k)), sz != 0, z3.ULE(a, BS)), Not(fits(k))), 1, w), 'a request that fits in a free region is served locally')
                if x.trace:
                    c.post(x, sz != 0, 'size zero does not reach upstream')
                    if events(c, x, [('allocate', m.up, sz, None, None)], 'upstream is asked once for the same size'):
                        al = V(ex.as_int(x.trace[0][3], 64), 64)
                        c.post(x, And(POW2(al), z3.UGE(al, a)), 'the alignment asked of upstream is a power of two at least as strict')
                        c.post(x, eq(c, x, r, x.trace[0][4]), "upstream's answer is returned")
                else:
                    c.post(x, Or(sz == 0, z3.BoolVal(not up)), 'a request not served locally goes upstream')
                    c.post(x, bv.eq(ex.addr(r), 0), 'null otherwise')
def step_dealloc(m, w, H, w2):
    """the region set after some regions have been merged: a head stays unless its predecessor no longer leads to it"""
    return lambda k: And(H(k), Or(k == 0, w2.N(w2.P(k)) == k))
def dealloc(c, MAX, BS, up, storage, which):
    """deallocate of an arbitrary pointer value in an arbitrary state"""
    st = c.state(); m = Pool(c, st, MAX, BS, up, storage); ex = c.ex
    pre, w = m.arbitrary()
    p = c.var('p'); ptr = Ptr(None, p)
    c.cover(pre, 'valid state')
    if storage:
        H = pre.ghost['H']
        base = ex.base(m.buf); off = p - base; i = z3.simplify(bv.udiv(off, BS, 64))
        inside = And(z3.ULE(base, p), z3.ULT(off, m.n * BS)); live = And(inside, p & (BS - 1) == 0, w.U(i), H(i))
        pre.touch(m.dom, i)
    else: inside = live = z3.BoolVal(False)
    forward = And(p & (BS - 1) == 0, Not(inside), z3.BoolVal(bool(up)), p != 0)
    if which == 2: pre.assume(live)
    out, ab = c.call(pre.fork(), 'w_deallocate', [m.me, ptr], abort='ok')
    for x in ab:
        if which == 5: c.post(x, And(p != 0, Not(live), Not(forward)), 'aborts only for an invalid pointer')
        elif which == 2: c.post(x, z3.BoolVal(False), 'a live allocation can be deallocated')
    for x, _ in out:
        if which == 5: c.post(x, Or(p == 0, live, forward), 'an invalid pointer aborts')
        if x.trace:
            if which == 5:
                c.post(x, forward, 'only a pointer outside the storage goes upstream')
                events(c, x, [('deallocate', m.up, ptr)], 'upstream receives the pointer once')
        elif which == 5: c.post(x, Not(forward), 'a pointer outside the storage goes upstream')
        if storage:
            y = x.fork(); y.assume(live)
            if ex.feasible(y):
                w2 = View(m, y); y.touch(m.dom, i); y.touch(m.dom, w.N(i)); y.touch(m.dom, w.P(i)); y.touch(m.dom, w.N(w.N(i)))
                H2 = step_dealloc(m, w, H, w2); W = [i, w.N(i)]
                m.inv(pre, w, y, H2, W, 'after deallocate', coal=which == 2, counts=which in (2, 5))
                c.post(y, m.q('freed', lambda j: Implies(z3.ULT(j, m.n), w2.U(j) == And(w.U(j), j != i)), 1, w2), 'exactly the deallocated region becomes free')
                c.post(y, m.q('others', lambda j: Implies(And(H(j), w.U(j), j != i), And(w2.N(j) == w.N(j), H2(j))), 1, w2), 'other allocations keep their regions')
        y = x.fork(); y.assume(Not(live))
        if ex.feasible(y): m.unchanged(pre, y, 'otherwise the resource is unchanged')
class Sweep:
    """loop client for release: the invariant holds at every iteration and no region before the index is allocated"""
    def __init__(s, pool, w0): s.p = pool; s.w0 = w0; s.views = {}
    def scalars(s, ex, mods, entry):
        return [(loc, md) for loc, md in mods.items() if not isinstance(ex.val_at(entry, loc, md), (Ptr, PtrInt, type(UNDEF), type(None))) and md['kind'] in ('cell', 'reg') and md['w'] in (8, 16, 32, 64) and not (md['kind'] == 'cell' and loc[1] == s.p.o.id)]
    def val(s, ex, st, loc, md):
        v, w = ex.scalar(st, loc, md)
        if v is None: raise Unsupported('scalar')
        return V(bv.zext(v, w, 64), 64)
    def owns(s, loc): return loc[0] == 'mem' and loc[1] == s.p.o.id   # cells of the pool are covered by the invariant
    def havoc_ghost(s, ex, entry, x, mods):
        # facts about the state before the loop are not needed any more
        x.facts = [f for f in x.facts if f.dom != s.p.dom]; x.idx = {d: list(l) for d, l in x.idx.items() if d != s.p.dom}
        a = z3.Array(bv.fresh_name('heads'), z3.BitVecSort(64), z3.BoolSort())
        x.ghost['H'] = lambda k: z3.Select(a, k)
        x.ghost['w'] = View(s.p, x)
        x.ghost['cf'] = z3.BitVec(bv.fresh_name('free_regions'), 64); x.ghost['cu'] = z3.BitVec(bv.fresh_name('allocated_regions'), 64)
        x.ghost['vals'] = [s.val(ex, x, loc, md) for loc, md in s.scalars(ex, mods, entry)]
        x.ghost['new'] = None
        x.touch(s.p.dom, BV(0))
    def step(s, x):
        """ghost state after the work done since the loop head (idempotent)"""
        if 'cf2' in x.ghost and x.ghost['new'] is x: return
        g = x.ghost; m = s.p; w, H = g['w'], g['H']; w2 = View(m, x); H2 = step_dealloc(m, w, H, w2)
        W = []
        for v in g['vals']: W += [v, w.N(v)]
        for v in W + [w.P(v) for v in g['vals']] + [w.N(w.N(v)) for v in g['vals']]: x.touch(m.dom, v)
        m.pre = w
        df, du, fr = m.deltas(w, H, w2, H2, W)
        g['H2'] = H2; g['w2'] = w2; g['cf2'] = g['cf'] + df; g['cu2'] = g['cu'] + du; g['fr'] = fr; g['new'] = x
    def ghost_step(s, ex, entry, x, b, mods): s.step(b)
    def loop_cands(s, ex, info, entry, x):
        m = s.p
        entry.ghost.setdefault('w', s.w0)
        class Inv(Cand):
            def __init__(c, name, f): c.name = name; c.f = f
            def init(c, ex, entry): return c.f(entry, entry.ghost['H'], s.w0, s.w0.fc, s.w0.bc)
            def hyp(c, ex, entry, x, t): return c.f(x, x.ghost['H'], x.ghost['w'], x.ghost['cf'], x.ghost['cu'])
            def step(c, ex, entry, x, b, t): s.step(b); return c.f(b, b.ghost['H2'], b.ghost['w2'], b.ghost['cf2'], b.ghost['cu2'])
        class Counts(Inv):
            def hyp(c, ex, entry, x, t): return Inv.hyp(c, ex, entry, x, t) + m.cards(x, x.ghost['w'], x.ghost['H'], x.ghost['cf'], x.ghost['cu'])
            def step(c, ex, entry, x, b, t): return Inv.step(c, ex, entry, x, b, t) + [b.ghost['fr']]
        out = []
        names = [nm for nm, _ in m.struct(x, s.w0, x.ghost['H'])]
        for i, nm in enumerate(names): out.append(Inv(nm, lambda st, H, w, cf, cu, i=i: [m.struct(st, w, H)[i][1]]))
        out.append(Inv('no two neighbouring regions are free', lambda st, H, w, cf, cu: [m.coal(w, H)]))
        out.append(Counts('counts', lambda st, H, w, cf, cu: [w.fc == cf, w.bc == cu]))
        for loc, md in s.scalars(ex, info.mods, entry):
            def head(st, H, w, cf, cu, loc=loc, md=md):
                v = s.val(ex, st, loc, md); st.touch(m.dom, v); return [H(v)]
            out.append(Inv('%s is a region start' % (loc[-1],), head))
            out.append(Inv('%s is 0 or a region start' % (loc[-1],), lambda st, H, w, cf, cu, loc=loc, md=md: [Or(s.val(ex, st, loc, md) == 0, H(s.val(ex, st, loc, md)))]))
            out.append(Inv('no allocated region before %s' % (loc[-1],), lambda st, H, w, cf, cu, loc=loc, md=md: (lambda v: [QProp('swept', m.dom, lambda k: Implies(And(H(k), z3.ULT(k, v)), Not(w.U(k))))])(s.val(ex, st, loc, md))))
        return out
def release(c, MAX, BS, up):
    st = c.state(); m = Pool(c, st, MAX, BS, up); ex = c.ex
    pre, w = m.arbitrary(); c.cover(pre, 'valid state')
    sw = Sweep(m, w); ex.loop_client = sw
    for x, _ in c.call(pre.fork(), 'w_release', [m.me]):
        m.pre = w; events(c, x, [], 'release calls nothing'); m.frame(x, 'release changes only the bookkeeping')
        if 'cf' in x.ghost:
            sw.step(x); H2, w2 = x.ghost['H2'], x.ghost['w2']; c.post(x, x.ghost['fr'], 'other regions keep their state')
            c.post(x, And(w2.fc == x.ghost['cf2'], w2.bc == x.ghost['cu2']), 'counts are exact')
        else: H2, w2 = pre.ghost['H'], View(m, x)
        for nm, f in m.struct(x, w2, H2): c.post(x, f, nm)
        c.post(x, m.q('free', lambda k: Implies(z3.ULT(k, m.n), Not(w2.U(k))), 1, w2), 'no region is allocated')
        x.touch(m.dom, w2.N(BV(0)))
        c.post(x, m.coal(w2, H2), 'no two neighbouring regions are free')
        c.post(x, w2.N(BV(0)) == 0, 'one region covers all blocks'); c.post(x, w2.P(BV(0)) == 0, 'which has no predecessor')
        for f in m.cards(x, w2, H2, w2.fc, w2.bc): x.assume(f)
        c.post(x, w2.bc == 0, 'busy_count() is zero'); c.post(x, w2.fc == 1, 'free_count() is one')
def release_empty(c, MAX, BS, up):
    st = c.state(); m = Pool(c, st, MAX, BS, up, False)
    pre, _ = m.arbitrary()
    for x, _ in c.call(pre.fork(), 'w_release', [m.me]):
        events(c, x, [], 'release calls nothing'); m.unchanged(pre, x, 'release of a resource without blocks has no effect')
        c.post(x, m.scalar(x, 'w_busy_count') == 0, 'busy_count() is zero')
def destroy(c, MAX, BS, up, storage):
    st = c.state(); m = Pool(c, st, MAX, BS, up, storage)
    pre, w = m.arbitrary(); c.cover(pre, 'valid state')
    out, ab = c.call(pre.fork(), 'w_destroy', [m.me], abort='ok')
    for x in ab:
        if storage:
            H = pre.ghost['H']; e = z3.BitVec('a', 64)
            # some region is allocated: otherwise the number of allocated regions would be zero
            c.post(x, w.bc != 0, 'aborts only while some allocation is live')
        else: c.post(x, z3.BoolVal(False), 'aborts only while some allocation is live')
    for x, _ in out:
        if storage: c.post(x, m.q('none', lambda k: Implies(z3.ULT(k, m.n), Not(w.U(k))), 1, w), 'aborts whenever some allocation is live')
        events(c, x, [], 'destruction calls nothing')
def accessors(c, MAX, BS):
    st = c.state(); m = Pool(c, st, MAX, BS, 1); ex = c.ex
    pre, w = m.arbitrary(); H = pre.ghost['H']; k = c.var('k'); pre.assume(H(k)); pre.touch(m.dom, k); pre.touch(m.dom, w.N(k))
    c.cover(pre, 'valid state'); arg = z3.Extract(m.iw - 1, 0, k) if m.iw < 64 else k
    for x, r in c.call(pre.fork(), 'w_block_size', [m.me, arg]): c.post(x, V(ex.as_int(r, 64), 64) == w.end(k) - k, 'block_size() is the number of blocks of the region'); m.unchanged(pre, x, 'block_size() changes nothing')
    for x, r in c.call(pre.fork(), 'w_block_size_in_bytes', [m.me, arg]): c.post(x, V(ex.as_int(r, 64), 64) == (w.end(k) - k) * BS, 'block_size_in_bytes() is the size of the region'); m.unchanged(pre, x, 'block_size_in_bytes() changes nothing')
    for x, r in c.call(pre.fork(), 'w_infos_next', [m.me, k]): c.post(x, V(bv.zext(ex.as_int(r, m.iw), m.iw, 64), 64) == w.N(k), 'infos() and at() agree')
    for x, r in c.call(pre.fork(), 'w_size', [m.me]): c.post(x, V(ex.as_int(r, 64), 64) == m.n * BS, 'size() is the size of all blocks'); m.unchanged(pre, x, 'size() changes nothing')
    for x, r in c.call(pre.fork(), 'w_data', [m.me]): c.post(x, eq(c, x, r, m.data), 'data() is the first block'); m.unchanged(pre, x, 'data() changes nothing')
    for fn in ('w_free_count', 'w_busy_count'):
        for x, r in c.call(pre.fork(), fn, [m.me]): m.unchanged(pre, x, fn[2:] + '() changes nothing')
    z = pre.fork(); z.assume(w.bc == 0); z.touch(m.dom, w.N(BV(0)))
    c.post(z, And(w.N(BV(0)) == 0, w.fc == 1), 'with nothing allocated there is one free region covering all blocks')
def construct(c, MAX, BS, which):
    """every constructor, every buffer address and length"""
    st = c.state(); ex = c.ex; ex.contracts = RES + BITS
    up = Ptr(None, c.var('up')); n = c.var('size'); c.require(st, z3.ULE(n, BV(1 << 46)))
    dflt = None
    size = n
    if which in ('3', '2'): buf = c.buf(st, 'buffer', n); args = [Ptr(buf, lin(0)), n]
    elif which == 'null': buf = None; args = [NULL, n]
    else: size = BV(3 * BS + 5); buf = c.buf(st, 'buffer', size); args = [Ptr(buf, lin(0))]
    if which in ('3', 'null', 'arr2'): args.append(up)
    o = object_of(c, st, 'v_object', 'pool'); me = Ptr(o, lin(0))
    fn = {'3': 'w_ctor3', '2': 'w_ctor2', 'null': 'w_ctor3', 'arr': 'w_ctor_arr', 'arr2': 'w_ctor_arr2'}[which]
    c.cover(st, 'precondition')
    for x, _ in c.call(st, fn, [me] + args):
        if buf is not None: base = ex.base(buf); skip = (-base) & (BS - 1); room = z3.If(z3.ULT(skip, size), bv.udiv(size - skip, BS, 64), BV(0))
        else: skip = room = BV(0)
        cnt = z3.If(z3.ULE(room, MAX), room, BV(MAX))
        def get(f, w, *a):
            r = run_quiet(c, x.fork(), f, [me] + list(a))
            if len(r) != 1: raise Unsupported('accessor ' + f)
            return r[0][1]
        d = ex.as_ptr(get('w_data', 64)); sz = V(ex.as_int(get('w_size', 64), 64), 64)
        c.post(x, sz == cnt * BS, 'size() is the size of the largest number of whole aligned blocks that fit')
        if d.obj is not None: c.post(x, And(z3.BoolVal(d.obj is buf), cnt != 0, V(lin_bv(d.off), 64) == skip), 'data() is the first block-aligned address')
        else: c.post(x, And(bv.eq(d.off, 0), cnt == 0), 'data() is null exactly when no block fits')
        if buf is not None: c.post(x, Or(cnt == 0, z3.ULE(skip + cnt * BS, size)), 'the blocks lie inside the buffer')
        c.post(x, V(ex.as_int(get('w_busy_count', 64), 64), 64) == 0, 'nothing is allocated')
        iw = c.mod.res(c.mod.funcs['w_next'].params[1][0])[1]
        y = x.fork(); y.assume(cnt != 0)
        if ex.feasible(y):
            c.post(y, V(ex.as_int(get('w_free_count', 64), 64), 64) == 1, 'one free region')
            m = Pool.__new__(Pool); m.c = c; m.n = cnt; m.me = me; m.iw = iw; m.o = o
            for seg in ex.layout(o):
                if seg[1] > 1: ex.promote(y, o, seg)
            U, N, P = m.observe(y, 'w_in_use'), m.observe(y, 'w_next'), m.observe(y, 'w_prev'); k = c.var('k'); z = y.fork(); z.assume(z3.ULT(k, cnt))
            c.post(z, Not(U(k)), 'no block is in use'); c.post(y, And(N(BV(0)) == 0, P(BV(0)) == 0), 'the region covers all blocks')
        if which in ('2', 'arr', '3', 'arr2', 'null'):
            # the upstream used from now on: ask for more than fits
            s = c.var('s'); a = c.var('a'); q = x.fork(); q.assume(And(POW2(a), z3.UGT(s, sz), s != 0))
            if dflt is None:
                for _, dflt in run_quiet(c, x.fork(), 'w_get', []): pass
            u = up if which in ('3', 'null', 'arr2') else dflt
            for q2, r in c.call(q, 'w_allocate', [me, s, a]):
                if q2.trace: c.post(q2, eq(c, q2, q2.trace[0][1], u), 'the upstream is the given (or the default) resource'); c.post(q2, z3.BoolVal(len(q2.trace) == 1), 'one upstream call')
                else: c.post(q2, bv.eq(ex.addr(ex.as_ptr(u)), 0), 'upstream is asked whenever there is one')
INST = [(32, 8, 1), (257, 16, 0), (256, 64, 1)]
def flags(M, B_): return ('-DVMAX=%d' % M, '-DVBS=%d' % B_)
def inst(tier): return INST + ([(32, 8, 0), (1000, 64, 1), (65536, 8, 1), (65537, 64, 0), (2, 8, 1), (64, 1, 1), (65, 4096, 0)] if tier == 'thorough' else [])
def T_(nm, fn, M, b, up, *a, extra=(), w=5): return Task('%s <%d,%d>%s' % (nm, M, b, ', upstream' if up else ''), 'pool.cpp', fn, (M, b, up) + a, flags(M, b) + tuple(extra), weight=w, unroll=1)
BCT = [Task('bits_count', 'bits.cpp', bits_count), Task('skip_to_align', 'bits.cpp', bits.skip)]
def allocs(which, tier): return [T_('allocate', alloc, M, b, up, which) for M, b, up in inst(tier)]
def deallocs(which, tier, extra=()): return [T_('deallocate', dealloc, M, b, up, True, which, extra=extra, w=4) for M, b, up in inst(tier)]
def releases(tier): return [T_('release', release, M, b, up, w=6) for M, b, up in inst(tier)]
ND = ('-DNDEBUG',)
def C01(tier): return allocs(1, tier) + deallocs(1, tier) + releases(tier) + BCT
def C02(tier): return allocs(2, tier) + deallocs(2, tier) + releases(tier) + [Task('accessors <%d,%d>' % (M, b), 'pool.cpp', accessors, (M, b), flags(M, b), unroll=1) for M, b, _ in inst(tier)] + BCT
def C03(tier): return allocs(3, tier) + BCT
def C04(tier): return releases(tier) + [T_('release without blocks', release_empty, M, b, up) for M, b, up in inst(tier)]
def C05(tier): return deallocs(5, tier) + deallocs(5, tier, ND)[:3] + [T_('deallocate without blocks', dealloc, M, b, up, False, 5) for M, b, up in INST[:2]] + [T_('destroy', destroy, M, b, up, s_, extra=e) for M, b, up in inst(tier) for s_ in (True, False) for e in ((), ND)]
def C06(tier): return [Task('construct <%d,%d> %s' % (M, b, k), 'pool.cpp', construct, (M, b, k), flags(M, b), unroll=1) for M, b in sorted(set(x[:2] for x in inst(tier))) for k in ('3', '2', 'null', 'arr', 'arr2')]
UPS = 'the upstream is a resource other than this one whose allocate returns null or an address with the requested alignment, and neither call touches this resource'
HIST = 'a reachable state is any state satisfying the class invariant (established by every constructor, preserved by allocate, deallocate and release); statements about histories follow by induction on the history, with the regions marked in use standing for the live allocations'
CARD = 'free_count() and busy_count() are compared with the cardinalities of the sets of free and allocated regions through the facts: a set is empty iff its size is 0, has a second element iff its size exceeds 1, and adding or removing one element changes the size by one'
INSTA = 'the instances <max blocks, block size> <32,8>, <257,16>, <256,64> (quick; thorough adds <1000,64>, <65536,8>, <65537,64>, <2,8>, <64,1>, <65,4096>) stand for all template arguments; within an instance the number of blocks, the buffer address and every argument are arbitrary'
AL = 'alignments are powers of two'
def meta(i, *a): return {'budget': 640, 'hbudget': 60, 'harness': ('pool.cpp', ['-DPROP=%d' % i]), 'assumptions': list(a)}
META = {'C01': meta(1, UPS, HIST, AL, INSTA), 'C02': meta(2, UPS, HIST, CARD, AL, INSTA), 'C03': meta(3, UPS, HIST, AL, INSTA), 'C04': meta(4, HIST, CARD, INSTA),
        'C05': meta(5, UPS, HIST, CARD, INSTA, 'checked with and without NDEBUG'), 'C06': meta(6, INSTA, 'buffers are at most 2^46 bytes; for the array constructors one array size per instance')}
PROPS = {'C01': C01, 'C02': C02, 'C03': C03, 'C04': C04, 'C05': C05, 'C06': C06}
