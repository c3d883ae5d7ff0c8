"""Verification-condition generator: symbolic execution of LLVM IR functions with contracts, loop invariants and
ground instantiation of quantified facts. See DESIGN.md for the soundness argument and the assumptions."""
import os, subprocess, tempfile, time, re
import z3
from . import bv
from .bv import V, B, And, Or, Not, Implies, isint, low, simp
from .ack import Ack, NotSupported
from .ll import Unsupported, find_loops, Module

class Failed(Exception):
    pass

class LoopLimit(Exception):
    def __init__(s, fn, h): s.fn = fn; s.h = h; Exception.__init__(s, 'loop bound in %s' % fn)

class Budget(Exception): pass

# ------------------------------------------------------------------ values
def fp_bits(txt, t):
    import struct
    if t[0] != 'f' or t[1] not in ('float', 'double'): raise Unsupported('floating-point constant')
    d = struct.unpack('>d', bytes.fromhex(txt[2:].zfill(16)))[0] if txt.startswith('0x') else float(txt)
    return int.from_bytes(struct.pack('>f' if t[1] == 'float' else '>d', d), 'big')
class Undef:
    def __repr__(s): return 'UNDEF'
UNDEF = Undef()

def lin(c=0, ts=()): return (c & bv.mask(64), tuple(ts))
def lin_add(a, b):
    c = (a[0] + b[0]) & bv.mask(64)
    ts = list(a[1])
    for k, t in b[1]:
        for i, (k2, t2) in enumerate(ts):
            if t2.eq(t):
                s = (k + k2) & bv.mask(64)
                if s: ts[i] = (s, t)
                else: del ts[i]
                break
        else: ts.append((k, t))
    return (c, tuple(ts))
def lin_scale(v, k):
    """v: i64 value (int or BV) times constant k"""
    if isint(v): return lin(v * k)
    return (0, ((k & bv.mask(64), v),)) if k & bv.mask(64) else lin(0)
def lin_bv(a):
    r = a[0]
    for k, t in a[1]: r = bv.add(r, bv.mul(t, k, 64), 64)
    return r

OBJS = {}
class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'ty', 'align', '_base', 'const', 'default', 'bytemode', 'layout', 'fn')
    cnt = [0]
    def __init__(s, name, size, kind, ty=None, align=1, default='undef', const=False, bytemode=False, base=None):
        Obj.cnt[0] += 1
        s.id = Obj.cnt[0]; OBJS[s.id] = s; s.name = name; s.size = size; s.kind = kind; s.ty = ty; s.align = align; s._base = base
        s.const = const; s.default = default; s.bytemode = bytemode; s.layout = None; s.fn = None
    def __repr__(s): return '<%s>' % s.name

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(s, obj, off): s.obj = obj; s.off = off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.obj, s.off)
NULL = Ptr(None, 0)
class PtrInt:
    __slots__ = ('p',)
    def __init__(s, p): s.p = p
    def __repr__(s): return 'PtrInt(%s)' % s.p

class OState:
    __slots__ = ('cells', 'segs', 'barr', 'fills', 'own', 'prom')
    def __init__(s): s.cells = {}; s.segs = {}; s.barr = None; s.fills = []; s.own = None; s.prom = ()
    def copy(s):
        r = OState(); r.cells = dict(s.cells); r.segs = dict(s.segs); r.barr = s.barr; r.fills = list(s.fills); r.prom = s.prom
        return r

class Frame:
    __slots__ = ('fn', 'regs', 'blk', 'idx', 'prev', 'allocas', 'dest', 'cuts', 'iters', 'own', 'varargs')
    def __init__(s, fn): s.fn = fn; s.regs = {}; s.blk = None; s.idx = 0; s.prev = None; s.allocas = []; s.dest = None; s.cuts = {}; s.iters = {}; s.own = None; s.varargs = []
    def copy(s):
        r = Frame(s.fn); r.regs = dict(s.regs); r.blk = s.blk; r.idx = s.idx; r.prev = s.prev; r.allocas = list(s.allocas)
        r.dest = s.dest; r.cuts = dict(s.cuts); r.iters = dict(s.iters); r.varargs = s.varargs
        return r

_uid = [0]
class State:
    def __init__(s):
        s.mem = {}; s.frames = []; s.pc = []; s.pcids = set(); s.facts = []; s.idx = {}; s.trace = []; s.ghost = {}
        s.nforks = 0; s.cuts_used = 0; s.newuid()
    def newuid(s): _uid[0] += 1; s.uid = _uid[0]
    def fork(s):
        r = State.__new__(State)
        r.mem = dict(s.mem); r.frames = list(s.frames); r.pc = list(s.pc); r.pcids = set(s.pcids); r.facts = list(s.facts)
        r.idx = {k: list(v) for k, v in s.idx.items()}; r.trace = list(s.trace); r.ghost = dict(s.ghost); r.nforks = s.nforks
        r.cuts_used = s.cuts_used
        r.newuid(); s.newuid()
        return r
    def top(s):
        f = s.frames[-1]
        if f.own != s.uid:
            f = f.copy(); f.own = s.uid; s.frames[-1] = f
        return f
    def wr(s, obj):
        o = s.mem[obj.id]
        if o.own != s.uid:
            o = o.copy(); o.own = s.uid; s.mem[obj.id] = o
        return o
    def assume(s, c):
        if isinstance(c, QProp):
            s.facts.append(c); return
        c = low(c)
        if isint(c):
            if not c: s.pc.append(z3.BoolVal(False))
            return
        if z3.is_and(c):
            for x in c.children(): s.assume(x)
            return
        i = c.get_id()
        if i in s.pcids: return
        s.pcids.add(i); s.pc.append(c)
    def touch(s, dom, t):
        """register an index term for quantifier instantiation"""
        l = s.idx.setdefault(dom, [])
        if isint(t): t = z3.BitVecVal(t, 64)
        t = z3.simplify(t)
        for x in l:
            if x.eq(t): return
        l.append(t)

class QProp:
    """forall indices (BV64) in domain: fn(*idx). `terms(state, *sk)` gives extra index terms useful when proving it."""
    lazy = False
    def __init__(s, name, dom, fn, arity=1, terms=None): s.name = name; s.dom = dom; s.fn = fn; s.arity = arity; s.memo = {}; s.terms = terms
    def inst(s, *a):
        k = tuple(x.get_id() for x in a)
        if k not in s.memo: s.memo[k] = (s.fn(*a), a)
        return s.memo[k][0]

class Term:
    def __init__(s, kind, state, val=None, info=None): s.kind = kind; s.state = state; s.val = val; s.info = info

# ------------------------------------------------------------------ solver
class Solver:
    first = None; ack = None   # time for the first strategy
    def __init__(s, timeout=20000):
        s.timeout = timeout; s.time = 0.0; s.n = 0; s.alt = os.environ.get('VERIF_TIER') == 'thorough'; s.backends = {}
    def check(s, cs, timeout=None, quick=False):
        t0 = time.time(); s.n += 1
        sol = z3.SolverFor('QF_ABV') if not any_uf(cs) else z3.SolverFor('QF_AUFBV')
        sol.set('timeout', s.first if s.first else timeout or s.timeout)
        for c in cs: sol.add(c)
        r = str(sol.check())
        m = sol.model() if r == 'sat' else None
        s.time += time.time() - t0
        s.last = 'z3 ' + z3.get_version_string()
        if r == 'unknown' and s.first:
            # second strategy: without arrays, by SAT
            t0 = time.time()
            try:
                if s.ack is None: s.ack = Ack()
                cs2 = s.ack.convert(cs)
                s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'simplify', 'bit-blast', 'aig', 'sat').solver()
                s2.set('timeout', timeout or s.timeout)
                for c in cs2: s2.add(c)
                r = str(s2.check())
                if r == 'sat': m = s2.model()
                if r not in ('sat', 'unsat'): r = 'unknown'
            except NotSupported:
                sol.set('timeout', timeout or s.timeout); r = str(sol.check())
                if r == 'sat': m = sol.model()
            s.time += time.time() - t0
        if r == 'unknown' and not quick:
            r2, m2 = s.external(sol)
            if r2 != 'unknown': r, m = r2, m2
        return r, m
    def external(s, sol, secs=60):
        """second opinions on the same query"""
        t0 = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + sol.to_smt2()); nm = f.name
        try:
            for exe in (['/usr/bin/cvc5', '--tlimit=%d' % (secs * 1000), nm], ['/usr/local/bin/z3-new', '-T:%d' % secs, nm]):
                try: out = subprocess.run(exe, capture_output=True, text=True, timeout=secs + 5).stdout
                except Exception: continue
                w = out.split('\n')[0].strip()
                if w in ('sat', 'unsat'):
                    s.last = os.path.basename(exe[0]); s.time += time.time() - t0
                    return w, None
        finally:
            os.unlink(nm)
        s.time += time.time() - t0
        return 'unknown', None

_ufcache = {}
def any_uf(cs):
    for c in cs:
        if has_uf(c): return True
    return False
def has_uf(c):
    i = c.get_id()
    if i in _ufcache: return _ufcache[i][0]
    r = False
    if z3.is_app(c):
        if c.decl().kind() == z3.Z3_OP_UNINTERPRETED and c.num_args() > 0: r = True
        else: r = any(has_uf(x) for x in c.children())
    _ufcache[i] = (r, c)
    return r

# ------------------------------------------------------------------ executor
class Ob:
    __slots__ = ('name', 'fn', 'status', 'time', 'by', 'model', 'detail', 'heur')
    def __init__(s, name, fn, status, t, by, model=None, detail='', heur=False):
        s.name = name; s.fn = fn; s.status = status; s.time = t; s.by = by; s.model = model; s.detail = detail; s.heur = heur

class Exec:
    def __init__(s, mod: Module, demangle, timeout=20000):
        s.mod = mod; s.dem = demangle; s.sol = Solver(timeout); s.obs = []; s.quiet = 0; s.bases = []; s.basefacts = []; s.basemap = {}
        s.gobjs = {}; s.notouch = set(); s.lazy_terms = {}; s.contracts = []; s.used_contracts = {}; s.inlined = {}; s.externs = {}; s.root = None; s.maxsteps = 4000000; s.steps = 0
        s.loop_mode = 'unroll'; s.sym_unroll = 70; s.loop_client = None; s.cut_loops = []; s.deadline = None; s.maxstates = 4000
        s.vars = {}; s.known_false = None; s.nstates = 0
    # ---- objects
    def new_obj(s, st, name, size, kind, **kw):
        o = Obj(name, size, kind, **kw)
        st.mem[o.id] = OState(); st.mem[o.id].own = st.uid
        if o.bytemode:
            st.mem[o.id].barr = z3.Array(bv.fresh_name('bytes_' + name), z3.BitVecSort(64), z3.BitVecSort(8))
        return o
    def base(s, o):
        if o._base is None:
            o._base = z3.BitVec('base_%s_%d' % (re.sub(r'\W', '_', o.name), o.id), 64)
            o_b = o._base; sz = V(o.size, 64)
            s.basefacts.append(z3.ULE(z3.BitVecVal(4096, 64), o_b))
            s.basefacts.append(z3.ULE(sz, z3.BitVecVal(1 << 47, 64)))
            s.basefacts.append(z3.ULE(o_b, z3.BitVecVal(1 << 47, 64) - sz))
            al = max(o.align, 16 if o.kind == 'func' else 1)
            if al > 1: s.basefacts.append(o_b & (al - 1) == 0)
            for p in s.bases:
                pb = p._base; ps = V(p.size, 64)
                s.basefacts.append(z3.Or(z3.ULT(o_b + sz, pb), z3.ULT(pb + ps, o_b)))
            s.bases.append(o); s.basemap[o_b.get_id()] = o
        return o._base
    def addr(s, p):
        if p.obj is None: return p.off
        return bv.add(s.base(p.obj), lin_bv(p.off), 64)
    def gobj(s, st, name):
        """object of a global variable / function"""
        if name in s.gobjs:
            o = s.gobjs[name]
            if o.id not in st.mem: st.mem[o.id] = OState()
            return o
        if name in s.mod.funcs:
            o = Obj(name, 1, 'func', align=16); o.fn = name
        else:
            g = s.mod.globals.get(name)
            if g is None: raise Unsupported('global ' + name)
            if g[0] == 'alias': raise Unsupported('alias')
            _, ty, init, const, al = g
            o = Obj('@' + name, max(s.mod.size(ty), 1) if s.mod.res(ty)[0] != 'opaque' else 1, 'global', ty=ty, align=al or 1, const=const, default='init' if init is not None else 'input')
        s.gobjs[name] = o
        st.mem[o.id] = OState()
        return o
    # ---- constants / operands
    def const(s, st, ty, v):
        k = v[0]
        if k == 'int':
            t = s.mod.res(ty)
            if t[0] == 'i': return v[1] & bv.mask(t[1])
            raise Unsupported('int const of type %r' % (t,))
        if k == 'null': return NULL
        if k == 'undef': return UNDEF
        if k == 'glob':
            g = s.mod.globals.get(v[1])
            if g and g[0] == 'alias': return s.const(st, ('ptr',), g[1])
            return Ptr(s.gobj(st, v[1]), lin(0))
        if k == 'zero':
            t = s.mod.res(ty)
            if t[0] == 'i': return 0
            if t[0] == 'ptr': return NULL
            if t[0] == 'st': return tuple(s.const(st, x, v) for x in t[1])
            if t[0] == 'arr': return tuple(s.const(st, t[2], v) for _ in range(t[1]))
            if t[0] == 'f': return 0
        if k == 'agg': return tuple(s.const(st, t, x) for t, x in v[1])
        if k == 'bytes': return tuple(v[1])
        if k == 'fp': return fp_bits(v[1], s.mod.res(ty))
        if k == 'gep':
            p = s.const(st, ('ptr',), v[2])
            return s.gep(st, v[1], p, [(t, s.const(st, t, x)) for t, x in v[3]])
        if k == 'cast': return s.cast(st, v[1], v[2], s.const(st, v[2], v[3]), v[4])
        if k == 'bin': return s.binop(st, v[1], v[2], s.const(st, v[2], v[3]), s.const(st, v[2], v[4]), ())
        if k == 'icmp': return s.icmp(st, v[1], v[2], s.const(st, v[2], v[3]), s.const(st, v[2], v[4]))
        raise Unsupported('const %r' % (v,))
    def val(s, st, ty, v):
        if v[0] == 'reg':
            return st.frames[-1].regs[v[1]]
        return s.const(st, ty, v)
    # ---- conversions
    def as_int(s, v, w):
        if isinstance(v, PtrInt): return s.addr(v.p)
        if isinstance(v, Ptr): return s.addr(v)
        if v is UNDEF: return bv.fresh('undef', w)
        if isinstance(v, tuple): raise Unsupported('aggregate as int')
        return v
    def as_ptr(s, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, PtrInt): return v.p
        if v is UNDEF: return Ptr(None, bv.fresh('undefptr', 64))
        v = low(v)
        if not isint(v):
            # an address that was stored or copied as bytes: recover the object it points into
            k = 0; b = v
            if z3.is_app_of(v, z3.Z3_OP_BADD) and v.num_args() == 2 and z3.is_bv_value(v.arg(0)): k = v.arg(0).as_long(); b = v.arg(1)
            o = s.basemap.get(b.get_id())
            if o is not None: return Ptr(o, lin(k))
        return Ptr(None, v)
    # ---- instructions helpers
    def gep(s, st, ty, p, idx):
        p = s.as_ptr(p)
        off = lin(0); cur = ty; first = True
        for it, iv in idx:
            w = s.mod.res(it)[1]
            if isinstance(iv, PtrInt): iv = s.as_int(iv, 64)
            if iv is UNDEF: iv = bv.fresh('undef', w)
            if first:
                off = lin_add(off, lin_scale(bv.sext(iv, w, 64), s.mod.size(cur))); first = False
                continue
            t = s.mod.res(cur)
            if t[0] == 'st':
                off = lin_add(off, lin(s.mod.field_off(t, iv))); cur = t[1][iv]
            elif t[0] in ('arr', 'vec'):
                off = lin_add(off, lin_scale(bv.sext(iv, w, 64), s.mod.size(t[2]))); cur = t[2]
            else: raise Unsupported('gep into %r' % (t,))
        if p.obj is None:
            return Ptr(None, simp(bv.add(p.off, lin_bv(off), 64)))
        return Ptr(p.obj, lin_add(p.off, off))
    def cast(s, st, op, t, v, t2):
        a = s.mod.res(t); b = s.mod.res(t2)
        if op == 'ptrtoint':
            if v is UNDEF: return bv.fresh('undef', b[1])
            p = s.as_ptr(v)
            if p.obj is None: return bv.trunc(p.off, 64, b[1])
            if b[1] == 64: return PtrInt(p)
            return bv.trunc(s.addr(p), 64, b[1])
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            return Ptr(None, low(bv.zext(s.as_int(v, a[1]), a[1], 64)))
        if op == 'bitcast':
            if a == b: return v
            if a[0] in 'if' and b[0] in 'if' and s.mod.size(a) == s.mod.size(b): return v
            raise Unsupported('bitcast')
        if a[0] != 'i' or b[0] != 'i': raise Unsupported('cast ' + op)
        if op == 'trunc' and isinstance(v, PtrInt): v = s.as_int(v, 64)
        v = s.as_int(v, a[1])
        if op == 'trunc': return bv.trunc(v, a[1], b[1])
        if op == 'zext': return bv.zext(v, a[1], b[1])
        if op == 'sext': return bv.sext(v, a[1], b[1])
        raise Unsupported('cast ' + op)
    def binop(s, st, op, ty, a, b, flags):
        t = s.mod.res(ty)
        if t[0] != 'i': raise Unsupported('binop on %r' % (t,))
        w = t[1]
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt) and a.p.obj is b.p.obj:
                return low(lin_bv(lin_add(a.p.off, neg_lin(b.p.off))))
            if op == 'add':
                if isinstance(b, PtrInt) and not isinstance(a, PtrInt): a, b = b, a
                if isinstance(a, PtrInt) and not isinstance(b, PtrInt) and b is not UNDEF:
                    return PtrInt(Ptr(a.p.obj, lin_add(a.p.off, lin_scale(b, 1))))
            if op == 'sub' and isinstance(a, PtrInt) and not isinstance(b, PtrInt) and b is not UNDEF:
                return PtrInt(Ptr(a.p.obj, lin_add(a.p.off, neg_lin(lin_scale(b, 1)))))
            if op == 'and':
                p, m = (a, b) if isinstance(a, PtrInt) else (b, a)
                if isint(m) and not p.p.off[1]:
                    al = 16 if p.p.obj.kind == 'func' else p.p.obj.align
                    if m < al: return p.p.off[0] & m
            a = s.as_int(a, w); b = s.as_int(b, w)
        a = s.as_int(a, w); b = s.as_int(b, w)
        if op in ('add', 'sub', 'mul'):
            r = getattr(bv, op)(a, b, w)
            if 'nsw' in flags and not (isint(a) and isint(b)) and not s.quiet:
                A, Bb = V(a, w), V(b, w)
                if op == 'add': c = And(z3.BVAddNoOverflow(A, Bb, True), z3.BVAddNoUnderflow(A, Bb))
                elif op == 'sub': c = And(z3.BVSubNoOverflow(A, Bb), z3.BVSubNoUnderflow(A, Bb, True))
                else: c = And(z3.BVMulNoOverflow(A, Bb, True), z3.BVMulNoUnderflow(A, Bb))
                s.oblige(st, c, 'no signed overflow in ' + op)
            elif 'nsw' in flags and isint(a) and isint(b):
                x, y = bv.sgn(a, w), bv.sgn(b, w); q = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                if not (-(1 << (w - 1)) <= q < (1 << (w - 1))): s.oblige(st, z3.BoolVal(False), 'no signed overflow in ' + op)
            return r
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not (isint(b) and b): s.oblige(st, bv.ne(b, 0, w), 'division by zero')
            if isint(b) and b == 0: return bv.fresh('div0', w)
            if s.absdiv:
                if op[0] == 's': s.oblige(st, Not(And(bv.eq(a, 1 << (w - 1), w), bv.eq(b, bv.mask(w), w))), 'signed division overflow')
                e = bv.sext if op[0] == 's' else bv.zext
                q, r = s.abs_div(st, V(e(a, w, 66), 66), V(e(b, w, 66), 66))
                return low(z3.simplify(z3.Extract(w - 1, 0, q if op.endswith('div') else r)))
            if op[0] == 's' and not (isint(a) and isint(b)):
                s.oblige(st, Not(And(bv.eq(a, 1 << (w - 1), w), bv.eq(b, bv.mask(w), w))), 'signed division overflow')
            return low(getattr(bv, op)(a, b, w))
        if op in ('shl', 'lshr', 'ashr'):
            if isint(b):
                if b >= w: s.oblige(st, z3.BoolVal(False), 'shift amount below width'); return bv.fresh('badshift', w)
            else: s.oblige(st, bv.ult(b, w, w), 'shift amount below width')
            if op == 'shl' and 'nsw' in flags: s.oblige(st, bv.eq(bv.ashr(bv.shl(a, b, w), b, w), a, w), 'no signed overflow in shl')
            return low(getattr(bv, op)(a, b, w))
        if op in ('and', 'or'): return low(getattr(bv, op + '_')(a, b, w))
        if op == 'xor': return low(bv.xor(a, b, w))
        raise Unsupported('binop ' + op)
    def icmp(s, st, pred, ty, a, b):
        t = s.mod.res(ty)
        if t[0] == 'ptr' or isinstance(a, (Ptr, PtrInt)) or isinstance(b, (Ptr, PtrInt)):
            pa, pb = s.as_ptr(a), s.as_ptr(b)
            if s.cmp_log is not None:
                if pa.obj is not None and pb.obj is not None and pa.obj is not pb.obj and pred in ('eq', 'ne'): pass
                elif pa.obj is pb.obj: s.cmp_log.append((lin_bv(pa.off) if pa.obj is not None else pa.off, lin_bv(pb.off) if pb.obj is not None else pb.off, 64))
                else: s.cmp_log.append((s.addr(pa), s.addr(pb), 64))
            if pa.obj is not None and pa.obj is pb.obj:
                d = lin_add(pa.off, neg_lin(pb.off))
                if not d[1]:
                    if pred == 'eq': return 1 if d[0] == 0 else 0
                    if pred == 'ne': return 1 if d[0] else 0
                    if not pa.off[1] and isint(pa.obj.size) and pa.off[0] <= pa.obj.size and pb.off[0] <= pa.obj.size:
                        return bv.icmp(pred, pa.off[0], pb.off[0], 64)
                elif pred in ('eq', 'ne'):
                    return low(bv.icmp(pred, lin_bv(pa.off), lin_bv(pb.off), 64))
            elif pred in ('eq', 'ne'):
                for x, y in ((pa, pb), (pb, pa)):
                    if x.obj is not None and y.obj is None and isint(y.off) and y.off == 0 and not x.off[1] and isint(x.obj.size) and x.off[0] <= x.obj.size:
                        return 1 if pred == 'ne' else 0
                if pa.obj is not None and pb.obj is not None and not pa.off[1] and not pb.off[1] and isint(pa.obj.size) and isint(pb.obj.size) and pa.off[0] <= pa.obj.size and pb.off[0] <= pb.obj.size:
                    return 1 if pred == 'ne' else 0   # distinct objects are separated by a gap in the memory model
            if s.ce and pred not in ('eq', 'ne') and pa.obj is not None and pb.obj is not None and pa.obj is not pb.obj:
                s.oblige(st, z3.BoolVal(False), 'constant evaluation orders no pointers into different objects'); raise Failed()
            if pred in ('eq', 'ne') and pa.obj is not None and pb.obj is not None and pa.obj is not pb.obj:
                # pointers within (or one past) distinct objects differ; otherwise nothing is known
                r = z3.Bool(bv.fresh_name('ptreq'))
                st.assume(Implies(And(bv.ule(lin_bv(pa.off), pa.obj.size), bv.ule(lin_bv(pb.off), pb.obj.size)), Not(r)))
                return r if pred == 'eq' else Not(r)
            return low(bv.icmp(pred, s.addr(pa), s.addr(pb), 64))
        if t[0] != 'i': raise Unsupported('icmp on %r' % (t,))
        w = t[1]
        if s.cmp_log is not None: s.cmp_log.append((a, b, w))
        return low(bv.icmp(pred, s.as_int(a, w), s.as_int(b, w), w))
    cmp_log = None
    ce = False
    store_log = None
    absdiv = False
    oneshot = False    # quantified facts are instantiated in every query at once
    def abs_div(s, st, a, b):
        """truncated quotient and remainder of two integers held in 66 bits, as uninterpreted functions; any width's division is an instance"""
        a, b = z3.simplify(a), z3.simplify(b)
        S = z3.BitVecSort(66)
        Q = z3.Function('int_quot', S, S, S)(a, b); R = z3.Function('int_rem', S, S, S)(a, b)
        st.assume(z3.Implies(b != 0, R == a - Q * b))
        return Q, R
    # ---- obligations
    def where(s, st):
        if not st.frames: return 'root'
        return s.dem(st.frames[-1].fn.name)
    def instances(s, st, few=0):
        out = []
        for f in st.facts:
            if few and (f.lazy or f.arity > few): continue
            if f.arity == 0:
                out.append(f.inst()); continue
            l = st.idx.get(f.dom, [])
            if few: l = [x for x in l if x.get_id() not in s.lazy_terms]
            if f.arity == 1: cs = [(x,) for x in l]
            else: cs = [(x, y) for x in l for y in l]
            for c in cs:
                g = f.inst(*c)
                if isinstance(g, (bool, int)) :
                    if not g: out.append(z3.BoolVal(False))
                    continue
                if z3.is_true(g): continue
                out.append(g)
        return out
    def query(s, st, goal, timeout=None, arity=0):
        """is pc and not goal unsatisfiable?  -> ('unsat'|'sat'|'unknown', model)"""
        g = Not(goal)
        g = z3.simplify(g)
        if z3.is_false(g): s.sol.last = 'simplifier'; return 'unsat', None
        base = st.pc + [g]
        if s.oneshot:
            if s.lazy_terms:   # fewer assumptions first
                for few in (1, 2)[arity > 1:]:
                    r, m = s.sol.check(s.basefacts + base + s.instances(st, few), timeout, quick=True)
                    if r == 'unsat': return r, m
            return s.sol.check(s.basefacts + base + s.instances(st), timeout)
        r, m = s.sol.check(s.basefacts + base, timeout)
        if r != 'unsat' and st.facts:
            ins = s.instances(st)
            r, m = s.sol.check(s.basefacts + base + ins, timeout)
        return r, m
    def feasible(s, st, c=None):
        if c is not None:
            c = z3.simplify(c)
            if z3.is_false(c): return False
        cs = s.basefacts + st.pc + ([c] if c is not None else [])
        if s.oneshot: return s.sol.check(cs + s.instances(st), 10000)[0] != 'unsat'
        r, _ = s.sol.check(cs, 10000)
        if r == 'unsat': return False
        if st.facts:
            r, _ = s.sol.check(cs + s.instances(st), 10000)
        return r != 'unsat'
    def prove(s, st, goal):
        """goal: BoolRef / int / QProp. Returns (status, model, time)."""
        t0 = time.time()
        if isinstance(goal, QProp):
            st = st.fork()
            sk = [z3.BitVec(bv.fresh_name('sk_' + goal.name), 64) for _ in range(goal.arity)]
            for k in sk: st.touch(goal.dom, k)
            if goal.terms:
                for x in goal.terms(st, *sk): st.touch(goal.dom, x)
            arity = goal.arity; goal = goal.fn(*sk)
        else: arity = 0
        if isinstance(goal, (bool, int)): goal = z3.BoolVal(bool(goal))
        r, m = s.query(st, goal, arity=arity)
        return {'unsat': 'ok', 'sat': 'fail', 'unknown': 'unknown'}[r], m, time.time() - t0
    def oblige(s, st, cond, name, assume=True):
        if isinstance(cond, (bool, int)): cond = z3.BoolVal(bool(cond))
        if s.quiet:
            st.assume(cond); return True
        c = cond if isinstance(cond, QProp) else z3.simplify(cond)
        if not isinstance(c, QProp) and (z3.is_true(c) or c.get_id() in st.pcids):
            s.obs.append(Ob(name, s.where(st), 'ok', 0.0, 'simplifier')); return True
        status, m, t = s.prove(st, cond)
        if status == 'fail' and not s.feasible(st): status = 'ok'
        s.obs.append(Ob(name, s.where(st), status, t, s.sol.last, m, '', st.cuts_used > 0))
        if assume: st.assume(cond)
        if status != 'ok' and s.on_fail: s.on_fail(st, s.obs[-1])
        return status == 'ok'
    on_fail = None
    # ---- memory
    def check_bounds(s, st, p, size, what):
        o = p.obj
        if o.kind == 'func': raise Unsupported('access to function object')
        if o.id not in st.mem:
            s.oblige(st, z3.BoolVal(False), what + ' of a dead object ' + o.name); raise Failed()
        if not p.off[1] and isint(o.size) and isint(size):
            if p.off[0] + size <= o.size: return
            s.oblige(st, z3.BoolVal(False), what + ' in bounds of ' + o.name); raise Failed()
        off = lin_bv(p.off)
        sz = V(size, 64); os_ = V(o.size, 64)
        c = And(bv.ule(sz, os_), bv.ule(off, os_ - sz))
        if not s.oblige(st, c, what + ' in bounds of ' + o.name.split('#')[0]):
            pass
    def layout(s, o):
        """arrays inside the object's type: (start, count, stride, scalars)"""
        if o.layout is None:
            r = []
            def scal(t, base, out):
                t = s.mod.res(t)
                if t[0] == 'arr':
                    e = s.mod.size(t[2])
                    for i in range(t[1]): scal(t[2], base + i * e, out)
                elif t[0] == 'st':
                    for i, x in enumerate(t[1]): scal(x, base + s.mod.field_off(t, i), out)
                else: out.append((base, s.mod.size(t)))
            def walk(t, base):
                t = s.mod.res(t)
                if t[0] == 'arr':
                    e = s.mod.size(t[2])
                    if t[1] and e and e <= 64:
                        f = []; scal(t[2], 0, f)
                        r.append((base, t[1], e, tuple(f)))
                        if t[1] == 1: walk(t[2], base)
                        elif s.mod.res(t[2])[0] in ('arr', 'st'):
                            pass
                elif t[0] == 'st':
                    for i, x in enumerate(t[1]): walk(x, base + s.mod.field_off(t, i))
            if o.ty is not None and s.mod.res(o.ty)[0] not in ('opaque',): walk(o.ty, 0)
            o.layout = r
        return o.layout
    def init_cells(s, st, o):
        """populate the cells of an initialised global"""
        os_ = st.wr(o)
        _, ty, init, const, al = s.mod.globals[o.name[1:]]
        def put(t, v, base):
            t = s.mod.res(t)
            if v[0] == 'zero':
                os_.fills.append((base, base + s.mod.size(t), 0)); return
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]): os_.cells[base + i] = (1, b)
                return
            if t[0] == 'st' and v[0] == 'agg':
                for i, (tt, x) in enumerate(v[1]): put(tt, x, base + s.mod.field_off(t, i))
                return
            if t[0] == 'arr' and v[0] == 'agg':
                e = s.mod.size(t[2])
                for i, (tt, x) in enumerate(v[1]): put(tt, x, base + i * e)
                return
            if v[0] == 'undef': return
            os_.cells[base] = (s.mod.size(t), s.const(st, t, v))
        put(ty, init, 0)
        os_.prom = os_.prom + ('init',)
    def ostate(s, st, o):
        x = st.mem[o.id]
        if o.default == 'init' and 'init' not in x.prom:
            s.init_cells(st, o); x = st.mem[o.id]
        return x
    def dflt(s, st, o, off, size):
        """value of uninitialised/unknown memory (no overlapping cell)"""
        x = st.mem[o.id]
        for lo, hi, b in reversed(x.fills):
            if lo <= off and off + size <= hi:
                return sum(b << (8 * i) for i in range(size))
            if off < hi and lo < off + size:
                return None
        if o.default == 'undef': return bv.fresh('uninit_' + o.name, 8 * size)
        if o.default == 'input':
            nm = '%s@%d:%d' % (o.name, off, size)
            return z3.BitVec(nm, 8 * size)
        if o.default == 'init': return bv.fresh('uninit_' + o.name, 8 * size)
        raise Unsupported('default')
    def byte_at(s, st, o, off):
        x = st.mem[o.id]
        for d in range(0, 17):
            c = x.cells.get(off - d)
            if c and d < c[0]:
                sz, v = c
                if isinstance(v, Ptr): v = s.addr(v)
                elif isinstance(v, PtrInt): v = s.addr(v.p)
                elif v is UNDEF: return bv.fresh('undef', 8)
                elif isinstance(v, tuple): raise Unsupported('byte of aggregate')
                if isint(v): return v >> (8 * d) & 255
                return low(z3.simplify(z3.Extract(8 * d + 7, 8 * d, v)))
        v = s.dflt(st, o, off, 1)
        st.wr(o).cells[off] = (1, v)
        return v
    def seg_of(s, o, x, off):
        for (start, count, stride, fl) in x.prom_segs() if False else [p for p in x.prom if p != 'init']:
            if start <= off < start + count * stride: return (start, count, stride, fl)
        return None
    def promote(s, st, o, seg):
        start, count, stride, fl = seg
        x = s.ostate(st, o); x = st.wr(o)
        for fo, fs in fl:
            key = (start, stride, fo, fs)
            cells = []
            allc = {}
            for off in [k for k in x.cells if start <= k < start + count * stride and (k - start) % stride == fo]:
                sz, v = x.cells[off]
                if sz != fs: raise Unsupported('promote: cell size')
                allc[(off - start) // stride] = s.as_int(v, 8 * fs)
            dom = None
            fill = None
            for lo, hi, b in x.fills:
                if lo <= start and start + count * stride <= hi: fill = b
                elif lo < start + count * stride and start < hi: raise Unsupported('promote: partial fill')
            w = 8 * fs
            vals = set(allc.values()) if len(allc) == count and all(isint(v) for v in allc.values()) else ()
            if len(vals) == 1: arr = z3.K(z3.BitVecSort(64), V(vals.pop(), w)); allc = {}
            elif fill is not None: arr = z3.K(z3.BitVecSort(64), V(sum(fill << (8 * i) for i in range(fs)), w))
            elif o.default == 'input': arr = z3.Array('%s#%d/%d+%d:%d' % (o.name, start, stride, fo, fs), z3.BitVecSort(64), z3.BitVecSort(w))
            else: arr = z3.Array(bv.fresh_name('seg_' + o.name), z3.BitVecSort(64), z3.BitVecSort(w))
            for i, v in sorted(allc.items()): arr = z3.Store(arr, z3.BitVecVal(i, 64), V(v, w))
            x.segs[key] = arr
        for off in [k for k in x.cells if start <= k < start + count * stride]: del x.cells[off]
        x.prom = x.prom + (seg,)
    def locate(s, st, p, size):
        """-> ('cell', off) | ('seg', key, index) | ('byte', off_bv)"""
        o = p.obj; x = s.ostate(st, o)
        if x.barr is not None: return ('byte', lin_bv(p.off))
        c, ts = p.off
        if not ts:
            for seg in x.prom:
                if seg == 'init': continue
                start, count, stride, fl = seg
                if start <= c < start + count * stride:
                    fo = (c - start) % stride
                    if (fo, size) in fl: return ('seg', (start, stride, fo, size), (c - start) // stride, seg)
                    raise Unsupported('segment field mismatch')
            return ('cell', c)
        cands = []
        lay = s.layout(o)
        for seg in lay:
            start, count, stride, fl = seg
            if all(k % stride == 0 or (((1 << 64) - k) % stride == 0) for k, _ in ts):
                cc = c if c < 1 << 63 else c - (1 << 64)
                rel = cc - start
                fo = rel % stride
                if (fo, size) in fl: cands.append((0 if start <= cc < start + count * stride else 1, abs(rel), seg, fo, rel))
        if not cands:
            if isint(o.size) and o.size <= 512 and not [q for q in x.prom if q != 'init']:
                s.to_bytes(st, o); return ('byte', lin_bv(p.off))
            raise Unsupported('symbolic offset %r into %s' % (p.off, o))
        cands.sort(key=lambda z: z[:2])
        seg, fo, rel = cands[0][2:]
        start, count, stride, fl = seg
        if seg not in x.prom: s.promote(st, o, seg)
        idx = (rel - fo) // stride & bv.mask(64)
        for k, t in ts:
            q = k // stride if k % stride == 0 else (-(((1 << 64) - k) // stride))
            idx = bv.add(idx, bv.mul(t, q & bv.mask(64), 64), 64)
        s.oblige(st, bv.ult(idx, count), 'array index within bounds in ' + o.name.split('#')[0])
        return ('seg', (start, stride, fo, size), idx, seg)
    def to_bytes(s, st, o):
        x = s.ostate(st, o); x = st.wr(o)
        a = z3.Array(bv.fresh_name('bytes_' + o.name), z3.BitVecSort(64), z3.BitVecSort(8))
        full = [s.byte_at(st, o, i) for i in range(o.size)]
        for i, b in enumerate(full): a = z3.Store(a, z3.BitVecVal(i, 64), V(b, 8))
        x = st.wr(o)
        x.barr = a; x.cells = {}; x.fills = []
    def dom(s, o): return 'obj%d' % o.id
    def seg_touch(s, st, o, key, k):
        if (o.id, key[0]) not in s.notouch: st.touch(s.dom(o), k)
    def load(s, st, p, ty):
        t = s.mod.res(ty)
        if t[0] == 'st':
            return tuple(s.load(st, Ptr(p.obj, lin_add(p.off, lin(s.mod.field_off(t, i)))), x) for i, x in enumerate(t[1]))
        if t[0] == 'arr':
            e = s.mod.size(t[2])
            return tuple(s.load(st, Ptr(p.obj, lin_add(p.off, lin(i * e))), t[2]) for i in range(t[1]))
        size = s.mod.size(t)
        if t[0] not in ('i', 'ptr', 'f') or t == ('f', 'x86_fp80'):
            raise Unsupported('load of %r' % (t,))
        v = s.load_raw(st, p, size)
        if t[0] == 'f': return s.as_int(v, 8 * size)   # floating-point values are carried as their bit patterns
        if t[0] == 'ptr': return s.as_ptr(v)
        if isinstance(v, Ptr): v = PtrInt(v)
        if isinstance(v, PtrInt) and t[1] != 64: v = s.addr(v.p)
        if v is UNDEF: return bv.fresh('undef', t[1])
        if isinstance(v, PtrInt): return v
        return bv.trunc(v, 8 * size, t[1]) if t[1] != 8 * size else v
    def load_raw(s, st, p, size):
        if p.obj is None: s.raw_access(st, p, 'load')
        s.check_bounds(st, p, size, 'read')
        o = p.obj
        loc = s.locate(st, p, size)
        x = st.mem[o.id]
        if loc[0] == 'byte':
            off = loc[1]
            bs = []
            for i in range(size):
                k = V(bv.add(off, i, 64), 64)
                k = z3.simplify(k)
                st.touch(s.dom(o), k)
                bs.append(z3.Select(x.barr, k))
            return low(bs[0]) if size == 1 else z3.Concat(*reversed(bs))
        if loc[0] == 'seg':
            k = z3.simplify(V(loc[2], 64))
            s.seg_touch(st, o, loc[1], k)
            return low(z3.simplify(z3.Select(x.segs[loc[1]], k))) if z3.is_bv_value(k) else z3.Select(x.segs[loc[1]], k)
        off = loc[1]
        c = x.cells.get(off)
        if c and c[0] == size: return c[1]
        if not s.overlaps(x, off, size):
            v = s.dflt(st, o, off, size)
            if v is not None:
                st.wr(o).cells[off] = (size, v)
                return v
        bs = [V(s.byte_at(st, o, off + i), 8) for i in range(size)]
        v = bs[0] if size == 1 else z3.Concat(*reversed(bs))
        return simp(v)
    def overlaps(s, x, off, size):
        for d in range(-16, size):
            c = x.cells.get(off + d)
            if c and off + d + c[0] > off: return True
        return False
    def store(s, st, p, ty, v):
        t = s.mod.res(ty)
        if t[0] in ('st', 'arr'):
            n = len(t[1]) if t[0] == 'st' else t[1]
            if v is UNDEF: return
            for i in range(n):
                o = s.mod.field_off(t, i) if t[0] == 'st' else i * s.mod.size(t[2])
                s.store(st, Ptr(p.obj, lin_add(p.off, lin(o))), t[1][i] if t[0] == 'st' else t[2], v[i])
            return
        size = s.mod.size(t)
        if t[0] not in ('i', 'ptr', 'f') or t == ('f', 'x86_fp80'): raise Unsupported('store of %r' % (t,))
        if t[0] == 'f': v = s.as_int(v, 8 * size)
        if t[0] == 'i' and not isinstance(v, PtrInt) and v is not UNDEF:
            v = s.as_int(v, t[1])
            if t[1] != 8 * size: v = bv.zext(v, t[1], 8 * size)
        s.store_raw(st, p, size, v)
    def store_raw(s, st, p, size, v):
        if p.obj is None: s.raw_access(st, p, 'store')
        s.check_bounds(st, p, size, 'write')
        o = p.obj
        if o.const: s.oblige(st, z3.BoolVal(False), 'write to read-only ' + o.name.split('#')[0])
        loc = s.locate(st, p, size)
        x = st.wr(o)
        if loc[0] == 'byte':
            v = s.as_int(v, 8 * size)
            if s.store_log is not None: s.store_log.append((o.id, None, loc[1], size, v))
            for i in range(size):
                k = z3.simplify(V(bv.add(loc[1], i, 64), 64))
                st.touch(s.dom(o), k)
                b = v >> (8 * i) & 255 if isint(v) else (v if size == 1 else z3.Extract(8 * i + 7, 8 * i, v))
                x.barr = z3.Store(x.barr, k, V(b, 8))
            return
        if loc[0] == 'seg':
            k = z3.simplify(V(loc[2], 64)); s.seg_touch(st, o, loc[1], k)
            if s.store_log is not None: s.store_log.append((o.id, loc[1], loc[2], 1, s.as_int(v, 8 * size)))
            x.segs[loc[1]] = z3.Store(x.segs[loc[1]], k, V(s.as_int(v, 8 * size), 8 * size))
            return
        s.clear(st, o, loc[1], size)
        st.wr(o).cells[loc[1]] = (size, v)
    def clear(s, st, o, off, size):
        """make room for [off,off+size): split cells that overlap partially"""
        x = st.wr(o)
        c = x.cells.get(off)
        if c and c[0] == size: return
        if size > 64: keys = [k for k in x.cells if k < off + size and k + x.cells[k][0] > off]
        else: keys = [off + d for d in range(-16, size) if (off + d) in x.cells and off + d + x.cells[off + d][0] > off]
        for k in keys:
            sz, v = x.cells[k]
            if k >= off and k + sz <= off + size: del x.cells[k]; continue
            bs = [s.byte_at(st, o, k + i) for i in range(sz)]
            x = st.wr(o); del x.cells[k]
            for i, b in enumerate(bs):
                if not (off <= k + i < off + size): x.cells[k + i] = (1, b)
    def raw_access(s, st, p, what):
        """access through an integer address: null is a violation, anything else is outside the model"""
        a = p.off
        if isint(a) and a < 4096:
            s.oblige(st, z3.BoolVal(False), what + ' through a null pointer'); raise Failed()
        if not isint(a) and not s.quiet:
            r = s.prove(st, bv.ne(a, 0))[0]
            if r != 'ok': s.oblige(st, bv.ne(a, 0), what + ' through a possibly null pointer')
        raise Unsupported('%s through a raw pointer %s' % (what, a))
    # ---- memory block operations
    def array_owner(s, *a):
        A = a[-1]
        while z3.is_store(A): A = A.arg(0)
        for st in a[:-1]:
            for oid, x in st.mem.items():
                for B_ in ([x.barr] if x.barr is not None else []) + list(x.segs.values()):
                    while z3.is_store(B_): B_ = B_.arg(0)
                    if B_.eq(A): return oid
        return None
    def mem_set(s, st, p, val, n):
        n = simp(n) if not isint(n) else n
        if isint(n) and n == 0: return
        if p.obj is None: s.raw_access(st, p, 'memset')
        o = p.obj
        s.check_bounds_n(st, p, n, 'memset')
        if o.const: s.oblige(st, z3.BoolVal(False), 'write to read-only ' + o.name)
        x = s.ostate(st, o); x = st.wr(o)
        if x.barr is None and isint(n) and not p.off[1] and isint(val):
            lo, hi = p.off[0], p.off[0] + n
            for seg in x.prom:
                if seg == 'init': continue
                a, b = seg[0], seg[0] + seg[1] * seg[2]
                if lo <= a and b <= hi:
                    for key in list(x.segs):
                        if key[0] == seg[0]:
                            x.segs[key] = z3.K(z3.BitVecSort(64), z3.BitVecVal(sum(val << (8 * i) for i in range(key[3])), 8 * key[3]))
                elif a < hi and lo < b: raise Unsupported('memset over part of a segment')
            s.clear(st, o, lo, n); x = st.wr(o)
            for k in [k for k in x.cells if lo <= k < hi]: del x.cells[k]
            if x.fills and x.fills[-1][1] == lo and x.fills[-1][2] == val: x.fills[-1] = (x.fills[-1][0], hi, val)
            else: x.fills.append((lo, hi, val))
            return
        if x.barr is None: s.to_bytes(st, o); x = st.wr(o)
        old = x.barr; off = V(lin_bv(p.off), 64); N = V(n, 64); b = V(val, 8)
        new = z3.Array(bv.fresh_name('memset_' + o.name), z3.BitVecSort(64), z3.BitVecSort(8))
        x.barr = new
        st.facts.append(QProp('memset', s.dom(o), lambda k: z3.Select(new, k) == z3.If(z3.ULT(k - off, N), b, z3.Select(old, k))))
        st.touch(s.dom(o), z3.simplify(off))
    def check_bounds_n(s, st, p, n, what):
        if p.obj.id not in st.mem: s.oblige(st, z3.BoolVal(False), what + ' of a dead object'); raise Failed()
        o = p.obj
        if isint(n) and not p.off[1] and isint(o.size):
            if p.off[0] + n <= o.size: return
            s.oblige(st, z3.BoolVal(False), what + ' in bounds of ' + o.name); raise Failed()
        off = lin_bv(p.off); os_ = V(o.size, 64); N = V(n, 64)
        s.oblige(st, z3.Or(N == 0, And(z3.ULE(N, os_), bv.ule(off, os_ - N))), what + ' in bounds of ' + o.name.split('#')[0])
    def mem_copy(s, st, d, sp, n, overlap_ok):
        n = simp(n) if not isint(n) else n
        if isint(n) and n == 0: return
        if d.obj is None: s.raw_access(st, d, 'memcpy')
        if sp.obj is None: s.raw_access(st, sp, 'memcpy')
        s.check_bounds_n(st, d, n, 'memcpy destination'); s.check_bounds_n(st, sp, n, 'memcpy source')
        if d.obj.const: s.oblige(st, z3.BoolVal(False), 'write to read-only ' + d.obj.name)
        so, do = sp.obj, d.obj
        if so is do and not overlap_ok:
            df = V(lin_bv(lin_add(d.off, neg_lin(sp.off))), 64); N = V(n, 64)
            s.oblige(st, z3.Or(df == 0, N == 0, And(z3.UGE(df, N), z3.UGE(-df, N))), 'memcpy ranges do not overlap')
        xs = s.ostate(st, so); xd = s.ostate(st, do)
        if isint(n) and not d.off[1] and not sp.off[1] and xs.barr is None and xd.barr is None and not [q for q in xs.prom + xd.prom if q != 'init']:
            lo = sp.off[0]
            got = []; i = 0
            while i < n:
                c = xs.cells.get(lo + i)
                if c and i + c[0] <= n: got.append((i, c)); i += c[0]; continue
                # choose the natural scalar at this place if nothing is there yet
                w = 1
                if not c:
                    w = s.scalar_at(so, lo + i, n - i)
                    while w > 1 and s.overlaps(xs, lo + i, w): w //= 2
                if w > 1:
                    v = s.dflt(st, so, lo + i, w)
                    if v is not None:
                        if so.default == 'input': st.wr(so).cells[lo + i] = (w, v); xs = st.mem[so.id]
                        got.append((i, (w, v))); i += w; continue
                got.append((i, (1, s.byte_at(st, so, lo + i)))); xs = st.mem[so.id]; i += 1
            s.clear(st, do, d.off[0], n)
            xd = st.wr(do)
            for k in [k for k in xd.cells if d.off[0] <= k < d.off[0] + n]: del xd.cells[k]
            for i, c in got: xd.cells[d.off[0] + i] = c
            return
        if xs.barr is None: s.to_bytes(st, so)
        if xd.barr is None: s.to_bytes(st, do)
        src = st.mem[so.id].barr; x = st.wr(do); old = x.barr
        doff = V(lin_bv(d.off), 64); soff = V(lin_bv(sp.off), 64); N = V(n, 64)
        if isint(n) and n <= 64:
            a = old
            for i in range(n):
                ks = z3.simplify(soff + i); kd = z3.simplify(doff + i)
                st.touch(s.dom(so), ks); st.touch(s.dom(do), kd)
                a = z3.Store(a, kd, z3.Select(src, ks))
            x.barr = a; return
        new = z3.Array(bv.fresh_name('memcpy_' + do.name), z3.BitVecSort(64), z3.BitVecSort(8))
        x.barr = new
        st.facts.append(QProp('memcpy', s.dom(do), lambda k: z3.Select(new, k) == z3.If(z3.ULT(k - doff, N), z3.Select(src, k - doff + soff), z3.Select(old, k))))
        if so is not do:
            st.facts.append(QProp('memcpy_s', s.dom(so), lambda k: (lambda q: z3.Select(new, q) == z3.If(z3.ULT(q - doff, N), z3.Select(src, q - doff + soff), z3.Select(old, q)))(k - soff + doff)))
        st.touch(s.dom(do), z3.simplify(doff)); st.touch(s.dom(so), z3.simplify(soff))
    def scalar_at(s, o, off, mx):
        for (b, sz) in s.scalars(o):
            if b == off and sz <= mx: return sz
        return 1
    def scalars(s, o):
        if o.ty is None: return ()
        k = ('scal', o.ty)
        c = s.vars.get(k)
        if c is None:
            c = []
            def scal(t, base):
                t = s.mod.res(t)
                if t[0] == 'arr':
                    e = s.mod.size(t[2])
                    if t[1] * e > 4096: return
                    for i in range(t[1]): scal(t[2], base + i * e)
                elif t[0] == 'st':
                    for i, x in enumerate(t[1]): scal(x, base + s.mod.field_off(t, i))
                else: c.append((base, s.mod.size(t)))
            scal(o.ty, 0); s.vars[k] = c
        return c

    # ---- control
    def push(s, st, fname, args, dest):
        fn = s.mod.funcs[fname]
        if fn.declared: raise Unsupported('no body: ' + s.dem(fname))
        if len(st.frames) > 120: raise Unsupported('call depth (recursion) in ' + s.dem(fname))
        f = Frame(fn); f.own = st.uid; f.dest = dest
        for (t, nm, at), v in zip(fn.params, args): f.regs[nm] = v
        f.varargs = args[len(fn.params):]
        f.blk = fn.order[0]; f.idx = 0
        st.frames.append(f)
        s.inlined[fname] = s.inlined.get(fname, 0) + 1
    def goto(s, st, label, region):
        """transfer to block `label` of the top frame. Returns list of states that continue."""
        f = st.top()
        fn = f.fn
        loops, irr = find_loops(fn)
        depth = len(st.frames)
        if region is not None and depth == region.depth and fn is region.fn:
            if label == region.header and f.blk in region.body:
                # back edge
                f.prev = f.blk; region.backs.append(st); return []
            if label not in region.body:
                region.exits += 1; return []
        prev = f.blk
        f.prev = prev; f.blk = label; f.idx = 0
        if label in loops:
            if irr: raise Unsupported('irreducible loop in ' + fn.name)
            body = loops[label]
            back = prev in body
            if back:
                if label in f.cuts: return []          # inductive step was proved by cut_loop
                it = f.iters.get(label)
                n, fk = it
                f.iters[label] = (n + 1, fk)
                if n > 400000 or st.nforks - fk > s.sym_unroll: raise LoopLimit(fn.name, label)
            else:
                f.cuts.pop(label, None)
                if s.loop_mode == 'cut' or (fn.name, label) in s.force_cut:
                    return s.cut_loop(st, label)
                f.iters[label] = (0, st.nforks)
        return [st]
    force_cut = frozenset()
    def do_phis(s, st):
        f = st.frames[-1]; blk = f.fn.blocks[f.blk]
        if f.idx == 0 and blk and blk[0].op == 'phi':
            f = st.top(); vals = []
            i = 0
            while blk[i].op == 'phi':
                ins = blk[i]
                for l, v in ins.a[0]:
                    if l == f.prev:
                        vals.append((ins.res, s.val(st, ins.ty, v))); break
                else: raise Unsupported('phi')
                i += 1
            for r, v in vals: f.regs[r] = v
            f.idx = i
    def run(s, st, region=None):
        """explore from st; returns terminal states (root return / abort)"""
        work = [st]; out = []; s_region = region
        while work:
            st = work.pop()
            if s.deadline and time.time() > s.deadline: raise Budget()
            if len(work) > s.maxstates: raise Unsupported('too many paths')
            try:
                r = s.run1(st, region, out)
            except Failed:
                r = []
            work.extend(reversed(r))
        return out
    def run1(s, st, region, out):
        while True:
            f = st.frames[-1]
            blk = f.fn.blocks[f.blk]
            if f.idx == 0 and blk[0].op == 'phi' : s.do_phis(st)
            f = st.top()
            ins = blk[f.idx]
            s.steps += 1
            if s.steps > s.maxsteps: raise Unsupported('step limit')
            op = ins.op
            if op == 'ret':
                v = s.val(st, ins.ty, ins.a[0]) if ins.a else None
                if region is not None and len(st.frames) <= region.depth: region.exits += 1; return []
                st.frames.pop()
                for o in f.allocas: st.mem.pop(o.id, None)
                if not st.frames or f.dest == 'ROOT':
                    out.append(Term('ret', st, v)); return []
                if f.dest and f.dest != '-': st.top().regs[f.dest] = v
                continue
            if op == 'br':
                r = s.goto(st, ins.a[0], region)
                if len(r) == 1 and r[0] is st: continue
                return r
            if op == 'condbr':
                c = s.val(st, ('i', 1), ins.a[0])
                if c is UNDEF: c = bv.fresh('undef', 1)
                c = simp(c)
                if isint(c):
                    r = s.goto(st, ins.a[1] if c else ins.a[2], region)
                    if len(r) == 1 and r[0] is st: continue
                    return r
                pa, pb = s.panics(f.fn, ins.a[1]), s.panics(f.fn, ins.a[2])
                if pa and not pb:
                    s.oblige(st, Not(c), pa); r = s.goto(st, ins.a[2], region)
                    if len(r) == 1 and r[0] is st: continue
                    return r
                if pb and not pa:
                    s.oblige(st, c, pb); r = s.goto(st, ins.a[1], region)
                    if len(r) == 1 and r[0] is st: continue
                    return r
                i = c.get_id()
                if i in st.pcids: ta, tb = True, False
                elif Not(c).get_id() in st.pcids: ta, tb = False, True
                else:
                    ta = s.feasible(st, c); tb = s.feasible(st, Not(c)) if ta else True
                if ta and tb:
                    st2 = st.fork(); st.nforks += 1; st2.nforks += 1
                    st.assume(c); st2.assume(Not(c))
                    return s.goto(st, ins.a[1], region) + s.goto(st2, ins.a[2], region)
                if ta: st.assume(c)
                else: st.assume(Not(c))
                r = s.goto(st, ins.a[1] if ta else ins.a[2], region)
                if len(r) == 1 and r[0] is st: continue
                return r
            if op == 'switch':
                w = s.mod.res(ins.ty)[1]
                v = simp(s.as_int(s.val(st, ins.ty, ins.a[0]), w))
                if isint(v):
                    tgt = ins.a[1]
                    for cv, l in ins.a[2]:
                        if cv & bv.mask(w) == v: tgt = l
                    r = s.goto(st, tgt, region)
                    if len(r) == 1 and r[0] is st: continue
                    return r
                res = []; neg = []
                for cv, l in ins.a[2]:
                    c = V(v, w) == V(cv & bv.mask(w), w); neg.append(Not(c))
                    if s.feasible(st, c):
                        x = st.fork(); x.nforks += 1; x.assume(c); res += s.goto(x, l, region)
                d = And(*neg)
                if s.feasible(st, d):
                    st.nforks += 1; st.assume(d); res += s.goto(st, ins.a[1], region)
                return res
            if op == 'call':
                r = s.call(st, ins, region, out)
                if r is None:
                    continue
                return r
            if op == 'unreachable':
                s.oblige(st, z3.BoolVal(False), 'unreachable code is not reached'); return []
            try: s.simple(st, f, ins)
            except SelectFork as e:
                st2 = st.fork(); st.nforks += 1; st2.nforks += 1
                r = []
                for x, c, v in ((st, e.c, e.a), (st2, Not(e.c), e.b)):
                    if not s.feasible(x, c): continue
                    x.assume(c); xf = x.top(); xf.regs[ins.res] = v; xf.idx += 1; r.append(x)
                return r
            f.idx += 1
    def panics(s, fn, label):
        """block that only reports an assertion failure -> obligation name"""
        key = (fn.name, label)
        r = s.vars.get(key)
        if r is None:
            r = ''
            for ins in fn.blocks[label]:
                if ins.op == 'call' and ins.a[0][0] == 'glob' and ins.a[0][1] == '__assert_fail':
                    txt = ''
                    a = ins.a[1][0][1]
                    if a[0] == 'glob':
                        g = s.mod.globals.get(a[1])
                        if g and g[2] and g[2][0] == 'bytes': txt = g[2][1].rstrip(b'\0').decode('latin1')
                    r = 'assert(' + txt + ')'; break
                if ins.op not in ('br', 'load'): break
                if ins.op == 'br': break
            s.vars[key] = r
        return r
    def simple(s, st, f, ins):
        op = ins.op; R = f.regs
        if op == 'alloca':
            n = s.val(st, ('i', 64), ins.a[0])
            if not isint(n): raise Unsupported('variable length array')
            sz = s.mod.size(ins.ty) * n
            o = s.new_obj(st, '%s#%s' % (f.fn.name[:40], ins.res), max(sz, 1) if sz else 1, 'stack', ty=ins.ty if n == 1 else ('arr', n, ins.ty), align=s.mod.align(ins.ty))
            o.size = sz if sz else 1
            f.allocas.append(o); R[ins.res] = Ptr(o, lin(0))
        elif op == 'load':
            R[ins.res] = s.load(st, s.as_ptr(s.val(st, ('ptr',), ins.a[0])), ins.ty)
        elif op == 'store':
            v = s.val(st, ins.ty, ins.a[0]); s.store(st, s.as_ptr(s.val(st, ('ptr',), ins.a[1])), ins.ty, v)
        elif op == 'gep':
            R[ins.res] = s.gep(st, ins.ty, s.val(st, ('ptr',), ins.a[0]), [(t, s.val(st, t, v)) for t, v in ins.a[1]])
        elif op == 'bin':
            R[ins.res] = s.binop(st, ins.a[0], ins.ty, s.val(st, ins.ty, ins.a[1]), s.val(st, ins.ty, ins.a[2]), ins.flags)
        elif op == 'icmp':
            R[ins.res] = s.icmp(st, ins.a[0], ins.ty, s.val(st, ins.ty, ins.a[1]), s.val(st, ins.ty, ins.a[2]))
        elif op == 'cast':
            R[ins.res] = s.cast(st, ins.a[0], ins.a[1], s.val(st, ins.a[1], ins.a[2]), ins.ty)
        elif op == 'select':
            c = s.val(st, ('i', 1), ins.a[0]); a = s.val(st, ins.ty, ins.a[1]); b = s.val(st, ins.ty, ins.a[2])
            c = simp(s.as_int(c, 1))
            if isint(c): R[ins.res] = a if c else b
            else: R[ins.res] = s.ite(st, c, a, b, ins.ty)
        elif op == 'freeze': R[ins.res] = s.val(st, ins.ty, ins.a[0])
        elif op == 'extractvalue':
            v = s.val(st, ins.ty, ins.a[0])
            for i in ins.a[1]: v = v[i] if v is not UNDEF else UNDEF
            R[ins.res] = v
        elif op == 'insertvalue':
            v = s.val(st, ins.ty, ins.a[0]); w = s.val(st, ins.a[1], ins.a[2])
            def ins_(v, t, idx):
                if not idx: return w
                t = s.mod.res(t); n = len(t[1]) if t[0] == 'st' else t[1]
                l = list(v) if isinstance(v, tuple) else [UNDEF] * n
                l[idx[0]] = ins_(l[idx[0]], t[1][idx[0]] if t[0] == 'st' else t[2], idx[1:]); return tuple(l)
            R[ins.res] = ins_(v, ins.ty, ins.a[3])
        elif op == 'atomicrmw':
            p = s.as_ptr(s.val(st, ('ptr',), ins.a[1])); v = s.val(st, ins.ty, ins.a[2]); old = s.load(st, p, ins.ty)
            if ins.a[0] == 'xchg': nv = v
            elif ins.a[0] in ('add', 'sub', 'and', 'or', 'xor'): nv = s.binop(st, ins.a[0], ins.ty, old, v, ())
            else: raise Unsupported('atomicrmw')
            s.store(st, p, ins.ty, nv); R[ins.res] = old
        elif op in ('fence', 'nop'): pass
        else: raise Unsupported('instruction: %s' % ins.text[:80])
    def ite(s, st, c, a, b, ty):
        t = s.mod.res(ty)
        if t[0] == 'f': t = ('i', 8 * s.mod.size(t))
        if t[0] == 'i':
            return bv.If(c, s.as_int(a, t[1]), s.as_int(b, t[1]), t[1])
        if t[0] == 'ptr':
            a, b = s.as_ptr(a), s.as_ptr(b)
            if a.obj is b.obj and a.obj is not None:
                return Ptr(a.obj, lin_scale(bv.If(c, V(lin_bv(a.off), 64), V(lin_bv(b.off), 64), 64), 1))
            # two objects: let the caller fork
            raise SelectFork(c, a, b)
        raise Unsupported('select on %r' % (t,))
    # ---- calls
    def call(s, st, ins, region, out):
        f = st.top()
        callee, args, fnty = ins.a
        cv = s.val(st, ('ptr',), callee)
        cv = s.as_ptr(cv)
        if cv.obj is None or cv.obj.kind != 'func' or cv.off != lin(0):
            if cv.obj is None and isint(cv.off) and cv.off == 0:
                s.oblige(st, z3.BoolVal(False), 'call through a null function pointer'); return []
            h = s.indirect(st, cv, ins)
            if h is None: raise Unsupported('indirect call %s' % cv)
            fname = h
        else: fname = cv.obj.fn
        av = []
        for t, v, at in args:
            x = s.val(st, t, v)
            for an, aa in at:
                if an == 'byval':
                    p = s.as_ptr(x); sz = s.mod.size(aa)
                    o = s.new_obj(st, 'byval#%s' % fname[:30], sz, 'stack', ty=aa, align=s.mod.align(aa)); f.allocas.append(o)
                    s.mem_copy(st, Ptr(o, lin(0)), p, sz, False); x = Ptr(o, lin(0))
            av.append(x)
        f.idx += 1
        rty = ins.ty
        # intrinsics
        if fname.startswith('llvm.'):
            r = s.intrinsic(st, fname, args, av, rty)
            if ins.res: st.top().regs[ins.res] = r
            return None
        c = s.find_contract(st, fname, av)
        if c is not None:
            s.used_contracts[c.name] = s.used_contracts.get(c.name, 0) + 1
            res = c.call(s, st, fname, av, rty)
            # res: list of (state, value) | Term('abort')
            nxt = []
            for x in res:
                if isinstance(x, Term): out.append(x); continue
                st2, v = x
                if ins.res: st2.top().regs[ins.res] = v
                nxt.append(st2)
            if len(nxt) == 1 and nxt[0] is st: return None
            return nxt
        if fname in s.mod.funcs and not s.mod.funcs[fname].declared:
            s.push(st, fname, av, ins.res or '-')
            # region frames: nothing to do; loops at entry block cannot exist
            return None
        b = BUILTIN.get(fname)
        if b is None: raise Unsupported('external function ' + s.dem(fname))
        r = b(s, st, av, rty)
        if isinstance(r, Term):
            if region is None or True: out.append(r)
            return []
        if isinstance(r, str) and r == 'DROP': return []
        if ins.res: st.top().regs[ins.res] = r
        return None
    def indirect(s, st, cv, ins): return None
    def find_contract(s, st, fname, args):
        if not s.contracts: return None
        d = s.dem(fname)
        for c in s.contracts:
            if c.matches(d, fname) and c.applies(s, st, args): return c
        return None
    def intrinsic(s, st, nm, args, av, rty):
        if nm.startswith('llvm.va_'):
            p = s.as_ptr(av[0]); k = ('va', p.obj.id if p.obj else None, p.off[0] if p.obj else p.off)
            if nm.startswith('llvm.va_start'): st.ghost[k] = tuple(st.frames[-1].varargs)
            elif nm.startswith('llvm.va_end'): st.ghost.pop(k, None)
            elif nm.startswith('llvm.va_copy'):
                q = s.as_ptr(av[1]); st.ghost[k] = st.ghost.get(('va', q.obj.id if q.obj else None, q.off[0] if q.obj else q.off))
            return None
        if nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.va_', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.stack', 'llvm.prefetch', 'llvm.invariant')):
            if nm.startswith('llvm.assume'): return None
            return None
        if nm.startswith('llvm.memset'):
            n = s.as_int(av[2], 64); s.mem_set(st, s.as_ptr(av[0]), simp(s.as_int(av[1], 8)), n); return None
        if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
            s.mem_copy(st, s.as_ptr(av[0]), s.as_ptr(av[1]), s.as_int(av[2], 64), 'memmove' in nm); return None
        if nm == 'llvm.trap':
            s.oblige(st, z3.BoolVal(False), 'trap is not reached'); raise Failed()
        if nm.startswith('llvm.expect'): return av[0]
        if nm.startswith('llvm.is.constant'): return 0
        m = re.match(r'llvm\.(ctlz|cttz|ctpop|bswap|bitreverse|abs|umin|umax|smin|smax|fshl|fshr)\.i(\d+)', nm)
        if m:
            w = int(m.group(2)); k = m.group(1); v = s.as_int(av[0], w)
            if k in ('ctlz', 'cttz'):
                zp = av[1]
                if zp: s.oblige(st, bv.ne(v, 0, w), k + ' argument is not zero')
                return s.count_zeros(st, k, v, w)
            if k == 'ctpop':
                r = 0
                for i in range(w): r = bv.add(r, bv.and_(bv.lshr(v, i, w), 1, w), w)
                return r
            if k in ('umin', 'umax', 'smin', 'smax'):
                b = s.as_int(av[1], w); c = bv.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], v, b, w)
                return bv.If(c, v, b, w)
            if k in ('fshl', 'fshr'):
                if not isinstance(av[2], int):
                    sh = bv.urem(s.as_int(av[2], w), w, w)
                else: sh = av[2] % w
                b = s.as_int(av[1], w)
                cc = z3.Concat(V(v, w), V(b, w)); sh2 = V(bv.zext(sh, w, 2 * w), 2 * w)
                return simp(z3.Extract(2 * w - 1, w, cc << sh2) if k == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(cc, sh2)))
            if k == 'abs':
                return bv.If(bv.icmp('slt', v, 0, w), bv.sub(0, v, w), v, w)
            if k == 'bswap' and not isint(v):
                return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)])
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', nm)
        if m:
            w = int(m.group(3)); a, b = s.as_int(av[0], w), s.as_int(av[1], w); k = m.group(2)
            r = getattr(bv, k)(a, b, w)
            f = bv.zext if m.group(1) == 'u' else bv.sext
            W = 2 * w if k == 'mul' else w + 1
            full = getattr(bv, k)(f(a, w, W), f(b, w, W), W)
            return (r, low(bv.ne(full, f(r, w, W), W)))
        if nm.startswith('llvm.objectsize'): return bv.mask(64)
        raise Unsupported('intrinsic ' + nm)
    def count_zeros(s, st, k, v, w):
        """exact semantics by defining axioms (the result is unique)"""
        if isint(v):
            if v == 0: return w
            return (w - v.bit_length()) if k == 'ctlz' else ((v & -v).bit_length() - 1)
        key = ('cz', k, v.get_id(), w)
        if key in s.vars: r = s.vars[key][0]
        else:
            r = z3.BitVec(bv.fresh_name(k), w); s.vars[key] = (r, v)
        one = z3.BitVecVal(1, w); W = z3.BitVecVal(w, w)
        if k == 'ctlz':
            st.assume(z3.If(v == 0, r == W, And(z3.ULT(r, W), z3.LShR(v, (w - 1) - r) == one)))
        else:
            st.assume(z3.If(v == 0, r == W, And(z3.ULT(r, W), z3.LShR(v, r) & one == one, v & ((one << r) - 1) == 0)))
        return r
    # ---- loops by invariant
    def cut_loop(s, st, h):
        for _ in range(12):
            e = st.fork()
            try: return s.cut_loop1(e, h)
            except SplitEntry as x:
                out = []
                a = st.fork(); b = st.fork(); f = s.feasible
                if f(a, x.c): a.assume(x.c); out += s.cut_loop(a, h)
                if f(b, Not(x.c)): b.assume(Not(x.c)); out += s.cut_loop(b, h)
                return out
            except PromoteAtEntry as x:
                o = OBJS[x.oid]
                if x.key is None: s.to_bytes(st, o)
                else:
                    seg = [q for q in s.layout(o) if q[0] == x.key[0] and q[2] == x.key[1]]
                    if not seg: raise Unsupported('promotion')
                    s.promote(st, o, seg[0])
        raise Unsupported('loop memory shape')
    def cut_loop1(s, st, h):
        f = st.top(); fn = f.fn; body = find_loops(fn)[0][h]
        entry = st
        depth = len(st.frames)
        key = s.dem(fn.name) + ':loop'
        # evaluate header phis on the entry edge so they become ordinary registers
        s.do_phis(st)
        f = st.top(); start_idx = f.idx
        phis = [i.res for i in fn.blocks[h] if i.op == 'phi']
        mods = {}      # location -> dict(kind, ...)
        t = z3.BitVec(bv.fresh_name('t'), 64)
        client = s.loop_client
        def make_head(invs):
            x = entry.fork()
            xf = x.top(); xf.blk = h; xf.idx = start_idx
            for loc, md in mods.items(): s.havoc(x, loc, md, t)
            if client: client.havoc_ghost(s, entry, x, mods)
            for c in invs:
                for pr in c.hyp(s, entry, x, t): x.assume(pr)
            x.cuts_used += 1
            return x
        def explore(x):
            reg = Region(depth, fn, h, body)
            s.quiet += 1
            old = s.cmp_log; s.cmp_log = []
            olds = s.store_log; s.store_log = []
            try:
                y = x.fork()
                y.top().cuts = dict(y.top().cuts)
                s.run(y, reg)
            finally:
                s.quiet -= 1
                log = s.cmp_log; s.cmp_log = old
                slog = s.store_log; s.store_log = olds
            for b in reg.backs:
                if len(b.trace) != len(x.trace): raise Unsupported('loop performs external calls')
                # header phis take their back-edge values
                bf = b.top(); pv = bf.blk
                vals = []
                for i in fn.blocks[h]:
                    if i.op != 'phi': break
                    for l, v in i.a[0]:
                        if l == bf.prev: vals.append((i.res, s.val(b, i.ty, v)))
                for r, v in vals: bf.regs[r] = v
            return reg.backs, (log, slog)
        # 1. discover modified locations, shapes
        for rnd in range(8):
            x = make_head([])
            backs, log = explore(x)
            ch = False
            for b in backs:
                for loc, md in s.diff(x, b, entry, phis):
                    if loc not in mods: mods[loc] = md; ch = True
                # affine check
            for loc, md in list(mods.items()):
                if md['kind'] in ('cell', 'reg') and md.get('affine') != 'no':
                    d = None
                    for b in backs:
                        dd = s.delta(x, b, loc, md)
                        if dd is None or (d is not None and dd != d): d = None; break
                        d = dd
                    if d is None or not backs:
                        if md.get('affine') is not None and md['affine'] != 'no': ch = True
                        if md.get('affine') != 'no': ch = True
                        md['affine'] = 'no'
                    elif md.get('affine') is None: md['affine'] = d; ch = True
                    elif md['affine'] != d: md['affine'] = 'no'; ch = True
            if not ch: break
        else: raise Unsupported('loop frame does not stabilise in ' + s.dem(fn.name))
        # a condition inside the loop that the loop does not change: treat its two cases separately
        hvs = {md['fresh'].get_id() for md in mods.values() if 'fresh' in md} | {t.get_id()}
        for b in backs:
            for c in b.pc[len(x.pc):]:
                if not mentions(c, hvs) and not z3.is_true(z3.simplify(c)) and not fresh_in(c, x):
                    g = z3.simplify(c)
                    if s.feasible(entry, g) and s.feasible(entry, Not(g)) and any(Not(g).get_id() in bb.pcids or Not(c).get_id() in bb.pcids for bb in backs): raise SplitEntry(g)
        info = LoopInfo(fn.name, h, t, mods, entry, log)
        # 2. candidates
        cands = s.generic_cands(entry, x, mods, t, log, backs)
        if client: cands += client.loop_cands(s, info, entry, x)
        good = []
        for c in cands:
            ok = True
            s.quiet += 1
            try:
                hy = c.hyp(s, entry, x, t)
                if len(hy) == 1 and not isinstance(hy[0], QProp) and (hy[0] == 1 if isint(hy[0]) else z3.is_true(z3.simplify(hy[0]))): continue
                for pr in c.init(s, entry):
                    if s.prove(entry, pr)[0] != 'ok': ok = False; break
            except Unsupported: ok = False
            finally: s.quiet -= 1
            if ok: good.append(c)
        # 3. Houdini
        while True:
            x = make_head(good)
            backs, log = explore(x)
            for b in backs:
                for loc, md in s.diff(x, b, entry, phis):
                    if loc not in mods: raise Unsupported('loop frame')
                for loc, md in mods.items():
                    if md['kind'] not in ('cell', 'reg'): continue
                    if md.get('affine') not in (None, 'no') and s.delta(x, b, loc, md) != md['affine']: raise Unsupported('loop frame (affine)')
                    if md.get('ptrhavoc'):
                        u, v = s.val_at(x, loc, md), s.val_at(b, loc, md)
                        if s.as_ptr(u).obj is not s.as_ptr(v).obj: raise Unsupported('loop pointer changes object')
            if client:
                for b in backs: client.ghost_step(s, entry, x, b, mods)
            bad = set()
            for b in backs:
                for c in good:
                    if c in bad: continue
                    try:
                        for pr in c.step(s, entry, x, b, t):
                            if s.prove(b, pr)[0] != 'ok': bad.add(c); break
                    except Unsupported: bad.add(c)
            if not bad: break
            good = [c for c in good if c not in bad]
        # 4. termination: some scalar is strictly monotone on every back edge
        term = None
        if not backs: term = 'no back edge'
        else:
            for loc, md in mods.items():
                if md['kind'] not in ('cell', 'reg'): continue
                for pred in ('ult', 'ugt', 'slt', 'sgt'):
                    ok = True
                    for b in backs:
                        a, w = s.scalar(x, loc, md); c, _ = s.scalar(b, loc, md)
                        if a is None or c is None: ok = False; break
                        if s.prove(b, bv.icmp(pred, c, a, w))[0] != 'ok': ok = False; break
                    if ok: term = '%s %s' % (loc, pred); break
                if term: break
        if not s.quiet:
            s.obs.append(Ob('loop invariant holds initially and is preserved (%d conjuncts)' % len(good), s.dem(fn.name), 'ok', 0, s.sol.__dict__.get('last', 'z3')))
            s.obs.append(Ob('loop terminates', s.dem(fn.name), 'ok' if term else 'unknown', 0, 'z3', heur=True))
            s.cut_loops.append((s.dem(fn.name), [c.name for c in good], term))
        x = make_head(good)
        x.top().cuts[h] = True
        return [x]
    def scalar(s, st, loc, md):
        if md['kind'] == 'reg': v = st.frames[md['depth']].regs[loc[1]]; w = None
        else:
            c = st.mem.get(loc[1])
            if c is None: return None, 0
            c = c.cells.get(loc[2])
            if c is None: return None, 0
            v = c[1]; w = 8 * c[0]
        if isinstance(v, (Ptr, PtrInt)): return s.as_int(v, 64), 64
        if v is UNDEF or isinstance(v, tuple): return None, 0
        if w is None:
            w = v.size() if not isint(v) and not z3.is_bool(v) else md.get('w', 64)
        return v, w
    def val_at(s, st, loc, md):
        if md['kind'] == 'reg': return st.frames[md['depth']].regs.get(loc[1])
        o = st.mem.get(loc[1]); c = o.cells.get(loc[2]) if o else None
        return c[1] if c else None
    def delta(s, x, b, loc, md):
        """constant increment of a scalar over one iteration, or None"""
        u, v = s.val_at(x, loc, md), s.val_at(b, loc, md)
        if u is None or v is None or u is UNDEF or v is UNDEF or isinstance(u, tuple): return None
        if isinstance(u, PtrInt): u = u.p
        if isinstance(v, PtrInt): v = v.p
        if isinstance(u, Ptr) or isinstance(v, Ptr):
            if not (isinstance(u, Ptr) and isinstance(v, Ptr)): return None
            if u.obj is None or u.obj is not v.obj:
                if u.obj is None and v.obj is None:
                    d = simp(bv.sub(v.off, u.off, 64)); return ('raw', d) if isint(d) else None
                return None
            d = lin_add(v.off, neg_lin(u.off))
            if d[1]:
                q = simp(lin_bv(d))
                return ('ptr', q) if isint(q) else None
            return ('ptr', d[0])
        w = md['w']
        if w == 1 or (not isint(u) and z3.is_bool(u)) or (not isint(v) and z3.is_bool(v)): return None
        d = simp(bv.sub(v, u, w))
        return ('int', d) if isint(d) else None
    def diff(s, x, b, entry, phis):
        """locations whose content differs between head state x and back-edge state b (restricted to what exists at entry)"""
        r = []
        for oid, ex in x.mem.items():
            if oid not in b.mem: continue
            bx = b.mem[oid]
            if bx is ex: continue
            keys = set(ex.cells) | set(bx.cells)
            for k in keys:
                u, v = ex.cells.get(k), bx.cells.get(k)
                if u is None:
                    # lazily created or written for the first time
                    if v is not None and not same(v[1], entry_default(s, x, oid, k, v[0])):
                        r.append((('mem', oid, k), {'kind': 'cell', 'size': v[0], 'w': 8 * v[0]}))
                    continue
                if v is None or v[0] != u[0]: raise Unsupported('loop changes the shape of memory')
                if not same(u[1], v[1]): r.append((('mem', oid, k), {'kind': 'cell', 'size': u[0], 'w': 8 * u[0]}))
            for k in set(ex.segs) | set(bx.segs):
                if k not in ex.segs: 
                    # promoted inside the loop: promote at the entry too
                    raise PromoteAtEntry(oid, k, bx)
                if not ex.segs[k].eq(bx.segs[k]): r.append((('seg', oid, k), {'kind': 'seg', 'w': 8 * k[3]}))
            if (ex.barr is None) != (bx.barr is None): raise PromoteAtEntry(oid, None, bx)
            if ex.barr is not None and not ex.barr.eq(bx.barr): r.append((('barr', oid), {'kind': 'barr'}))
            if len(ex.fills) != len(bx.fills): raise Unsupported('memset of local in loop')
        xf, bf = x.frames[-1], b.frames[-1]
        for p in phis:
            if not same(xf.regs.get(p), bf.regs.get(p)):
                v = bf.regs.get(p)
                w = 64 if isinstance(v, (Ptr, PtrInt)) or isint(v) and False else None
                for i in xf.fn.blocks[xf.blk]:
                    if i.res == p:
                        t = s.mod.res(i.ty); w = 64 if t[0] == 'ptr' else t[1]
                r.append((('reg', p), {'kind': 'reg', 'depth': len(x.frames) - 1, 'w': w}))
        return r
    def havoc(s, x, loc, md, t):
        k = md['kind']
        if k in ('cell', 'reg'):
            if 'fresh' not in md: md['fresh'] = z3.BitVec(bv.fresh_name('h_%s' % (loc[-1],)), md['w']) if md['w'] > 1 else z3.Bool(bv.fresh_name('hb'))
            v0 = s.val_at(x, loc, md)
            a = md.get('affine')
            if a and a != 'no' and v0 is not None:
                if a[0] == 'int':
                    tt = bv.trunc(t, 64, md['w']) if md['w'] <= 64 else bv.zext(t, 64, md['w'])
                    v = bv.add(s.as_int(v0, md['w']), bv.mul(tt, a[1], md['w']), md['w'])
                elif a[0] == 'ptr':
                    p = s.as_ptr(v0); v = Ptr(p.obj, lin_add(p.off, lin_scale(t, a[1])))
                    if isinstance(v0, PtrInt): v = PtrInt(v)
                else:
                    p = s.as_ptr(v0); v = Ptr(None, bv.add(p.off, bv.mul(t, a[1], 64), 64))
            elif isinstance(v0, Ptr) and v0.obj is not None:
                v = Ptr(v0.obj, lin_scale(md['fresh'], 1))
                md['ptrhavoc'] = True
            elif isinstance(v0, PtrInt):
                v = PtrInt(Ptr(v0.p.obj, lin_scale(md['fresh'], 1))); md['ptrhavoc'] = True
            elif isinstance(v0, Ptr): v = Ptr(None, md['fresh'])
            else: v = md['fresh']
            if k == 'reg': x.top().regs[loc[1]] = v
            else:
                o = x.mem[loc[1]]
                if o.own != x.uid: o = o.copy(); o.own = x.uid; x.mem[loc[1]] = o
                o.cells[loc[2]] = (md['size'], v)
        elif k == 'seg':
            o = x.mem[loc[1]].copy(); o.own = x.uid; x.mem[loc[1]] = o
            if 'fresh' not in md: md['fresh'] = z3.Array(bv.fresh_name('hseg'), z3.BitVecSort(64), z3.BitVecSort(md['w']))
            o.segs[loc[2]] = md['fresh']
        elif k == 'barr':
            o = x.mem[loc[1]].copy(); o.own = x.uid; x.mem[loc[1]] = o
            if 'fresh' not in md: md['fresh'] = z3.Array(bv.fresh_name('hbytes'), z3.BitVecSort(64), z3.BitVecSort(8))
            o.barr = md['fresh']
    def generic_cands(s, entry, x, mods, t, logs, backs):
        """candidate invariants proposed from what one iteration does; every one kept is proved (Houdini)"""
        log, slog = logs
        out = []
        hv = set()
        for md in mods.values():
            if 'fresh' in md: hv.add(md['fresh'].get_id())
        hv.add(t.get_id())
        scal = [(loc, md) for loc, md in mods.items() if md['kind'] in ('cell', 'reg') and md['w'] in (8, 16, 32, 64) and not (s.loop_client and s.loop_client.owns(loc))]
        inv = []
        seen = set()
        for a, b, w in log:
            for v in (a, b):
                v = s.as_int(v, w) if isinstance(v, (Ptr, PtrInt)) else v
                if v is UNDEF: continue
                if isint(v): key = (v, w)
                else:
                    if mentions(v, hv): continue
                    key = (v.get_id(), w, 0)
                if key in seen: continue
                seen.add(key); inv.append((v, w))
        for loc, md in scal:
            init, w = s.scalar(entry, loc, md)
            if init is None: continue
            cs = [(init, w)] + [(v, ww) for v, ww in inv if ww >= 8][:12]
            if w == 8 and md.get('affine') == 'no': out.append(Cand('%s is a truth value' % (loc[-1],), (lambda loc, md: lambda st, t_: (lambda v, ww: bv.ule(v, 1, ww) if ww > 1 else True)(*s.scalar(st, loc, md)))(loc, md)))
            for v, ww in cs:
                W = max(w, ww)
                for pred in ('ule', 'uge', 'sle', 'sge'):
                    out.append(Cand('%s %s %s' % (loc[-1], pred, v), (lambda loc, md, v, ww, W, pred: lambda st, t_: bv.icmp(pred, ext(s, st, loc, md, W, pred), (bv.zext if pred[0] == 'u' else bv.sext)(v, ww, W), W))(loc, md, v, ww, W, pred)))
        hv.discard(t.get_id())
        bad = lambda e: (not isint(e)) and mentions(e, hv)
        # bounds on the iteration number from compared values, and "not found so far" / "found" facts for searches
        done = set()
        flags = [(loc, md) for loc, md in mods.items() if md['kind'] in ('cell', 'reg') and md.get('affine') == 'no' and md['w'] in (1, 8)]
        tt = z3.BitVec('t!cand', 64)
        for a, b_, w in log:
            if isinstance(a, (Ptr, PtrInt)) or isinstance(b_, (Ptr, PtrInt)) or a is UNDEF or b_ is UNDEF: continue
            if w < 8: continue
            if bad(a) or bad(b_): continue
            d = V(bv.sub(b_, a, w), w)
            if not mentions(d, {t.get_id()}): continue
            d0 = z3.simplify(subst(d, t, 0)); d1 = z3.simplify(subst(d, t, 1))
            c = simp(d0 - d1)
            if not isint(c) or c == 0: continue
            tw = bv.trunc(t, 64, w) if w <= 64 else bv.zext(t, 64, w)
            if simp(d - d0 + tw * c) != 0: continue
            for sg, cc in ((1, c), (-1, (-c) & bv.mask(w))):
                if cc >= 1 << (w - 1): continue
                q = d0 if sg == 1 else -d0
                q = bv.udiv(q, cc, w)
                q = bv.zext(V(q, w), w, 64)
                k = (V(q, 64).get_id(), cc == 1)
                if k in done: continue
                done.add(k)
                out.append(Cand('t <= %s' % q, (lambda q: lambda st, t_: bv.ule(t_, q))(q)))
                if cc == 1:
                    out.append(Cand('not found before t (%s)' % q, (lambda q: lambda st, t_: Not(bv.ult(q, t_)))(q)))
                    for loc, md in flags:
                        for pol in (0, 1):
                            out.append(Cand('flag %s iff found' % (loc[-1],), (lambda loc, md, q, pol: lambda st, t_: (lambda v, ww: (B(bv.ne(v, 0, ww)) if pol == 0 else B(bv.eq(v, 0, ww))) == B(bv.ult(q, t_)))(*s.scalar(st, loc, md)))(loc, md, q, pol)))
        # arrays: every store at an address affine in t with a value that depends on t and loop-invariant memory only
        asub = []
        for loc, md in mods.items():
            if md['kind'] == 'barr': asub.append((md['fresh'], entry.mem[loc[1]].barr))
            elif md['kind'] == 'seg': asub.append((md['fresh'], entry.mem[loc[1]].segs[loc[2]]))
        def norm(e):
            """value with modified arrays replaced by their contents at loop entry; None if it depends on another loop variable"""
            e = V(e, 64) if isint(e) else e
            if asub: e = z3.substitute(e, *asub)
            return None if bad(e) else e
        stores = {}
        for oid, key, k, size, v in slog:
            stores.setdefault((oid, key), [])
            kk = V(k, 64); w = 8 * size if key is None else None
            vv = V(v, 8 * size) if key is None else v
            if key is not None: vv = V(v, 8 * key[3])
            kk = norm(kk); vv = norm(vv)
            l = stores[(oid, key)]
            if kk is None or vv is None: l.append(None); continue
            k0 = z3.simplify(subst(kk, t, 0)); k1 = z3.simplify(subst(kk, t, 1)); c = simp(k1 - k0)
            if not isint(c) or simp(kk - k0 - t * c) != 0: l.append(None); continue
            it = (k0, c, size, vv)
            if not any(q and q[0].eq(k0) and q[1] == c and q[2] == size and q[3].eq(vv) for q in l): l.append(it)
        for (oid, key), l in stores.items():
            loc = ('barr', oid) if key is None else ('seg', oid, key)
            if loc not in mods: continue
            o = OBJS[oid]
            old = entry.mem[oid].barr if key is None else entry.mem[oid].segs[key]
            def arr(st, oid=oid, key=key): return st.mem[oid].barr if key is None else st.mem[oid].segs[key]
            if all(q is not None for q in l) and l:
                def mk(l, old, o, arr, guard):
                    def f(st, t_):
                        A = arr(st)
                        def body(k):
                            r = z3.Select(old, k)
                            for (k0, c, size, vv) in l:
                                cs = bv.sgn(c, 64); ac = abs(cs)
                                if ac == 0 or ac & (ac - 1): raise Unsupported('stride')
                                rel = (k - k0) if cs > 0 else (k0 + (size - 1) - k)
                                sub = simp(rel & (ac - 1)); n = z3.simplify(z3.LShR(rel, ac.bit_length() - 1))
                                if cs < 0: subi = (size - 1) - V(sub, 64)
                                else: subi = V(sub, 64)
                                val = None
                                e = subst_term(vv, t, n)
                                if size == 1: val = e
                                else:
                                    val = z3.Extract(7, 0, e)
                                    for j in range(1, size): val = z3.If(subi == j, z3.Extract(8 * j + 7, 8 * j, e), val)
                                hit = And(bv.ult(sub, size) if ac != size or size > 1 else True, z3.ULT(n, V(t_, 64)))
                                r = z3.If(hit, val, r)
                            return z3.Select(A, k) == r
                        return QProp('array after t iterations', s.dom(o), body)
                    return f
                out.append(Cand('contents of %s as a function of t' % o.name, mk(l, old, o, arr, None)))
        # conditions under which the loop goes round hold for every earlier iteration
        seenc = set()
        for bst in backs:
            for c in bst.pc[len(x.pc):]:
                e = norm(c)
                if e is None or not mentions(e, {t.get_id()}): continue
                for A, ix in selects(e):
                    if not mentions(ix, {t.get_id()}): continue
                    oid = s.array_owner(x, entry, A)
                    if oid is None: continue
                    i0 = z3.simplify(subst(ix, t, 0)); cc = simp(z3.simplify(subst(ix, t, 1)) - i0)
                    if cc not in (1, bv.mask(64)) or simp(ix - i0 - t * cc) != 0: continue
                    kk = (e.get_id(), oid, i0.get_id())
                    if kk in seenc: continue
                    seenc.add(kk)
                    out.append(Cand('condition %s held before' % str(e)[:60], (lambda e, oid, i0, cc: lambda st, t_: QProp('path condition', s.dom(OBJS[oid]), lambda k: Implies(z3.ULT((k - i0) if cc == 1 else (i0 - k), V(t_, 64)), subst_term(e, t, (k - i0) if cc == 1 else (i0 - k)))))(e, oid, i0, cc)))
        return out

def ext(s, st, loc, md, W, pred):
    v, w = s.scalar(st, loc, md)
    if v is None: raise Unsupported('scalar vanished')
    return (bv.zext if pred[0] == 'u' else bv.sext)(v, w, W)

def subst(e, t, v): return z3.substitute(e, (t, z3.BitVecVal(v, 64)))
def subst_term(e, t, v): return z3.substitute(e, (t, v))
def selects(e):
    out = []; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_select(x): out.append((x.arg(0), x.arg(1)))
        st.extend(x.children())
    return out
class SelectFork(Exception):
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b; Exception.__init__(s, 'select')
class SplitEntry(Exception):
    def __init__(s, c): s.c = c; Exception.__init__(s, 'split')
def fresh_in(c, x): return False
class PromoteAtEntry(Exception):
    def __init__(s, oid, key, bx): s.oid = oid; s.key = key; s.bx = bx; Exception.__init__(s, 'promote')
class Region:
    def __init__(s, depth, fn, header, body): s.depth = depth; s.fn = fn; s.header = header; s.body = body; s.backs = []; s.exits = 0
class LoopInfo:
    def __init__(s, fn, h, t, mods, entry, log): s.fn = fn; s.h = h; s.t = t; s.mods = mods; s.entry = entry; s.log = log
class Cand:
    """loop invariant candidate: fn(state, t) -> proposition (ground or QProp) or list of them"""
    def __init__(s, name, fn): s.name = name; s.fn = fn
    def _l(s, r): return r if isinstance(r, list) else [r]
    def init(s, ex, entry): return s._l(s.fn(entry, z3.BitVecVal(0, 64)))
    def hyp(s, ex, entry, x, t): return s._l(s.fn(x, t))
    def step(s, ex, entry, x, b, t): return s._l(s.fn(b, t + 1))

def neg_lin(a): return ((-a[0]) & bv.mask(64), tuple(((-k) & bv.mask(64), t) for k, t in a[1]))
def entry_default(s, x, oid, k, size):
    return None
def same(a, b):
    if a is b: return True
    if isinstance(a, tuple) or isinstance(b, tuple): return a == b
    if isinstance(a, PtrInt) and isinstance(b, PtrInt): a, b = a.p, b.p
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is not b.obj: return False
        if a.obj is None: return same(a.off, b.off)
        d = lin_add(a.off, neg_lin(b.off)); return not d[0] and not d[1]
    if isint(a) and isint(b): return a == b
    if isint(a) or isint(b) or a is None or b is None or a is UNDEF or b is UNDEF: return False
    if isinstance(a, (Ptr, PtrInt)) or isinstance(b, (Ptr, PtrInt)): return False
    return a.eq(b)
_mcache = {}
def mentions(e, ids):
    st = [e]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        st.extend(x.children())
    return False

# ------------------------------------------------------------------ library functions with assumed contracts
def _abort(s, st, av, rty): return Term('abort', st)
def _assert_fail(s, st, av, rty):
    s.oblige(st, z3.BoolVal(False), 'assertion'); return 'DROP'
def _memcpy(s, st, av, rty):
    s.mem_copy(st, s.as_ptr(av[0]), s.as_ptr(av[1]), s.as_int(av[2], 64), False); return av[0]
def _memmove(s, st, av, rty):
    s.mem_copy(st, s.as_ptr(av[0]), s.as_ptr(av[1]), s.as_int(av[2], 64), True); return av[0]
def _memset(s, st, av, rty):
    s.mem_set(st, s.as_ptr(av[0]), simp(bv.trunc(s.as_int(av[1], 32), 32, 8)), s.as_int(av[2], 64)); return av[0]
def _guard_acquire(s, st, av, rty):
    g = s.load(st, s.as_ptr(av[0]), ('i', 8))
    g = simp(g)
    if isint(g): return 0 if g else 1
    return bv.If(bv.ne(g, 0, 8), 0, 1, 32)
def _guard_release(s, st, av, rty):
    s.store(st, s.as_ptr(av[0]), ('i', 8), 1); return None
def _atexit(s, st, av, rty): return 0
def _unreach(s, st, av, rty):
    s.oblige(st, z3.BoolVal(False), 'pure virtual call'); return 'DROP'
def _event(name, ret=None):
    def f(s, st, av, rty):
        st.trace.append((name, tuple(av))); return ret(s) if ret else None
    return f
BUILTIN = {
    'abort': _abort, '__assert_fail': _assert_fail, 'memcpy': _memcpy, 'memmove': _memmove, 'memset': _memset,
    '__cxa_guard_acquire': _guard_acquire, '__cxa_guard_release': _guard_release, '__cxa_atexit': _atexit,
    '__cxa_pure_virtual': _unreach, 'vfprintf': _event('vfprintf', lambda s: bv.fresh('vfprintf', 32)),
    '_ZdlPv': _event('operator delete'), '_ZdlPvm': _event('operator delete'), '_ZSt9terminatev': _abort,
}
