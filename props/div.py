"""Contracts for C17: div and div_as."""
import z3
from vcg.task import Task, CE
from vcg.bv import V, And, Or, Not
from vcg.sym import Ptr, lin
from vcg.contracts import CDIV
BV = z3.BitVecVal
TY = {'i8': (8, 1), 'u8': (8, 0), 'i16': (16, 1), 'u16': (16, 0), 'i32': (32, 1), 'u32': (32, 0), 'i64': (64, 1), 'u64': (64, 0), 'ill': (64, 1), 'ull': (64, 0)}
RANK = {'i8': 0, 'u8': 0, 'i16': 1, 'u16': 1, 'i32': 2, 'u32': 2, 'i64': 3, 'u64': 3, 'ill': 4, 'ull': 4}
def common(a, b):
    """[conv] usual arithmetic conversions, std::common_type of equal types is the type itself"""
    if a == b: return TY[a]
    def prom(t): return 'i32' if RANK[t] < 2 else t
    a, b = prom(a), prom(b)
    if a == b: return TY[a]
    if TY[a][1] == TY[b][1]: return TY[a if RANK[a] > RANK[b] else b]
    u, i = (a, b) if TY[a][1] == 0 else (b, a)
    if RANK[u] >= RANK[i]: return TY[u]
    if TY[i][0] > TY[u][0]: return TY[i]
    return (TY[i][0], 0)
def conv(v, frm, to):
    w0, s0 = frm; w1, _ = to
    if w1 < w0: return z3.Extract(w1 - 1, 0, v)
    if w1 == w0: return v
    return z3.SignExt(w1 - w0, v) if s0 else z3.ZeroExt(w1 - w0, v)
def spec(c, fname, ta, tb, ct):
    ex = c.ex; ex.contracts = CDIV; ex.absdiv = True
    st = c.state(); a = c.var('a', ta[0]); b = c.var('b', tb[0])
    A, B_ = conv(a, ta, ct), conv(b, tb, ct); w, sg = ct
    c.require(st, b != 0, B_ != 0)
    if sg: c.require(st, Not(And(A == BV(1 << (w - 1), w), B_ == BV((1 << w) - 1, w))))
    c.cover(st, 'valid operands')
    q = ex.new_obj(st, 'q', w // 8, 'out', ty=('i', w), align=w // 8); r = ex.new_obj(st, 'r', w // 8, 'out', ty=('i', w), align=w // 8)
    E = (lambda x: z3.SignExt(66 - w, x)) if sg else (lambda x: z3.ZeroExt(66 - w, x))
    for s, _ in c.call(st, fname, [a, b, Ptr(q, lin(0)), Ptr(r, lin(0))]):
        Q = V(ex.as_int(ex.load(s, Ptr(q, lin(0)), ('i', w)), w), w); R = V(ex.as_int(ex.load(s, Ptr(r, lin(0)), ('i', w)), w), w)
        D, M = ex.abs_div(s, E(A), E(B_))
        c.post(s, Q == z3.Extract(w - 1, 0, D), 'quotient is the truncated quotient in the common type')
        c.post(s, R == z3.Extract(w - 1, 0, M), 'remainder is the exact remainder in the common type')
def types(c):
    for a in TY:
        for b in TY:
            for s, r in c.call(c.state(), 'w_type_%s_%s' % (a, b), []): c.post(s, V(r, 1), 'div<%s,%s> yields div_t of the common type' % (a, b))
def C17(tier):
    t = [Task('result types', 'div.cpp', types)]
    views = (('', ()), (' (constant evaluation)', tuple(CE)))
    for a in TY:
        for b in TY:
            for vn, fl in views:
                t.append(Task('div<%s,%s>%s' % (a, b, vn), 'div.cpp', spec, ('w_div_%s_%s' % (a, b), TY[a], TY[b], common(a, b)), fl))
    for r in TY:
        for a, b in (('i8', 'i8'), ('u8', 'i64'), ('i16', 'u64'), ('i32', 'i32'), ('i32', 'u32'), ('u32', 'i8'), ('i64', 'i64'), ('u64', 'u64'), ('u64', 'i32'), ('i64', 'u16')):
            for vn, fl in views:
                t.append(Task('div_as<%s>(%s,%s)%s' % (r, a, b, vn), 'div.cpp', spec, ('w_as_%s_%s_%s' % (r, a, b), TY[a], TY[b], TY[r]), fl))
    return t
META = {'C17': {'harness': ('div.cpp', []), 'assumptions': [
    'std::div / ldiv / lldiv of the C library compute the exact truncated quotient and remainder',
    'bvsdiv/bvudiv/bvsrem/bvurem at every width are the truncated division of the integers their operands denote (one uninterpreted function over 66-bit integers stands for it; exactness of the machine instruction itself is assumed)',
    'all 100 pairs of the 10 standard integer types from signed char to unsigned long long, 100 div_as triples; bool, char and wchar_t are not instantiated',
    'the constant-evaluation branch is verified as ordinary code (compiled with __builtin_is_constant_evaluated() defined to 1); that the constant evaluator computes what that code means is assumed']}}
PROPS = {'C17': C17}
