"""Contracts for C14 (clz/ctz/get_alignment), C15 (alignment arithmetic), C16 (bit counting)."""
import re, z3
from vcg.task import Task, CE
from vcg.bv import V, And, Or, Not, Implies, low
from vcg.sym import NULL, Ptr, lin
BV = z3.BitVecVal
WID = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'ull': 64}

def z64(v, w): return z3.ZeroExt(64 - w, v) if w < 64 else v

# ---------------------------------------------------------------- C14
def msb_is(v, w, k):
    """bit k is the highest set bit of v (k is a 64-bit term below w)"""
    x = z64(v, w)
    return And(z3.ULT(k, BV(w, 64)), z3.LShR(x, k) == 1)
def lsb_is(v, w, k):
    x = z64(v, w)
    return And(z3.ULT(k, BV(w, 64)), (z3.LShR(x, k) & 1) == 1, (x & ((BV(1, 64) << k) - 1)) == 0)
def cz(c, fname, w, kind):
    st = c.state(); v = c.var('v', w)
    c.require(st, v != 0); c.cover(st, 'v != 0')
    for s, r in c.call(st, fname, [v]):
        r = V(r, 64)
        if kind == 'clz': c.post(s, msb_is(v, w, BV(w - 1, 64) - r), 'result is the number of zero bits above the highest set bit')
        else: c.post(s, lsb_is(v, w, r), 'result is the number of zero bits below the lowest set bit')
def get_alignment(c):
    st = c.state(); p = c.var('p', 64)
    c.require(st, p != 0); c.cover(st, 'p != null')
    for s, r in c.call(st, 'w_get_alignment', [Ptr(None, p)]):
        r = V(r, 64)
        c.post(s, And(r != 0, r & (r - 1) == 0, p & (r - 1) == 0, (p & r) != 0), 'result is the largest power of two dividing the address')
def C14(tier):
    t = []
    for n, w in WID.items():
        for k in ('clz', 'ctz'):
            t.append(Task('%s<%s>' % (k, n), 'bits.cpp', cz, ('w_%s_%s' % (k, n), w, k)))
            t.append(Task('crafted_%s<%s>' % (k, n), 'bits_details.cpp', cz, ('w_craft_%s_%s' % (k, n), w, k), optional=True))
    t.append(Task('get_alignment', 'bits.cpp', get_alignment))
    return t

# ---------------------------------------------------------------- C15
def pow2(a): return And(a != 0, a & (a - 1) == 0)
def is_pow2(c):
    st = c.state(); v = c.var('v')
    # definition by cases: v is one of the 64 powers of two
    d = Or(*[v == (1 << i) for i in range(64)])
    for s, r in c.call(st, 'w_is_power_of_2', [v]): c.post(s, V(r, 1) == d, 'true exactly for the 64 powers of two')
def least_multiple(w, P, v, r):
    """r is the least multiple of the power of two P that is not below v, whenever one is representable"""
    rep = z3.ULE(v, -P)      # -P is the largest multiple of P (P power of two) that is representable
    # r multiple of P, v <= r, r - v < P  <=> least
    return Implies(rep, And(r & (P - 1) == 0, z3.ULE(v, r), z3.ULT(r - v, P)))
def nm(c):
    st = c.state(); m = c.var('multiple'); v = c.var('v')
    c.require(st, pow2(m)); c.cover(st, 'power of two')
    for s, r in c.call(st, 'w_next_multiple_of', [m, v]):
        c.post(s, least_multiple(64, m, v, V(r, 64)), 'least multiple not below the value')
def nm_t(c, fname, P, w):
    st = c.state(); v = c.var('v', w)
    for s, r in c.call(st, fname, [v]):
        c.post(s, least_multiple(w, BV(P, w), v, V(r, w)), 'least multiple not below the value')
def nm_s(c, fname, P, w):
    # signed: values whose rounded-up multiple is representable
    st = c.state(); v = c.var('v', w)
    c.require(st, v <= BV((1 << (w - 1)) - P, w)); c.cover(st, 'representable')
    for s, r in c.call(st, fname, [v]):
        r = V(r, w); c.post(s, And(r & (P - 1) == 0, v <= r, z3.ULT(r - v, BV(P, w))), 'least multiple not below the value')
def skip(c):
    st = c.state(); p = c.var('p'); a = c.var('alignment')
    c.require(st, pow2(a)); c.cover(st, 'power of two')
    for s, r in c.call(st, 'w_skip_to_align', [Ptr(None, p), a]):
        r = V(r, 64)
        c.post(s, And((p + r) & (a - 1) == 0, z3.ULT(r, a)), 'least number of bytes that makes the address aligned')
def skip_t(c, n):
    st = c.state(); p = c.var('p')
    for s, r in c.call(st, 'w_skip_%d' % n, [Ptr(None, p)]):
        r = V(r, 64)
        c.post(s, And((p + r) & (n - 1) == 0, z3.ULT(r, BV(n, 64))), 'least number of bytes that makes the address aligned')
def isal(c):
    st = c.state(); p = c.var('p'); a = c.var('alignment')
    c.require(st, pow2(a))
    for s, r in c.call(st, 'w_is_aligned', [Ptr(None, p), a]):
        c.post(s, V(r, 1) == (p & (a - 1) == 0), 'true exactly when the alignment divides the address')
def isal_t(c, n):
    st = c.state(); p = c.var('p')
    for s, r in c.call(st, 'w_isal_%d' % n, [Ptr(None, p)]):
        c.post(s, V(r, 1) == (p & (n - 1) == 0), 'true exactly when the alignment divides the address')
def gd(c, n, w):
    st = c.state(); v = c.var('v', w)
    for s, r in c.call(st, 'w_gd_' + n, [v]):
        r = V(r, w)
        c.post(s, z3.If(v == 0, r == BV(1 << (w - 1), w), And(r != 0, r & (r - 1) == 0, v & (r - 1) == 0, (v & r) != 0)),
               'largest power of two dividing a non-zero value, the top bit for zero')
def maxal(c):
    st = c.state(); a = c.var('alignment'); n = c.var('size')
    c.require(st, pow2(a), n != 0, z3.UGE(a + n - 1, a)); c.cover(st, 'representable')
    for s, r in c.call(st, 'w_max_align', [a, n]):
        r = V(r, 64); v = a + n - 1
        c.post(s, And(r != 0, r & (r - 1) == 0, z3.ULE(r, v), z3.ULE(v - r, r - 1)), 'largest power of two not above alignment + size - 1')
def C15(tier):
    t = [Task('is_power_of_2', 'bits.cpp', is_pow2), Task('next_multiple_of', 'bits.cpp', nm), Task('skip_to_align', 'bits.cpp', skip),
         Task('is_aligned', 'bits.cpp', isal), Task('max_alignment_inside_block', 'bits.cpp', maxal)]
    for n in (1, 2, 4, 8, 16, 64, 4096):
        t.append(Task('skip_to_align<alignof %d>' % n, 'bits.cpp', skip_t, (n,)))
        t.append(Task('is_aligned<alignof %d>' % n, 'bits.cpp', isal_t, (n,)))
    for n, w in WID.items():
        t.append(Task('greatest_divisor_that_is_power_of_2<%s>' % n, 'bits.cpp', gd, (n, w)))
        if n == 'ull': continue
        for P in (1, 2, 4, 8, 16, 32, 64, 128, 256, 4096, 32768, 65536, 2147483648):
            if P >= 1 << w: continue
            t.append(Task('next_multiple_of<%d,%s>' % (P, n), 'bits.cpp', nm_t, ('w_nm_%d_%s' % (P, n), P, w)))
    for P in (8, 4096):
        for n, w in (('i32', 32), ('i64', 64)):
            t.append(Task('next_multiple_of<%d,%s>' % (P, n), 'bits.cpp', nm_s, ('w_nm_%d_%s' % (P, n), P, w)))
    # the power of two in other integer types: names in the driver are <power><its type>
    nt = [(x, n) for x in '8u 8ul 8l 8ull 8uc 64c 128uc 256us 16384s 1u 1ul 32768u 4096ul'.split() for n in ('u16', 'u32', 'u64', 'ull')]
    nt += [('65536u', 'u64'), ('65536ul', 'u32'), ('2147483648u', 'u64'), ('2147483648ul', 'u32'), ('1073741824i', 'u64'), ('4294967296l', 'u64'), ('4294967296ul', 'ull'), ('128uc8', 'u8'), ('64u8', 'u8'), ('2ul8', 'u8')]
    for x, n in nt: t.append(Task('next_multiple_of<%s,%s>' % (x, n), 'bits.cpp', nm_t, ('w_nmt_%s_%s' % (x, n), int(re.match(r'\d+', x).group()), {'u8': 8, 'u16': 16, 'u32': 32}.get(n, 64))))
    t.append(Task('next_multiple_of<2^63,u64>', 'bits.cpp', nm_t, ('w_nm_huge', 1 << 63, 64)))
    return t

# ---------------------------------------------------------------- C16
def top_plus_one(v, w, r):
    x = z64(v, w)
    return z3.If(v == 0, r == 0, And(z3.ULE(r, BV(w, 64)), r != 0, z3.LShR(x, r - 1) == 1))
def bits_count(c):
    st = c.state(); v = c.var('v')
    for s, r in c.call(st, 'w_bits_count', [v]):
        c.post(s, top_plus_one(v, 64, z3.ZeroExt(32, V(r, 32))), 'position of the highest set bit plus one')
def nbits(c, n, w, fn):
    st = c.state(); v = c.var('v', w)
    o = c.ex.new_obj(st, 'arg', w // 8, 'input', ty=('i', w), align=w // 8, default='input')
    st.mem[o.id].cells[0] = (w // 8, v)
    for s, r in c.call(st, fn, [Ptr(o, lin(0))]):
        c.post(s, top_plus_one(v, w, V(r, 64)), 'position of the highest set bit plus one')
        c.post(s, V(c.ex.as_int(c.ex.load(s, Ptr(o, lin(0)), ('i', w)), w), w) == v, 'argument unchanged')
def table(c):
    st = c.state(); i = c.var('i')
    c.require(st, z3.ULT(i, BV(256, 64)))
    pc = BV(0, 32)
    for k in range(8): pc = pc + z3.ZeroExt(24, z3.Extract(7, 0, z3.LShR(i, k)) & 1)
    for s, r in c.call(st, 'w_num_bits', [i]):
        c.post(s, V(r, 32) == pc, 'table entry is the number of set bits')
def table_size(c):
    for s, r in c.call(c.state(), 'w_table_size', []): c.post(s, V(r, 64) == 256, 'table has 256 entries')
def C16(tier):
    t = [Task('bits_count', 'bits.cpp', bits_count), Task('kNumBitsTable', 'bits.cpp', table), Task('kNumBitsTable.size', 'bits.cpp', table_size)]
    for n, w in WID.items():
        t.append(Task('nbits_occupied<%s&>' % n, 'bits.cpp', nbits, (n, w, 'w_nbits_' + n)))
        t.append(Task('nbits_occupied<const %s&>' % n, 'bits.cpp', nbits, (n, w, 'w_nbitsc_' + n)))
    return t
META = {k: {'harness': ('bits.cpp', ['-DPROP=' + k[1:], '-DCRAFTED'], ['-DPROP=' + k[1:]])} for k in ('C14', 'C15', 'C16')}
META['C14']['assumptions'] = ['the compiler builtins __builtin_clz*/ctz* (llvm.ctlz/cttz) have their documented meaning', 'MSVC branches of clz.h/ctz.h are not compiled here and not covered']
META['C15']['assumptions'] = ['templated forms are instantiated for the listed types and powers of two; each instantiation is proved for all arguments']
META['C16']['assumptions'] = ['templates instantiated for unsigned char/short/int/long/long long']
PROPS = {'C14': C14, 'C15': C15, 'C16': C16}
