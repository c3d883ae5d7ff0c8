"""Contracts for C19: integer type selection and widths (finite tables, evaluated from the compiled code)."""
import re, z3
from vcg.task import Task, VERIF
from vcg.bv import V
BV = z3.BitVecVal
def num(c, f, w=32):
    (s, r), = c.call(c.state(), f, []); return s, V(c.ex.as_int(r, w), w)
def bits(c, n):
    m = min(b for b in (8, 16, 32, 64) if b >= n)
    for f in ('b', 'bt'):
        s, r = num(c, 'w_%s_%d' % (f, n)); c.post(s, r == m, 'uint_from_nbits<%d> is uint%d_t' % (n, m))
    for f in ('fb', 'fbt'):
        s, r = num(c, 'w_%s_%d' % (f, n)); c.post(s, r & (m // 8) != 0, 'fast_uint_from_nbits<%d> is uint_fast%d_t' % (n, m))
def bytes_(c, n):
    m = min(b for b in (1, 2, 4, 8) if b >= n)
    for f in ('y', 'yu'):
        s, r = num(c, 'w_%s_%d' % (f, n)); c.post(s, r == 8 * m, '%s<%d> is uint%d_t' % ('uint_from_nbytes' if f == 'y' else 'UInt', n, 8 * m))
    for f in ('fy', 'fyu'):
        s, r = num(c, 'w_%s_%d' % (f, n)); c.post(s, r & m != 0, '%s<%d> is uint_fast%d_t' % ('fast_uint_from_nbytes' if f == 'fy' else 'FastUInt', n, 8 * m))
def table():
    for l in open(VERIF + '/drivers/types.cpp'):
        m = re.match(r'(NB|SS)\((\d+), (.*)\) // (\d+)$', l)
        if m: yield m.group(1), m.group(2), m.group(3), int(m.group(4))
def width(c):
    for k, n, t, w in table():
        if k == 'NB': s, r = num(c, 'w_n_' + n, 64); c.post(s, r == w, 'num_bits<%s> is %d' % (t, w))
def packs(c):
    for k, n, t, w in table():
        if k == 'SS': s, r = num(c, 'w_s_' + n, 64); c.post(s, r == w, 'sum_size<%s> is %d' % (t, w))
def C19(tier):
    return [Task('bit count %d' % n, 'types.cpp', bits, (n,)) for n in range(1, 65)] + [Task('byte count %d' % n, 'types.cpp', bytes_, (n,)) for n in range(1, 9)] + [Task('num_bits', 'types.cpp', width), Task('sum_size', 'types.cpp', packs)]
META = {'C19': {'harness': ('types.cpp',), 'assumptions': ['num_bits and sum_size are checked for the types and packs listed in drivers/types.cpp; the bit and byte counts are checked completely']}}
PROPS = {'C19': C19}
