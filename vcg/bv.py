"""Bit-vector term construction with constant folding. A w-bit value is a python int in [0,2^w) or a z3 BitVecRef;
an i1 is 0/1 or a z3 BoolRef."""
import z3
_n = [0]
def fresh(prefix, w):
    _n[0] += 1
    nm = '%s!%d' % (prefix, _n[0])
    return z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)
def fresh_name(prefix):
    _n[0] += 1
    return '%s!%d' % (prefix, _n[0])
def mask(w): return (1 << w) - 1
def isint(x): return isinstance(x, int)
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x
def V(x, w):
    """as z3 BitVec (w>1) or Bool (w==1)"""
    if isinstance(x, int):
        if w == 1: return z3.BoolVal(bool(x))
        return z3.BitVecVal(x, w)
    return x
def low(x):
    """fold constants"""
    if isinstance(x, int): return x
    if z3.is_bv_value(x): return x.as_long()
    if z3.is_true(x): return 1
    if z3.is_false(x): return 0
    return x
def simp(x):
    if isinstance(x, int): return x
    return low(z3.simplify(x))
def B(x):
    """as z3 Bool"""
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.BoolVal(bool(x))
    return x
def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if not x: return z3.BoolVal(False)
            continue
        r.append(x)
    if not r: return z3.BoolVal(True)
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if x: return z3.BoolVal(True)
            continue
        r.append(x)
    if not r: return z3.BoolVal(False)
    return r[0] if len(r) == 1 else z3.Or(*r)
def Not(x):
    if isinstance(x, (bool, int)): return z3.BoolVal(not x)
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def If(c, a, b, w):
    c = low(c) if not isinstance(c, (bool, int)) else c
    if isinstance(c, (bool, int)): return a if c else b
    if isint(a) and isint(b) and a == b: return a
    return z3.If(c, V(a, w), V(b, w))
def add(a, b, w):
    if isint(a) and isint(b): return (a + b) & mask(w)
    if isint(a) and a == 0: return b
    if isint(b) and b == 0: return a
    return V(a, w) + V(b, w)
def sub(a, b, w):
    if isint(a) and isint(b): return (a - b) & mask(w)
    if isint(b) and b == 0: return a
    if not isint(a) and not isint(b) and a.eq(b): return 0
    return V(a, w) - V(b, w)
def mul(a, b, w):
    if isint(a) and isint(b): return (a * b) & mask(w)
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return V(a, w) << (b.bit_length() - 1)
    return V(a, w) * V(b, w)
def udiv(a, b, w):
    if isint(a) and isint(b) and b: return a // b
    if isint(b) and b and b & (b - 1) == 0:
        return a if b == 1 else z3.LShR(V(a, w), b.bit_length() - 1)
    return z3.UDiv(V(a, w), V(b, w))
def urem(a, b, w):
    if isint(a) and isint(b) and b: return a % b
    if isint(b) and b and b & (b - 1) == 0: return and_(a, b - 1, w)
    return z3.URem(V(a, w), V(b, w))
def sdiv(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return V(a, w) / V(b, w)
def srem(a, b, w):
    if isint(a) and isint(b) and b:
        x, y = sgn(a, w), sgn(b, w); r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return z3.SRem(V(a, w), V(b, w))
def and_(a, b, w):
    if w == 1:
        if isint(a): a, b = b, a
        if isint(b): return a if b else 0
        return z3.And(a, b)
    if isint(a) and isint(b): return a & b
    if isint(a): a, b = b, a
    if isint(b):
        if b == 0: return 0
        if b == mask(w): return a
    return V(a, w) & V(b, w)
def or_(a, b, w):
    if w == 1:
        if isint(a): a, b = b, a
        if isint(b): return 1 if b else a
        return z3.Or(a, b)
    if isint(a) and isint(b): return a | b
    if isint(a): a, b = b, a
    if isint(b) and b == 0: return a
    return V(a, w) | V(b, w)
def xor(a, b, w):
    if isint(a) and isint(b): return a ^ b
    if w == 1:
        if isint(a): a, b = b, a
        if isint(b): return Not(a) if b else a
        return z3.Xor(a, b)
    if isint(a): a, b = b, a
    if isint(b) and b == 0: return a
    return V(a, w) ^ V(b, w)
def shl(a, b, w):
    if isint(a) and isint(b): return (a << b) & mask(w) if b < w else 0
    if isint(b) and b == 0: return a
    return V(a, w) << V(b, w)
def lshr(a, b, w):
    if isint(a) and isint(b): return a >> b if b < w else 0
    if isint(b) and b == 0: return a
    return z3.LShR(V(a, w), V(b, w))
def ashr(a, b, w):
    if isint(a) and isint(b): return (sgn(a, w) >> min(b, w - 1)) & mask(w)
    if isint(b) and b == 0: return a
    return V(a, w) >> V(b, w)
def zext(a, w0, w):
    if w0 == w: return a
    if isint(a): return a
    if w0 == 1: return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return z3.ZeroExt(w - w0, a)
def sext(a, w0, w):
    if w0 == w: return a
    if isint(a): return sgn(a, w0) & mask(w)
    if w0 == 1: return z3.If(a, z3.BitVecVal(mask(w), w), z3.BitVecVal(0, w))
    return z3.SignExt(w - w0, a)
def trunc(a, w0, w):
    if w0 == w: return a
    if isint(a): return a & mask(w)
    if w == 1:
        # undo zext i1
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            x, y = a.arg(1).as_long() & 1, a.arg(2).as_long() & 1
            if x == 1 and y == 0: return a.arg(0)
            if x == 0 and y == 1: return Not(a.arg(0))
            return x
        return simp(z3.Extract(0, 0, a) == 1)
    if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT) and a.arg(0).size() == w: return a.arg(0)
    if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT) and a.arg(0).size() < w: return z3.ZeroExt(w - a.arg(0).size(), a.arg(0))
    return z3.Extract(w - 1, 0, a)
_CMP = {
 'eq': (lambda a, b: a == b, lambda a, b: a == b), 'ne': (lambda a, b: a != b, lambda a, b: a != b),
 'ult': (lambda a, b: a < b, z3.ULT), 'ule': (lambda a, b: a <= b, z3.ULE),
 'ugt': (lambda a, b: a > b, z3.UGT), 'uge': (lambda a, b: a >= b, z3.UGE)}
_SCMP = {'slt': (lambda a, b: a < b), 'sle': (lambda a, b: a <= b), 'sgt': (lambda a, b: a > b), 'sge': (lambda a, b: a >= b)}
def icmp(p, a, b, w):
    if p in _CMP:
        if isint(a) and isint(b): return 1 if _CMP[p][0](a, b) else 0
        if w == 1:
            if p == 'eq':
                if isint(b): return a if b else Not(a)
                if isint(a): return b if a else Not(b)
                return a == b
            if p == 'ne': return xor(a, b, 1)
            a, b = zext(a, 1, 2), zext(b, 1, 2); w = 2
        if not isint(a) and not isint(b) and a.eq(b): return 1 if p in ('eq', 'ule', 'uge') else 0
        # undo zext-compares with constants
        if isint(b) and p in ('eq', 'ne') and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            x, y = a.arg(1).as_long(), a.arg(2).as_long()
            r = None
            if x == b and y != b: r = a.arg(0)
            elif y == b and x != b: r = Not(a.arg(0))
            elif x != b and y != b: r = z3.BoolVal(False)
            if r is not None: return low(r if p == 'eq' else Not(r))
        return _CMP[p][1](V(a, w), V(b, w))
    if isint(a) and isint(b): return 1 if _SCMP[p](sgn(a, w), sgn(b, w)) else 0
    return _SCMP[p](V(a, w), V(b, w))
def ult(a, b, w=64): return icmp('ult', a, b, w)
def ule(a, b, w=64): return icmp('ule', a, b, w)
def eq(a, b, w=64): return icmp('eq', a, b, w)
def ne(a, b, w=64): return icmp('ne', a, b, w)
