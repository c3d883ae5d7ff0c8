"""Elimination of array reads from a quantifier-free query: reads of stores become case distinctions, reads of unknown
arrays become fresh variables with one congruence constraint per pair of reads (Ackermann).  Equisatisfiable."""
import z3
class NotSupported(Exception): pass
class Ack:
    def __init__(s): s.memo = {}; s.reads = {}; s.pairs = {}
    def sel(s, a, i):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            b, j, v = a.children(); j, ju = s.rec(j)
            e = z3.simplify(i == j)
            if z3.is_true(e): return s.rec(v)
            r, ru = s.sel(b, i)
            if z3.is_false(e): return r, ru
            v, vu = s.rec(v)
            return z3.If(e, v, r), ru | vu | ju
        if k == z3.Z3_OP_CONST_ARRAY: return s.rec(a.arg(0))
        if k == z3.Z3_OP_ITE:
            c, cu = s.rec(a.arg(0)); x, xu = s.sel(a.arg(1), i); y, yu = s.sel(a.arg(2), i)
            return z3.If(c, x, y), cu | xu | yu
        if k == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0:
            key = (a.get_id(), i.get_id())
            if key not in s.reads: s.reads[key] = (i, z3.FreshConst(a.sort().range(), 'read'), a)
            return s.reads[key][1], frozenset((key,))
        raise NotSupported()
    def rec(s, t):
        """-> (term without array reads, the reads it stands for)"""
        n = t.get_id()
        if n in s.memo: return s.memo[n][0]
        k = t.decl().kind() if z3.is_app(t) else None
        if k is None: raise NotSupported()
        if k == z3.Z3_OP_SELECT:
            i, iu = s.rec(t.arg(1)); r, ru = s.sel(t.arg(0), z3.simplify(i)); res = (r, iu | ru)
        elif t.num_args():
            ch = t.children()
            if any(z3.is_array(c) for c in ch): raise NotSupported()
            if k == z3.Z3_OP_UNINTERPRETED: raise NotSupported()
            c2 = []; us = frozenset()
            for c in ch:
                x, u = s.rec(c); c2.append(x)
                if u: us = us | u
            if all(a.eq(b) for a, b in zip(ch, c2)): res = (t, us)
            elif k == z3.Z3_OP_AND: res = (z3.And(c2), us)
            elif k == z3.Z3_OP_OR: res = (z3.Or(c2), us)
            elif len(c2) > 2 and k != z3.Z3_OP_ITE: res = (z3.substitute(t, *[(a, b) for a, b in zip(ch, c2)]) if k != z3.Z3_OP_DISTINCT else z3.Distinct(*c2), us)
            else: res = (t.decl()(*c2), us)
        else: res = (t, frozenset())
        s.memo[n] = (res, t)
        return res
    def convert(s, cs):
        out = []; us = set(); todo = []
        for c in cs:
            r, u = s.rec(c); out.append(r); us |= u
        todo = list(us)
        by = {}
        for key in us: by.setdefault(key[0], []).append(key)
        for l in by.values():
            for x in range(len(l)):
                for y in range(x):
                    k = (l[x], l[y])
                    p = s.pairs.get(k)
                    if p is None:
                        i, v, _ = s.reads[l[x]]; j, w, _ = s.reads[l[y]]; e = z3.simplify(i == j)
                        p = s.pairs[k] = True if z3.is_false(e) else z3.Implies(e, v == w)
                    if p is not True: out.append(p)
        return out
