"""Parser for the textual LLVM IR that clang-18 -O0 emits (opaque pointers).

Everything the executor needs and nothing else; anything not understood raises Unsupported when it is *executed*
(an unknown instruction is kept as op 'unknown'), never silently dropped.
"""
import re

class Unsupported(Exception):
    """The verifier cannot handle a construct (a tool limit, never a violation)."""

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<qglob>@"(?:[^"\\]|\\.)*") | (?P<qloc>%"(?:[^"\\]|\\.)*") | (?P<qcom>\$"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<glob>@[-a-zA-Z$._0-9]+) | (?P<loc>%[-a-zA-Z$._0-9]+) | (?P<com>\$[-a-zA-Z$._0-9]+)
 | (?P<meta>![a-zA-Z0-9_.]*) | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<punc>[()\[\]{}<>,=*:|;])
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m: raise Unsupported('token: ' + s[i:i+40])
        k = m.lastgroup; t = m.group(k); i = m.end()
        if k == 'ws': continue
        if k == 'punc' and t == ';': break
        if k == 'qglob': out.append(('glob', t[2:-1]))
        elif k == 'qloc': out.append(('loc', t[2:-1]))
        elif k == 'glob': out.append(('glob', t[1:]))
        elif k == 'loc': out.append(('loc', t[1:]))
        else: out.append((k, t))
    out.append(('eof', ''))
    return out

FLOATS = {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16}
ATTRW = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone returned immarg
 nofree nest swiftself swifterror allocalign allocptr noext dead_on_unwind writable'''.split())
ATTRP = set('align dereferenceable dereferenceable_or_null sret byval byref inalloca preallocated elementtype range nofpclass'.split())
LINKAGE = set('''private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr
 external dso_local dso_preemptable default hidden protected unnamed_addr local_unnamed_addr thread_local constant global
 externally_initialized fastcc ccc coldcc noalias'''.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast addrspacecast fptrunc fpext fptoui fptosi uitofp sitofp'.split())
BINOPS = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'text')
    def __init__(s, op, res=None, ty=None, a=(), flags=()):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.flags = flags; s.text = ''
    def __repr__(s): return s.text or s.op

class Function:
    def __init__(s, name):
        s.name = name; s.params = []; s.ret = None; s.vararg = False; s.blocks = {}; s.order = []; s.declared = False
        s.loops = None; s.attrs = ()

class P:
    def __init__(s, toks, mod): s.t = toks; s.i = 0; s.mod = mod
    def peek(s, k=0): return s.t[s.i + k]
    def next(s):
        x = s.t[s.i]; s.i += 1; return x
    def is_(s, v): return s.t[s.i][1] == v and s.t[s.i][0] in ('punc', 'word', 'dots')
    def eat(s, v):
        if s.is_(v): s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v): raise Unsupported('expected %r got %r near %r' % (v, s.peek(), s.t[max(0, s.i-5):s.i+5]))
    def attrs(s):
        r = []
        while True:
            k, v = s.peek()
            if k == 'word' and v in ATTRW: s.i += 1; r.append((v, None))
            elif k == 'word' and v in ATTRP:
                s.i += 1
                arg = None
                if s.is_('('):
                    s.i += 1
                    start = s.i; depth = 1
                    if v in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                        arg = s.type()
                    else:
                        arg = s.peek()[1]
                    s.i = start
                    while depth:
                        x = s.next()[1]
                        if x == '(': depth += 1
                        elif x == ')': depth -= 1
                elif v == 'align':
                    arg = int(s.next()[1])
                r.append((v, arg))
            elif k == 'attr': s.i += 1
            elif k == 'str' and s.peek(1)[1] != '':
                s.i += 1
                if s.eat('='): s.i += 1
            else: return r
    def type(s):
        k, v = s.next()
        if k == 'word':
            m = re.fullmatch(r'i(\d+)', v)
            if m: t = ('i', int(m.group(1)))
            elif v == 'ptr':
                t = ('ptr',)
                if s.is_('addrspace'): s.i += 4
            elif v == 'void': t = ('void',)
            elif v in FLOATS: t = ('f', v)
            elif v in ('label', 'metadata', 'token', 'opaque'): t = (v,)
            else: raise Unsupported('type ' + v)
        elif k == 'loc': t = ('named', v)
        elif v == '[':
            n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect(']'); t = ('arr', n, e)
        elif v == '{':
            f = []
            if not s.is_('}'):
                f.append(s.type())
                while s.eat(','): f.append(s.type())
            s.expect('}'); t = ('st', tuple(f), False)
        elif v == '<':
            if s.is_('{'):
                s.i += 1; f = []
                if not s.is_('}'):
                    f.append(s.type())
                    while s.eat(','): f.append(s.type())
                s.expect('}'); s.expect('>'); t = ('st', tuple(f), True)
            else:
                n = int(s.next()[1]); s.expect('x'); e = s.type(); s.expect('>'); t = ('vec', n, e)
        else: raise Unsupported('type token %r' % v)
        if s.is_('(') :  # function type
            # only in call position: T (params)
            save = s.i
            try:
                s.i += 1; ps = []; va = False
                if not s.is_(')'):
                    while True:
                        if s.eat('...'): va = True; break
                        ps.append(s.type()); s.attrs()
                        if not s.eat(','): break
                s.expect(')')
                return ('fn', t, tuple(ps), va)
            except Unsupported:
                s.i = save
        return t
    def value(s, ty):
        k, v = s.next()
        if k == 'loc': return ('reg', v)
        if k == 'glob': return ('glob', v)
        if k == 'num':
            if ty[0] == 'f': return ('fp', v)
            return ('int', int(v, 0))
        if k == 'cstr':
            b = re.sub(rb'\\([0-9A-Fa-f]{2}|\\)', lambda m: b'\\' if m.group(1) == b'\\' else bytes([int(m.group(1), 16)]), v[2:-1].encode('latin1'))
            return ('bytes', b)
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('undef',)
            if v in CASTS:
                s.expect('('); t = s.type(); x = s.value(t); s.expect('to'); t2 = s.type(); s.expect(')')
                return ('cast', v, t, x, t2)
            if v == 'getelementptr':
                flags = []
                while s.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    flags.append(s.next()[1])
                    if s.is_('('):
                        pass
                s.expect('('); t = s.type(); s.expect(',')
                s.eat('inrange')
                pt = s.type(); p = s.value(pt); idx = []
                while s.eat(','):
                    s.eat('inrange')
                    it = s.type(); idx.append((it, s.value(it)))
                s.expect(')')
                return ('gep', t, p, idx)
            if v in BINOPS:
                while s.peek()[1] in ('nuw', 'nsw', 'exact'): s.i += 1
                s.expect('('); t = s.type(); a = s.value(t); s.expect(','); t2 = s.type(); b = s.value(t2); s.expect(')')
                return ('bin', v, t, a, b)
            if v == 'icmp':
                pred = s.next()[1]; s.expect('('); t = s.type(); a = s.value(t); s.expect(','); t2 = s.type(); b = s.value(t2); s.expect(')')
                return ('icmp', pred, t, a, b)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and s.is_('{'): s.i += 1; close = '}'; packed = True
            r = []
            if not s.is_(close):
                while True:
                    t = s.type(); r.append((t, s.value(t)))
                    if not s.eat(','): break
            s.expect(close)
            if packed: s.expect('>')
            return ('agg', r)
        raise Unsupported('value %r %r' % (k, v))
    def tv(s):
        t = s.type(); s.attrs(); return t, s.value(t)

class Module:
    def __init__(s):
        s.types = {}; s.globals = {}; s.funcs = {}; s.ctors = []
    # ---- layout
    def res(s, t):
        while t[0] == 'named': t = s.types[t[1]]
        return t
    def align(s, t):
        t = s.res(t); k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8; a = 1
            while a < n: a *= 2
            return min(a, 16)
        if k == 'ptr': return 8
        if k == 'f': return min(FLOATS[t[1]], 16)
        if k == 'arr': return s.align(t[2])
        if k == 'st': return 1 if t[2] else max([s.align(x) for x in t[1]] or [1])
        if k == 'vec': return s.size(t)
        raise Unsupported('align %r' % (t,))
    def size(s, t):
        t = s.res(t); k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8; a = s.align(t); return (n + a - 1) // a * a
        if k == 'ptr': return 8
        if k == 'f': return FLOATS[t[1]]
        if k == 'arr': return t[1] * s.size(t[2])
        if k == 'vec': return t[1] * s.size(t[2])
        if k == 'st':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = s.align(x); o = (o + a - 1) // a * a
                o += s.size(x)
            a = 1 if t[2] else s.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size %r' % (t,))
    def field_off(s, t, i):
        t = s.res(t); o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = s.align(x); o = (o + a - 1) // a * a
            if j == i: return o
            o += s.size(x)
        raise Unsupported('field')

def unq(v):
    return v

def parse_instr(line, mod):
    line = re.sub(r'(, ![a-zA-Z_.0-9]+ ![0-9]+|, !nosanitize ![0-9]+)+\s*$', '', line)
    line = re.sub(r', !srcloc.*$', '', line)
    try:
        p = P(tokenize(line), mod)
    except Unsupported as e:
        r = Instr('unknown'); r.text = line; return r
    try:
        r = _parse_instr(p, mod)
    except (Unsupported, IndexError, ValueError) as e:
        res = None
        m = re.match(r'\s*%"?([^" ]+)"?\s*=', line)
        r = Instr('unknown', m.group(1) if m else None)
    r.text = line.strip()
    return r

def _parse_instr(p, mod):
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'): op = p.next()[1]
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type(); n = ('int', 1)
        while p.eat(','):
            if p.is_('align'): p.i += 2
            else:
                it = p.type(); n = p.value(it)
        return Instr('alloca', res, t, (n,))
    if op == 'load':
        fl = []
        while p.peek()[1] in ('atomic', 'volatile'): fl.append(p.next()[1])
        t = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
        return Instr('load', res, t, (v,), tuple(fl))
    if op == 'store':
        fl = []
        while p.peek()[1] in ('atomic', 'volatile'): fl.append(p.next()[1])
        t, v = p.tv(); p.expect(','); pt = p.type(); d = p.value(pt)
        return Instr('store', None, t, (v, d), tuple(fl))
    if op == 'getelementptr':
        fl = []
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): fl.append(p.next()[1])
        t = p.type(); p.expect(','); pt = p.type(); v = p.value(pt); idx = []
        while p.eat(','):
            it = p.type(); idx.append((it, p.value(it)))
        return Instr('gep', res, t, (v, idx), tuple(fl))
    if op in BINOPS:
        fl = []
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf'): fl.append(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr('bin', res, t, (op, a, b), tuple(fl))
    if op == 'icmp':
        pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Instr('icmp', res, t, (pred, a, b))
    if op in CASTS:
        fl = []
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'): fl.append(p.next()[1])
        t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
        return Instr('cast', res, t2, (op, t, v))
    if op == 'select':
        ct, c = p.tv(); p.expect(','); t, a = p.tv(); p.expect(','); t2, b = p.tv()
        return Instr('select', res, t, (c, a, b))
    if op == 'freeze':
        t, a = p.tv(); return Instr('freeze', res, t, (a,))
    if op == 'phi':
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1]; p.expect(']'); inc.append((l, v))
            if not p.eat(','): break
            if p.peek()[0] == 'meta': break
        return Instr('phi', res, t, (inc,))
    if op == 'br':
        if p.is_('label'):
            p.next(); return Instr('br', None, None, (p.next()[1],))
        t, c = p.tv(); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
        return Instr('condbr', None, None, (c, a, b))
    if op == 'switch':
        t, v = p.tv(); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('['); cs = []
        while not p.is_(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cs.append((cv[1], p.next()[1]))
        return Instr('switch', None, t, (v, d, cs))
    if op == 'ret':
        t = p.type()
        if t[0] == 'void': return Instr('ret', None, t, ())
        return Instr('ret', None, t, (p.value(t),))
    if op == 'unreachable': return Instr('unreachable')
    if op == 'extractvalue':
        t, v = p.tv(); idx = []
        while p.eat(','): idx.append(int(p.next()[1]))
        return Instr('extractvalue', res, t, (v, idx))
    if op == 'insertvalue':
        t, v = p.tv(); p.expect(','); t2, w = p.tv(); idx = []
        while p.eat(','): idx.append(int(p.next()[1]))
        return Instr('insertvalue', res, t, (v, t2, w, idx))
    if op == 'fence': return Instr('fence')
    if op == 'atomicrmw':
        p.eat('volatile'); k = p.next()[1]; pt = p.type(); d = p.value(pt); p.expect(','); t, v = p.tv()
        return Instr('atomicrmw', res, t, (k, d, v))
    if op == 'cmpxchg':
        p.eat('weak'); p.eat('volatile'); pt = p.type(); d = p.value(pt); p.expect(','); t, c = p.tv(); p.expect(','); t2, n = p.tv()
        return Instr('cmpxchg', res, t, (d, c, n))
    if op == 'call':
        while p.peek()[0] == 'word' and p.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'nnan', 'fast'): p.i += 1
        p.attrs(); t = p.type()
        fnty = None
        if t[0] == 'fn': fnty = t; t = fnty[1]
        k, v = p.peek()
        if k == 'word' and v == 'asm': return Instr('unknown', res)
        callee = p.value(('ptr',)); p.expect('('); args = []
        if not p.is_(')'):
            while True:
                at = p.type(); aa = p.attrs()
                if at[0] == 'metadata':
                    return Instr('nop', res)
                args.append((at, p.value(at), tuple(aa)))
                if not p.eat(','): break
        p.expect(')')
        return Instr('call', res, t, (callee, args, fnty))
    return Instr('unknown', res)

def parse(text):
    m = Module(); cur = None; blk = None
    lines = text.split('\n'); i = 0
    while i < len(lines):
        ln = lines[i]; i += 1
        s = ln.strip()
        if not s or s[0] == ';': continue
        if cur is None:
            if s[0] == '%':
                p = P(tokenize(s), m); nm = p.next()[1]; p.expect('='); p.expect('type')
                if p.is_('opaque'): m.types[nm] = ('opaque',)
                else: m.types[nm] = p.type()
            elif s[0] == '@':
                p = P(tokenize(s), m); nm = p.next()[1]; p.expect('=')
                ext = False; const = False
                while p.peek()[0] == 'word' and (p.peek()[1] in LINKAGE):
                    w = p.next()[1]
                    if w in ('external', 'extern_weak'): ext = True
                    if w == 'constant': const = True
                    if w == 'thread_local' and p.is_('('): p.i += 3
                if p.is_('alias'):
                    p.next(); t = p.type(); p.expect(','); pt = p.type(); v = p.value(pt)
                    m.globals[nm] = ('alias', v); continue
                t = p.type(); init = None
                if not ext and not p.is_(',') and p.peek()[0] != 'eof': init = p.value(t)
                al = None
                mm = re.search(r', align (\d+)', s)
                if mm: al = int(mm.group(1))
                if nm == 'llvm.global_ctors' and init and init[0] == 'agg':
                    for _, e in init[1]: m.ctors.append(e[1][1][1][1])
                m.globals[nm] = ('var', t, init, const, al)
            elif s.startswith('define') or s.startswith('declare'):
                p = P(tokenize(s), m); d = p.next()[1]
                while True:
                    k, v = p.peek()
                    if k == 'word' and v in LINKAGE and v != 'noalias': p.i += 1
                    else: break
                p.attrs(); rt = p.type()
                f = Function(p.next()[1]); f.ret = rt; f.declared = d == 'declare'
                p.expect('(')
                if not p.is_(')'):
                    while True:
                        if p.eat('...'): f.vararg = True; break
                        t = p.type(); a = p.attrs(); nm = None
                        if p.peek()[0] == 'loc': nm = p.next()[1]
                        f.params.append((t, nm, tuple(a)))
                        if not p.eat(','): break
                m.funcs[f.name] = f
                if d == 'define':
                    # implicit names
                    k = 0
                    for j, (t, nm, a) in enumerate(f.params):
                        if nm is None: f.params[j] = (t, str(k), a)
                        if f.params[j][1].isdigit(): k += 1
                    cur = f; blk = str(k); f.blocks[blk] = []; f.order.append(blk)
                    first = True
            continue
        if s == '}':
            cur = None; continue
        mm = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):(\s|$)', ln)
        if mm:
            nm = mm.group(1).strip('"')
            if not f.blocks[blk] and len(f.order) == 1:
                del f.blocks[blk]; f.order = []
            blk = nm; f.blocks[blk] = []; f.order.append(blk); continue
        if s.startswith('switch'):
            while ']' not in s:
                s += ' ' + lines[i].strip(); i += 1
        f.blocks[blk].append(parse_instr(s, m))
    return m

def find_loops(f):
    """Natural loops: header -> set of blocks. Also marks irreducible CFGs as unsupported."""
    if f.loops is not None: return f.loops
    succ = {}
    for b in f.order:
        t = f.blocks[b][-1]
        if t.op == 'br': succ[b] = [t.a[0]]
        elif t.op == 'condbr': succ[b] = [t.a[1], t.a[2]]
        elif t.op == 'switch': succ[b] = [t.a[1]] + [x[1] for x in t.a[2]]
        else: succ[b] = []
    entry = f.order[0]
    # reachable + RPO
    seen = set(); post = []
    st = [(entry, iter(succ[entry]))]; seen.add(entry)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(succ[x]))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for x in succ[b]: pred[x].append(b)
    idom = {entry: entry}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in pred[b]:
                if q in idom:
                    if new is None: new = q
                    else:
                        a, c = q, new
                        while a != c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    loops = {}
    irreducible = False
    for b in rpo:
        for h in succ[b]:
            if num[h] <= num[b]:
                if not dom(h, b): irreducible = True; continue
                body = loops.setdefault(h, {h}); w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x); w.extend(pred[x])
    f.loops = (loops, irreducible)
    return f.loops
