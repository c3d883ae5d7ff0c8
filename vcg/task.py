"""Compilation of drivers against /repo's working tree, and the context in which a specification is checked."""
import os, subprocess, hashlib, re, time, threading
import z3
from . import bv
from .bv import V, B, And, Or, Not, Implies, isint
from .ll import Module, Unsupported, parse
from .sym import Exec, State, Obj, OState, Ptr, PtrInt, NULL, UNDEF, lin, lin_bv, lin_scale, QProp, Term, LoopLimit, Budget, Failed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = REPO + '/sources/include'
CLANG = '/usr/bin/clang++-18'
BASE = [CLANG, '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g0', '-fno-exceptions', '-fno-rtti', '-fclang-abi-compat=17', '-w', '-S', '-emit-llvm',
        '-I' + VERIF + '/drivers/inc', '-I' + INC]
CE = ['-D__builtin_is_constant_evaluated()=1']
class CompileError(Exception): pass

def compile_ll(driver, flags, workdir):
    os.makedirs(workdir, exist_ok=True)
    src = VERIF + '/drivers/' + driver
    key = hashlib.sha1(repr((driver, flags)).encode()).hexdigest()[:12]
    out = '%s/%s_%s.ll' % (workdir, driver.replace('.cpp', ''), key)
    if os.path.exists(out): return out
    tmp = out + '.%d' % os.getpid()
    p = subprocess.run(BASE + list(flags) + [src, '-o', tmp], capture_output=True, text=True)
    if p.returncode: raise CompileError('%s %s\n%s' % (driver, ' '.join(flags), p.stderr[:4000]))
    os.rename(tmp, out)
    return out

_dem = {}
def demangle_all(names):
    names = [n for n in names if n not in _dem]
    if names:
        p = subprocess.run(['/usr/bin/c++filt'], input='\n'.join(names), capture_output=True, text=True)
        for n, d in zip(names, p.stdout.split('\n')): _dem[n] = d
def demangle(n):
    if n not in _dem: demangle_all([n])
    return _dem[n]

class Ctx:
    def __init__(s, mod, timeout, deadline=None):
        s.mod = mod; s.ex = Exec(mod, demangle, timeout); s.ex.deadline = deadline
        s.inputs = {}          # name -> z3 term (reported with a counterexample)
        s.covers = []; s.notes = []
        s.ex.on_fail = s.on_fail
        s.fails = []
    def on_fail(s, st, ob):
        m = {}
        if ob.model is not None:
            for k, t in s.inputs.items():
                try:
                    v = ob.model.eval(V(t, 64) if isint(t) else t, model_completion=True)
                    m[k] = v.as_long() if z3.is_bv_value(v) else (1 if z3.is_true(v) else 0 if z3.is_false(v) else None)
                except Exception: pass
        ob.detail = m
        ob.model = None
    # -- building
    def state(s): return State()
    def var(s, name, w=64):
        t = z3.Bool(name) if w == 1 else z3.BitVec(name, w)
        s.inputs[name] = t
        return t
    def buf(s, st, name, size, align=1, **kw):
        """an array of bytes of the given (possibly symbolic) size with unknown contents"""
        o = s.ex.new_obj(st, name, size, 'input', align=align, default='input', bytemode=True, **kw)
        s.inputs[name + '.addr'] = s.ex.base(o)
        return o
    def bytes(s, st, o): return st.mem[o.id].barr
    def require(s, st, *cs):
        for c in cs: st.assume(c)
    def call(s, st, fname, args, abort='fail'):
        """run extern "C" function fname of the driver; returns list of (state, value); aborts per policy"""
        if fname not in s.mod.funcs or s.mod.funcs[fname].declared: raise Unsupported('driver function %s missing' % fname)
        s.ex.push(st, fname, args, 'ROOT')
        terms = s.ex.run(st)
        out = []; ab = []
        if not terms and s.ex.feasible(st): s.covers.append(('an outcome of ' + fname, False))
        for t in terms:
            if t.kind == 'ret': out.append((t.state, t.val))
            elif abort == 'fail':
                s.ex.oblige(t.state, z3.BoolVal(False), 'does not abort in ' + fname)
            else: ab.append(t.state)
        if abort == 'fail': return out
        return out, ab
    def cover(s, st, name):
        """the precondition (or path) is reachable: guards against vacuous proofs"""
        r = s.ex.feasible(st)
        s.covers.append((name, bool(r)))
        return r
    def post(s, st, cond, name):
        return s.ex.oblige(st, cond, name)

class Result:
    def __init__(s): s.obs = []; s.error = None; s.kind = 'ok'; s.time = 0; s.funcs = []; s.contracts = {}; s.covers = []; s.solver = 0; s.queries = 0; s.loops = []; s.notes = []

def collect(r, c):
    r.obs = [(o.name, o.fn, o.status, o.time, o.by, o.detail, o.heur) for o in c.ex.obs]
    r.funcs = sorted(demangle(f) for f in c.ex.inlined); r.contracts = dict(c.ex.used_contracts)
    r.covers = c.covers; r.solver += c.ex.sol.time; r.queries += c.ex.sol.n; r.loops = c.ex.cut_loops; r.notes = c.notes

def run_task(task, workdir, budget):
    t0 = time.time(); r = Result()
    try:
        llf = compile_ll(task.driver, task.flags, workdir)
        mod = parse(open(llf).read())
        demangle_all(list(mod.funcs))
        cut = set()
        while True:
            c = Ctx(mod, task.timeout, t0 + budget); c.ex.force_cut = frozenset(cut); c.ex.sym_unroll = task.unroll; c.ex.ce = CE[0] in task.flags
            try:
                task.fn(c, *task.args)
                break
            except LoopLimit as e:
                if (e.fn, e.h) in cut: collect(r, c); raise
                cut.add((e.fn, e.h))
            except BaseException:
                collect(r, c); raise
        collect(r, c)
    except CompileError as e: r.kind = 'compile'; r.error = str(e)
    except LoopLimit as e: r.kind = 'limit'; r.error = 'loop could not be closed: ' + str(e)
    except Budget as e: r.kind = 'limit'; r.error = 'time budget exhausted'
    except Failed as e: r.kind = 'ok'
    except Unsupported as e: r.kind = 'limit'; r.error = 'unsupported: ' + str(e)
    except RecursionError as e: r.kind = 'limit'; r.error = 'recursion'
    except z3.Z3Exception as e: r.kind = 'limit'; r.error = 'z3: ' + str(e)
    r.time = time.time() - t0
    return r

class Task:
    def __init__(s, name, driver, fn, args=(), flags=(), timeout=20000, optional=False, weight=1, noobs=False, unroll=70):
        s.name = name; s.driver = driver; s.fn = fn; s.args = args; s.flags = tuple(flags); s.timeout = timeout; s.optional = optional; s.weight = weight; s.noobs = noobs; s.unroll = unroll
