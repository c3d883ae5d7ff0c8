#!/usr/bin/env python3-vt
"""check.py <property> [--thorough] : decide one property by discharging the obligations of its contracts on the code
compiled from /repo's current working tree.  Exit 0 / 1 only.  See DESIGN.md."""
import sys, os, json, time, importlib, subprocess, hashlib, shutil, re, glob, signal, traceback
import multiprocessing as mp
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vcg import task as T
import z3

def _limit():
    import resource
    try: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception: pass

def worker(a):
    pid, tier, idx, workdir, budget = a
    try:
        t = TASKS[idx]
        return idx, T.run_task(t, workdir, budget)
    except MemoryError:
        r = T.Result(); r.kind = 'limit'; r.error = 'memory'; return idx, r
    except Exception:
        r = T.Result(); r.kind = 'limit'; r.error = 'internal: ' + traceback.format_exc()[-1500:]; return idx, r
TASKS = []

def run_all(pid, tier, workdir, total_budget):
    """all tasks of the property on 8 processes; tasks that do not finish in time are reported as such"""
    res = [None] * len(TASKS)
    t0 = time.time()
    per = total_budget
    ctx = mp.get_context('fork')
    # compile every translation unit once, in parallel, before the tasks start
    units = sorted(set((t.driver, t.flags) for t in TASKS))
    comp = {}
    with ctx.Pool(min(8, len(units))) as pool:
        for u, e in pool.imap_unordered(compile_unit, [(u, workdir) for u in units]): comp[u] = e
    order = [i for i in sorted(range(len(TASKS)), key=lambda i: -TASKS[i].weight)]
    todo = []
    for i in order:
        e = comp[(TASKS[i].driver, TASKS[i].flags)]
        if e:
            r = T.Result(); r.kind = 'compile'; r.error = e; res[i] = r
        else: todo.append(i)
    pool = ctx.Pool(8, initializer=_limit, maxtasksperchild=6)
    try:
        it = [(i, pool.apply_async(worker, ((pid, tier, i, workdir, max(20, per - (time.time() - t0))),))) for i in todo]
        for i, h in it:
            left = max(1, total_budget + 30 - (time.time() - t0))
            try: _, res[i] = h.get(left)
            except mp.TimeoutError:
                r = T.Result(); r.kind = 'limit'; r.error = 'time budget exhausted'; res[i] = r
    finally:
        pool.terminate(); pool.join()
    return res
def compile_unit(a):
    u, wd = a
    try: T.compile_ll(u[0], u[1], wd); return u, None
    except T.CompileError as e: return u, str(e)

def harness(meta, pid, models, workdir, budget, seed, tag=''):
    """native search for a failing input.  -> (status, text): 'fail' | 'clean' | 'error'"""
    src, variants = meta['harness'][0], meta['harness'][1:] or ((),)
    exe = '%s/harness_%s%s' % (workdir, pid, tag)
    err = ''
    for v in variants:
        p = subprocess.run(['/usr/bin/g++', '-std=c++17', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                            '-I' + VERIF + '/drivers/inc', '-I' + T.INC, '-I' + VERIF + '/replay'] + list(v) + [VERIF + '/replay/' + src, '-o', exe], capture_output=True, text=True)
        if p.returncode == 0: break
        err = p.stderr
    else: return 'error', 'harness does not compile:\n' + err[:3000]
    out_all = ''
    runs = [m for m in models[:4]] or []
    tot = 0
    for i, m in enumerate(runs + [{}]):
        b = budget if i == len(runs) else min(4, budget)
        args = ['%s=%d' % (k, x) for k, x in m.items() if x is not None]
        try:
            p = subprocess.run([exe, '--budget=%g' % b, '--seed=%d' % seed] + args, capture_output=True, text=True, timeout=b + 60,
                               env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=0', UBSAN_OPTIONS='print_stacktrace=0'))
            out = p.stdout
        except subprocess.TimeoutExpired as e: out = (e.stdout or b'').decode('latin1') if isinstance(e.stdout, bytes) else (e.stdout or '')
        mm = re.search(r'cases=(\d+)', out)
        if mm: tot += int(mm.group(1))
        if 'FAIL' in out:
            return 'fail', '%s\ncommand: %s %s\n' % (out, exe, ' '.join(args)) + (p.stderr[-1500:] if 'p' in dir() else '')
    return 'clean', 'cases=%d' % tot

def main():
    pid = sys.argv[1]; thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    tier = 'thorough' if thorough else 'quick'
    if thorough: os.environ['VERIF_TIER'] = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from props import MODULES
    mod = importlib.import_module('props.' + MODULES[pid])
    TASKS[:] = mod.PROPS[pid](tier)
    meta = mod.META[pid]
    workdir = '%s/work/%s_%d' % (VERIF, pid, os.getpid())
    shutil.rmtree(workdir, ignore_errors=True); os.makedirs(workdir)
    try: rc = decide(pid, tier, thorough, seed, t0, meta, workdir)
    finally: shutil.rmtree(workdir, ignore_errors=True)
    sys.exit(rc)

def decide(pid, tier, thorough, seed, t0, meta, workdir):
    res = run_all(pid, tier, workdir, 1500 if thorough else meta.get('budget', 420))
    known = []
    for l in open(VERIF + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) obligation=/(.*?)/ (.*)', l)
        if m and m.group(1) == pid: known.append((re.compile(m.group(2)), m.group(3).strip()))
    failed = []; limits = []; notes = []; nob = ndis = 0; by = {}; funcs = set(); contracts = {}; solver = 0.0; nq = 0; kf = set(); samples = []; loops = set()
    for t, r in zip(TASKS, res):
        if r.kind == 'compile':
            if t.optional: notes.append('%s: entry point not present in this tree, skipped' % t.name); continue
            failed.append((t.name, 'entry points compile', 'driver', {}, r.error)); nob += 1; continue
        for (name, fn, st, tm, b, det, heur) in r.obs:
            if st != 'ok':
                full = '%s / %s / %s' % (t.name, fn, name)
                k = [x for x in known if x[0].search(full)]
                if k: kf.add(k[0][1]); continue
            nob += 1
            if st == 'ok': ndis += 1; by[b] = by.get(b, 0) + 1
            elif st == 'unknown': limits.append((t.name, '%s: solver gave no answer for: %s' % (fn, name)))
            else: failed.append((t.name, name, fn, det if isinstance(det, dict) else {}, ''))
        funcs.update(r.funcs); solver += r.solver; nq += r.queries
        for k, v in r.contracts.items(): contracts[k] = contracts.get(k, 0) + v
        for f, invs, term in r.loops: loops.add((f, len(invs), term))
        if r.kind == 'limit': limits.append((t.name, r.error))
        elif not r.obs and not t.noobs: limits.append((t.name, 'no obligation was generated'))
        for n, ok in r.covers:
            if not ok and r.kind == 'ok' : limits.append((t.name, 'vacuous: %s is not reachable' % n))
        notes += ['%s: %s' % (t.name, n) for n in r.notes]
        if r.obs and len(samples) < 12: samples.append('%s: %s' % (t.name, r.obs[-1][0]))
    # demoted modular contracts: the helper's own obligations failed, the tasks that inlined it decide
    bounded = []; viol = False; lines = []
    rdir = '%s/work/replay/%s' % (VERIF, pid)
    shutil.rmtree(rdir, ignore_errors=True)
    if failed or limits or thorough:
        models = []
        for f in failed:
            if f[3] and f[3] not in models: models.append(f[3])
        hs, ht = ('clean', '')
        if meta.get('harness'):
            hs, ht = harness(meta, pid, models, workdir, 300 if thorough else meta.get('hbudget', 40), seed)
        else: hs = 'none'
        if failed or hs == 'fail' or (hs == 'error' and failed):
            viol = True
            shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
            path = rdir + '/report.txt'
            with open(path, 'w') as f:
                f.write('property %s, tree %s\n\n' % (pid, T.REPO))
                f.write('failed obligations:\n')
                for x in failed: f.write('  [%s] in %s: %s\n      counterexample: %s\n%s' % (x[0], x[2], x[1], x[3], ('      ' + x[4] + '\n') if x[4] else ''))
                for x in limits: f.write('undecided: [%s] %s\n' % x)
                f.write('\nreplay on the real code (%s): %s\n%s\n' % (meta.get('harness', ['none'])[0], hs, ht))
            if hs == 'fail':
                exe = glob.glob(workdir + '/harness_*')
                for e in exe: shutil.copy(e, rdir)
            if failed: print('failed obligation: [%s] in %s: %s' % (failed[0][0], failed[0][2], failed[0][1]))
            if hs == 'fail': print(ht.split('\n')[0]); lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            else: lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        elif limits:
            for n, e in limits: bounded.append('%s: %s; stood in by native bounded search: %s' % (n, e.strip().split('\n')[-1][:300], ht))
        if thorough and not viol: notes.append('native search, not counted as proof: %s %s' % (hs, ht))
    for x in sorted(kf): print('KNOWN-FINDING: property=%s %s' % (pid, x))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0,
          'coverage': {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt check.py %s%s' % (pid, ' --thorough' if thorough else ''),
                       'trusted_base': ['clang 18 front end at -O0 (C++ to LLVM IR)', 'vcg/ (this directory): IR parser, VC generator', 'z3 %s, cvc5 1.1.2' % z3.get_version_string()] + meta.get('trusted', []),
                       'discharged_by': by, 'solver_time_s': round(solver, 2), 'solver_queries': nq, 'tasks': len(TASKS),
                       'functions_verified': sorted(f for f in funcs if not f.startswith('w_'))[:400],
                       'entry_points_under_contract': sorted(f for f in funcs if f.startswith('w_')),
                       'contracts_used_at_calls': contracts, 'loops_by_invariant': sorted('%s: %d invariants, decreases %s' % x for x in loops),
                       'obligation_samples': samples, 'slowest_tasks': ['%s: %.1fs' % (t.name, r.time) for t, r in sorted(zip(TASKS, res), key=lambda x: -x[1].time)[:6]], 'bounded_stand_ins': bounded, 'notes': notes[:50]},
          'assumptions': meta.get('assumptions', []) + COMMON}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d tasks, %.1fs%s' % (pid, nob, ndis, len(TASKS), time.time() - t0, '; BOUNDED (%d): %s' % (len(bounded), [b[:160] for b in bounded[:4]]) if bounded else ''))
    for l in lines: print(l)
    return 1 if viol else 0
COMMON = ['code is compiled as C++17 for x86-64 (LP64, little endian) with exceptions and RTTI disabled; g++ and other targets are assumed to agree',
          'objects lie in the user address range [4096, 2^47) and distinct objects do not touch',
          'single-threaded execution']
if __name__ == '__main__': main()
