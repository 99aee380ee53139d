"""Driver of the verifier: compiles harness translation units from /repo's current source to IR,
generates obligations for each function under contract and discharges them (z3, then cvc5)."""
import multiprocessing
import multiprocessing.connection
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import z3

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import llvmir
import symex
import stdlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CG3_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CLANG_FLAGS = ['-std=c++2b', '-DNDEBUG', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-access-control',
               '-Wno-everything', '-fPIC', '-I%s/src' % REPO, '-I%s/include' % REPO, '-I%s/include/posix' % REPO, '-I%s/tu' % VERIF]

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='cg3dv.')
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def build_ir(tu):
    src = os.path.join(VERIF, 'tu', tu + '.cpp')
    out = os.path.join(scratch(), tu + '.bc')
    if not os.path.exists(out):
        cmd = [LLVM + '/clang++'] + CLANG_FLAGS + ['-emit-llvm', '-c', src, '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('IR extraction failed:\n' + ' '.join(cmd) + '\n' + r.stderr[-4000:])
    return out


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


_mods = {}


def module(tu):
    if tu not in _mods:
        _mods[tu] = llvmir.Module(build_ir(tu))
    return _mods[tu]


# ---------------------------------------------------------------- discharge
_OBS = []


def _attempt(formulas, kind, tmo):
    s = z3.Solver()
    s.set('timeout', int(tmo * 1000))
    if kind == 'ematch':
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
    elif kind == 'seed':
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        s.set('smt.random_seed', 17)
        s.set('smt.arith.solver', 2)
    s.add(*formulas)
    r = s.check()
    return r, s


def _cvc5(formulas, tmo):
    s = z3.Solver()
    s.add(*formulas)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    exe = shutil.which('cvc5') or '/usr/local/bin/cvc5'
    try:
        r = subprocess.run([exe, '--lang=smt2', '--tlimit=%d' % int(tmo * 1000), '-'], input=txt, capture_output=True, text=True, timeout=tmo + 5)
        return r.stdout.strip().split('\n')[0]
    except Exception as e:
        return 'error'


def model_text(m, limit=60):
    try:
        out = []
        for d in m.decls():
            s = str(m[d]).replace('\n', ' ')
            out.append('%s = %s' % (d.name(), s[:160]))
        return '; '.join(sorted(out)[:limit])
    except Exception as e:
        return ''


def _work(i, skip=0, tell=None):
    o = _OBS[i]
    t0 = time.time()
    if not o.cand and (_OPT['fails'].value >= 6 or (_OPT['until'] and t0 > _OPT['until'])):
        return i, 'not attempted', 'enough failed obligations already' if _OPT['fails'].value >= 6 else 'time budget used up', 0.0, ''
    r = _work1(i, o, t0, skip, tell)
    if r[1] != 'proved' and not o.cand:
        with _OPT['fails'].get_lock():
            _OPT['fails'].value += 1
    return r


def _work1(i, o, t0, skip=0, tell=None):
    fs = list(o.pc) + [z3.Not(o.goal)]
    scale = _OPT.get('scale', 1.0)
    q = any(symex.has_quant(f) for f in fs)
    plan = [('ematch', 4), ('default', 8), ('seed', 8), ('cvc5', 15)] if q else [('default', 20), ('cvc5', 15)]
    if o.cand:
        plan = [('ematch', 2), ('default', 1)] if q else [('default', 3)]
    last = ''
    model = ''
    for k, (kind, tmo) in enumerate(plan):
        if k < skip:
            continue
        tmo *= scale
        if tell:
            tell(k, tmo)
        try:
            if kind == 'cvc5':
                r = _cvc5(fs, tmo)
                if r == 'unsat':
                    return i, 'proved', 'cvc5', time.time() - t0, ''
                last = last or r
                continue
            r, s = _attempt(fs, kind, tmo)
            if r == z3.unsat:
                return i, 'proved', 'z3', time.time() - t0, ''
            if r == z3.sat and (kind == 'default' or not q):
                return i, 'refuted', 'z3', time.time() - t0, model_text(s.model())
            last = s.reason_unknown()
            if r == z3.unknown and q and kind == 'ematch':
                try:
                    model = model_text(s.model())
                except Exception:
                    pass
        except z3.Z3Exception as e:
            last = str(e)
    return i, 'unknown', last, time.time() - t0, model


_OPT = {}


def end_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def _serve(conn):
    """a worker: takes obligations one by one; says which attempt it is at, so that one that outlives its time limit can be ended and the next attempt made elsewhere"""
    end_with_parent()
    try:
        while True:
            m = conn.recv()
            if m is None:
                break
            i, skip = m
            conn.send(('done', _work(i, skip, lambda k, tmo: conn.send(('at', k, tmo)))))
    except (EOFError, OSError):
        pass
    os._exit(0)


def _farm(todo, n):
    ctx = multiprocessing.get_context('fork')
    queue = [(i, 0) for i in reversed(todo)]
    res, workers = [], []

    def hire():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b,))
        p.start()
        b.close()
        return dict(p=p, c=a, job=None, k=0, end=0)

    def give(w):
        if queue:
            w['job'] = queue.pop()
            w['k'], w['end'] = w['job'][1], time.time() + 120
            w['c'].send(w['job'])
        else:
            w['job'] = None

    def lost(w):
        w['p'].kill()
        w['p'].join()
        i, k = w['job'][0], w['k']
        w['c'].close()
        workers.remove(w)
        if k + 1 < 4:
            queue.append((i, k + 1))
        else:
            if not _OBS[i].cand:
                with _OPT['fails'].get_lock():
                    _OPT['fails'].value += 1
            res.append((i, 'unknown', 'solver did not answer in its time', 0.0, ''))
        if queue:
            x = hire()
            workers.append(x)
            give(x)
    for _ in range(n):
        w = hire()
        workers.append(w)
        give(w)
    while any(w['job'] for w in workers):
        busy = [w for w in workers if w['job']]
        ready = multiprocessing.connection.wait([w['c'] for w in busy], 0.5)
        for w in busy:
            if w not in workers:
                continue
            if w['c'] in ready:
                try:
                    m = w['c'].recv()
                except (EOFError, OSError):
                    lost(w)
                    continue
                if m[0] == 'at':
                    w['k'], w['end'] = m[1], time.time() + 1.3 * m[2] + 8
                else:
                    res.append(m[1])
                    give(w)
            elif time.time() > w['end']:
                lost(w)
    for w in workers:
        try:
            w['c'].send(None)
        except OSError:
            pass
    for w in workers:
        w['p'].join(2)
        if w['p'].is_alive():
            w['p'].kill()
    return res


def discharge(obs, jobs=None, scale=1.0, until=None):
    global _OBS
    _OBS = obs
    _OPT['until'] = until
    _OPT['fails'] = multiprocessing.Value('i', 0)
    _OPT['scale'] = scale
    todo = []
    for i, o in enumerate(obs):
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.solver, o.time = 'proved', 'simplifier', 0.0
        else:
            todo.append(i)
    jobs = jobs or min(8, os.cpu_count() or 2)
    if not todo:
        return
    if len(todo) == 1 or jobs == 1:
        res = [_work(i) for i in todo]
    else:
        res = _farm(todo, min(jobs, len(todo)))
    for i, st, sv, t, m in res:
        o = obs[i]
        o.status, o.solver, o.time, o.model = st, sv, t, m


class Result:
    def __init__(self):
        self.obs = []
        self.error = None
        self.stats = {}
        self.spec = None
        self.used = {}
        self.inlined = {}
        self.time = 0
        self.vac = None
        self.fn = ''


def verify(spec, mod, scale=1.0, contracts=None, log=None, jobs=None, limit=None):
    t0 = time.time()
    until = t0 + limit if limit else None
    R = Result()
    R.spec = spec
    opts = dict(spec.opts)
    ex = symex.Exec(mod, contracts if contracts is not None else stdlib.BASE, opts)
    ex.loopspecs = spec.loops
    ex.deadline = time.time() + opts.get('explore_limit', 240)
    try:
        rounds = 0
        while True:
            rounds += 1
            obs = ex.run(spec)
            cands = [o for o in obs if o.cand]
            if cands:
                discharge(cands, scale=1.0, jobs=jobs)
                bad = {o.cand for o in cands if o.status != 'proved'}
                if bad:
                    ex.dropped |= bad
                    if rounds > 12:
                        raise symex.Unsupported('invariant inference does not converge')
                    continue
            break
        todo = [o for o in obs if not o.cand]
        discharge(todo, scale=1.0, jobs=jobs, until=until)
        again = [o for o in todo if o.status == 'unknown']
        if scale > 1 and again and len(again) <= 6 and not [o for o in todo if o.status in ('refuted', 'not attempted')]:
            discharge(again, scale=scale, jobs=jobs, until=until)
        R.obs = obs
        R.fn = spec.function(ex).dem
        # vacuity: the precondition must be satisfiable and at least one path must reach a return
        s = z3.Solver()
        s.set('timeout', 3000)
        s.set('rlimit', 45000000)
        s.add(*ex.pre_pc)
        r = s.check()
        R.vac = dict(pre=str(r), returns=ex.stats['returns'], exits=ex.stats['exits'], throws=ex.stats['throws'], paths=ex.stats['paths'])
        if r == z3.unsat:
            R.error = 'vacuous: precondition is contradictory'
        if ex.stats['returns'] == 0 and not opts.get('noreturn'):
            R.error = 'vacuous: no path reaches a return'
        if not [o for o in obs if o.kind == 'post']:
            R.error = 'vacuous: no postcondition obligation generated'
    except (symex.Unsupported, symex.Bad, LookupError, z3.Z3Exception, RecursionError) as e:
        R.error = '%s: %s' % (type(e).__name__, e)
        R.obs = []
        if os.environ.get('DV_TRACE'):
            import traceback
            traceback.print_exc()
    R.stats = ex.stats
    R.used = dict(ex.used_contracts)
    R.inlined = dict(ex.inlined)
    R.time = time.time() - t0
    return R


def show(R, verbose=True):
    ok = sum(o.status == 'proved' for o in R.obs)
    print('%-60s obligations %d proved %d  paths %s  %.1fs  %s' % (R.spec.name, len(R.obs), ok, R.vac, R.time, R.error or ''))
    if verbose:
        seen = {}
        for o in R.obs:
            if o.status != 'proved':
                k = (o.fn, o.name, o.status)
                seen.setdefault(k, []).append(o)
        for k, v in seen.items():
            print('   FAIL', k[1], k[2], 'x%d' % len(v), 'in', k[0][:80], (v[0].solver or '')[:60])
            if os.environ.get('DV_MODEL'):
                print('      ', v[0].model[:1500])
