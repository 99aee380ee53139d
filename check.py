#!/usr/bin/env python3-vt
"""check.py <property-id> [--thorough]: decides one property on /repo's current working tree.

Deciding step: contracts of the real functions (specs/) are turned into obligations over the IR
that clang makes of /repo's sources, and every obligation must be discharged (dv/). A native
driver (drivers/), compiled from the same sources, executes the same contracts: it supplies the
failing input when an obligation fails, and is the labelled bounded stand-in for the functions
that registry.py lists as out of the verifier's reach.
"""
import hashlib
import json
import multiprocessing
import os
import re
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'dv'), os.path.join(HERE, 'specs')]
sys.setrecursionlimit(20000)
import prove
import registry
import native

TIER = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 700 if TIER == 'quick' else 3000


def child(conn, spec, mod, scale, jobs, limit):
    prove.end_with_parent()
    try:
        R = prove.verify(spec, mod, scale=scale, jobs=jobs, limit=limit)
        obs = []
        for o in R.obs:
            obs.append(dict(fn=o.fn, name=o.name, kind=o.kind, status=o.status, solver=o.solver, time=o.time,
                            model=getattr(o, 'model', '') or '', cand=bool(o.cand), trace=[str(t) for t in (o.trace or [])][-40:]))
        conn.send(dict(spec=R.spec.name, fn=R.fn, error=R.error, obs=obs, vac=R.vac, used=R.used, inlined=R.inlined, time=R.time, stats={k: v for k, v in R.stats.items() if isinstance(v, int)}))
    except BaseException as e:
        import traceback
        conn.send(dict(spec=spec.name, fn='', error='%s: %s' % (type(e).__name__, e), obs=[], vac=None, used={}, inlined={}, time=0, stats={}, tb=traceback.format_exc()))
    conn.close()
    os._exit(0)


def run_specs(specs, mods, deadline):
    ctx = multiprocessing.get_context('fork')
    ncpu = min(8, os.cpu_count() or 2)
    conc = min(len(specs), 4) or 1
    # heavy specs first
    todo = sorted(specs, key=lambda s: -getattr(s, 'weight', 1))
    running, out = [], []
    scale = 3.0 if TIER == 'quick' else 5.0
    while todo or running:
        while todo and len(running) < conc:
            sp = todo.pop(0)
            a, b = ctx.Pipe(False)
            jobs = 8 if getattr(sp, 'weight', 1) > 3 else max(3, ncpu // conc)
            p = ctx.Process(target=child, args=(b, sp, mods[sp.tu], scale, jobs, deadline - time.time()))
            p.start()
            b.close()
            running.append((p, a, sp))
        for r in list(running):
            p, a, sp = r
            if a.poll(0.05):
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(dict(spec=sp.name, fn='', error='verifier process died', obs=[], vac=None, used={}, inlined={}, time=0, stats={}))
                p.join()
                running.remove(r)
            elif time.time() > deadline + 60:
                p.kill()
                out.append(dict(spec=sp.name, fn='', error='verifier ran out of time', obs=[], vac=None, used={}, inlined={}, time=0, stats={}))
                running.remove(r)
    return sorted(out, key=lambda r: r['spec'])


def known():
    out = []
    try:
        for ln in open(os.path.join(HERE, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', ln)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def main():
    pid = [a for a in sys.argv[1:] if not a.startswith('-')][0]
    P = registry.PROPS[pid]
    t0 = time.time()
    deadline = t0 + BUDGET
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    specs = [s for s in P.load() if TIER == 'thorough' or not getattr(s, 'thorough', False)]
    problems = []          # (text, detail) without a failing input
    drv = native.Drivers(P.drivers, SEED, TIER)
    th = threading.Thread(target=drv.compile)
    th.start()
    mods = {}
    for tu in sorted({s.tu for s in specs}):
        try:
            mods[tu] = prove.module(tu)
        except Exception as e:
            problems.append(('IR of %s cannot be built from /repo' % tu, str(e)))
    th.join()
    res = run_specs([s for s in specs if s.tu in mods], mods, t0 + BUDGET * 0.6)
    nob = ndis = 0
    solvers = {}
    stime = 0.0
    fns, trusted, inl, samples = [], {}, {}, []
    for r in res:
        real = [o for o in r['obs']]
        nob += len(real)
        ok = [o for o in real if o['status'] == 'proved']
        ndis += len(ok)
        for o in real:
            stime += o['time'] or 0
            if o['status'] == 'proved':
                solvers[o['solver']] = solvers.get(o['solver'], 0) + 1
        fns.append(dict(spec=r['spec'], function=r['fn'], obligations=len(real), discharged=len(ok), time_s=round(r['time'], 1), paths=(r['vac'] or {}).get('paths'), vacuity=r['vac'], error=r['error']))
        for k, v in r['used'].items():
            trusted['%s -> %s' % (k[:160], v)] = trusted.get('%s -> %s' % (k[:160], v), 0) + 1
        for k, v in r['inlined'].items():
            inl[k] = inl.get(k, 0) + v
        if r['error']:
            problems.append(('%s: %s' % (r['spec'], r['error']), r.get('tb', '')))
        bad = {}
        for o in real:
            if o['status'] != 'proved':
                bad.setdefault((o['fn'], o['name']), o)
        for (f, n), o in bad.items():
            problems.append(('%s: obligation "%s" in %s: %s' % (r['spec'], n, f, o['status']),
                             'solver: %s\npath: %s\nmodel: %s' % (o['solver'], ' '.join(o['trace']), o['model'])))
        for o in real[:2]:
            samples.append('%s / %s' % (r['spec'], o['name']))
    left = max(60, deadline - time.time())
    # execution of the contracts on the real code: longer when an obligation failed (search for the input)
    nat = drv.run(search=bool(problems), limit=left)
    for e in nat['errors']:
        problems.append(('native driver: ' + e[0], e[1]))
    kn = known()
    viol = []
    for f in nat['fails']:
        k = [x for x in kn if x[0] == pid and x[1] == f['key']]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[0][2]))
        else:
            viol.append(f)
    nviol = 0
    code = 0
    if viol or problems:
        code = 1
        nviol = max(1, len(viol))
        h = hashlib.sha1(repr((viol[:3], [p[0] for p in problems])).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'replay', '%s-%s.txt' % (pid, h))
        with open(path, 'w') as fh:
            fh.write('property %s: %s\n\n' % (pid, P.title))
            for f in viol[:20]:
                fh.write('FAILING INPUT on the real code (driver %s, key %s)\n  %s\n  rerun: %s\n\n' % (f['driver'], f['key'], f['text'], f['rerun']))
            for a, b in problems:
                fh.write('FAILED: %s\n%s\n\n' % (a, b))
        for a, b in problems[:12]:
            print('failed: ' + a[:300])
        for f in viol[:5]:
            print('failing input: [%s] %s' % (f['key'], f['text'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if viol else ' no-failing-input-found'))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof',
              coverage=dict(obligations=nob, discharged=ndis,
                            checker_cmd='cd /verif && python3-vt check.py %s%s' % (pid, ' --thorough' if TIER == 'thorough' else ''),
                            trusted_base=registry.TCB + ['contract: %s (used by %d functions)' % kv for kv in sorted(trusted.items())],
                            functions_under_contract=fns, functions_executed_symbolically_without_contract=sorted(inl)[:200],
                            back_ends=solvers, solver_time_s=round(stime, 1), samples=samples[:12],
                            bounded_stand_in=nat['summary'], bounded_functions=P.bounded),
              assumptions=P.assumptions + registry.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=nviol)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d/%d obligations discharged over %d functions; native: %s; %.0f s' % (pid, ndis, nob, len(fns), nat['summary_line'], time.time() - t0))
    sys.stdout.flush()
    prove.cleanup()
    native.cleanup()
    os._exit(code)


if __name__ == '__main__':
    try:
        main()
    except Exception:
        # the machinery could not process the current source: nothing was proved
        import traceback
        pid = [a for a in sys.argv[1:] if not a.startswith('-')][0]
        path = os.path.join(HERE, 'replay', pid + '-internal.txt')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tb = traceback.format_exc()
        open(path, 'w').write('the obligations of %s could not be generated or discharged\n%s' % (pid, tb))
        print(tb)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        sys.stdout.flush()
        prove.cleanup()
        native.cleanup()
        os._exit(1)
