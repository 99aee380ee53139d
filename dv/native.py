"""Compiles the native drivers from /repo's current sources and runs them."""
import concurrent.futures
import glob
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CG3_REPO', '/repo')
_dir = None


def scratch():
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='cg3drv.')
    return _dir


def cleanup():
    if _dir:
        shutil.rmtree(_dir, ignore_errors=True)


LIB = None


def lib_sources():
    """the library's sources, as /repo/src/CMakeLists.txt lists them"""
    t = open(os.path.join(REPO, 'src/CMakeLists.txt')).read()
    m = re.search(r'set\(LIBCG3_SOURCES(.*?)\)', t, re.S)
    out = [x for x in m.group(1).split() if x.endswith('.cpp')] if m else []
    return out


class D:
    """a driver: C++ source in drivers/, needed library sources (or 'lib' for all), flags"""

    def __init__(self, src, srcs=(), flags='-O1', seconds=(8, 60), san=True, lib=False, libs='', args=(), wrap=(), needs_wrap=False, instr=None):
        self.instr = instr or {}  # source file -> extra flags
        self.wrap, self.needs_wrap = tuple(wrap), needs_wrap
        self.src, self.srcs, self.flags, self.seconds, self.san, self.lib, self.libs, self.args = src, list(srcs), flags, seconds, san, lib, libs, list(args)
        self.key = (src, tuple(self.srcs), flags, san, lib, libs, self.wrap, tuple(sorted(self.instr.items())))
        self.label = ' '.join([src] + self.args)


CXX = ['g++', '-std=c++2b', '-w', '-fno-access-control', '-I%s/src' % REPO, '-I%s/include' % REPO, '-I%s/include/posix' % REPO, '-I%s/drivers' % HERE]
ICU = ['-licuio', '-licui18n', '-licuuc', '-licudata', '-ldl', '-lpthread']


def cc(args):
    r = subprocess.run(args, capture_output=True, text=True)
    return r.returncode, r.stderr


class Drivers:
    def __init__(self, ds, seed, tier):
        self.ds, self.seed, self.tier = ds, seed, tier
        self.exe = {}
        self.wrapped = {}
        self.err = []

    def compile(self):
        try:
            self.compile_()
        except Exception as e:
            self.err.append(('the drivers cannot be built', str(e)))

    def compile_(self):
        jobs, plan = {}, {}
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for d in self.ds:
                if d.key in plan:
                    continue
                flags = d.flags.split() + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g1'] if d.san else ['-D_GLIBCXX_ASSERTIONS'])
                mine = flags + (['-DWRAP'] if d.wrap else [])
                srcs = [(os.path.join(HERE, 'drivers', d.src), mine)]
                if d.lib:
                    ls = [os.path.join(REPO, 'src', x) for x in sorted(set(lib_sources()))]
                    ls += sorted(glob.glob(os.path.join(REPO, 'include/posix/*.cpp')))
                    srcs += [(x, flags + d.instr.get(os.path.basename(x), '').split()) for x in sorted(ls, key=lambda x: -os.path.getsize(x))]
                srcs += [(os.path.join(REPO, 'src', x), flags) for x in d.srcs]
                objs = []
                for s, fl in srcs:
                    o = os.path.join(scratch(), hashlib.sha1(' '.join(fl).encode()).hexdigest()[:12] + '.' + os.path.basename(s) + '.o')
                    objs.append(o)
                    if o not in jobs:
                        jobs[o] = ex.submit(cc, CXX + fl + ['-c', s, '-o', o])
                plan[d.key] = (d, objs, flags)
            errs = {o: f.result() for o, f in jobs.items()}
        for n, (k, (d, objs, flags)) in enumerate(plan.items()):
            self.exe[k] = None
            bad = [errs[o][1] for o in objs if errs[o][0]]
            if bad:
                self.err.append(('driver %s does not compile against /repo' % d.src, bad[0][-3000:]))
                continue
            out = os.path.join(scratch(), '%d.%s.exe' % (n, os.path.basename(d.src)))
            libs = d.libs.split() + (['-lsqlite3'] if d.lib else []) + ICU
            rc, e = cc(['g++'] + flags + objs + ['-o', out] + ['-Wl,--wrap=' + w for w in d.wrap] + libs)
            self.wrapped[k] = bool(d.wrap) and not rc
            if rc and d.wrap:
                # the functions stood in front of are gone from the sources: only the modes that do without them
                o = objs[0] + '.plain.o'
                rc, e = cc(CXX + flags + ['-c', os.path.join(HERE, 'drivers', d.src), '-o', o])
                if not rc:
                    rc, e = cc(['g++'] + flags + [o] + objs[1:] + ['-o', out] + libs)
            if rc:
                self.err.append(('driver %s does not link' % d.src, e[-3000:]))
            else:
                self.exe[k] = out

    def one(self, d, secs, search, limit):
        exe = self.exe.get(d.key)
        if not exe or (d.needs_wrap and not self.wrapped[d.key]):
            return None
        wd = tempfile.mkdtemp(dir=scratch())
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', LC_ALL='C.UTF-8', CG3_REPO=REPO)
        cmd = [exe, str(self.seed), str(secs)] + d.args
        to = min(limit, secs * 4 + 90)
        try:
            r = subprocess.run(cmd, cwd=wd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=to)
            return r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired as e:
            return 'timeout', (e.stdout or b'').decode('utf-8', 'replace'), (e.stderr or b'').decode('utf-8', 'replace')

    def run(self, search=False, limit=300):
        out = dict(fails=[], errors=list(self.err), summary=[], summary_line='none')
        if not self.ds:
            return out
        secs = {}
        for d in self.ds:
            s = d.seconds[0 if self.tier == 'quick' else 1]
            secs[d.label] = int(min(s * (2 if search else 1), limit / 3 / (len(self.ds) if d.lib else 1) if limit > 30 else 10)) or 1
        with concurrent.futures.ThreadPoolExecutor(1 if any(d.lib for d in self.ds) else 4) as ex:
            fs = [(d, ex.submit(self.one, d, secs[d.label], search, limit)) for d in self.ds]
            rs = [(d, f.result()) for d, f in fs]
        tot = 0
        for d, r in rs:
            if r is None:
                continue
            rc, so, se = r
            seen = set()
            info = dict(driver=d.label, seconds=secs[d.label], rc=rc)
            last = ''
            for ln in so.split('\n'):
                m = re.match(r'FAIL key=(\S+) (.*)', ln)
                if m:
                    if m.group(1) not in seen:
                        seen.add(m.group(1))
                        out['fails'].append(dict(driver=d.label, key=m.group(1), text=m.group(2), rerun='driver %s seed %s' % (d.label, self.seed)))
                    continue
                m = re.match(r'STATS (.*)', ln)
                if m:
                    for kv in m.group(1).split():
                        k, v = kv.split('=')
                        info[k] = int(v) if v.isdigit() else v
                    tot += info.get('evaluations', 0)
                if ln.startswith('SAMPLE '):
                    info.setdefault('samples', []).append(ln[7:])
                if ln.startswith('CASE '):
                    last = ln[5:]
            if rc == 'timeout':
                out['fails'].append(dict(driver=d.label, key='hang', text='does not terminate; last case: %s' % last[:1500], rerun='driver %s seed %s' % (d.label, self.seed)))
            elif rc != 0 and not seen:
                sig = 'crash'
                m = re.search(r'(ERROR: AddressSanitizer: \S+|runtime error: .*|terminate called.*|what\(\):.*)', se)
                f = re.findall(r' in (CG3::\S+|\S+ /repo/src/\S+)', se)
                out['fails'].append(dict(driver=d.label, key='crash', text='exit %s %s in %s; last case: %s' % (rc, m.group(1) if m else se[-300:].replace('\n', ' '), f[0] if f else '?', last[:1500]), rerun='driver %s seed %s' % (d.label, self.seed)))
            out['summary'].append(info)
        out['summary_line'] = '%d evaluations, %d failing' % (tot, len(out['fails']))
        return out
