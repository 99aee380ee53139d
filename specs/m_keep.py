"""What SELECT, REMOVE and IFF do to the readings of a cohort once the matching readings are known: the block of runRulesOnSingleWindow that runs after all readings were looked at."""
import re
import z3
from symex import *
from v import *

I = z3.IntSort()
AR = z3.ArraySort(I, I)
POS = z3.Function('place of selected', I, I)
CNT = z3.Function('selected before', I, I)
BACK = z3.Function('place in list', I, I)
STEP = z3.Function('next place', I, I)
AFTER = z3.Function('number of removed at place', I, I)
AT = z3.Function('place of removed', I, I)


def outer(ex):
    r = [f for f in ex.mod.funcs.values() if not f.decl and re.search(r'^CG3::GrammarApplicator::runRulesOnSingleWindow\([^()]*\)( const)?$', f.dem or '')]
    if len(r) != 1:
        raise LookupError('runRulesOnSingleWindow: %d functions' % len(r))
    return r[0]


def callees(ex, f):
    out = set()
    for b in f.blocks:
        for i in b.insts:
            if i.op in ('call', 'invoke') and i.callee.kind == 'func':
                out.add(i.callee.v.dem or "")
    return out


def block_fn(ex):
    """the nullary function object of runRulesOnSingleWindow that gives an emptied cohort its reading back"""
    r = []
    for f in ex.mod.funcs.values():
        if not f.decl and re.search(r'runRulesOnSingleWindow\(.*operator\(\)\(\) const$', f.dem or ''):
            if any('::initEmptyCohort(' in x for x in callees(ex, f)):
                r.append(f)
    if not r:
        raise LookupError('block that runs after the readings: not found')
    # the block that runs for each reading is the other, several times as long
    return min(r, key=lambda f: len(f.blocks))


def each_fn(ex):
    r = [f for f in ex.mod.funcs.values() if not f.decl and re.search(r'runRulesOnSingleWindow\(.*operator\(\)\(\) const$', f.dem or '') and any('::initEmptyCohort(' in x for x in callees(ex, f))]
    if len(r) < 2:
        raise LookupError('block that runs for each reading: not found')
    return max(r, key=lambda f: len(f.blocks))


def restore_fn(ex):
    """the function object of runRulesOnSingleWindow that moves readings back from one of the lists"""
    r = [f for f in ex.mod.funcs.values() if not f.decl and re.search(r"runRulesOnSingleWindow\(.*operator\(\)\(std::vector<CG3::Reading\*[^()]*&\) const$", f.dem or '') and any('::doesSetMatchReading(' in x for x in callees(ex, f))]
    if len(r) != 1:
        raise LookupError('block that restores readings: %d candidates' % len(r))
    return r[0]


def captures(ex, g, f=None, outercap=None):
    """{offset in the closure: (variable captured, held by value)} as the enclosing function fills it"""
    t = next(i.src for b in g.blocks for i in b.insts if i.op == 'gep' and i.src.kind == 'struct')
    f = f or outer(ex)
    defs = {i.h: i for b in f.blocks for i in b.insts}
    out = {}
    for b in f.blocks:
        for i in b.insts:
            if i.op != 'store' or i.ops[1].kind != 'inst':
                continue
            a = defs[i.ops[1].v]
            if a.op != 'gep' or a.src.s != t.s or a.ops[0].kind != 'inst' or defs[a.ops[0].v].op != 'alloca':
                continue
            v = defs[i.ops[0].v] if i.ops[0].kind == 'inst' else None
            if v is None:
                continue
            k = t.offsets[a.ops[-1].v]
            if v.op == 'alloca':
                out[k] = (v.name, False)
            elif v.op == 'load' and v.ops[0].kind == 'inst':
                s = defs[v.ops[0].v]
                if s.op == 'gep' and outercap is not None:
                    out[k] = outercap.get(s.src.offsets[s.ops[-1].v], ('?', True))
                else:
                    out[k] = (re.sub(r'\.addr$', '', s.name), True)
    return out


def gh(st, n):
    if n not in st.ghost:
        st.ghost[n] = z3.Const('ghost ' + n, AR)
    return st.ghost[n]


def setg(ex, st, n, v):
    st.ghost[n] = v
    ex.note_write(st, ('g', n))


def swap_readings(ex, st, ci):
    a, b = ci.args
    t = ex.T('ptr')
    x, y = ex.load(st, a, t), ex.load(st, b, t)
    ex.store(st, a, y, t)
    ex.store(st, b, x, t)
    own = ex.spec.readings_of(ex, st)
    if a.kind == 'v' and b.kind == 'v' and a.base.same(own) and b.base.same(own):
        i, j = [p.idx if p.idx is not None else IV(0) for p in (a, b)]
        Q, P = gh(st, 'Q'), gh(st, 'P')
        qi, qj = z3.Select(Q, i), z3.Select(Q, j)
        setg(ex, st, 'Q', z3.Store(z3.Store(Q, i, qj), j, qi))
        setg(ex, st, 'P', z3.Store(z3.Store(P, qj, i), qi, j))
    return None


swap_readings.cname = 'std::swap on two list elements: exchanges their values'


def apply_to(ex, st, ci):
    p = ci.args[0]
    for f, c, v in (('cohort', 'Cohort', ex.spec.c), ('reading', 'Reading', ex.spec.ctx[0]), ('subreading', 'Reading', ex.spec.ctx[1])):
        ex.store(st, p.mv(off=p.off + off(ex, 'ReadingSpec', f)), Ptr('h', v), ex.T('ptr'))
    return None


apply_to.cname = 'GrammarApplicator::get_apply_to: says which cohort the rule acts on, the same one all through the block, and changes nothing'


def sub_reading(ex, st, ci):
    q = ex.fresh('sub')
    st.pc.append(q >= 0)
    return Ptr('h', q)


sub_reading.cname = 'GrammarApplicator::get_sub_reading: null or a reading; no list of readings of the cohort changes'


def empty_cohort(ex, st, ci):
    p = ptr('Cohort', ci.args[-1].base).mv(off=off(ex, 'Cohort', 'readings'))
    k = CKey('vec', p)
    vv = ex.container(st, k)
    q = ex.fresh('magic')
    st.pc.append(q > 0)
    L = dict(vv.leaves)
    L[(0, 'ptr')] = z3.Store(vv.leaves[(0, 'ptr')], vv.len, q)
    ex.set_container(st, k, VecVal(vv.len + 1, L))
    return Ptr('h', q)


empty_cohort.cname = 'GrammarApplicator::initEmptyCohort: appends one new reading to the cohort'


def nothing(ex, st, ci):
    return ci.args[0] if ci.args else None


nothing.cname = 'std::ostream::operator<< (debug output): writes text only'

CONTRACTS = [(r'std::swap<CG3::Reading\*>\(', swap_readings), (r'::get_apply_to\(\)', apply_to), (r'::get_sub_reading\(', sub_reading), (r'::initEmptyCohort\(', empty_cohort),
             (r'operator<<', nothing)]


class Block(Spec):
    opts = {'bits8': True, 'join': True}
    contracts = CONTRACTS
    kinds = ()

    def function(self, ex):
        return block_fn(ex)

    def readings_of(self, ex, st):
        return CKey('vec', ptr('Cohort', self.c).mv(off=off(ex, 'Cohort', 'readings')))

    def setup(self, ex, st, F):
        self.c, self.r, self.a = ex.fresh('cohort'), ex.fresh('rule'), ex.fresh('applicator')
        self.ctx = [ex.fresh('reading'), ex.fresh('subreading')]
        st.pc += [self.c > 0, self.r > 0, self.a > 0] + [x >= 0 for x in self.ctx]
        cap = self.captured(ex, F)
        names = {n for n, v in cap.values()}
        if not self.need <= names:
            raise LookupError('closure captures %s' % sorted(names))
        st.al['closure'] = {}
        for o, (n, byval) in cap.items():
            if n == 'this':
                v = ptr('GrammarApplicator', self.a)
            else:
                v = Ptr('a', 'captured ' + n)
                st.al.setdefault(v.base, {})
            st.al['closure'][o] = (8, v)
        st.al['captured rule'][0] = (8, ptr('Rule', self.r))
        self.lists = {}
        for n in sorted({'selected', 'removed'} & names):
            ln, el = ex.fresh(n + ' len'), ex.fresh(n, AR)
            st.al['captured ' + n][0] = (24, VecVal(ln, {(0, 'ptr'): el}))
            st.pc.append(z3.And(ln >= 0, ln < 2 ** 31))
            self.lists[n] = (ln, el)
        if 'did_restore' in names:
            st.al['captured did_restore'][0] = (1, ex.fresh('did'))
        self.changed_flag = next((n for n, v in cap.values() if n == 'readings_changed'), None)
        if self.changed_flag:
            st.al['captured ' + self.changed_flag][0] = (1, ex.fresh('flag'))
            st.pc.append(z3.And(st.al['captured ' + self.changed_flag][0][1] >= 0, st.al['captured ' + self.changed_flag][0][1] <= 1))
        gh(st, 'P'), gh(st, 'Q')
        return [Ptr('a', 'closure')] + self.arguments(ex, st)

    need = {'rule', 'this', 'selected', 'removed'}

    def captured(self, ex, F):
        return captures(ex, F)

    def arguments(self, ex, st):
        return []

    def rule(self, ex, st, f):
        return ifld(ex, st, 'Rule', self.r, f)

    def flag(self, ex, st, n):
        return (self.rule(ex, st, 'flags') / cst(ex, n)) % 2 == 1

    def requires(self, ex, st, args):
        i, j = z3.Ints('i j')
        R = vecf(ex, st, 'Cohort', self.c, 'readings')
        for f in ('deleted', 'delayed', 'ignored'):
            vecf(ex, st, 'Cohort', self.c, f)
        self.n, self.R0 = R.len, R.a
        self.flags0 = self.bytes(ex, st)
        return [R.len >= 0, R.len < 2 ** 31, z3.Or(*[self.rule(ex, st, 'type') == cst(ex, k) for k in self.kinds]),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < R.len), R[i] > 0), patterns=[R[i]]),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < R.len, 0 <= j, j < R.len, R[i] == R[j]), i == j), patterns=[z3.MultiPattern(R[i], R[j])])] + self.more(ex, st)

    def bytes(self, ex, st):
        """the byte of flags at the start of each reading"""
        return ex.memarr(st, 'raw:i8', z3.ArraySort(I, AR))

    def isdel(self, a, x):
        return (z3.Select(z3.Select(a, x), 0) / 2) % 2 == 1

    def same_but_deleted(self, a, b, x):
        u, v = z3.Select(z3.Select(a, x), 0), z3.Select(z3.Select(b, x), 0)
        return z3.And(u % 2 == v % 2, u / 4 == v / 4)

    def local(self, ex, st, n):
        return st.al['captured ' + n][0][1]

    def appended(self, ex, old, st, n, at, live):
        """one of deleted/delayed/ignored, by the flags of the rule, got n readings"""
        out = []
        dl, ig = self.flag(ex, old, 'RF_DELAYED'), self.flag(ex, old, 'RF_IGNORED')
        k = z3.Int('k')
        for f, cond in (('delayed', dl), ('ignored', z3.And(z3.Not(dl), ig)), ('deleted', z3.And(z3.Not(dl), z3.Not(ig)))):
            a, b = vecf(ex, old, 'Cohort', self.c, f), vecf(ex, st, 'Cohort', self.c, f)
            out += [('%s: what was there stays' % f, z3.And(b.len == a.len + z3.If(z3.And(live, cond), n, 0), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.len), b[k] == a[k])))),
                    ('%s: takes the dropped readings if the rule says so' % f, z3.Implies(z3.And(live, cond), at(a.len, b)))]
        return out

    def frame(self, ex, old, st):
        x = z3.Int('x')
        out = []
        ok = {'%s+%d' % (root('Reading'), off(ex, 'Reading', 'hit_by'))} if True else ()
        own = ['%s+%d' % (root('Cohort'), off(ex, 'Cohort', f)) for f in ('readings', 'deleted', 'delayed', 'ignored')]
        bad = []
        for q in changed(ex, old, st):
            if any(re.match(re.escape(o) + r'(?!\d)', q) for o in ok):
                continue
            a, b = old.mem[q], st.mem[q]
            if any(re.match(re.escape(o) + r'(?!\d)', q) for o in own):
                out.append(('%s: other cohorts keep theirs' % q, z3.ForAll([x], z3.Implies(x != self.c, z3.Select(a, x) == z3.Select(b, x)))))
            elif q != 'raw:i8':
                bad.append(q)
        return out + [('nothing else changes (%s)' % ','.join(bad), z3.BoolVal(not bad))]


def kept(self, i):
    s = CNT(i)
    return z3.And(s < self.lists['selected'][0], POS(s) == i)


class Select(Block):
    """SELECT, and IFF when readings were selected"""
    weight = 5
    name = 'runRulesOnSingleWindow: SELECT, after the readings were looked at'
    kinds = ('K_SELECT', 'K_IFF')
    pat = r'runRulesOnSingleWindow'

    def more(self, ex, st):
        i, j, l = z3.Ints('i j l')
        ns, S = self.lists['selected']
        s = lambda k: z3.Select(S, k)
        return [z3.Or(self.rule(ex, st, 'type') == cst(ex, 'K_SELECT'), ns > 0),
                # the selected ones are some of the readings, in their order
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ns), z3.And(0 <= POS(j), POS(j) < self.n, s(j) == z3.Select(self.R0, POS(j)))), patterns=[POS(j)]),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ns), POS(j) >= 0), patterns=[s(j)]),
                z3.ForAll([j, l], z3.Implies(z3.And(0 <= j, j < l, l < ns), POS(j) < POS(l)), patterns=[z3.MultiPattern(POS(j), POS(l))]),
                # how many of them come before a place
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, 0 <= j, j < ns), (POS(j) < i) == (j < CNT(i))), patterns=[z3.MultiPattern(POS(j), CNT(i))]),
                z3.ForAll([i], z3.Implies(0 <= i, z3.And(0 <= CNT(i), CNT(i) <= ns)), patterns=[CNT(i)]), CNT(0) == 0, z3.Implies(ns > 0, POS(0) >= 0),
                z3.ForAll([i], z3.And(STEP(i) == 1, z3.Implies(i >= 0, z3.And(CNT(i + 1) == CNT(i) + z3.If(kept(self, i), 1, 0), z3.Implies(CNT(i) < ns, POS(CNT(i)) >= i), CNT(i) <= i))), patterns=[STEP(i)]),
                z3.Implies(ns > 0, POS(ns - 1) >= 0), CNT(self.n) == ns]

    @property
    def loops(self):
        def inv(cx):
            ex, st = cx.ex, cx.st
            if not cx.uses('si'):
                return []
            ri, si = cx.var('ri'), cx.var('si')
            d = cx.var('drop')
            dl = d.leaves.get((0, 'ptr')) if isinstance(d, VecVal) else None
            k = z3.Int('k')
            ns, S = self.lists['selected']
            R = vecf(ex, st, 'Cohort', self.c, 'readings')
            by = self.bytes(ex, st)
            sv = self.local(ex, st, 'selected')
            out = [('ri in range', z3.And(0 <= ri, ri <= self.n)), ('si is the number selected before', si == CNT(ri)), ('the rest was dropped', z3.And(d.len == ri - CNT(ri), CNT(ri) <= ri)),
                   ('next selected', z3.And(z3.Implies(CNT(ri) < ns, POS(CNT(ri)) >= ri), z3.Implies(CNT(ri) > 0, POS(CNT(ri) - 1) < ri))),
                   ('counted', STEP(ri) == 1),
                   ('readings as before', z3.And(R.len == self.n, R.a == self.R0)), ('selected as before', z3.And(sv.len == ns, sv.leaves[(0, 'ptr')] == S)),
                   ('flags', z3.ForAll([k], self.same_but_deleted(by, self.flags0, k), patterns=[z3.Select(by, k)])),
                   ('deleted flags', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), self.isdel(by, z3.Select(self.R0, k)) == z3.Or(self.isdel(self.flags0, z3.Select(self.R0, k)), z3.And(k < ri, z3.Not(kept(self, k))))), patterns=[z3.Select(self.R0, k)]))]
            if dl is not None:
                out.append(('dropped in order', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ri, z3.Not(kept(self, k))), z3.And(0 <= k - CNT(k), k - CNT(k) < ri - CNT(ri), z3.Select(dl, k - CNT(k)) == z3.Select(self.R0, k))), patterns=[CNT(k)])))
            return out
        return [(r'runRulesOnSingleWindow', None, inv)]

    def ensures(self, ex, old, st, args, ret):
        k, x = z3.Ints('k x')
        ns, S = self.lists['selected']
        R = vecf(ex, st, 'Cohort', self.c, 'readings')
        live = z3.And(ns > 0, ns < self.n)
        by = self.bytes(ex, st)
        sel, rem = self.local(ex, st, 'selected'), self.local(ex, st, 'removed')
        out = [('exactly the selected readings stay, in order', z3.Implies(live, z3.And(R.len == ns, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ns), R[k] == z3.Select(S, k)))))),
               ('if none or all are selected, all stay', z3.Implies(z3.Not(live), z3.And(R.len == self.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), R[k] == z3.Select(self.R0, k)))))),
               ('never the last reading', z3.Implies(self.n > 0, R.len > 0)),
               ('the dropped ones are marked as deleted, the others not', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), self.isdel(by, z3.Select(self.R0, k)) == z3.Or(self.isdel(self.flags0, z3.Select(self.R0, k)), z3.And(live, z3.Not(kept(self, k))))))),
               ('other flags stay', z3.ForAll([x], self.same_but_deleted(by, self.flags0, x))),
               ('the next cohort starts with nothing selected', z3.And(sel.len == 0, rem.len == 0))]
        at = lambda o, b: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n, z3.Not(kept(self, k))), z3.And(k - CNT(k) >= 0, k - CNT(k) < self.n - ns, b[o + (k - CNT(k))] == z3.Select(self.R0, k))), patterns=[CNT(k)])
        out += self.appended(ex, old, st, self.n - ns, at, live)
        if self.changed_flag:
            f = ex.to_int(self.local(ex, st, self.changed_flag), 8)
            out.append(('says whether readings changed', (f != 0) == z3.Or(ex.to_int(self.local(ex, old, self.changed_flag), 8) != 0, live)))
        return out + self.frame(ex, old, st)


class Remove(Block):
    """REMOVE; and IFF when no readings were selected, below"""
    name = 'runRulesOnSingleWindow: REMOVE, after the readings were looked at'
    kinds = ('K_REMOVE',)
    weight = 9
    pat = r'runRulesOnSingleWindow'

    def gone(self, k, m=None):
        """the reading at place k is to be removed"""
        j = AFTER(k)
        return z3.And(0 <= j, j < (self.lists['removed'][0] if m is None else m), AT(j) == k)

    def more(self, ex, st):
        i, j, l = z3.Ints('i j l')
        nr, M = self.lists['removed']
        self.live = z3.And(nr > 0, z3.Or(nr < self.n, z3.And(ifld(ex, st, 'GrammarApplicator', self.a, 'unsafe') != 0, z3.Not(self.flag(ex, st, 'RF_SAFE'))), self.flag(ex, st, 'RF_UNSAFE')))
        Q, P = gh(st, 'Q'), gh(st, 'P')
        un = ifld(ex, st, 'GrammarApplicator', self.a, 'unsafe')
        return [un >= 0, un <= 1, ifld(ex, st, 'GrammarApplicator', self.a, 'debug_level') == 0, z3.Or(self.rule(ex, st, 'type') == cst(ex, 'K_REMOVE'), self.lists['selected'][0] == 0), nr <= self.n,
                # the removed ones are different readings of the cohort
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nr), z3.And(0 <= AT(j), AT(j) < self.n, z3.Select(M, j) == z3.Select(self.R0, AT(j)), AFTER(AT(j)) == j)), patterns=[AT(j)]),
                z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nr), AT(j) >= 0), patterns=[z3.Select(M, j)]),
                z3.ForAll([i], z3.Select(Q, i) == i, patterns=[z3.Select(Q, i)]), z3.ForAll([i], z3.Select(P, i) == i, patterns=[z3.Select(P, i)])]

    def perm(self, ex, st, R):
        """the list holds the former readings, those at Q of each place"""
        i = z3.Int('i')
        Q, P = gh(st, 'Q'), gh(st, 'P')
        o = '%s+%d' % (root('Cohort'), off(ex, 'Cohort', 'readings'))
        x = z3.Int('x')
        oth = [('other cohorts, %s' % s, z3.ForAll([x], z3.Implies(x != self.c, z3.Select(st.mem[o + s], x) == z3.Select(ex.old.mem[o + s], x)), patterns=[z3.Select(st.mem[o + s], x)])) for s in ('.len', '.e0:ptr') if not st.mem[o + s].eq(ex.old.mem[o + s])]
        return oth + [('list of the same length', R.len == self.n),
                ('a permutation', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(0 <= z3.Select(Q, i), z3.Select(Q, i) < self.n, z3.Select(P, z3.Select(Q, i)) == i)), patterns=[z3.Select(Q, i)])),
                ('its inverse', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.And(0 <= z3.Select(P, i), z3.Select(P, i) < self.n, z3.Select(Q, z3.Select(P, i)) == i)), patterns=[z3.Select(P, i)])),
                ('of the former readings', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), R[i] == z3.Select(self.R0, z3.Select(Q, i))), patterns=[R[i]]))]

    @property
    def loops(self):
        def inv(cx):
            ex, st = cx.ex, cx.st
            if not cx.has('oz'):
                return []
            i, k, p = z3.Ints('i k p')
            nr, M = self.lists['removed']
            oz = cx.var('oz')
            R = vecf(ex, st, 'Cohort', self.c, 'readings')
            rv = self.local(ex, st, 'removed')
            m = rv.len
            Q, P = gh(st, 'Q'), gh(st, 'P')
            by = self.bytes(ex, st)
            n = self.n
            out = [('list of removed', rv.leaves[(0, 'ptr')] == M), ('as many left', z3.And(0 <= m, m <= nr))] + self.perm(ex, st, R)
            inner = cx.innermost()
            if inner:
                x = cx.var('i')
                at = AT(m - 1)
                found = oz == n - (nr - m) - 1
                out += [('one being removed', m > 0), ('i in range', z3.And(0 <= x)), ('found or not', z3.Or(found, z3.And(oz == n - (nr - m), z3.Select(P, at) >= x, z3.Select(P, at) < oz, x <= oz))),
                        ('if found it is behind', z3.Implies(found, z3.Select(P, at) == oz))]
            else:
                out += [('end', oz == n - (nr - m))]
            done = m - (1 if inner else 0)
            top = n - (nr - m)
            out += [('behind the end are the removed ones', z3.ForAll([p], z3.Implies(z3.And(top <= p, p < n), z3.Select(Q, p) == AT(p - (n - nr))), patterns=[z3.Select(Q, p)])),
                    ('the others are before it', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < done), z3.And(z3.Select(P, AT(k)) < oz)), patterns=[AT(k)])),
                    ('each removed one is behind', z3.ForAll([k], z3.Implies(z3.And(m <= k, k < nr), z3.Select(P, AT(k)) == k + n - nr), patterns=[AT(k)])),
                    ('flags', z3.ForAll([k], self.same_but_deleted(by, self.flags0, k), patterns=[z3.Select(by, k)])),
                    ('deleted flags', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), self.isdel(by, z3.Select(self.R0, k)) == z3.Or(self.isdel(self.flags0, z3.Select(self.R0, k)), z3.And(self.gone(k), AFTER(k) >= done))), patterns=[z3.Select(self.R0, k)]))]
            return out
        return [(r'runRulesOnSingleWindow', None, inv)]

    def ensures(self, ex, old, st, args, ret):
        k, x, i = z3.Ints('k x i')
        nr, M = self.lists['removed']
        n = self.n
        R = vecf(ex, st, 'Cohort', self.c, 'readings')
        live = self.live
        Q, P = gh(st, 'Q'), gh(st, 'P')
        left = n - nr
        by = self.bytes(ex, st)
        sel, rem = self.local(ex, st, 'selected'), self.local(ex, st, 'removed')
        whole = z3.If(live, left, n)
        out = [('as many fewer as removed', R.len == z3.If(whole == 0, 1, whole)),
               ('every one not removed stays', z3.Implies(live, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.Not(self.gone(k))), z3.And(0 <= z3.Select(P, k), z3.Select(P, k) < left, R[z3.Select(P, k)] == z3.Select(self.R0, k))), patterns=[z3.Select(P, k)]))),
               ('nothing else is there, and nothing twice', z3.Implies(live, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < left), z3.And(z3.Select(P, z3.Select(Q, i)) == i, 0 <= z3.Select(Q, i), z3.Select(Q, i) < n, R[i] == z3.Select(self.R0, z3.Select(Q, i)), z3.Not(self.gone(z3.Select(Q, i))))), patterns=[z3.Select(Q, i)]))),
               ('if none may be removed, all stay', z3.Implies(z3.Not(live), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), R[k] == z3.Select(self.R0, k))))),
               ('never the last reading', R.len > 0), ('the last one only if unsafe', z3.Implies(z3.And(live, left == 0), z3.Or(ifld(ex, old, 'GrammarApplicator', self.a, 'unsafe') != 0, self.flag(ex, old, 'RF_UNSAFE')))),
               ('the removed ones are marked as deleted, the others not', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), self.isdel(by, z3.Select(self.R0, k)) == z3.Or(self.isdel(self.flags0, z3.Select(self.R0, k)), z3.And(live, self.gone(k)))))),
               ('other flags stay', z3.ForAll([x], self.same_but_deleted(by, self.flags0, x))),
               ('the next cohort starts with nothing removed', z3.And(sel.len == 0, rem.len == 0))]
        at = lambda o, b: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < nr), b[o + k] == z3.Select(M, k)))
        out += self.appended(ex, old, st, nr, at, live)
        if self.changed_flag:
            f = ex.to_int(self.local(ex, st, self.changed_flag), 8)
            out.append(('says whether readings changed', (f != 0) == z3.Or(ex.to_int(self.local(ex, old, self.changed_flag), 8) != 0, live)))
        return out + self.frame(ex, old, st)


class RemoveIff(Remove):
    """the same block of code for IFF"""
    name = 'runRulesOnSingleWindow: IFF without matches, after the readings were looked at'
    kinds = ('K_IFF',)


def forget_tests(ex, st, ci):
    st.ghost['answers cleared'] = z3.BoolVal(True)
    ex.note_write(st, ('g', 'answers cleared'))
    return None


forget_tests.cname = 'flat_unordered_set::clear on the table of rules that cannot match: empties it (C12)'


def unmap(ex, st, ci):
    st.ghost['unmapped'] = z3.BoolVal(True)
    ex.note_write(st, ('g', 'unmapped'))
    return ex.fresh('unmapped', z3.BoolSort())


unmap.cname = 'GrammarApplicator::unmapReading: may take the mapping tag of the reading; no list of readings changes'


class Each(Block):
    """SELECT, REMOVE and IFF: what is noted for each matching reading"""
    name = 'runRulesOnSingleWindow: SELECT, REMOVE and IFF, for each matching reading'
    kinds = ('K_SELECT', 'K_REMOVE', 'K_IFF')
    pat = r'runRulesOnSingleWindow'
    contracts = CONTRACTS + [(r'flat_unordered_set<.*>::clear\(', forget_tests), (r'::unmapReading\(', unmap)]

    def function(self, ex):
        return each_fn(ex)

    def more(self, ex, st):
        st.ghost['unmapped'] = st.ghost['answers cleared'] = z3.BoolVal(False)
        return [x > 0 for x in self.ctx] + [self.n > 0, self.lists['removed'][0] <= self.n - 1]

    def ensures(self, ex, old, st, args, ret):
        k = z3.Int('k')
        t = self.rule(ex, old, 'type')
        byte = z3.Select(z3.Select(self.flags0, self.ctx[1]), 0)
        sel = z3.Or(t == cst(ex, 'K_SELECT'), z3.And(t == cst(ex, 'K_IFF'), (byte / 16) % 2 == 1))
        last = z3.And(t == cst(ex, 'K_REMOVE'), self.flag(ex, old, 'RF_UNMAPLAST'), self.lists['removed'][0] == self.n - 1)
        out = [('the mapping is taken instead of the last reading if the rule says so', st.ghost['unmapped'] == z3.And(z3.Not(sel), last)),
               ('remembered answers are dropped', st.ghost['answers cleared'])]
        for n, live in (('selected', sel), ('removed', z3.And(z3.Not(sel), z3.Not(last)))):
            ln, a = self.lists[n]
            v = self.local(ex, st, n)
            b = v.leaves[(0, 'ptr')]
            out += [('%s: gets the reading if the rule says so' % n, z3.And(v.len == ln + z3.If(live, 1, 0), z3.Implies(live, z3.Select(b, ln) == self.ctx[0]))),
                    ('%s: those before stay' % n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), z3.Select(b, k) == z3.Select(a, k))))]
        R = vecf(ex, st, 'Cohort', self.c, 'readings')
        out.append(('no reading is dropped yet', z3.And(R.len == self.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), R[k] == z3.Select(self.R0, k))))))
        return out + self.frame(ex, old, st)


NM = z3.Function('matching before', I, I)
MATCH = z3.Function('matches', I, z3.BoolSort())


def asks(ex, st, ci):
    return MATCH(ci.args[1].base)


asks.cname = 'GrammarApplicator::doesSetMatchReading (C04): some answer for each reading; no list of readings and no deleted flag changes'


def reflow_(ex, st, ci):
    r = ci.args[1].base
    a = st.mem.get('raw:i8')
    if a is not None:
        u = z3.Select(z3.Select(a, r), 0)
        v = ex.fresh('flags')
        st.pc.append(z3.And(v >= 0, v < 256, (v / 2) % 2 == (u / 2) % 2))
        ex.note_write(st, ('h', 'raw:i8'))
        st.mem['raw:i8'] = z3.Store(a, r, z3.Store(z3.Select(a, r), 0, v))
    return None


reflow_.cname = 'GrammarApplicator::reflowReading: recomputes what is derived from the tags of the reading; no list of readings and no deleted flag changes'


def updates(ex, st, ci):
    return ex.fresh('updated', z3.BoolSort())


updates.cname = 'GrammarApplicator::updateValidRules: adds rules to the window; no list of readings changes'


def rule_iter(ex, st, ci):
    return ci.args[0] if 'operator=' in ci.dem else None


rule_iter.cname = 'position in the list of rules to try (interval_vector, C02): unrelated to readings'


class Restore(Block):
    """RESTORE: readings that match come back, in order, the others stay where they are"""
    name = 'runRulesOnSingleWindow: RESTORE'
    kinds = ('K_RESTORE',)
    pat = r'runRulesOnSingleWindow'
    contracts = CONTRACTS + [(r'::doesSetMatchReading\(', asks), (r'::reflowReading\(', reflow_), (r'::updateValidRules\(', updates),
                             (r'interval_vector<unsigned int>::(find|end)\(', rule_iter), (r'interval_vector<unsigned int>::const_iterator::operator=', rule_iter)]

    def function(self, ex):
        return restore_fn(ex)

    def captured(self, ex, F):
        g = each_fn(ex)
        return captures(ex, F, g, captures(ex, g))

    need = {'rule', 'this'}

    def arguments(self, ex, st):
        self.l = ex.fresh('list')
        st.pc.append(self.l > 0)
        return [Ptr('h', self.l, root='list of readings')]

    def lst(self, ex, st):
        return ex.container(st, CKey('vec', Ptr('h', self.l, root='list of readings')))

    def more(self, ex, st):
        i, j = z3.Ints('i j')
        v = self.lst(ex, st)
        self.m, self.L0 = v.len, v.leaves[(0, 'ptr')]
        L = lambda k: z3.Select(self.L0, k)
        did = self.did(st)
        return ([did >= 0, did <= 1] if did is not None else []) + [v.len >= 0, v.len < 2 ** 31, pfld(ex, st, 'Rule', self.r, 'maplist') > 0,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.len), z3.And(L(i) > 0, BACK(L(i)) == i)), patterns=[L(i)]),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < v.len, 0 <= j, j < v.len, L(i) == L(j)), i == j), patterns=[z3.MultiPattern(L(i), L(j))]),
                NM(0) == 0, z3.ForAll([i], z3.And(STEP(i) == 1, z3.Implies(i >= 0, z3.And(NM(i + 1) == NM(i) + z3.If(MATCH(L(i)), 1, 0), NM(i) <= i, NM(i) >= 0))), patterns=[STEP(i)]),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j), z3.And(NM(i) + z3.If(MATCH(L(i)), 1, 0) <= NM(j), i - NM(i) + z3.If(MATCH(L(i)), 0, 1) <= j - NM(j))), patterns=[z3.MultiPattern(NM(i), NM(j))])]

    def did(self, st):
        c = st.al.get('captured did_restore')
        return c[0][1] if c and 0 in c else None

    def upto(self, ex, st, t):
        """the first t of the list were looked at"""
        k, x = z3.Ints('k x')
        R = vecf(ex, st, 'Cohort', self.c, 'readings')
        v = self.lst(ex, st)
        c = v.leaves[(0, 'ptr')]
        by = self.bytes(ex, st)
        L = lambda k: z3.Select(self.L0, k)
        o = '%s+%d' % (root('Cohort'), off(ex, 'Cohort', 'readings'))
        out = [('other cohorts, %s' % s, z3.ForAll([x], z3.Implies(x != self.c, z3.Select(st.mem[o + s], x) == z3.Select(ex.old.mem[o + s], x)), patterns=[z3.Select(st.mem[o + s], x)])) for s in ('.len', '.e0:ptr') if not st.mem[o + s].eq(ex.old.mem[o + s])]
        out += [('other lists, %s' % q, z3.ForAll([x], z3.Implies(x != self.l, z3.Select(st.mem[q], x) == z3.Select(ex.old.mem[q], x)), patterns=[z3.Select(st.mem[q], x)])) for q in changed(ex, ex.old, st) if q.startswith('list of readings')]
        out += [('as many more as matched', z3.And(R.len == self.n + NM(t), v.len == self.m - NM(t))),
                ('what was there stays', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), R[k] == z3.Select(self.R0, k)), patterns=[R[k]])),
                ('those that match come back, in order', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t, MATCH(L(k))), z3.And(NM(k) >= 0, NM(k) < NM(t), R[self.n + NM(k)] == L(k))), patterns=[NM(k)])),
                ('those that do not stay, in order', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t, z3.Not(MATCH(L(k)))), z3.And(k - NM(k) >= 0, k - NM(k) < t - NM(t), z3.Select(c, k - NM(k)) == L(k))), patterns=[NM(k)])),
                ('those not looked at yet', z3.ForAll([k], z3.Implies(z3.And(t <= k, k < self.m), z3.Select(c, k - NM(t)) == L(k)), patterns=[L(k)])),
                ('those that come back are not deleted any more', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.m), self.isdel(by, L(k)) == z3.And(self.isdel(self.flags0, L(k)), z3.Not(z3.And(k < t, MATCH(L(k)))))), patterns=[L(k)])),
                ('flags of other readings', z3.ForAll([x], z3.Or(z3.Select(by, x) == z3.Select(self.flags0, x), z3.And(0 <= BACK(x), BACK(x) < t, L(BACK(x)) == x, MATCH(x))), patterns=[z3.Select(by, x)]))]
        return out

    @property
    def loops(self):
        def inv(cx):
            ex, st = cx.ex, cx.st
            if not cx.has('i'):
                return []
            R = vecf(ex, st, 'Cohort', self.c, 'readings')
            t = cx.var('i') + R.len - self.n
            if any('__begin' in n for n in cx.locals_used()) and cx.innermost():
                # over the tags of one reading: no list changes
                e = LoopCx(ex, cx.entry, cx.entry, cx.fn, cx.header, cx.L)
                return []
            out = [('looked at', z3.And(0 <= t, t <= self.m, STEP(t) == 1, cx.var('i') >= 0))] + self.upto(ex, st, t)
            d, d0 = self.did(st), self.did(ex.old)
            if d is not None:
                out.append(('whether any came back', (ex.to_int(d, 8) != 0) == z3.Or(ex.to_int(d0, 8) != 0, R.len > self.n)))
            return out
        return [(r'runRulesOnSingleWindow', None, inv)]

    def ensures(self, ex, old, st, args, ret):
        out = self.upto(ex, st, self.m)
        d, d0 = self.did(st), self.did(ex.old)
        if d is not None:
            out.append(('says whether any came back', (ex.to_int(d, 8) != 0) == z3.Or(ex.to_int(d0, 8) != 0, NM(self.m) > 0)))
        ok = ['%s+%d' % (root('Reading'), off(ex, 'Reading', 'hit_by')), '%s+%d' % (root('Cohort'), off(ex, 'Cohort', 'readings')), 'list of readings', 'raw:i8']
        bad = [q for q in changed(ex, old, st) if not any(re.match(re.escape(o) + r'(?!\d)', q) for o in ok)]
        return out + [('nothing else changes (%s)' % ','.join(bad), z3.BoolVal(not bad))]
