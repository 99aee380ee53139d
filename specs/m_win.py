"""Windows and cohorts as doubly linked lists: SingleWindow::appendCohort, Cohort::detach, Window::alloc*SingleWindow, shuffleWindowsDown, rebuildSingleWindowLinks, rebuildCohortLinks."""
import re
import z3
from symex import *
from v import *
from fmap import *

CMAP = FMap(r'std::map<unsigned int, CG3::Cohort\*.*>', 'cohort_map', 'ptr', 8)


def nxt(ex, st, x, cls='Cohort', f='next'):
    return pfld(ex, st, cls, x, f)


def prv(ex, st, x, cls='Cohort', f='prev'):
    return pfld(ex, st, cls, x, f)


def D(ex, st, x, cls='Cohort', pf='prev'):
    """the neighbours of x point back at it"""
    n, p = nxt(ex, st, x, cls), prv(ex, st, x, cls, pf)
    return z3.And(z3.Implies(n != 0, prv(ex, st, n, cls, pf) == x), z3.Implies(p != 0, nxt(ex, st, p, cls) == x))


def ring(ex, st, cls='Cohort', pf='prev'):
    x = z3.Int('x')
    return z3.ForAll([x], z3.Implies(x > 0, D(ex, st, x, cls, pf)), patterns=[nxt(ex, st, x, cls), prv(ex, st, x, cls, pf)])


def frame(ex, old, st, ok):
    """memory that changed is among (class, field) of ok"""
    names = ['%s+%d' % (root(c), off(ex, c, f)) for c, f in ok]
    bad = [q for q in changed(ex, old, st) if not q.startswith(('raw', 'struct.elem')) and not any(re.match(re.escape(o) + r'(?!\d)', q) for o in names)]
    return [('nothing else changes (%s)' % ','.join(bad), z3.BoolVal(not bad))]


class Detach(Spec):
    name = 'Cohort::detach'
    pat = r'^CG3::Cohort::detach\('

    def setup(self, ex, st, F):
        self.c = ex.fresh('cohort')
        st.pc.append(self.c > 0)
        return [ptr('Cohort', self.c)]

    def requires(self, ex, st, args):
        n, p = nxt(ex, st, self.c), prv(ex, st, self.c)
        return [ring(ex, st), n >= 0, p >= 0, n != self.c, p != self.c]

    def ensures(self, ex, old, st, args, ret):
        x = z3.Int('x')
        c, n, p = self.c, nxt(ex, old, self.c), prv(ex, old, self.c)
        return [('it has no neighbours', z3.And(nxt(ex, st, c) == 0, prv(ex, st, c) == 0)),
                ('its neighbours become neighbours', z3.And(z3.Implies(p != 0, nxt(ex, st, p) == n), z3.Implies(n != 0, prv(ex, st, n) == p))),
                ('all others keep theirs', z3.ForAll([x], z3.And(z3.Implies(z3.And(x != c, x != p), nxt(ex, st, x) == nxt(ex, old, x)), z3.Implies(z3.And(x != c, x != n), prv(ex, st, x) == prv(ex, old, x))))),
                ('neighbours point back', z3.ForAll([x], z3.Implies(x > 0, D(ex, st, x))))] + frame(ex, old, st, [('Cohort', 'next'), ('Cohort', 'prev')])


class Append(Spec):
    name = 'SingleWindow::appendCohort'
    pat = r'^CG3::SingleWindow::appendCohort\('
    contracts = CMAP.contracts() + ITC
    weight = 4

    def setup(self, ex, st, F):
        self.w, self.c = ex.fresh('window'), ex.fresh('cohort')
        st.pc += [self.w > 0, self.c > 0]
        return [ptr('SingleWindow', self.w), ptr('Cohort', self.c)]

    def requires(self, ex, st, args):
        w, c = self.w, self.c
        k = z3.Int('k')
        self.pv, self.nx, self.g = [pfld(ex, st, 'SingleWindow', w, f) for f in ('previous', 'next', 'parent')]
        pv, nx = self.pv, self.nx
        ga = pfld(ex, st, 'Window', self.g, 'parent')
        v = {x: vecf(ex, st, 'SingleWindow', y, 'cohorts') for x, y in (('own', w), ('pv', pv), ('nx', nx))}
        out = [self.g > 0, ga > 0, pv >= 0, nx >= 0, pv != w, nx != w, ring(ex, st), nxt(ex, st, c) == 0, prv(ex, st, c) == 0]
        for q in v.values():
            out += [q.len >= 0, q.len < 2 ** 31, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < q.len), z3.And(q[k] > 0, q[k] != c)), patterns=[q[k]])]
        self.hp, self.hn = z3.And(pv != 0, v['pv'].len > 0), z3.And(nx != 0, v['nx'].len > 0)
        self.pb, self.nf = v['pv'][v['pv'].len - 1], v['nx'][0]
        own = v['own']
        after = z3.If(self.hn, self.nf, 0)
        # entries of the two maps are objects of their own
        EB, EF, EK = [z3.Function(n + ' ' + CMAP.root, I, I) for n in ('elbase', 'elfield', 'elkey')]
        for f in ('cohort_map', 'dep_window'):
            m = ptr('Window', self.g).mv(off=off(ex, 'Window', f))
            e = CMAP.elf(m)(self.g, k)
            out.append(z3.ForAll([k], z3.And(e > 0, EB(e) == self.g, EF(e) == m.off, EK(e) == k), patterns=[e]))
        # the neighbours across windows, before
        out += [z3.Implies(own.len > 0, nxt(ex, st, own[own.len - 1]) == after),
                z3.Implies(z3.And(own.len == 0, self.hp), nxt(ex, st, self.pb) == after),
                z3.Implies(z3.And(own.len == 0, z3.Not(self.hp), self.hn), prv(ex, st, self.nf) == 0)]
        return out

    def ensures(self, ex, old, st, args, ret):
        w, c = self.w, self.c
        x, k = z3.Ints('x k')
        a, b = vecf(ex, old, 'SingleWindow', w, 'cohorts'), vecf(ex, st, 'SingleWindow', w, 'cohorts')
        aa, ab = vecf(ex, old, 'SingleWindow', w, 'all_cohorts'), vecf(ex, st, 'SingleWindow', w, 'all_cohorts')
        before = z3.If(a.len > 0, a[a.len - 1], z3.If(self.hp, self.pb, 0))
        after = z3.If(self.hn, self.nf, 0)
        gn = ifld(ex, old, 'Cohort', c, 'global_number')
        out = [('it comes last in its window', z3.And(b.len == a.len + 1, b[a.len] == c, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.len), b[k] == a[k])))),
               ('the window owns it', z3.And(ab.len == aa.len + 1, ab[aa.len] == c, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < aa.len), ab[k] == aa[k])))),
               ('it knows its window and position', z3.And(pfld(ex, st, 'Cohort', c, 'parent') == w, ifld(ex, st, 'Cohort', c, 'local_number') == a.len)),
               ('its neighbours are right', z3.And(prv(ex, st, c) == before, nxt(ex, st, c) == after)),
               ('neighbours point back', z3.ForAll([x], z3.Implies(x > 0, D(ex, st, x)))),
               ('other links stay', z3.ForAll([x], z3.And(z3.Implies(z3.And(x != c, x != before), nxt(ex, st, x) == nxt(ex, old, x)), z3.Implies(z3.And(x != c, x != after), prv(ex, st, x) == prv(ex, old, x))))),
               ('other cohorts keep window and position', z3.ForAll([x], z3.Implies(x != c, z3.And(pfld(ex, st, 'Cohort', x, 'parent') == pfld(ex, old, 'Cohort', x, 'parent'), ifld(ex, st, 'Cohort', x, 'local_number') == ifld(ex, old, 'Cohort', x, 'local_number')))))]
        for f in ('cohort_map', 'dep_window'):
            m = ptr('Window', self.g).mv(off=off(ex, 'Window', f))
            # the start of the window also stands for number 0
            zero = z3.And(a.len == 0, k == 0) if f == 'cohort_map' else z3.BoolVal(False)
            here = z3.Or(k == gn, zero)
            out.append(('%s knows it by its number, and the others as before' % f, z3.ForAll([k], z3.And(
                CMAP.has(st, m, k) == z3.Or(here, CMAP.has(old, m, k)), z3.Implies(CMAP.has(st, m, k), CMAP.at(ex, st, m, k) == z3.If(here, c, CMAP.at(ex, old, m, k)))))))
        return out + frame(ex, old, st, [('Cohort', f) for f in ('next', 'prev', 'parent', 'local_number')] + [('SingleWindow', 'cohorts'), ('SingleWindow', 'all_cohorts'), ('GrammarApplicator', 'dep_highest_seen')])


class Alloc(Spec):
    name = 'Window::allocSingleWindow'
    pat = r'^CG3::Window::allocSingleWindow\('

    @property
    def contracts(self):
        def alloc(ex, st, ci):
            n, k = ex.fresh('new window'), z3.Int('k')
            v = vecf(ex, st, 'Window', self.g, 'next')
            ex.assume(st, [n > 0, n != self.cur, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), v[k] != n), patterns=[v[k]])])
            st.ghost['new'] = n
            return ptr('SingleWindow', n)
        alloc.cname = 'alloc_swindow: a window that is in no list (C15)'
        return [(r'^CG3::alloc_swindow\(', alloc)]

    def setup(self, ex, st, F):
        self.g = ex.fresh('windows')
        st.pc.append(self.g > 0)
        return [ptr('Window', self.g)]

    def requires(self, ex, st, args):
        k = z3.Int('k')
        v = vecf(ex, st, 'Window', self.g, 'next')
        vecf(ex, st, 'Window', self.g, 'previous')
        self.cur = pfld(ex, st, 'Window', self.g, 'current')
        for f in ('next', 'previous'):
            pfld(ex, st, 'SingleWindow', self.cur, f)
        return [v.len >= 0, v.len < 2 ** 31, self.cur >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), z3.And(v[k] > 0, v[k] != self.cur)), patterns=[v[k]])] + self.more(ex, st)

    def more(self, ex, st):
        return []

    def ensures(self, ex, old, st, args, ret):
        n = st.ghost.get('new')
        if n is None:
            return [('a window is made', z3.BoolVal(False))]
        num = ifld(ex, old, 'Window', self.g, 'window_counter')
        x = z3.Int('x')
        ok = [('Window', 'window_counter'), ('Window', 'next'), ('SingleWindow', 'number'), ('SingleWindow', 'next'), ('SingleWindow', 'previous')]
        return [('it is returned', ret.base == n), ('it gets the next number', z3.And(ifld(ex, st, 'SingleWindow', n, 'number') == (num + 1) % 2 ** 32, ifld(ex, st, 'Window', self.g, 'window_counter') == (num + 1) % 2 ** 32)),
                ('other windows keep their numbers', z3.ForAll([x], z3.Implies(x != n, ifld(ex, st, 'SingleWindow', x, 'number') == ifld(ex, old, 'SingleWindow', x, 'number'))))] + self.post(ex, old, st, n) + frame(ex, old, st, ok)

    def seq(self, ex, st):
        return vecf(ex, st, 'Window', self.g, 'next')

    def links(self, ex, old, st, n, before, after):
        """n between before and after (0: none); all other links stay"""
        x = z3.Int('x')
        L = lambda s, y: nxt(ex, s, y, 'SingleWindow')
        P = lambda s, y: prv(ex, s, y, 'SingleWindow', 'previous')
        return [('it is linked to its neighbours', z3.And(z3.Implies(before != 0, z3.And(P(st, n) == before, L(st, before) == n)), z3.Implies(after != 0, z3.And(L(st, n) == after, P(st, after) == n)))),
                ('links that are not its own stay', z3.ForAll([x], z3.And(z3.Implies(z3.And(x != n, x != before), L(st, x) == L(old, x)), z3.Implies(z3.And(x != n, x != after), P(st, x) == P(old, x)))))]

    def post(self, ex, old, st, n):
        a, b = self.seq(ex, old), self.seq(ex, st)
        k = z3.Int('k')
        return [('the list stays', z3.And(a.len == b.len, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.len), a[k] == b[k]))))] + self.links(ex, old, st, n, IV(0), IV(0))


class AllocAppend(Alloc):
    name = 'Window::allocAppendSingleWindow'
    pat = r'^CG3::Window::allocAppendSingleWindow\('

    def post(self, ex, old, st, n):
        a, b = self.seq(ex, old), self.seq(ex, st)
        k = z3.Int('k')
        return [('it comes last', z3.And(b.len == a.len + 1, b[a.len] == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.len), b[k] == a[k]))))] + \
            self.links(ex, old, st, n, z3.If(a.len > 0, a[a.len - 1], 0), IV(0))


class AllocPush(Alloc):
    name = 'Window::allocPushSingleWindow'
    pat = r'^CG3::Window::allocPushSingleWindow\('

    def post(self, ex, old, st, n):
        a, b = self.seq(ex, old), self.seq(ex, st)
        k = z3.Int('k')
        return [('it comes right after the current one', z3.And(b.len == a.len + 1, b[0] == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.len), b[k + 1] == a[k]))))] + \
            self.links(ex, old, st, n, self.cur, z3.If(a.len > 0, a[0], 0))


def mcopy(ex, st, ci):
    a = gh(st, 'vars', z3.ArraySort(I, I))
    src = gh(st, 'vars of the run', z3.ArraySort(I, I))
    setgh(ex, st, 'vars', z3.Store(a, ci.args[0].base, z3.Select(src, ci.args[1].base)))
    return ci.args[0]


def sclear(ex, st, ci):
    pass


mcopy.cname = sclear.cname = 'hash map assignment and hash set clear (C12)'


class Shuffle(Spec):
    name = 'Window::shuffleWindowsDown'
    pat = r'^CG3::Window::shuffleWindowsDown\('
    contracts = [(r'^CG3::flat_unordered_map<.*::operator=\(', mcopy), (r'^CG3::flat_unordered_(set|map)<.*::clear\(', sclear)]

    def setup(self, ex, st, F):
        self.g = ex.fresh('windows')
        st.pc.append(self.g > 0)
        return [ptr('Window', self.g)]

    def requires(self, ex, st, args):
        k = z3.Int('k')
        v, p = [vecf(ex, st, 'Window', self.g, f) for f in ('next', 'previous')]
        self.cur = pfld(ex, st, 'Window', self.g, 'current')
        ga = pfld(ex, st, 'Window', self.g, 'parent')
        gh(st, 'vars', z3.ArraySort(I, I))
        gh(st, 'vars of the run', z3.ArraySort(I, I))
        return [ga > 0, v.len >= 0, v.len < 2 ** 31, p.len >= 0, p.len < 2 ** 31, self.cur >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), v[k] > 0), patterns=[v[k]])]

    def ensures(self, ex, old, st, args, ret):
        k = z3.Int('k')
        a, b = [vecf(ex, s, 'Window', self.g, 'next') for s in (old, st)]
        p, q = [vecf(ex, s, 'Window', self.g, 'previous') for s in (old, st)]
        cur = pfld(ex, st, 'Window', self.g, 'current')
        had = self.cur != 0
        return [('the next window becomes the current one', cur == z3.If(a.len > 0, a[0], 0)),
                ('the others wait in the same order', z3.And(b.len == z3.If(a.len > 0, a.len - 1, 0), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < b.len), b[k] == a[k + 1])))),
                ('the former current window is the last of the previous ones', z3.And(q.len == p.len + z3.If(had, 1, 0), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p.len), q[k] == p[k])), z3.Implies(had, q[p.len] == self.cur)))] + \
            frame(ex, old, st, [('Window', f) for f in ('current', 'next', 'previous')])


def walks(cx):
    """(container pointer, position) of the range the loop walks over"""
    for n in cx.locals_used():
        if n.startswith('__begin'):
            c0 = cx.st.al.get(cx.frame().path + '/' + n)
            p = c0[0][1] if c0 and 0 in c0 else None
            if isinstance(p, Ptr) and p.kind == 'v':
                return p.base.p, p.idx if p.idx is not None else IV(0)
    return None, None


def obj(v):
    return v.base if isinstance(v, Ptr) else v


SEQ = z3.Function('window in order', I, I)
IX = z3.Function('place of window', I, I)


class WLinks(Spec):
    name = 'Window::rebuildSingleWindowLinks'
    pat = r'^CG3::Window::rebuildSingleWindowLinks\('
    weight = 3

    def setup(self, ex, st, F):
        self.g = ex.fresh('windows')
        st.pc.append(self.g > 0)
        return [ptr('Window', self.g)]

    def requires(self, ex, st, args):
        k = z3.Int('k')
        p, v = [vecf(ex, st, 'Window', self.g, f) for f in ('previous', 'next')]
        cur = pfld(ex, st, 'Window', self.g, 'current')
        self.b1 = p.len
        self.b2 = p.len + z3.If(cur != 0, 1, 0)
        self.T = self.b2 + v.len
        return [p.len >= 0, v.len >= 0, p.len < 2 ** 31, v.len < 2 ** 31, cur >= 0, z3.Implies(cur != 0, SEQ(p.len) == cur),
                z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p.len), SEQ(k) == p[k]), patterns=[p[k]]),
                z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), SEQ(k + self.b2) == v[k]), patterns=[v[k]]),
                z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.T), z3.And(SEQ(k) > 0, IX(SEQ(k)) == k)), patterns=[SEQ(k)])]

    def upto(self, ex, st, g):
        k = z3.Int('k')
        L = lambda y: nxt(ex, st, y, 'SingleWindow')
        P = lambda y: prv(ex, st, y, 'SingleWindow', 'previous')
        return [('each so far has the one before it', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g), P(SEQ(k)) == z3.If(k > 0, SEQ(k - 1), 0)), patterns=[SEQ(k)])),
                ('each so far has the one after it', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g - 1), L(SEQ(k)) == SEQ(k + 1)), patterns=[SEQ(k)]))]

    @property
    def loops(self):
        def inv(cx):
            ex, st = cx.ex, cx.st
            q, i = walks(cx)
            if q is None:
                return []
            base = IV(0) if q.off == off(ex, 'Window', 'previous') else self.b2
            n = vecf(ex, st, 'Window', self.g, 'previous' if q.off == off(ex, 'Window', 'previous') else 'next').len
            g = base + i
            return [('position', z3.And(0 <= i, i <= n)), ('the last one is remembered', obj(cx.var('sWindow')) == z3.If(g > 0, SEQ(g - 1), 0))] + self.upto(ex, st, g)
        return [(self.pat, None, inv)]

    def ensures(self, ex, old, st, args, ret):
        L = lambda y: nxt(ex, st, y, 'SingleWindow')
        return self.upto(ex, st, self.T) + [('the last has none after it', z3.Implies(self.T > 0, L(SEQ(self.T - 1)) == 0))] + frame(ex, old, st, [('SingleWindow', 'next'), ('SingleWindow', 'previous')])


W = z3.Function('window', I, I)            # windows in the order of their links
J = z3.Function('number of window', I, I)
OWN = z3.Function('window of cohort', I, I)
POS = z3.Function('place of cohort', I, I)
LAST = z3.Function('cohort before window', I, I)
LJ = z3.Function('window of the cohort before window', I, I)
FIRST = z3.Function('cohort from window on', I, I)
M = z3.Int('number of windows')


class CLinks(Spec):
    name = 'Window::rebuildCohortLinks'
    pat = r'^CG3::Window::rebuildCohortLinks\('
    weight = 5

    def setup(self, ex, st, F):
        self.g = ex.fresh('windows')
        st.pc.append(self.g > 0)
        return [ptr('Window', self.g)]

    def co(self, ex, st, j):
        return vecf(ex, st, 'SingleWindow', W(j), 'cohorts')

    def requires(self, ex, st, args):
        j, k = z3.Ints('j k')
        p, v = [vecf(ex, st, 'Window', self.g, f) for f in ('previous', 'next')]
        cur = pfld(ex, st, 'Window', self.g, 'current')
        first = z3.If(p.len > 0, p[0], z3.If(cur != 0, cur, z3.If(v.len > 0, v[0], 0)))
        c = self.co(ex, st, j)
        ex.assume(st, [p.len >= 0, v.len >= 0, p.len < 2 ** 31, v.len < 2 ** 31, cur >= 0, M >= 0, W(0) == first, W(M) == 0, J(0) == M,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < M), z3.And(W(j) > 0, J(W(j)) == j, W(j + 1) == nxt(ex, st, W(j), 'SingleWindow'))), patterns=[W(j)]),
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < M), z3.And(c.len >= 0, c.len < 2 ** 31)), patterns=[c.len]),
            z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < M, 0 <= k, k < c.len), z3.And(c[k] > 0, OWN(c[k]) == j, POS(c[k]) == k)), patterns=[c[k]]),
            LAST(0) == 0, FIRST(M) == 0,
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < M), z3.And(LAST(j + 1) == z3.If(c.len > 0, c[c.len - 1], LAST(j)), LJ(j + 1) == z3.If(c.len > 0, j, LJ(j)),
                                                                    FIRST(j) == z3.If(c.len > 0, c[0], FIRST(j + 1)))), patterns=[W(j)])])
        # between the last cohort before a window and the window there are no cohorts
        P = lambda m: z3.Implies(LAST(m) != 0, z3.And(0 <= LJ(m), LJ(m) < m, self.co(ex, st, LJ(m)).len > 0, LAST(m) == self.co(ex, st, LJ(m))[self.co(ex, st, LJ(m)).len - 1], FIRST(LJ(m) + 1) == FIRST(m)))
        n = z3.Int('n')
        ex.oblige(st, 'induction: start', P(IV(0)), kind='pre')
        ex.oblige(st, 'induction: step', z3.Implies(z3.And(0 <= n, n < M, W(n) == W(n), W(n + 1) == W(n + 1), P(n)), P(n + 1)), kind='pre')
        ex.assume(st, z3.ForAll([n], z3.Implies(z3.And(0 <= n, n <= M), P(n)), patterns=[LAST(n)]))
        return []

    def done(self, ex, st, m, i, complete):
        """links right for the windows before m and the first i cohorts of window m; the very last cohort has none after it"""
        j, k = z3.Ints('j k')
        c, cm = self.co(ex, st, j), self.co(ex, st, m)
        N, P = (lambda x: nxt(ex, st, x)), (lambda x: prv(ex, st, x))
        here = z3.And(0 <= j, j < M, 0 <= k, k < c.len, z3.Or(j < m, z3.And(j == m, k < i)))
        last = z3.If(i > 0, cm[i - 1], LAST(m))
        return [('each so far has the one before it', z3.ForAll([j, k], z3.Implies(here, P(c[k]) == z3.If(k > 0, c[k - 1], LAST(j))), patterns=[c[k]])),
                ('each so far has the one after it', z3.ForAll([j, k], z3.Implies(z3.And(here, c[k] != last), N(c[k]) == z3.If(k + 1 < c.len, c[k + 1], FIRST(j + 1))), patterns=[c[k]])),
                ('the last so far has none after it', z3.Implies(last != 0, N(last) == 0))]

    @property
    def loops(self):
        def inv(cx):
            ex, st = cx.ex, cx.st
            m = J(obj(cx.var('sWindow')))
            w = obj(cx.var('sWindow'))
            q, i = walks(cx)
            base = [('the window', z3.And(0 <= m, m <= M, w == W(m)))]
            if q is None or not cx.innermost():
                return base + [('the cohort before it', obj(cx.var('prev')) == LAST(m))] + self.done(ex, st, m, IV(0), False)
            cm = self.co(ex, st, m)
            return base + [('a window', z3.And(w > 0, m < M)), ('position', z3.And(0 <= i, i <= cm.len)), ('the cohort before it', obj(cx.var('prev')) == z3.If(i > 0, cm[i - 1], LAST(m)))] + self.done(ex, st, m, i, False)
        return [(self.pat, None, inv)]

    def ensures(self, ex, old, st, args, ret):
        j, k = z3.Ints('j k')
        c = self.co(ex, st, j)
        here = z3.And(0 <= j, j < M, 0 <= k, k < c.len)
        return [('each has the one before it', z3.ForAll([j, k], z3.Implies(here, prv(ex, st, c[k]) == z3.If(k > 0, c[k - 1], LAST(j))))),
                ('each has the one after it', z3.ForAll([j, k], z3.Implies(here, nxt(ex, st, c[k]) == z3.If(k + 1 < c.len, c[k + 1], FIRST(j + 1)))))] + frame(ex, old, st, [('Cohort', 'next'), ('Cohort', 'prev')])
