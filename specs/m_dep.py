"""The dependency tree: GrammarApplicator::isChildOf, wouldParentChildLoop, wouldParentChildCross, attachParentChild."""
import re
import z3
from symex import *
from v import *
from fmap import *

CMAP = FMap(r'std::map<unsigned int, CG3::Cohort\*.*>', 'cohort_map', 'ptr', 8)
C = z3.Function('ancestor', I, I)          # the cohort j steps up from where the walk starts
ALIVE = z3.Function('reached', I, B)       # the walk gets that far
LIMIT = 1000                               # the walk gives up after that many steps, as documented


def nothing(ex, st, ci):
    return IV(0)


def uptr(ex, st, ci):
    return ex.load(st, ci.args[0], ex.T('ptr'))


nothing.cname = 'u_fprintf: only writes a message'
uptr.cname = 'unique_ptr::operator->: the pointer it holds'
COMMON = CMAP.contracts() + ITC + SETC + [(r'^u_fprintf', nothing), (r'^std::unique_ptr<CG3::Window.*>::operator->\(', uptr)]


def whole(p):
    assert p.off == 0 and p.idx is None
    return p.base


class Dep(Spec):
    contracts = COMMON

    def setup(self, ex, st, F):
        self.ga, self.a, self.b = ex.fresh('ga'), ex.fresh('a'), ex.fresh('b')
        st.pc += [self.ga > 0, self.a > 0, self.b > 0]
        self.win = pfld(ex, st, 'GrammarApplicator', self.ga, 'gWindow')
        st.pc.append(self.win > 0)
        return [ptr('GrammarApplicator', self.ga), ptr('Cohort', self.a), ptr('Cohort', self.b)] + self.more_args(ex, st)

    def more_args(self, ex, st):
        return []

    def map(self, ex):
        return ptr('Window', self.win).mv(off=off(ex, 'Window', 'cohort_map'))

    def has(self, ex, st, k):
        return CMAP.has(st, self.map(ex), k)

    def at(self, ex, st, k):
        return CMAP.at(ex, st, self.map(ex), k)

    def num(self, ex, st, c):
        return ifld(ex, st, 'Cohort', c, 'global_number')

    def dep(self, ex, st, c):
        return ifld(ex, st, 'Cohort', c, 'dep_parent')

    def none(self, ex):
        return cst(ex, 'DEP_NO_PARENT')

    def mapped(self, ex, st):
        """the cohort map gives for each number a cohort with that number (for 0, the start of some window)"""
        k = z3.Int('k')
        e = CMAP.elf(self.map(ex))(self.win, k)
        EB, EF, EK = [z3.Function(n + ' ' + CMAP.root, I, I) for n in ('elbase', 'elfield', 'elkey')]
        return [z3.ForAll([k], z3.And(e > 0, EB(e) == self.win, EF(e) == self.map(ex).off, EK(e) == k), patterns=[e]),
                z3.ForAll([k], z3.Implies(self.has(ex, st, k), z3.And(self.at(ex, st, k) > 0, z3.Implies(k != 0, self.num(ex, st, self.at(ex, st, k)) == k))), patterns=[e])]

    def chain(self, ex, st, start):
        """the walk up the tree from a cohort"""
        j = z3.Int('j')
        d = self.dep(ex, st, C(j))
        return [C(0) == start, ALIVE(0), z3.ForAll([j], z3.Implies(j >= 0, z3.And(
            C(j + 1) == self.at(ex, st, d), ALIVE(j + 1) == z3.And(ALIVE(j), d != 0, d != self.none(ex), self.has(ex, st, d)))), patterns=[C(j)])]

    def above(self, ex, st, target, n=LIMIT):
        """the target is met strictly above the starting cohort's parent, within the limit"""
        j = z3.Int('j')
        return z3.Exists([j], z3.And(1 <= j, j <= n, ALIVE(j), self.dep(ex, st, C(j)) == self.num(ex, st, target)))

    def unchanged(self, ex, old, st):
        ch = [c for c in changed(ex, old, st) if not c.startswith('raw')]
        gs = [g for g in st.ghost if g in old.ghost and not st.ghost[g].eq(old.ghost[g])]
        return [('nothing is changed (%s)' % ','.join(ch + gs), z3.BoolVal(not ch and not gs))]


class Walk(Dep):
    start = target = None

    def requires(self, ex, st, args):
        ex.assume(st, self.mapped(ex, st) + self.chain(ex, st, getattr(self, self.start)))
        return [self.lemma(ex, st)]

    @property
    def loops(self):
        def inv(cx):
            ex, st = cx.ex, cx.st
            t = getattr(self, self.target)
            i = ex.to_int(cx.var('i'), 64)
            inner = cx.var('inner')
            inner = inner.base if isinstance(inner, Ptr) else inner
            j = z3.Int('j')
            return [('steps so far', z3.And(0 <= i, i <= LIMIT)), ('position of the walk', inner == C(i)), ('the walk got here', ALIVE(i)), ('a cohort', inner > 0),
                    ('the target was not met', z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= i), self.dep(ex, st, C(j)) != self.num(ex, st, t)), patterns=[C(j)])),
                    ('no answer yet', z3.Not(tob(cx.var('retval'))))]
        return [(self.pat, None, inv)]

    def lemma(self, ex, st):
        """where the walk has stopped it never goes on"""
        i, j, n = z3.Ints('i j n')
        P = lambda m: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= m, ALIVE(m)), ALIVE(i)), patterns=[ALIVE(i)])
        ex.oblige(st, 'induction: start', P(IV(0)), kind='pre')
        ex.oblige(st, 'induction: step', z3.Implies(z3.And(n >= 0, P(n), C(n) == C(n)), z3.Implies(ALIVE(n + 1), z3.And(ALIVE(n), P(n + 1)))), kind='pre')
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, ALIVE(j)), ALIVE(i)), patterns=[z3.MultiPattern(ALIVE(i), ALIVE(j))])


class IsChildOf(Walk):
    name = 'isChildOf'
    pat = r'^CG3::GrammarApplicator::isChildOf\('
    start, target = 'a', 'b'

    def ensures(self, ex, old, st, args, ret):
        n = lambda c: self.num(ex, old, c)
        want = z3.Or(n(self.a) == n(self.b), self.dep(ex, old, self.a) == n(self.b), self.above(ex, old, self.b))
        return [('true for the cohort itself and everything below', tob(ret) == want)] + self.unchanged(ex, old, st)


class WouldLoop(Walk):
    name = 'wouldParentChildLoop'
    pat = r'^CG3::GrammarApplicator::wouldParentChildLoop\('
    start, target = 'a', 'b'               # a: the future parent, b: the future child

    def want(self, ex, old):
        n = lambda c: self.num(ex, old, c)
        d = lambda c: self.dep(ex, old, c)
        up = z3.Or(d(self.a) == n(self.b), self.above(ex, old, self.b))
        return z3.Or(n(self.a) == n(self.b), z3.And(d(self.b) != n(self.a), d(self.a) != n(self.a), up))

    def ensures(self, ex, old, st, args, ret):
        return [('true exactly when the child is the parent or above it', tob(ret) == self.want(ex, old))] + self.unchanged(ex, old, st)


class WouldCross(Dep):
    """known finding: what it answers is not whether arcs would cross; only that it changes nothing is required"""
    name = 'wouldParentChildCross'
    pat = r'^CG3::GrammarApplicator::wouldParentChildCross\('

    def requires(self, ex, st, args):
        return self.mapped(ex, st)

    @property
    def loops(self):
        return [(self.pat, None, lambda cx: [])]

    def ensures(self, ex, old, st, args, ret):
        return self.unchanged(ex, old, st)


R = z3.Function('rank', I, I)              # witness that no cohort is above itself
A = z3.Function('below or is the child', I, B)


class Attach(Dep):
    """a: the new parent, b: the child"""
    name = 'attachParentChild'
    pat = r'^CG3::GrammarApplicator::attachParentChild\('
    weight = 4
    tree = False

    def more_args(self, ex, st):
        self.allowloop, self.allowcross = z3.Bool('allowloop'), z3.Bool('allowcrossing')
        return [self.allowloop, self.allowcross]

    def kids(self, ex, st, c):
        return members(st, ptr('Cohort', c).mv(off=off(ex, 'Cohort', 'dep_children')))

    def arcs(self, ex, st, k, x):
        """the arc from cohort x up to cohort k is known at both ends, or at none"""
        c = self.at(ex, st, k)
        kid, arc = z3.Select(self.kids(ex, st, c), x), self.dep(ex, st, self.at(ex, st, x)) == k
        # the start of a window also lists the cohorts that hang from no other
        return z3.Implies(z3.And(self.has(ex, st, k), self.has(ex, st, x), x != 0, k != 0), z3.And(z3.Implies(arc, kid), z3.Implies(z3.And(kid, ifld(ex, st, 'Cohort', c, 'local_number') != 0), arc)))

    def up(self, ex, st, c):
        """c has a parent that the walk finds"""
        d = self.dep(ex, st, c)
        return z3.And(d != 0, d != self.none(ex), self.has(ex, st, d)), self.at(ex, st, d)

    def ranked(self, ex, st, r, c):
        u, p = self.up(ex, st, c)
        return z3.And(r(c) >= 0, z3.Implies(u, r(p) < r(c)))

    def requires(self, ex, st, args):
        k, x, c, n = z3.Ints('k x c n')
        ek, exx = [CMAP.elf(self.map(ex))(self.win, v) for v in (k, x)]
        ex.assume(st, self.mapped(ex, st))
        for v in (self.a, self.b):
            m = self.num(ex, st, v)
            st.pc += [self.has(ex, st, m), z3.Implies(m != 0, self.at(ex, st, m) == v), m < self.none(ex)]
        self.nb = self.num(ex, st, self.b)
        st.pc.append(z3.Not(self.has(ex, st, self.none(ex))))
        st.pc += [self.nb != 0, self.b != 0]
        ex.assume(st, z3.ForAll([k, x], self.arcs(ex, st, k, x), patterns=[z3.MultiPattern(ek, exx)]))
        for f in ('dep_block_loops', 'dep_block_crossing', 'dep_has_spanned'):
            v = ifld(ex, st, 'GrammarApplicator', self.ga, f)
            st.pc.append(z3.And(0 <= v, v <= 1))
        return []

    @property
    def contracts(self):
        W = WouldLoop()

        def loop(ex, st, ci):
            W.ga, W.win, W.a, W.b = self.ga, self.win, ci.args[1].base, ci.args[2].base
            r = z3.Bool('would loop')
            ex.oblige(st, 'the loop test is asked about parent and child', z3.And(W.a == self.a, W.b == self.b), kind='pre')
            if self.tree:
                ex.assume(st, r == W.want(ex, st))
            st.ghost['loop'] = z3.BoolVal(True)
            return r

        def cross(ex, st, ci):
            ex.oblige(st, 'the crossing test is asked about parent and child', z3.And(ci.args[1].base == self.a, ci.args[2].base == self.b), kind='pre')
            return z3.Bool('would cross')

        def add(ex, st, ci):
            sv_insert(ex, st, type('ci', (), dict(args=[None, ptr('Cohort', whole(ci.args[0])).mv(off=off(ex, 'Cohort', 'dep_children')), ci.args[1]])))

        def rem(ex, st, ci):
            sv_erase(ex, st, type('ci', (), dict(args=[ptr('Cohort', whole(ci.args[0])).mv(off=off(ex, 'Cohort', 'dep_children')), ci.args[1]])))
        loop.cname, cross.cname, add.cname, rem.cname = [x + ' under contract' for x in ('wouldParentChildLoop', 'wouldParentChildCross', 'Cohort::addChild', 'Cohort::remChild')]
        return [(r'^CG3::GrammarApplicator::wouldParentChildLoop\(', loop), (r'^CG3::GrammarApplicator::wouldParentChildCross\(', cross),
                (r'^CG3::Cohort::addChild\(', add), (r'^CG3::Cohort::remChild\(', rem)] + COMMON

    def ensures(self, ex, old, st, args, ret):
        L, X = z3.Bool('would loop'), z3.Bool('would cross')
        bl, bx = [ifld(ex, old, 'GrammarApplicator', self.ga, f) != 0 for f in ('dep_block_loops', 'dep_block_crossing')]
        refuse = z3.Or(z3.And(z3.Not(self.allowloop), bl, L), z3.And(z3.Not(self.allowcross), bx, X))
        c, k, x, y, n = z3.Ints('c k x y n')
        dep, old_dep = lambda v: self.dep(ex, st, v), lambda v: self.dep(ex, old, v)
        kids, old_kids = lambda v, m: z3.Select(self.kids(ex, st, v), m), lambda v, m: z3.Select(self.kids(ex, old, v), m)
        r = tob(ret)
        np = self.num(ex, old, self.a)
        ch = [q for q in changed(ex, old, st) if not q.startswith('raw')]
        ok = ['%s+%d' % (root('Cohort'), off(ex, 'Cohort', f)) for f in ('dep_self', 'dep_parent', 'type')] + ['%s+%d' % (root('GrammarApplicator'), off(ex, 'GrammarApplicator', 'dep_has_spanned'))]
        bad = [q for q in ch if not any(re.match(re.escape(o) + r'(?!\d)', q) for o in ok)]
        return [
            ('refuses exactly what would loop or cross, unless told otherwise', r == z3.Not(refuse)),
            ('a refusal changes no parent', z3.Implies(z3.Not(r), z3.ForAll([c], dep(c) == old_dep(c)))),
            ('a refusal changes no children', z3.Implies(z3.Not(r), z3.ForAll([c, y], kids(c, y) == old_kids(c, y)))),
            ('the child hangs from the parent', z3.Implies(r, dep(self.b) == np)),
            ('no other cohort gets another parent', z3.ForAll([c], z3.Implies(c != self.b, dep(c) == old_dep(c)))),
            ('the parent lists the child', z3.Implies(r, kids(self.a, self.nb))),
            ('no other child comes or goes', z3.ForAll([c, y], z3.Implies(y != self.nb, kids(c, y) == old_kids(c, y)))),
            ('every arc is known at both ends', z3.ForAll([k, x], self.arcs(ex, st, k, x))),
            ('only the two cohorts and the spanning flag change (%s)' % ','.join(bad), z3.BoolVal(not bad)),
        ]


class AttachTree(Attach):
    """with the loop test on, a forest stays a forest"""
    name = 'attachParentChild keeps the forest'
    tree = True

    def requires(self, ex, st, args):
        Attach.requires(self, ex, st, args)
        ex.assume(st, Walk.chain(self, ex, st, self.a))
        c, n = z3.Ints('c n')
        # before: no cohort is above itself (R), and A is what lies below the child
        u, p = self.up(ex, st, c)
        ex.assume(st, [z3.ForAll([c], self.ranked(ex, st, R, c), patterns=[R(c)]), z3.ForAll([c], A(c) == z3.Or(c == self.b, z3.And(u, A(p))), patterns=[A(c)])])
        # walking up from the parent meets the child if the parent lies below the child
        miss = z3.ForAll([n], z3.Implies(z3.And(n >= 0, ALIVE(n)), self.dep(ex, st, C(n)) != self.nb), patterns=[C(n)])
        P = lambda m: z3.And(ALIVE(m), A(C(m)), R(C(m)) <= R(self.a) - m)
        hyp = z3.And(self.a != self.b, miss, A(self.a))
        inj = z3.Implies(hyp, C(IV(0)) != self.b)
        up = lambda m: self.up(ex, st, C(m))
        ex.oblige(st, 'induction: start', z3.Implies(hyp, z3.And(P(IV(0)), inj)), kind='pre')
        ex.oblige(st, 'induction: step', z3.Implies(z3.And(n >= 0, hyp, P(n), C(n) != self.b), z3.And(P(n + 1), C(n + 1) != self.b)), kind='pre')
        ex.assume(st, z3.Implies(hyp, z3.ForAll([n], z3.Implies(n >= 0, P(n)), patterns=[C(n)])))
        ex.oblige(st, 'a child that is not met is not above', z3.Implies(z3.And(hyp, P(R(self.a) + 1), C(R(self.a) + 1) == C(R(self.a) + 1)), z3.BoolVal(False)), kind='pre')
        ex.assume(st, [z3.Not(hyp), Walk.lemma(self, ex, st)])
        return []

    def ensures(self, ex, old, st, args, ret):
        c = z3.Int('c')
        bl = ifld(ex, old, 'GrammarApplicator', self.ga, 'dep_block_loops') != 0
        moved = self.dep(ex, old, self.b) != self.num(ex, old, self.a)
        R2 = lambda v: z3.If(z3.And(A(v), moved), R(v) + R(self.a) + 1, R(v))
        return [('no cohort gets above itself', z3.Implies(z3.And(tob(ret), z3.Not(self.allowloop), bl, z3.Not(ALIVE(LIMIT + 1))), z3.ForAll([c], self.ranked(ex, st, R2, c))))]
