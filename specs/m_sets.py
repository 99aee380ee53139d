"""Set operators and the set/reading match index (GrammarApplicator::doesSetMatchReading)."""
import z3
from symex import *
from v import *

I, B = z3.IntSort(), z3.BoolSort()
IDX = z3.ArraySort(I, z3.ArraySort(I, B))
Sem = z3.Function('Sem', I, B)             # does the reading under test belong to set number n (set without unification)
TagSem = z3.Function('TagSem', I, B)       # does it match the tag lists of LIST n
Mem = z3.Function('Mem', I, I, B)          # membership of a reading with hash h in context-free set n
HV = z3.Function('HV', I, I, I)            # hash_value(uint32, seed)
G = z3.Function('G', I, I, B, B, B)        # value of set n when operand k has just been combined into acc, with failfast flag


class Sets:
    """the grammar's sets as the function sees them"""

    def __init__(self, ex, st, ga):
        self.ex, self.st = ex, st
        self.g = pfld(ex, st, 'GrammarApplicator', ga, 'grammar')
        self.list = vecf(ex, st, 'Grammar', self.g, 'sets_list')
        self.n = self.list.len
        self.ty = farr(ex, st, 'Set', 'type', fty(ex, 'Set', 'type'))
        self.num = farr(ex, st, 'Set', 'number', 'i32')
        r = root('Set')
        so, oo = off(ex, 'Set', 'sets'), off(ex, 'Set', 'set_ops')
        A = z3.ArraySort(I, z3.ArraySort(I, I))
        L = z3.ArraySort(I, I)
        self.slen = ex.memarr(st, '%s+%d.len' % (r, so), L)
        self.olen = ex.memarr(st, '%s+%d.len' % (r, oo), L)
        self.s = ex.memarr(st, '%s+%d.e0:i32' % (r, so), A)
        self.o = ex.memarr(st, '%s+%d.e0:i32' % (r, oo), A)

    def obj(self, k):
        return self.list[k]

    def flag(self, k, name):
        t = z3.Select(self.ty, self.obj(k))
        if t.sort() == z3.IntSort():
            v = cst(self.ex, name)
            return (t / v) % 2 == 1
        return (t & cst(self.ex, name)) != 0

    def sets(self, k, i):
        return z3.Select(z3.Select(self.s, self.obj(k)), i)

    def ops(self, k, i):
        return z3.Select(z3.Select(self.o, self.obj(k)), i)

    def nsets(self, k):
        return z3.Select(self.slen, self.obj(k))

    def nops(self, k):
        return z3.Select(self.olen, self.obj(k))

    def unif(self, k):
        return z3.Or(self.flag(k, 'ST_TAG_UNIFY'), self.flag(k, 'ST_SET_UNIFY'), self.flag(k, 'ST_CHILD_UNIFY'))

    def context(self, k):
        return z3.Or(self.unif(k), self.flag(k, 'ST_SPECIAL'))

    def wf(self):
        """what Grammar::reindex establishes: numbers index the list, operands exist, flags of operands show in the set"""
        n, i = z3.Ints('n i')
        inr = z3.And(0 <= n, n < self.n)
        return [z3.ForAll([n], z3.Implies(inr, z3.And(self.obj(n) > 0, z3.Select(self.num, self.obj(n)) == n)), patterns=[self.obj(n)]),
                z3.ForAll([n], z3.Implies(z3.And(inr, self.nsets(n) > 0), self.nops(n) == self.nsets(n) - 1), patterns=[self.nsets(n)]),
                z3.ForAll([n, i], z3.Implies(z3.And(inr, 0 <= i, i < self.nsets(n)), z3.And(0 <= self.sets(n, i), self.sets(n, i) < self.n)), patterns=[self.sets(n, i)]),
                z3.ForAll([n, i], z3.Implies(z3.And(inr, 0 <= i, i < self.nsets(n), self.context(self.sets(n, i))), self.flag(n, 'ST_SPECIAL')), patterns=[self.sets(n, i)]),
                z3.ForAll([n, i], z3.Implies(z3.And(inr, 0 <= i, i < self.nsets(n), self.unif(self.sets(n, i))), self.flag(n, 'ST_CHILD_UNIFY')), patterns=[self.sets(n, i)]),
                z3.ForAll([n], z3.Implies(z3.And(inr, self.unif(n)), self.flag(n, 'ST_SPECIAL')), patterns=[self.obj(n)]),
                z3.ForAll([n], z3.Implies(z3.And(inr, self.flag(n, 'ST_SET_UNIFY')), self.nsets(n) > 0), patterns=[self.obj(n)])]

    def sem(self):
        """the meaning of a set: (*) is everything, a LIST is its tags, a SET is its OR-separated groups of + - ^ from left to right"""
        ex = self.ex
        n, k = z3.Ints('n k')
        acc, ff = z3.Bools('acc ff')
        M = lambda j: Sem(self.sets(n, j))
        PLUS, MINUS, FF, OR = [cst(ex, c) for c in ('S_PLUS', 'S_MINUS', 'S_FAILFAST', 'S_OR')]
        last = k >= self.nsets(n) - 1
        op = self.ops(n, k)
        g = G(n, k, acc, ff)
        group = z3.Or(acc, z3.And(z3.Not(ff), G(n, k + 1, M(k + 1), False)))
        body = z3.If(op == OR, group,
                     z3.If(op == PLUS, G(n, k + 1, z3.And(acc, M(k + 1)), ff),
                           z3.If(op == MINUS, G(n, k + 1, z3.And(acc, z3.Not(M(k + 1))), ff),
                                 G(n, k + 1, z3.And(acc, z3.Not(M(k + 1))), z3.Or(ff, M(k + 1))))))
        known = z3.Or(op == OR, op == PLUS, op == MINUS, op == FF)
        inr = z3.And(0 <= n, n < self.n)
        return [z3.ForAll([n, k, acc, ff], z3.Implies(z3.And(inr, 0 <= k, last), g == acc), patterns=[g]),
                z3.ForAll([n, k, acc, ff], z3.Implies(z3.And(inr, 0 <= k, z3.Not(last), known), g == body), patterns=[z3.MultiPattern(g, op)]),
                z3.ForAll([n], z3.Implies(inr, Sem(n) == z3.If(self.flag(n, 'ST_ANY'), True, z3.If(self.nsets(n) == 0, TagSem(n), G(n, 0, Sem(self.sets(n, 0)), False)))), patterns=[Sem(n)])]


def cache(which):
    return 'idx_' + which


def ghost(st, n, sort=IDX):
    if n not in st.ghost:
        st.ghost[n] = z3.Const(n, sort)
    return st.ghost[n]


def setghost(ex, st, n, v):
    st.ghost[n] = v
    ex.note_write(st, ('g', n))


def which_index(ex, p):
    if p.kind != 'v' or p.base.kind != 'vec':
        raise Unsupported('match index outside index_readingSet_*')
    for w in ('yes', 'no'):
        if p.base.p.off == off(ex, 'GrammarApplicator', 'index_readingSet_' + w):
            return cache(w)
    raise Unsupported('match index outside index_readingSet_*')


def hs_contains(ex, st, ci):
    n = which_index(ex, ci.args[0])
    return z3.Select(z3.Select(ghost(st, n), ci.args[0].idx), ex.to_int(ci.args[1], 32))


def hs_insert(ex, st, ci):
    n = which_index(ex, ci.args[0])
    a = ghost(st, n)
    k = ci.args[0].idx
    setghost(ex, st, n, z3.Store(a, k, z3.Store(z3.Select(a, k), ex.to_int(ci.args[1], 32), True)))
    return None


hs_contains.cname = hs_insert.cname = 'flat_unordered_set: mathematical set (bounded evidence in C12)'


def cacheinv(ex, st, S):
    """a recorded answer is the truth, for sets that depend on the reading alone"""
    n, h = z3.Ints('n h')
    y, no = ghost(st, 'idx_yes'), ghost(st, 'idx_no')
    at = lambda a: z3.Select(z3.Select(a, n), h)
    inr = z3.And(0 <= n, n < S.n, z3.Not(S.context(n)))
    return [('every recorded match of a context-free set is true', z3.ForAll([n, h], z3.Implies(z3.And(inr, at(y)), Mem(n, h)), patterns=[at(y)])),
            ('every recorded failure of a context-free set is true', z3.ForAll([n, h], z3.Implies(z3.And(inr, at(no)), z3.Not(Mem(n, h))), patterns=[at(no)]))]


COUNTERS = ('match_sub', 'match_single')


def havoc_counters(ex, st, ga):
    for f in COUNTERS:
        t = ex.T(fty(ex, 'GrammarApplicator', f))
        ex.store(st, ptr('GrammarApplicator', ga).mv(off=off(ex, 'GrammarApplicator', f)), ex.fresh_of(st, t, f), t)


class Match(Spec):
    name = 'doesSetMatchReading'
    pat = r'^CG3::GrammarApplicator::doesSetMatchReading\('
    weight = 4
    opts = {'bv': [r'CG3::Set\+\d+:i16$']}

    def setup(self, ex, st, F):
        self.ga, self.rd = ex.fresh('ga'), ex.fresh('reading')
        st.pc += [self.ga > 0, self.rd > 0]
        self.set = ex.fresh_int(st, 32, 'set')
        self.bypass, self.unif = z3.Bool('bypass_index'), z3.Bool('unif_mode')
        ghost(st, 'idx_yes'), ghost(st, 'idx_no')
        return [ptr('GrammarApplicator', self.ga), ptr('Reading', self.rd), self.set, self.bypass, self.unif]

    def key(self, ex, st):
        """what identifies the tags of the reading: the plain tags' hash, extended by the mapping tag"""
        m = pfld(ex, st, 'Reading', self.rd, 'mapping')
        hp = ifld(ex, st, 'Reading', self.rd, 'hash_plain')
        mh = ifld(ex, st, 'Tag', m, 'hash')
        return z3.If(m != 0, HV(mh, hp), hp)

    def pre(self, ex, st, S, n, bypass, unif):
        return [('the set exists', z3.And(0 <= n, n < S.n)),
                ('the index is only consulted for sets that depend on the reading alone', z3.Or(bypass, unif, z3.Not(S.context(n))))]

    def requires(self, ex, st, args):
        S = Sets(ex, st, self.ga)
        h = z3.Int('key_of_reading')
        st.pc.append(h == self.key(ex, st))
        n = z3.Int('n')
        ilen = lambda w: vecf(ex, st, 'GrammarApplicator', self.ga, 'index_readingSet_' + w).len
        link = z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < S.n, z3.Not(S.context(n))), Sem(n) == Mem(n, h)), patterns=[Sem(n)])
        link2 = z3.ForAll([n], z3.Implies(z3.And(0 <= n, n < S.n, z3.Not(S.context(n))), Sem(n) == Mem(n, h)), patterns=[Mem(n, h)])
        return S.wf() + S.sem() + [link, link2] + [f for _, f in self.pre(ex, st, S, self.set, self.bypass, self.unif)] + [f for _, f in cacheinv(ex, st, S)] + [
            ilen('yes') >= S.n, ilen('no') >= S.n, vecf(ex, st, 'GrammarApplicator', self.ga, 'context_stack', (0, 'ptr')).len > 0]

    # ---- contracts of callees
    @property
    def contracts(self):
        def rec(ex, st, ci):
            ga, rd, n, bp, um = ci.args
            S = Sets(ex, st, self.ga)
            bp, um = tob(bp), tob(um)
            n = ex.to_int(n, 32)
            ex.oblige(st, 'sub-set is tested on the same reading', ex.peq(st, rd, ptr('Reading', self.rd)), kind='pre')
            for l, f in self.pre(ex, st, S, n, bp, um):
                ex.oblige(st, 'call of doesSetMatchReading: ' + l, f, kind='pre')
            for l, f in cacheinv(ex, st, S):
                ex.oblige(st, 'call of doesSetMatchReading: ' + l, f, kind='pre')
            for w in ('idx_yes', 'idx_no'):
                setghost(ex, st, w, ex.fresh(w, IDX))
            for l, f in cacheinv(ex, st, S):
                ex.assume(st, f)
            havoc_counters(ex, st, self.ga)
            r = ex.fresh('rec', z3.BoolSort())
            st.pc.append(z3.Implies(z3.And(z3.Not(um), z3.Not(S.unif(n))), r == Sem(n)))
            return r
        rec.cname = 'contract of doesSetMatchReading itself (recursion on operands)'

        def tags(ex, st, ci):
            S = Sets(ex, st, self.ga)
            so = ci.args[2].base
            ex.oblige(st, 'tag lists are tested on the same reading', ex.peq(st, ci.args[1], ptr('Reading', self.rd)), kind='pre')
            n = z3.Select(S.num, so)
            um = tob(ci.args[3])
            ex.oblige(st, 'tag lists of the same set', so == S.obj(n), kind='pre')
            havoc_counters(ex, st, self.ga)
            r = ex.fresh('tags', z3.BoolSort())
            st.pc.append(z3.Implies(z3.Not(um), r == TagSem(n)))
            return r
        tags.cname = 'contract of doesSetMatchReading_tags (verified against its own body)'

        def fm_iter(ex, st, ci):
            return None

        def fm_ref(ex, st, ci):
            p = ex.fresh('slot')
            st.pc.append(p > 0)
            return Ptr('h', p, root='unifslot')

        def usets(ex, st, ci):
            p = ex.fresh('usets')
            st.pc.append(p > 0)
            P = Ptr('h', p, root='usets')
            S = Sets(ex, st, self.ga)
            v = Vec(ex, st, P, (0, 'i32'))
            i = z3.Int('i')
            st.qpc.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.len), z3.And(0 <= v[i], v[i] < S.n)), patterns=[v[i]]))
            return P
        usets.cname = 'unif_sets holds set numbers'

        def ne(ex, st, ci):
            return ex.fresh('found', z3.BoolSort())

        def sv_insert(ex, st, ci):
            k = CKey('vec', ci.args[0])
            v = ex.container(st, k)
            a = v.leaves[(0, 'i32')]
            n = ex.fresh('ulen')
            b = ex.fresh('uarr', a.sort())
            i = z3.Int('i')
            x = ex.to_int(ci.args[1], 32)
            S = Sets(ex, st, self.ga)
            st.pc.append(n >= 1)
            ex.set_container(st, k, VecVal(n, {(0, 'i32'): b}))
            return None

        def ss_get(ex, st, ci):
            return None

        def hv(ex, st, ci):
            a, b = [ex.to_int(x, 32) for x in ci.args[:2]]
            r = HV(a, b)
            st.pc.append(z3.And(r >= 0, r < 2 ** 32))
            return r
        hv.cname = 'hash_value: a function of its arguments'

        def scoped(ex, st, ci):
            if 'scoped' not in st.ghost:
                st.ghost['scoped'] = Ptr('h', IV(1), root='scoped')
            return st.ghost['scoped']
        scoped.cname = 'scoped_stack: a cleared container of its own (C15)'
        return [(r'^CG3::hash_value\(unsigned int, unsigned int\)', hv), (r'GrammarApplicator::doesSetMatchReading\(', rec), (r'GrammarApplicator::doesSetMatchReading_tags\(', tags),
                (r'flat_unordered_set<.*>::contains\(', hs_contains), (r'flat_unordered_set<.*>::insert\(', hs_insert),
                (r'flat_map<unsigned int, void const\*.*::(end|find)\(', fm_iter),
                (r'flat_map<unsigned int, void const\*.*::operator\[\]\(', fm_ref),
                (r'flat_map<unsigned int, CG3::sorted_vector.*::operator\[\]\(', usets),
                (r'boost::container::operator!=\(', ne), (r'vec_iterator<.*>::operator->\(', fm_ref),
                (r'sorted_vector<unsigned int.*>::insert\(', sv_insert),
                (r'runtime_error::runtime_error', ss_get), (r'scoped_stack<.*>::(get|proxy::~proxy)\(', ss_get), (r'scoped_stack<.*>::proxy::operator', scoped)]

    def view(self, cx):
        S = Sets(cx.ex, cx.st, self.ga)
        return S

    @property
    def loops(self):
        ex_ = self

        def base(cx):
            S = Sets(cx.ex, cx.st, self.ga)
            return list(cacheinv(cx.ex, cx.st, S))

        def cond(S):
            return z3.And(z3.Not(self.unif), z3.Not(S.unif(self.set)))

        def outer(cx):
            S = Sets(cx.ex, cx.st, self.ga)
            i = cx.ex.to_int(cx.var('i'), 64)
            n = self.set
            return base(cx) + [
                ('index in range', z3.And(0 <= i, i <= S.nsets(n))),
                ('earlier groups did not decide', z3.Implies(cond(S), G(n, 0, Sem(S.sets(n, 0)), False) == z3.And(i < S.nsets(n), G(n, i, Sem(S.sets(n, i)), False))))]

        def inner(cx):
            S = Sets(cx.ex, cx.st, self.ga)
            i = cx.ex.to_int(cx.var('i'), 64)
            n = self.set
            m, f = tob(cx.var('match')), tob(cx.var('failfast'))
            return base(cx) + [
                ('index in range', z3.And(0 <= i, i < S.nsets(n))),
                ('value so far', z3.Implies(cond(S), G(n, 0, Sem(S.sets(n, 0)), False) == G(n, i, m, f)))]
        # which loop is which is decided by the local variables that exist
        def any_(cx):
            if cx.uses('match'):
                return inner(cx) if cx.innermost() else outer(cx)
            return base(cx)
        return [(r'doesSetMatchReading\(', None, any_)]

    def ensures(self, ex, old, st, args, ret):
        S = Sets(ex, st, self.ga)
        out = list(cacheinv(ex, st, S))
        out.append(('a set without unification matches exactly by its operators', z3.Implies(z3.And(z3.Not(self.unif), z3.Not(S.unif(self.set))), tob(ret) == Sem(self.set))))
        y0, n0 = ghost(old, 'idx_yes'), ghost(old, 'idx_no')
        ch = changed(ex, old, st)
        ok = ['%s+%d' % (root('GrammarApplicator'), off(ex, 'GrammarApplicator', f)) for f in COUNTERS]
        bad = [c for c in ch if not any(c.startswith(o) for o in ok) and not c.startswith(('usets', 'unifslot', 'raw', 'scoped'))]
        out.append(('only counters, indexes and unification state change (%s)' % ','.join(bad), z3.BoolVal(not bad)))
        return out

    def on_throw(self, ex, old, st, args):
        S = Sets(ex, st, self.ga)
        k = z3.Int('k')
        o = S.ops(self.set, k)
        bad = z3.And(*[o != cst(ex, c) for c in ('S_PLUS', 'S_MINUS', 'S_FAILFAST', 'S_OR')])
        return [('only an unknown operator is refused', z3.Exists([k], z3.And(0 <= k, k < S.nops(self.set), bad)))]
