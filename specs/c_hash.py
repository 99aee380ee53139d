"""The open-addressing hash tables (flat_unordered_set, flat_unordered_map): mathematical sets and maps of 32 bit numbers."""
import re
import z3
from symex import *

I = z3.IntSort()
AR = z3.ArraySort(I, I)
EMPTY, DEL = 2**32 - 1, 2**32 - 2
HSZ = z3.Function('hash step', I, I)
PI_ = z3.Function('probe number', I, I, I, I)      # (capacity - 1, key, slot): which probe for the key looks at the slot
POW2 = z3.Function('power of two', I, z3.BoolSort())
CL = z3.Function('live slots', AR, I, I)
CE = z3.Function('empty slots', AR, I, I)
WIT = z3.Function('an empty slot', AR, I, I)
WL = z3.Function('a live slot', AR, I, I)
WN = z3.Function('a slot that is not empty', AR, I, I)
SET, MAP = 'class.CG3::flat_unordered_set', 'class.CG3::flat_unordered_map'


def PIDX(N, t, p):
    return PI_(z3.simplify(N - 1), t, p)


def live(v):
    return z3.And(v != EMPTY, v != DEL)


def one(c):
    return z3.If(c, 1, 0)


def maths():
    """The probes for a key visit every slot of a table whose capacity is a power of two, each once (Hull and Dobell: what hash_value_sz has to be for that is
    an obligation of its own, HashStep); and what counting the slots of an array means."""
    N, M, t, p, q, v = z3.Ints('N M t p q v')
    E = z3.Const('E', AR)
    inn = lambda x: z3.And(0 <= x, x < N)
    pr = lambda *x: z3.MultiPattern(*x)
    return [
        ('pow', POW2(z3.IntVal(16))), ('pow', z3.ForAll([N], z3.Implies(POW2(N), N >= 1), patterns=[POW2(N)])),
        ('probe', z3.ForAll([M, t, p], z3.Implies(z3.And(POW2(M + 1), 0 <= p, p <= M), z3.And(0 <= PI_(M, t, p), PI_(M, t, p) <= M)), patterns=[PI_(M, t, p)])),
        ('probe', z3.ForAll([M, t, p, q], z3.Implies(z3.And(POW2(M + 1), 0 <= p, p <= M, 0 <= q, q <= M, PI_(M, t, p) == PI_(M, t, q)), p == q),
                            patterns=[pr(PI_(M, t, p), PI_(M, t, q))])),
        ('probe', z3.ForAll([M, t], z3.Implies(POW2(M + 1), PI_(M, t, UAND(HSZ(t), M)) == 0), patterns=[UAND(HSZ(t), M)])),
        ('probe', z3.ForAll([M, t, p], z3.Implies(z3.And(POW2(M + 1), 0 <= p, p <= M, PI_(M, t, p) + 1 <= M), PI_(M, t, UAND(HSZ(p), M)) == PI_(M, t, p) + 1),
                            patterns=[pr(PI_(M, t, p), UAND(HSZ(p), M))])),
        ('count', z3.ForAll([E, N, p, v], z3.Implies(inn(p), z3.And(CL(z3.Store(E, p, v), N) == CL(E, N) + one(live(v)) - one(live(E[p])),
                                                                   CE(z3.Store(E, p, v), N) == CE(E, N) + one(v == EMPTY) - one(E[p] == EMPTY))),
                            patterns=[CL(z3.Store(E, p, v), N), CE(z3.Store(E, p, v), N)])),
        ('count', z3.ForAll([E, N], z3.And(CL(E, N) >= 0, CE(E, N) >= 0, z3.Implies(N >= 0, CL(E, N) + CE(E, N) <= N),
                                           z3.Implies(CE(E, N) > 0, z3.And(inn(WIT(E, N)), E[WIT(E, N)] == EMPTY)),
                                           z3.Implies(CL(E, N) > 0, z3.And(inn(WL(E, N)), live(E[WL(E, N)]))),
                                           z3.Implies(z3.And(CE(E, N) < N, N >= 0), z3.And(inn(WN(E, N)), E[WN(E, N)] != EMPTY))), patterns=[CL(E, N), CE(E, N)])),
        ('count', z3.ForAll([E, N, p], z3.Implies(z3.And(inn(p), live(E[p])), CL(E, N) > 0), patterns=[pr(CL(E, N), E[p])])),
        ('count', z3.ForAll([E, N, p], z3.Implies(z3.And(inn(p), E[p] == EMPTY), CE(E, N) > 0), patterns=[pr(CE(E, N), E[p])])),
    ]


MEMB = 'every member is found|^probe$|^count$|probes before'
MEMB3 = 'every member is found|^probe$|probes before'


def under(a, named):
    """the arrays that a was made of by storing into them"""
    out, todo = [], [a]
    while todo:
        a = z3.simplify(todo.pop())
        if z3.is_store(a):
            todo.append(a.arg(0))
        elif a.get_id() in named:
            todo.append(named[a.get_id()][1])
        elif z3.is_app_of(a, z3.Z3_OP_ITE):
            todo += [a.arg(1), a.arg(2)]
        if 'If(' not in str(a) and not any(a.eq(x) for x in out):
            out.append(a)
    return out[:6]


class H:
    """view of a table: N slots, their keys E and values V"""

    def __init__(self, ex, st, p, m=False):
        c = 'fmap' if m else 'fset'
        o = lambda f: ex.mod.const_int_global('OFF_%s_%s' % (c, f))
        self.m, self.named = m, ex.nameof
        vv = ex.container(st, CKey('vec', p.mv(off=p.off + o('elements'))))
        self.N = z3.simplify(vv.len)
        if 'If(' in str(self.N):
            n = ex.fresh('capacity')
            st.pc.append(n == self.N)
            self.N = n
        self.E = self.plain(ex, st, vv.leaves[(0, 'i32')])
        self.V = self.plain(ex, st, vv.leaves[(4, 'i32')]) if m else None
        self.size = ex.to_int(ex.load(st, p.mv(off=p.off + o('size_')), ex.T('i64')), 64)
        self.deleted = ex.to_int(ex.load(st, p.mv(off=p.off + o('deleted')), ex.T('i64')), 64)

    def plain(self, ex, st, a):
        a = z3.simplify(a)
        if 'If(' not in str(a):
            return a
        b = ex.fresh('slots', a.sort())
        st.pc.append(b == a)
        return b

    def reach(self):
        p, q = z3.Ints('p q')
        E, N = self.E, self.N
        return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < N, 0 <= q, q < N, live(E[p]), PIDX(N, E[p], q) < PIDX(N, E[p], p)), z3.And(E[q] != EMPTY, E[q] != E[p])),
                         patterns=[PIDX(N, E[p], q), z3.MultiPattern(E[p], E[q])])

    def shape(self):
        return [('capacity is 0 or a power of two', z3.Or(self.N == 0, POW2(self.N))),
                ('there is room', z3.Or(self.N == 0, self.size < self.N)),
                ('size() counts the members', self.size == CL(self.E, self.N)),
                ('deleted slots are counted', self.deleted == self.N - CL(self.E, self.N) - CE(self.E, self.N)),
                ('every member is found before an empty slot, and once', self.reach())]

    def ranged(self):
        i = z3.Int('i')
        return [self.N >= 0, self.N < 2**56, z3.ForAll([i], z3.And(self.E[i] >= 0, self.E[i] < 2**32), patterns=[self.E[i]])]

    def has(self, x, tag='k', *others):
        k = z3.Int(tag)
        return z3.And(live(x), z3.Exists([k], z3.And(0 <= k, k < self.N, self.E[k] == x), patterns=[a[k] for a in [self.E] + under(self.E, self.named) + [o.E for o in others]]))

    def within(self, o, *more, but=None):
        """every member (but one) is a member of the other table or one of the values"""
        p = z3.Int('p')
        x = self.E[p]
        return z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < self.N, live(x), *([x != but] if but is not None else [])), z3.Or(o.has(x, 'k', self), *[x == v for v in more])), patterns=[x])

    def same_values(self, o, but=None):
        """members of both tables have the same values"""
        if not self.m:
            return z3.BoolVal(True)
        p, q = z3.Ints('p q')
        return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < self.N, 0 <= q, q < o.N, self.E[p] == o.E[q], live(o.E[q]), *([o.E[q] != but] if but is not None else [])),
                                            self.V[p] == o.V[q]), patterns=[z3.MultiPattern(self.E[p], o.E[q])])

    def same_members(self, o):
        return [('no member is lost', o.within(self)), ('no member comes', self.within(o))] + (
            [('values stay', self.same_values(o))] if self.m else [])


def step(ex, st, ci):
    r = HSZ(ex.to_int(ci.args[1], 64))
    ex.assume(st, [r >= 0, r < 2**64])
    return r


step.cname = 'hash_value_sz: a function of its argument (HashStep)'


def reserved(ex, st, ci, m):
    o = H(ex, st, ci.args[0], m)
    n = ex.to_int(ci.args[1], 64)
    ex.assume(st, z3.Implies(POW2(o.N), POW2(2 * o.N)))
    ex.oblige(st, 'reserve: a capacity that is a power of two, or no more than there is', z3.Or(POW2(n), n <= o.N), kind='pre')
    ex.oblige(st, 'reserve: called on a well-formed table', z3.And(*[f for _, f in o.shape()]), kind='pre')
    havoc(ex, st, ci.args[0], m)
    w = H(ex, st, ci.args[0], m)
    ex.assume(st, [w.N == z3.If(n > o.N, n, o.N), w.size == o.size, w.deleted == 0] + w.ranged())
    for l, f in w.shape() + w.same_members(o):
        ex.assume(st, f, l)
    if ex.old is not None and z3.is_expr(ci.args[0].base) and ci.args[0].base.eq(ex.args[ex.spec.k].base):
        # a step for the proof: so far the members are those at the start
        b = H(ex, ex.old, ex.args[ex.spec.k], m)
        if not b.E.eq(o.E):
            for l, f in w.same_members(b):
                ex.oblige(st, 'since the start ' + l, f, kind='lemma', hide=MEMB)
                ex.assume(st, f, l)
    return None


def cleared(ex, st, ci, m):
    o = H(ex, st, ci.args[0], m)
    if getattr(ex.spec, 'emptied', False):
        # a step for the proof: the table is only cleared when no members are left
        p = z3.Int('p')
        f = z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < o.N), z3.Not(live(o.E[p]))), patterns=[a[p] for a in [o.E] + under(o.E, o.named)])
        ex.oblige(st, 'cleared only when none are counted', CL(o.E, o.N) == 0, kind='lemma', hide='every member is found|^probe$|probes before')
        ex.assume(st, CL(o.E, o.N) == 0)
        ex.oblige(st, 'cleared only when no members are left', f, kind='lemma', hide=MEMB3)
        ex.assume(st, f, 'no members left')
    n = ex.to_int(ci.args[1], 64) if len(ci.args) > 1 else IV(0)
    havoc(ex, st, ci.args[0], m)
    w = H(ex, st, ci.args[0], m)
    i = z3.Int('i')
    ex.assume(st, [w.N == z3.If(n > o.N, n, o.N), w.size == 0, w.deleted == 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.N), w.E[i] == EMPTY), patterns=[w.E[i]])] + w.ranged())
    return None


def havoc(ex, st, p, m):
    c = 'fmap' if m else 'fset'
    o = lambda f: ex.mod.const_int_global('OFF_%s_%s' % (c, f))
    for f in ('size_', 'deleted'):
        v = ex.fresh(f)
        st.pc += [v >= 0, v < 2**64]
        ex.store(st, p.mv(off=p.off + o(f)), v, ex.T('i64'))
    k = CKey('vec', p.mv(off=p.off + o('elements')))
    vv = ex.container(st, k)
    ln = ex.fresh('cap')
    st.pc += [ln >= 0, ln < 2**56]
    ex.set_container(st, k, VecVal(ln, {l: ex.fresh('slots', a.sort()) for l, a in vv.leaves.items()}))


class Table(Spec):
    m = False
    opts = {'uand': True, 'elem_types': {'std::pair<unsigned int, unsigned int>': ([(0, 'i32'), (4, 'i32')], 8)}}

    @property
    def contracts(self):
        m = self.m
        r = lambda ex, st, ci: reserved(ex, st, ci, m)
        c = lambda ex, st, ci: cleared(ex, st, ci, m)
        r.cname, c.cname = 'reserve: same members, no deleted slots', 'clear: nothing but empty slots'
        out = [(r'::hash_value_sz\(', step)]
        if not self.pat.endswith(r'::reserve\('):
            out.append((r'^CG3::flat_unordered_(set|map)<.*>::reserve\(', r))
        if not self.pat.endswith(r'::clear\('):
            out.append((r'^CG3::flat_unordered_(set|map)<.*>::clear\(', c))
        return out

    def setup(self, ex, st, F):
        out = []
        self.k = 0
        for t, n in zip(F.param_types(), F.param_names()):
            if n == 'this':
                self.k = len(out)
                out.append(Ptr('h', ex.fresh(n), root=MAP if self.m else SET))
            elif 'result' in n:
                out.append(Ptr('a', 'result', root='iterator'))
                st.al['result'] = {}
            else:
                out.append(ex.fresh_of(st, t, n))
        st.pc.append(out[self.k].base > 0)
        for l, f in maths():
            ex.assume(st, f, l)
        self.t = out[self.k + 1] if len(out) > self.k + 1 else None
        if isinstance(self.t, Ptr):
            # a reference: to a key, or to a key and a value, outside of the table
            self.t, self.u = ex.fresh('key'), ex.fresh('value')
            st.pc += [self.t >= 0, self.t < 2**32, self.u >= 0, self.u < 2**32]
            st.al['given'] = {0: (4, self.t), 4: (4, self.u)}
            out[self.k + 1] = Ptr('a', 'given', root='given')
        return out

    def requires(self, ex, st, args):
        v = H(ex, st, args[self.k], self.m)
        for l, f in v.shape():
            ex.assume(st, f, l)
        return v.ranged()


def probing(cx):
    """the slots probed before hold other members or deleted ones"""
    ex = cx.ex
    h = H(ex, cx.st, ex.args[ex.spec.k], ex.spec.m)
    t = ex.spec.t
    s = cx.var('spot')
    q = z3.Int('q')
    w = WIT(h.E, h.N)
    return [('in the table', z3.And(0 <= s, s < h.N)), ('some slot is empty', z3.And(0 <= w, w < h.N, h.E[w] == EMPTY, PIDX(h.N, t, w) >= PIDX(h.N, t, s))),
            ('the probes before met neither the key nor an empty slot', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < h.N, PIDX(h.N, t, q) < PIDX(h.N, t, s)),
                z3.And(h.E[q] != EMPTY, h.E[q] != t)), patterns=[PIDX(h.N, t, q), h.E[q]]), False, 'every member is found|^count$|^pow')]


class Insert(Table):
    name = 'flat_unordered_set<uint32_t>::insert(T)'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::insert\(unsigned int\)'
    loops = [(r'::insert\(', None, probing)]

    def requires(self, ex, st, args):
        return super().requires(ex, st, args) + [live(self.t)]

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], self.m), H(ex, st, args[self.k], self.m)
        t = self.t
        return n.shape() + [('old members stay', o.within(n), MEMB), ('t is in', n.has(t), MEMB), ('nothing else is in', n.within(o, t), MEMB)]


def to_empty(cx):
    h = H(cx.ex, cx.st, cx.ex.args[cx.ex.spec.k], cx.ex.spec.m)
    t = cx.ex.spec.t
    return PIDX(h.N, t, WIT(h.E, h.N)) - PIDX(h.N, t, cx.var('spot'))


probing.variant = to_empty


class Erase(Table):
    emptied = True
    name = 'flat_unordered_set<uint32_t>::erase(T)'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::erase\(unsigned int\)'
    loops = [(r'::erase\(', None, probing)]

    def requires(self, ex, st, args):
        return super().requires(ex, st, args) + [live(self.t)]

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], self.m), H(ex, st, args[self.k], self.m)
        t = self.t
        return n.shape() + [('other members stay', o.within(n, but=t), MEMB3), ('t is out', z3.Not(n.has(t))), ('nothing comes', n.within(o), MEMB)] + (
            [('values stay', n.same_values(o))] if self.m else [])


def place(ex, st, at):
    """an iterator: the table it points into (0 at the end) and the slot"""
    p, i = ex.load(st, at, ex.T('ptr')), ex.to_int(ex.load(st, at.mv(off=at.off + 8), ex.T('i64')), 64)
    return (p.base if isinstance(p, Ptr) else p), i


class Find(Table):
    name = 'flat_unordered_set<uint32_t>::find(T)'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::find\(unsigned int\)$'

    def setup(self, ex, st, F):
        out = super().setup(ex, st, F)
        return out

    def requires(self, ex, st, args):
        return super().requires(ex, st, args) + [live(self.t)]

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], self.m), H(ex, st, args[self.k], self.m)
        t = self.t
        f, i = place(ex, st, args[0])
        return n.shape() + n.same_members(o) + [
            ('found exactly the members', (f != 0) == o.has(t, 'k', n)),
            ('what is found is the member', z3.Implies(f != 0, z3.And(f == args[self.k].base, 0 <= i, i < n.N, n.E[i] == t))),
            ('the end is the end', z3.Implies(f == 0, i == 0))]


def looking(cx):
    """the first probes met other members or deleted ones"""
    ex = cx.ex
    h = H(ex, cx.st, ex.args[ex.spec.k], ex.spec.m)
    t = ex.spec.t
    s, i = cx.var('spot'), cx.var('i')
    q = z3.Int('q')
    return [('in the table', z3.And(0 <= s, s < h.N)), ('probes so far', z3.And(i >= 0, i <= 4 * h.N, z3.Implies(i < h.N, PIDX(h.N, t, s) == i))),
            ('the probes before met neither the key nor an empty slot', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < h.N, PIDX(h.N, t, q) < i),
                z3.And(h.E[q] != EMPTY, h.E[q] != t)), patterns=[PIDX(h.N, t, q), h.E[q]]), False, 'every member is found|^count$|^pow')]


looking.variant = lambda cx: 4 * H(cx.ex, cx.st, cx.ex.args[cx.ex.spec.k], cx.ex.spec.m).N - cx.var('i')


Find.loops = [(r'::find\(', None, looking)]


class FindConst(Find):
    name = 'flat_unordered_set<uint32_t>::find(T) const'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::find\(unsigned int\) const'
    loops = [(r'::find\(', None, looking)]


class Contains(Find):
    name = 'flat_unordered_set<uint32_t>::contains(T)'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::contains\(unsigned int\) const'
    loops = [(r'::find\(', None, looking)]

    def ensures(self, ex, old, st, args, ret):
        return [('true exactly for the members', ret == H(ex, old, args[self.k], self.m).has(self.t))]


class Count(Contains):
    name = 'flat_unordered_set<uint32_t>::count(T)'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::count\(unsigned int\) const'

    def ensures(self, ex, old, st, args, ret):
        return [('1 exactly for the members, else 0', ret == one(H(ex, old, args[self.k], self.m).has(self.t)))]


class Clear(Table):
    name = 'flat_unordered_set<uint32_t>::clear'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::clear\('

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], self.m), H(ex, st, args[self.k], self.m)
        i = z3.Int('i')
        k = ex.to_int(args[self.k + 1], 64)
        return [('capacity', n.N == z3.If(k > o.N, k, o.N)), ('no members', n.size == 0), ('no deleted slots', n.deleted == 0),
                ('every slot is empty', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n.N), n.E[i] == EMPTY)))]


PC = z3.Function('live slots before', AR, I, I)       # among the first i slots
SRC = z3.Function('live slot', AR, I, I)              # the slot of the k-th live one


def prefix(E, N):
    """what counting the live slots up to some slot means"""
    i = z3.Int('i')
    inn = z3.And(0 <= i, i < N)
    return [PC(E, 0) == 0, PC(E, N) == CL(E, N), PC(E, N) <= N,
            z3.ForAll([i], z3.Implies(inn, z3.And(PC(E, i + 1) == PC(E, i) + one(live(E[i])), PC(E, i) >= 0)), patterns=[PC(E, i)]),
            z3.ForAll([i], z3.Implies(z3.And(inn, live(E[i])), SRC(E, PC(E, i)) == i), patterns=[PC(E, i)])]


def walks(cx):
    """(container pointer, position) of the range the loop walks over"""
    for n in cx.locals_used():
        if n.startswith('__begin'):
            c0 = cx.st.al.get(cx.frame().path + '/' + n)
            p = c0[0][1] if c0 and 0 in c0 else None
            if isinstance(p, Ptr) and p.kind == 'v':
                return p.base.p, p.idx if p.idx is not None else IV(0)
    return None, None


def rebuilding(cx):
    ex = cx.ex
    m = ex.spec.m
    this = ex.args[ex.spec.k]
    o = H(ex, cx.old, this, m)
    at, i = walks(cx)
    p, q, k, j = z3.Ints('p q k j')
    if at is None:
        v = cx.var('val')
        return place_one(cx, ex.to_int(ex.load(cx.st, v, ex.T('i32')), 32))
    vp = Ptr('h', ex.spec.vals(ex), root='vector<%s>' % ex.spec.elem)
    v = ex.container(cx.st, CKey('vec', vp))
    K = v.leaves[(0, 'i32')]
    W = v.leaves[(4, 'i32')] if m else None
    same = (lambda a, b: z3.And(K[a] == o.E[b], W[a] == o.V[b])) if m else (lambda a, b: K[a] == o.E[b])
    if not at.base.eq(vp.base):
        ln, pos = v.len, i
        extra = [('walk', z3.And(0 <= i, i <= o.N)), ('as many values as live slots', v.len == PC(o.E, i))]
    else:
        ln, pos = v.len, o.N
        n = H(ex, cx.st, this, m)
        vals = lambda a, b: z3.And(n.E[a] == K[b], n.V[a] == W[b]) if m else n.E[a] == K[b]
        extra = [('walk', z3.And(0 <= i, i <= v.len)), ('all values were noted', v.len == CL(o.E, o.N)), ('the table', z3.And(n.size == v.len, n.deleted == 0, *n.ranged())),
                 ('its capacity', n.N == z3.If(ex.to_int(ex.args[ex.spec.k + 1], 64) > o.N, ex.to_int(ex.args[ex.spec.k + 1], 64), o.N)),
                 ('as many as were placed', z3.And(CL(n.E, n.N) == i, CE(n.E, n.N) == n.N - i), False, 'is noted|^probe|found|every value'),
                 ('every placed member is found before an empty slot, and once', n.reach(), False, '^count$|each live'),
                 ('what is placed comes from the values', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n.N, live(n.E[p])), z3.Exists([j], z3.And(0 <= j, j < i, vals(p, j)), patterns=[K[j]])),
                                                                    patterns=[n.E[p]]), False, '^count$|^probe|found|every value'),
                 ('every value so far is placed', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Exists([p], z3.And(0 <= p, p < n.N, vals(p, j)), patterns=[a[p] for a in [n.E] + under(n.E, n.named)])),
                                                            patterns=[K[j]]), False, '^count$|^probe|found|what is placed')]
    return extra + [
        ('each live slot is noted', z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < pos, live(o.E[p])), z3.And(0 <= PC(o.E, p), PC(o.E, p) < ln, same(PC(o.E, p), p))), patterns=[o.E[p], PC(o.E, p)]), False, '^count$|^probe|found'),
        ('each value is a live slot', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < ln), z3.And(0 <= SRC(o.E, k), SRC(o.E, k) < pos, PC(o.E, SRC(o.E, k)) == k, live(o.E[SRC(o.E, k)]), same(k, SRC(o.E, k)))),
                                                patterns=[K[k], SRC(o.E, k)]), False, '^count$|^probe|found'),
        ('values differ', z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < j, j < ln), K[k] != K[j]), patterns=[z3.MultiPattern(K[k], K[j])]))]


def place_one(cx, t):
    ex = cx.ex
    h = H(ex, cx.st, ex.args[ex.spec.k], ex.spec.m)
    s = cx.var('spot')
    q = z3.Int('q')
    w = WIT(h.E, h.N)
    return [('in the table', z3.And(0 <= s, s < h.N)), ('some slot is empty', z3.And(0 <= w, w < h.N, h.E[w] == EMPTY, PIDX(h.N, t, w) >= PIDX(h.N, t, s))),
            ('the probes before met neither the key nor an empty slot', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < h.N, PIDX(h.N, t, q) < PIDX(h.N, t, s)),
                z3.And(h.E[q] != EMPTY, h.E[q] != t)), patterns=[PIDX(h.N, t, q), h.E[q]]), False, 'found before|^count$|^pow|value|live slot')]


def rebuild_variant(cx):
    if walks(cx)[0] is not None:
        return None
    ex = cx.ex
    h = H(ex, cx.st, ex.args[ex.spec.k], ex.spec.m)
    t = ex.to_int(ex.load(cx.st, cx.var('val'), ex.T('i32')), 32)
    return PIDX(h.N, t, WIT(h.E, h.N)) - PIDX(h.N, t, cx.var('spot'))


rebuilding.variant = rebuild_variant


class Reserve(Table):
    name = 'flat_unordered_set<uint32_t>::reserve'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::reserve\('
    loops = [(r'::reserve\(', None, rebuilding)]
    static, elem = r'flat_unordered_set.*reserve.*vals', 'unsigned int'

    def vals(self, ex):
        return ex.gaddr(next(n for n in ex.mod.globals if re.search(self.static, n) and not n.startswith('_ZGV')))

    def requires(self, ex, st, args):
        r = super().requires(ex, st, args)
        o = H(ex, st, args[self.k], self.m)
        for f in prefix(o.E, o.N):
            ex.assume(st, f, 'count live')
        k = ex.to_int(args[self.k + 1], 64)
        return r + [z3.Or(POW2(k), k <= o.N), k < 2**56]

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], self.m), H(ex, st, args[self.k], self.m)
        k = ex.to_int(args[self.k + 1], 64)
        return n.shape() + n.same_members(o) + [('capacity', n.N == z3.If(k > o.N, k, o.N)), ('same size', n.size == o.size), ('no deleted slots', n.deleted == 0)]


class HashStep(Spec):
    """t -> a t + c modulo 2 ** 64 with a = 1 modulo 4 and c odd: then the steps modulo any power of two from 2 up go through all remainders (Hull and Dobell), and modulo 1 there is one"""
    name = 'flat_unordered_set<uint32_t>::hash_value_sz'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::hash_value_sz\('

    def ensures(self, ex, old, st, args, ret):
        t = args[1]
        r = z3.simplify(ex.to_int(ret, 64))
        at = lambda v: z3.simplify(z3.substitute(r, (t, z3.IntVal(v))))
        c, ac = at(0), at(1)
        if not (z3.is_int_value(c) and z3.is_int_value(ac)):
            return [('an affine function', z3.BoolVal(False))]
        c = c.as_long()
        a = (ac.as_long() - c) % 2**64
        return [('an affine function', r == (a * t + c) % 2**64), ('multiplier 1 modulo 4', z3.BoolVal(a % 4 == 1)), ('increment odd', z3.BoolVal(c % 2 == 1))]


class HashFirst(Table):
    """the first probe for a key is the step from the key"""
    name = 'flat_unordered_set<uint32_t>::hash_value'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::hash_value\('

    def ensures(self, ex, old, st, args, ret):
        return [('the step from the key', ex.to_int(ret, 64) == HSZ(self.t))]


class Iter(Table):
    """iterators: `it' points to a live slot of the table"""

    def at(self, ex, st, F, out):
        return out

    def iterator(self, ex, st):
        this = Ptr('h', ex.fresh('table'), root=MAP if self.m else SET)
        i = ex.fresh('i')
        st.pc += [this.base > 0, i >= 0, i < 2**64]
        st.al['it'] = {0: (8, this), 8: (8, i)}
        self.this, self.i = this, i
        return Ptr('a', 'it', root='iterator')


def stepping(cx):
    """no live slots between the one it stood at and the one it looks at"""
    ex = cx.ex
    h = H(ex, cx.st, ex.spec.this, ex.spec.m)
    f, j = place(ex, cx.st, Ptr('a', ex.spec.cell, root='iterator'))
    q = z3.Int('q')
    return [('walk', z3.And(ex.spec.i < j, j <= h.N)), ('it stays in the table', f == ex.spec.this.base),
            ('nothing between', z3.ForAll([q], z3.Implies(z3.And(ex.spec.i < q, q < j), z3.Not(live(h.E[q]))), patterns=[h.E[q]]))]


stepping.variant = lambda cx: H(cx.ex, cx.st, cx.ex.spec.this, cx.ex.spec.m).N - place(cx.ex, cx.st, Ptr('a', cx.ex.spec.cell, root='iterator'))[1]


def next_of(h, i, f, j, base):
    """f, j: the first live slot after slot i, or the end"""
    q = z3.Int('q')
    return [('a live slot after it, or the end', z3.Or(z3.And(f == base, i < j, j < h.N, live(h.E[j])), z3.And(f == 0, j == 0))),
            ('none in between', z3.ForAll([q], z3.Implies(z3.And(i < q, z3.If(f == 0, q < h.N, q < j)), z3.Not(live(h.E[q]))), patterns=[h.E[q]]))]


class Next(Table):
    name = 'flat_unordered_set<uint32_t>::const_iterator::operator++'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::const_iterator::operator\+\+\(\)'
    loops = [(r'operator\+\+\(\)', None, stepping)]
    cell = 'it'
    iterator = Iter.iterator

    def setup(self, ex, st, F):
        self.k = 0
        self.t = None
        for l, f in maths():
            ex.assume(st, f, l)
        return [self.iterator(ex, st)]

    def requires(self, ex, st, args):
        h = H(ex, st, self.this, self.m)
        return h.ranged() + [self.i < h.N]

    def ensures(self, ex, old, st, args, ret):
        f, j = place(ex, st, args[0])
        o, n = H(ex, old, self.this, self.m), H(ex, st, self.this, self.m)
        return next_of(n, self.i, f, j, self.this.base) + [('the table stays', z3.And(n.N == o.N, n.E == o.E, n.size == o.size, n.deleted == o.deleted))]


def beginning(cx):
    ex = cx.ex
    h = H(ex, cx.st, ex.args[ex.spec.k], ex.spec.m)
    j = cx.var('i')
    q = z3.Int('q')
    return [('walk', z3.And(0 <= j, j <= h.N, cx.var('ie') == h.N)), ('nothing before', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < j), z3.Not(live(h.E[q]))), patterns=[h.E[q]]))]


beginning.variant = lambda cx: H(cx.ex, cx.st, cx.ex.args[cx.ex.spec.k], cx.ex.spec.m).N - cx.var('i')


class Begin(Table):
    name = 'flat_unordered_set<uint32_t>::begin'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::begin\('
    loops = [(r'::begin\(', None, beginning)]

    def ensures(self, ex, old, st, args, ret):
        f, j = place(ex, st, args[0])
        n = H(ex, st, args[self.k], self.m)
        return next_of(n, z3.IntVal(-1), f, j, args[self.k].base) + n.same_members(H(ex, old, args[self.k], self.m))


def stepped(ex, st, ci, m):
    h = H(ex, st, ex.args[ex.spec.k], m)
    f, i = place(ex, st, ci.args[0])
    ex.oblige(st, '++: an iterator of the table', z3.And(f == ex.args[ex.spec.k].base, 0 <= i, i < h.N), kind='pre')
    g, j = ex.fresh('next table'), ex.fresh('next slot')
    for l, c in next_of(h, i, g, j, ex.args[ex.spec.k].base):
        ex.assume(st, c, 'next: ' + l)
    ex.store(st, ci.args[0], Ptr('h', g, root=MAP if m else SET), ex.T('ptr'))
    ex.store(st, ci.args[0].mv(off=ci.args[0].off + 8), j, ex.T('i64'))
    return ci.args[0]


class EraseAt(Table):
    """erasing what an iterator points to"""
    emptied = True
    name = 'flat_unordered_set<uint32_t>::erase(const_iterator)'
    pat = r'^CG3::flat_unordered_set<unsigned int, .*>::erase\(CG3'

    @property
    def contracts(self):
        m = self.m
        n = lambda ex, st, ci: stepped(ex, st, ci, m)
        n.cname = 'operator++: the next live slot'
        return super().contracts + [(r'const_iterator::operator\+\+\(\)', n)]

    def setup(self, ex, st, F):
        out = super().setup(ex, st, F)
        self.i = ex.fresh('i')
        st.pc += [self.i >= 0, self.i < 2**64]
        st.al['it'] = {0: (8, out[self.k]), 8: (8, self.i)}
        for x in range(self.k + 1, len(out)):
            out[x] = Ptr('a', 'it', root='iterator')
        return out

    def requires(self, ex, st, args):
        r = super().requires(ex, st, args)
        h = H(ex, st, args[self.k], self.m)
        return r + [self.i < h.N, live(h.E[self.i])]

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], self.m), H(ex, st, args[self.k], self.m)
        t = o.E[self.i]
        f, j = place(ex, st, args[0])
        return n.shape() + [('other members stay', o.within(n, but=t), MEMB3), ('it is out', z3.Not(n.has(t))), ('nothing comes', n.within(o), MEMB)] + (
            [('values stay', n.same_values(o))] if self.m else []) + next_of(n, self.i, f, j, args[self.k].base)


def inserted(ex, st, ci, m):
    """insert, as InsertMap proves it"""
    o = H(ex, st, ci.args[0], m)
    kv = ci.args[1]
    t, u = ex.to_int(ex.load(st, kv, ex.T('i32')), 32), ex.to_int(ex.load(st, kv.mv(off=kv.off + 4), ex.T('i32')), 32)
    for l, f in o.shape():
        ex.oblige(st, 'insert: called on a well-formed table: ' + l, f, kind='pre')
        ex.assume(st, f, l)
    ex.oblige(st, 'insert: called with a key', live(t), kind='pre')
    havoc(ex, st, ci.args[0], m)
    n = H(ex, st, ci.args[0], m)
    s = ex.fresh('slot')
    ex.assume(st, n.ranged())
    for e in n.shape() + put_in(o, n, t, u, s):
        ex.assume(st, e[1], e[0])
    return s


def put_in(o, n, t, u, s):
    q = z3.Int('q')
    return [('old members stay', o.within(n), MEMB), ('t is in', n.has(t), MEMB), ('nothing else is in', n.within(o, t), MEMB),
            ('values stay', n.same_values(o), '^count$|^pow|deleted|room|counts|no member comes'), ('the slot of t', z3.And(0 <= s, s < n.N, n.E[s] == t)),
            ('a new key has the given value', z3.Implies(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < o.N), o.E[q] != t), patterns=[o.E[q]]), n.V[s] == u))]


class InsertMap(Insert):
    m = True
    name = 'flat_unordered_map<uint32_t, uint32_t>::insert(pair)'
    pat = r'^CG3::flat_unordered_map<unsigned int, .*>::insert\(std::pair'

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], True), H(ex, st, args[self.k], True)
        return n.shape() + put_in(o, n, self.t, self.u, ex.to_int(ret, 64))


class IndexMap(Table):
    m = True
    name = 'flat_unordered_map<uint32_t, uint32_t>::operator[]'
    pat = r'^CG3::flat_unordered_map<unsigned int, .*>::operator\[\]\('
    loops = [(r'::operator\[\]\(', None, probing)]

    @property
    def contracts(self):
        n = lambda ex, st, ci: inserted(ex, st, ci, True)
        n.cname = 'insert: as InsertMap proves it'
        return super().contracts + [(r'::insert\(std::pair', n)]

    def requires(self, ex, st, args):
        return super().requires(ex, st, args) + [live(self.t)]

    def ensures(self, ex, old, st, args, ret):
        o, n = H(ex, old, args[self.k], True), H(ex, st, args[self.k], True)
        s = ret.idx
        return n.shape() + [('refers to a value of the table', z3.BoolVal(ret.kind == 'v' and ret.off == 4 and ret.base.p.base.eq(args[self.k].base)))] + put_in(o, n, self.t, z3.IntVal(0), s)


def mapped(cls, *loops):
    """the same for flat_unordered_map"""
    d = dict(m=True, name=cls.name.replace('set<uint32_t>', 'map<uint32_t, uint32_t>'), pat=cls.pat.replace('_set<', '_map<'))
    return type(cls.__name__ + 'Map', (cls,), d)


EraseMap, FindMap, FindConstMap, ContainsMap, CountMap, ClearMap, NextMap, BeginMap, EraseAtMap, HashFirstMap = [
    mapped(c) for c in (Erase, Find, FindConst, Contains, Count, Clear, Next, Begin, EraseAt, HashFirst)]
HashStepMap = mapped(HashStep)
ReserveMap = mapped(Reserve)
ReserveMap.static, ReserveMap.elem = r'flat_unordered_map.*reserve.*vals', 'std::pair<unsigned int, unsigned int>'
