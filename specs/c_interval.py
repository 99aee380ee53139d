import z3
from symex import *

ROOT = 'class.CG3::interval_vector'
M = 2**32


class IVw:
    """view of an interval_vector<uint32_t>"""

    def __init__(self, ex, st, p):
        vv = ex.container(st, CKey('vec', p))
        self.len = vv.len
        self.lb_ = vv.leaves[(0, 'i32')]
        self.ub_ = vv.leaves[(4, 'i32')]

    def lb(self, k):
        return z3.Select(self.lb_, k)

    def ub(self, k):
        return z3.Select(self.ub_, k)

    def wf(self):
        i, j = z3.Ints('i j')
        return [self.len >= 0,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len), self.lb(i) <= self.ub(i)), patterns=[self.lb(i)]),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.len), self.lb(i) <= self.ub(i)), patterns=[self.ub(i)]),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.len), self.ub(i) + 1 < self.lb(j)), patterns=[z3.MultiPattern(self.ub(i), self.lb(j))])]

    def ranged(self):
        i = z3.Int('i')
        return [z3.ForAll([i], z3.And(self.lb(i) >= 0, self.lb(i) < M), patterns=[self.lb(i)]),
                z3.ForAll([i], z3.And(self.ub(i) >= 0, self.ub(i) < M), patterns=[self.ub(i)])]

    def has(self, x, tag='k'):
        k = z3.Int(tag)
        return z3.Exists([k], z3.And(0 <= k, k < self.len, self.lb(k) <= x, x <= self.ub(k)), patterns=[self.lb(k), self.ub(k)])


def wfs(name, v):
    return [('%s is a well-formed sequence of disjoint, non-adjacent, ascending intervals' % name, z3.And(*v.wf()))]


def size(ex, st, p):
    t = ex.T('i64')
    return ex.to_int(ex.load(st, p.mv(off=ex.mod.const_int_global('OFF_interval_vector_size')), t), 64)


class Base(Spec):
    opts = {}

    def setup(self, ex, st, F):
        out = []
        for t, n in zip(F.param_types(), F.param_names()):
            if n == 'this' or n == 'o' and t.kind == 'ptr':
                out.append(Ptr('h', ex.fresh(n), root=ROOT))
            else:
                out.append(ex.fresh_of(st, t, n))
        return out

    def requires(self, ex, st, args):
        v = IVw(ex, st, args[0])
        return v.wf() + v.ranged()

    def view(self, ex, st, args):
        return IVw(ex, st, args[0])


class Insert(Base):
    name = 'interval_vector<uint32_t>::insert(T)'
    pat = r'interval_vector<unsigned int>::insert\(unsigned int\)'

    def ensures(self, ex, old, st, args, ret):
        o, n = IVw(ex, old, args[0]), IVw(ex, st, args[0])
        t = args[1]
        x = z3.Int('x')
        return wfs('result', n) + [
            ('old members and t are in', z3.ForAll([x], z3.Implies(z3.Or(o.has(x), x == t), n.has(x, 'm')))),
            ('nothing else is in', z3.ForAll([x], z3.Implies(n.has(x), z3.Or(o.has(x, 'm'), x == t)))),
            ('returns whether t was new', ret == z3.Not(o.has(t))),
            ('size() counts the new member', size(ex, st, args[0]) == (size(ex, old, args[0]) + z3.If(ret, 1, 0)) % 2**64)]


class Erase(Base):
    name = 'interval_vector<uint32_t>::erase(T)'
    pat = r'interval_vector<unsigned int>::erase\(unsigned int\)'

    def ensures(self, ex, old, st, args, ret):
        o, n = IVw(ex, old, args[0]), IVw(ex, st, args[0])
        t = args[1]
        x = z3.Int('x')
        return wfs('result', n) + [
            ('other members stay', z3.ForAll([x], z3.Implies(z3.And(o.has(x), x != t), n.has(x, 'm')))),
            ('nothing new, t gone', z3.ForAll([x], z3.Implies(n.has(x), z3.And(o.has(x, 'm'), x != t)))),
            ('returns whether t was in', ret == o.has(t)),
            ('size() drops the member', size(ex, st, args[0]) == (size(ex, old, args[0]) - z3.If(ret, 1, 0)) % 2**64)]


class Contains(Base):
    name = 'interval_vector<uint32_t>::contains(T)'
    pat = r'interval_vector<unsigned int>::contains\(unsigned int\) const'

    def ensures(self, ex, old, st, args, ret):
        return [('true iff member', ret == IVw(ex, old, args[0]).has(args[1]))]


def inter_inv(cx):
    ex = cx.ex
    A = IVw(ex, cx.st, ex.args[1])
    B = IVw(ex, cx.st, ex.args[2])
    R = IVw(ex, cx.st, ex.args[0])
    ai, bi = cx.idx('a'), cx.idx('b')
    k, l, r = z3.Ints('k l r')
    mx = lambda x, y: z3.If(x > y, x, y)
    mn = lambda x, y: z3.If(x < y, x, y)
    lo, hi = mx(A.lb(k), B.lb(l)), mn(A.ub(k), B.ub(l))
    return [
        ('a in range', z3.And(0 <= ai, ai <= A.len)),
        ('b in range', z3.And(0 <= bi, bi <= B.len)),
        ('result well-formed', z3.And(*R.wf()), False, 'overlaps before|every result'),
        ('result values are 32 bit', z3.And(*R.ranged()), False, 'overlaps before|every result|well-formed|behind the'),
        ('every result interval lies in an interval of each operand', z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < R.len),
            z3.And(z3.Exists([k], z3.And(0 <= k, k < A.len, A.lb(k) <= R.lb(r), R.ub(r) <= A.ub(k)), patterns=[A.lb(k)]),
                   z3.Exists([l], z3.And(0 <= l, l < B.len, B.lb(l) <= R.lb(r), R.ub(r) <= B.ub(l)), patterns=[B.lb(l)]))), patterns=[R.lb(r)]), False, 'overlaps before'),
        ('overlaps before the cursors are in the result', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < A.len, 0 <= l, l < B.len, lo <= hi, z3.Or(k < ai, l < bi)),
            z3.Exists([r], z3.And(0 <= r, r < R.len, R.lb(r) <= lo, hi <= R.ub(r)), patterns=[R.lb(r), R.ub(r)])), patterns=[z3.MultiPattern(A.lb(k), B.lb(l))]), False, 'every result interval|behind the cursors|32 bit'),
        ('last result interval precedes the next overlap', z3.Implies(z3.And(R.len > 0, ai < A.len, bi < B.len),
            z3.Or(R.ub(R.len - 1) + 1 < A.lb(ai), R.ub(R.len - 1) + 1 < B.lb(bi))), False, 'overlaps before|every result'),
        ('result is behind the cursors', z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < R.len, ai < A.len, bi < B.len),
            z3.Or(R.ub(r) + 1 < A.lb(ai), R.ub(r) + 1 < B.lb(bi))), patterns=[R.ub(r)]), False, 'overlaps before|every result'),
    ]


def inter_variant(cx):
    ex = cx.ex
    A = IVw(ex, cx.st, ex.args[1])
    B = IVw(ex, cx.st, ex.args[2])
    return A.len + B.len - cx.idx('a') - cx.idx('b')


class Intersect(Base):
    weight = 5
    name = 'interval_vector<uint32_t>::intersect(const&)'
    pat = r'interval_vector<unsigned int>::intersect\('
    loops = [(r'interval_vector<unsigned int>::intersect\(', None, inter_inv)]

    def setup(self, ex, st, F):
        out = [Ptr('a', 'result', root=ROOT), Ptr('h', ex.fresh('this'), root=ROOT), Ptr('h', ex.fresh('o'), root=ROOT)]
        st.al['result'] = {}
        return out

    def requires(self, ex, st, args):
        A, B = IVw(ex, st, args[1]), IVw(ex, st, args[2])
        return A.wf() + A.ranged() + B.wf() + B.ranged()

    def ensures(self, ex, old, st, args, ret):
        A, B, R = IVw(ex, old, args[1]), IVw(ex, old, args[2]), IVw(ex, st, args[0])
        x = z3.Int('x')
        return wfs('result', R) + [
            ('common members are in the result', z3.ForAll([x], z3.Implies(z3.And(A.has(x), B.has(x, 'l')), R.has(x, 'r')))),
            ('result members are in both', z3.ForAll([x], z3.Implies(R.has(x), z3.And(A.has(x, 'k1'), B.has(x, 'l1')))))]
