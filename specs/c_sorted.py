import z3
from symex import *
import stdlib


class SV:
    """view of a sorted_vector<uint32_t> at pointer p"""
    ROOT = 'class.CG3::sorted_vector'

    def __init__(self, ex, st, p):
        vv = ex.container(st, CKey('vec', p))
        self.len = vv.len
        self.a = vv.leaves[(0, 'i32')]

    def at(self, k):
        return z3.Select(self.a, k)

    def sorted(self):
        i, j = z3.Ints('i j')
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.len), self.at(i) < self.at(j)), patterns=[z3.MultiPattern(self.at(i), self.at(j))])

    def ranged(self):
        i = z3.Int('i')
        return z3.ForAll([i], z3.And(self.at(i) >= 0, self.at(i) < 2**32), patterns=[self.at(i)])

    def has(self, x, tag='k'):
        k = z3.Int(tag)
        return z3.Exists([k], z3.And(0 <= k, k < self.len, self.at(k) == x), patterns=[self.at(k)])


class Base(Spec):
    def setup(self, ex, st, F):
        out = [Ptr('h', ex.fresh('this'), root=SV.ROOT)]
        for t, n in list(zip(F.param_types(), F.param_names()))[1:]:
            out.append(ex.fresh_of(st, t, n))
        return out

    def requires(self, ex, st, args):
        v = SV(ex, st, args[0])
        return [v.len >= 0, v.sorted(), v.ranged()]


class Insert(Base):
    name = 'sorted_vector<uint32_t>::insert(T)'
    pat = r'sorted_vector<unsigned int, std::less<unsigned int>\s*>::insert\(unsigned int\)'

    def ensures(self, ex, old, st, args, ret):
        o, n = SV(ex, old, args[0]), SV(ex, st, args[0])
        t = args[1]
        x = z3.Int('x')
        pos, flag = ret.v[0], ret.v[1]
        return [('result is sorted, no duplicates', n.sorted()),
                ('old elements and t are in', z3.ForAll([x], z3.Implies(z3.Or(o.has(x), x == t), n.has(x, 'm')))),
                ('nothing else is in', z3.ForAll([x], z3.Implies(n.has(x), z3.Or(o.has(x, 'm'), x == t)))),
                ]


class Contains(Base):
    name = 'sorted_vector<uint32_t>::contains(T)'
    pat = r'sorted_vector<unsigned int, std::less<unsigned int>\s*>::contains\(unsigned int\)'

    def ensures(self, ex, old, st, args, ret):
        o = SV(ex, old, args[0])
        return [('true iff member', ret == o.has(args[1]))]


class Erase(Base):
    name = 'sorted_vector<uint32_t>::erase(T)'
    pat = r'sorted_vector<unsigned int, std::less<unsigned int>\s*>::erase\(unsigned int\)'

    def ensures(self, ex, old, st, args, ret):
        o, n = SV(ex, old, args[0]), SV(ex, st, args[0])
        t = args[1]
        x = z3.Int('x')
        return [('result is sorted, no duplicates', n.sorted()),
                ('others kept', z3.ForAll([x], z3.Implies(z3.And(o.has(x), x != t), n.has(x, 'm')))),
                ('nothing new, t gone', z3.ForAll([x], z3.Implies(n.has(x), z3.And(o.has(x, 'm'), x != t)))),
                ('returns whether t was in', ret == o.has(t))]
