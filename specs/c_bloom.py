"""Bloom filters: an inserted value, and any value inserted later or earlier, is never reported absent."""
import z3
from symex import *

R = 'class.CG3::bloomish'


def slots(ex, st, p):
    return [ex.to_bv(ex.load(st, Ptr('v', CKey('arr', p, ex.mod.struct(R).elems[0]), idx=IV(k), stride=4), ex.T('i32')), 32) for k in range(4)]


def present(s, w):
    """what matches() may report: true for everything whose bits are all there in the slot of its low bits"""
    slot = z3.If(w & 4 != 0, s[3], z3.If(w & 2 != 0, s[2], z3.If(w & 1 != 0, s[1], s[0])))
    return (slot & w) == w


class Base(Spec):
    opts = {'bv': [r'bloomish\+'], 'intrep': 'bv'}

    def setup(self, ex, st, F):
        self.v = z3.BitVec('v', 32)
        p = Ptr('h', ex.fresh('this'), root=R)
        q = Ptr('h', ex.fresh('value'), root='arg')
        st.pc += [p.base > 0, q.base > 0]
        ex.store(st, q, self.v, ex.T('i32'))
        return [p, q]


class BloomInsert(Base):
    name = 'bloomish::insert'
    pat = r'^CG3::bloomish<unsigned int>::insert\('

    def ensures(self, ex, old, st, args, ret):
        o, n = slots(ex, old, args[0]), slots(ex, st, args[0])
        w = z3.BitVec('w', 32)
        return [('the inserted value is found', present(n, self.v)),
                ('whatever was found before is still found', z3.Implies(present(o, w), present(n, w)))]


class BloomMatches(Base):
    name = 'bloomish::matches'
    pat = r'^CG3::bloomish<unsigned int>::matches\('

    def ensures(self, ex, old, st, args, ret):
        o, n = slots(ex, old, args[0]), slots(ex, st, args[0])
        b = ret if ret.sort() == z3.BoolSort() else ret != 0
        return [('a value that is there is reported', z3.Implies(present(o, self.v), b)),
                ('asking changes nothing', z3.And(*[a == c for a, c in zip(o, n)]))]
