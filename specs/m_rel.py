"""Named relations between cohorts: Cohort::addRelation, setRelation, remRelation."""
import z3
from symex import *
from v import *
from fmap import *

RELS = FMap(r'boost::container::flat_map<unsigned int, CG3::sorted_vector<unsigned int, .*>, .*>', 'relations', 'set', 8)


class Rel(Spec):
    def setup(self, ex, st, F):
        self.c = ex.fresh('cohort')
        self.rel, self.to = ex.fresh_int(st, 32, 'rel'), ex.fresh_int(st, 32, 'to')
        st.pc.append(self.c > 0)
        return [ptr('Cohort', self.c), self.rel, self.to]

    contracts = SETC + RELS.contracts() + ITC

    def f(self, ex, name):
        return ptr('Cohort', self.c).mv(off=off(ex, 'Cohort', name))

    def view(self, ex, st, name, k):
        """targets of relation k (empty when there is none)"""
        p = self.f(ex, name)
        return z3.If(RELS.has(st, p, k), RELS.at(ex, st, p, k), EMPTY)

    def requires(self, ex, st, args):
        # the stored size of each set agrees with its members only where it is looked at (C01)
        k = z3.Int('k')
        p, q = self.f(ex, 'relations'), self.f(ex, 'relations_input')
        EB, EF, EK = [z3.Function(n + ' ' + RELS.root, I, I) for n in ('elbase', 'elfield', 'elkey')]
        return [z3.ForAll([k], z3.And(EB(RELS.elf(x)(self.c, k)) == self.c, EF(RELS.elf(x)(self.c, k)) == x.off, EK(RELS.elf(x)(self.c, k)) == k), patterns=[RELS.elf(x)(self.c, k)]) for x in (p, q)]

    def pw(self, a, f):
        y = z3.Int('y')
        return z3.ForAll([y], z3.Select(a, y) == f(y))

    def same_rest(self, ex, old, st, name='relations'):
        k, y = z3.Ints('k y')
        a, b = self.view(ex, old, name, k), self.view(ex, st, name, k)
        return z3.ForAll([k, y], z3.Implies(k != self.kk(ex), z3.Select(a, y) == z3.Select(b, y)))

    def same(self, ex, old, st, name):
        k, y = z3.Ints('k y')
        return z3.ForAll([k, y], z3.Select(self.view(ex, old, name, k), y) == z3.Select(self.view(ex, st, name, k), y))

    def kk(self, ex):
        return ex.to_int(self.rel, 32)

    def ensures(self, ex, old, st, args, ret):
        k, x = self.kk(ex), ex.to_int(self.to, 32)
        a, b = self.view(ex, old, 'relations', k), self.view(ex, st, 'relations', k)
        return self.post(ex, old, st, a, b, k, x, tob(ret)) + [('other relations stay', self.same_rest(ex, old, st))]


class Add(Rel):
    name = 'Cohort::addRelation'
    pat = r'^CG3::Cohort::addRelation\('

    def post(self, ex, old, st, a, b, k, x, ret):
        return [('the target is added', self.pw(b, lambda y: z3.Or(y == x, z3.Select(a, y)))), ('reports whether it was new', ret == z3.Not(z3.Select(a, x))), ('relations read from the input stay', self.same(ex, old, st, 'relations_input'))]


class Set(Rel):
    name = 'Cohort::setRelation'
    pat = r'^CG3::Cohort::setRelation\('

    def post(self, ex, old, st, a, b, k, x, ret):
        i = self.view(ex, st, 'relations_input', k)
        return [('it is the only target', self.pw(b, lambda y: y == x)), ('reports whether anything changed', ret == (a != single(x))), ('replaces what was read from the input', self.pw(i, lambda y: z3.BoolVal(False))),
                ('other relations read from the input stay', self.same_rest(ex, old, st, 'relations_input'))]


class Rem(Rel):
    name = 'Cohort::remRelation'
    pat = r'^CG3::Cohort::remRelation\('

    def post(self, ex, old, st, a, b, k, x, ret):
        i, j = self.view(ex, old, 'relations_input', k), self.view(ex, st, 'relations_input', k)
        hasrel = RELS.has(old, self.f(ex, 'relations'), k)
        return [('the target is removed', self.pw(b, lambda y: z3.And(y != x, z3.Select(a, y)))), ('reports whether it was there', ret == z3.Select(a, x)),
                ('it is also removed from what was read from the input', z3.Implies(hasrel, self.pw(j, lambda y: z3.And(y != x, z3.Select(i, y))))),
                ('other relations read from the input stay', self.same_rest(ex, old, st, 'relations_input'))]
