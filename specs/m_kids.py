"""Cohort::addChild and remChild, on which attachParentChild relies."""
import z3
from symex import *
from v import *
from fmap import *


class AddChild(Spec):
    name = 'Cohort::addChild'
    pat = r'^CG3::Cohort::addChild\('
    contracts = SETC
    add = True

    def setup(self, ex, st, F):
        self.c, self.x = ex.fresh('cohort'), ex.fresh_int(st, 32, 'child')
        st.pc.append(self.c > 0)
        return [ptr('Cohort', self.c), self.x]

    def ensures(self, ex, old, st, args, ret):
        p = ptr('Cohort', self.c).mv(off=off(ex, 'Cohort', 'dep_children'))
        x, y = ex.to_int(self.x, 32), z3.Int('y')
        a, b = members(old, p), members(st, p)
        ch = [c for c in changed(ex, old, st) if not c.startswith('raw')]
        gs = [g for g in st.ghost if g in old.ghost and not st.ghost[g].eq(old.ghost[g]) and g not in ('set ' + name_(p), 'n ' + name_(p))]
        c = z3.Int('c')
        q = Ptr('h', c, root=p.root, off=p.off)
        return [('exactly that number is %s' % ('listed' if self.add else 'gone'), z3.ForAll([y], z3.Select(b, y) == (z3.Or(y == x, z3.Select(a, y)) if self.add else z3.And(y != x, z3.Select(a, y))))),
                ('other cohorts keep their children', z3.ForAll([c], z3.Implies(c != self.c, members(st, q) == members(old, q)))),
                ('nothing else changes (%s)' % ','.join(ch + gs), z3.BoolVal(not ch and not gs))]


class RemChild(AddChild):
    name = 'Cohort::remChild'
    pat = r'^CG3::Cohort::remChild\('
    add = False
