"""Which contracts, drivers and assumptions decide which property."""
import importlib
import symex
from native import D

TCB = ['clang 18 front end: translation of /repo sources to unoptimised LLVM IR (-O1 -Xclang -disable-llvm-passes, -DNDEBUG)',
       'dv/symex.py, dv/llvmir.py: verification condition generator (this framework)',
       'dv/stdlib.py: contracts of std::vector, std::lower_bound/upper_bound, operator new/delete, throw/exit',
       'z3 4.x and cvc5 1.1.2']

ASSUMPTIONS = ['obligations are about the NDEBUG build for x86-64; memory is byte-disjoint per (type, field), objects of different types do not overlap',
               'allocation does not fail and vectors stay below 2^48 elements']


class Prop:
    def __init__(self, title, specs=(), drivers=(), assumptions=(), bounded=()):
        self.title, self.specs, self.drivers, self.assumptions, self.bounded = title, list(specs), list(drivers), list(assumptions), list(bounded)

    def load(self):
        """specs: (module, tu) takes every contract in the module; (module, tu, [names]) some"""
        out = []
        for e in self.specs:
            m = importlib.import_module(e[0])
            names = e[2] if len(e) > 2 else [n for n, c in vars(m).items() if isinstance(c, type) and issubclass(c, symex.Spec) and c.pat]
            for n in names:
                s = getattr(m, n)()
                s.tu = e[1]
                s.where = (e[0], n)
                out.append(s)
        return out


PROPS = {}
from registry_data import fill  # noqa
fill(PROPS, Prop, D)
