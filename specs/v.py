"""Views of the program state used by contracts: fields by name (offsets come from the compiled headers)."""
import z3
import symex
from symex import *


def off(ex, cls, field):
    return ex.mod.const_int_global('OFF_%s_%s' % (cls, field))


def cst(ex, name):
    return ex.mod.const_int_global('CST_' + name)


def root(cls):
    return 'class.CG3::' + cls


def ptr(cls, base):
    return Ptr('h', base, root=root(cls))


def fld(ex, st, cls, base, field, ty):
    """value of a scalar field as a z3 term"""
    p = ptr(cls, base).mv(off=off(ex, cls, field))
    t = ex.T(ty)
    v = ex.load(st, p, t)
    return ex.unwrap(v, t, ex.sortof(t, ex.cls(p, t)), ex.cls(p, t)) if not z3.is_expr(v) else v


def fty(ex, cls, field):
    return 'i%d' % (8 * ex.mod.const_int_global('FSZ_%s_%s' % (cls, field)))


def ifld(ex, st, cls, base, field):
    """an integer field as a mathematical integer"""
    ty = fty(ex, cls, field)
    return ex.to_int(fld(ex, st, cls, base, field, ty), int(ty[1:]))


def pfld(ex, st, cls, base, field):
    """a pointer field as an object identity"""
    v = fld(ex, st, cls, base, field, 'ptr')
    return v.base if isinstance(v, Ptr) else v


def farr(ex, st, cls, field, ty):
    """the whole field as an array from object to value"""
    p = ptr(cls, IV(0)).mv(off=off(ex, cls, field))
    t = ex.T(ty)
    c = ex.cls(p, t)
    return ex.memarr(st, c, z3.ArraySort(z3.IntSort(), ex.sortof(t, c)))


class Vec:
    """a std::vector field of scalars"""

    def __init__(self, ex, st, p, leaf=(0, 'ptr')):
        self.vv = ex.container(st, CKey('vec', p))
        self.len = self.vv.len
        self.a = self.vv.leaves[leaf] if leaf in self.vv.leaves else None

    def __getitem__(self, k):
        return z3.Select(self.a, k)


def vecf(ex, st, cls, base, field, leaf=(0, 'ptr')):
    return Vec(ex, st, ptr(cls, base).mv(off=off(ex, cls, field)), leaf)


def changed(ex, old, st):
    """names of the memory classes that differ between two states"""
    return [k for k in st.mem if k in old.mem and not old.mem[k].eq(st.mem[k])]


def tob(v):
    """truth value of a C bool or integer"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_bool(v):
        return v
    return v != 0
