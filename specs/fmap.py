"""Contracts of associative containers (flat_map, std::map, flat_unordered_map) as mathematical maps and of sorted_vector as a mathematical set.

A map is a set of keys plus one element object per (map, key); element pointers and iterators are that object, end() is the null object."""
import z3
from symex import *
from v import *

I, B = z3.IntSort(), z3.BoolSort()
SET = z3.ArraySort(I, B)
SETS = z3.ArraySort(I, SET)
NUMS = z3.ArraySort(I, I)


def gh(st, n, sort):
    if n not in st.ghost:
        st.ghost[n] = z3.Const(n, sort)
    return st.ghost[n]


def setgh(ex, st, n, v):
    st.ghost[n] = v
    ex.note_write(st, ('g', n))


def name_(p):
    assert p.kind == 'h', p
    return '%s+%d' % (p.root, p.off)


def base(ex, p):
    return p.base


def iv(ex, st, a, w=32):
    """an integer argument passed by value or by reference"""
    if isinstance(a, Ptr):
        a = ex.load(st, a, ex.T('i%d' % w))
    return ex.to_int(a, w)


def asobj(ex, v):
    return v.base if isinstance(v, Ptr) and v.kind == 'h' else ex.addr_term(v) if isinstance(v, Ptr) else v


def ret_it(ex, st, ci, n, f):
    """call f(arguments); an iterator class may be returned through a hidden first argument"""
    if len(ci.args) > n:
        ex.store(st, ci.args[0], f(*ci.args[1:]), ex.T('ptr'))
        return None
    return f(*ci.args)


# ---- sorted_vector<scalar> as a set
def members(st, p):
    return z3.Select(gh(st, 'set ' + name_(p), SETS), p.base)


def count(st, p):
    return z3.Select(gh(st, 'n ' + name_(p), NUMS), p.base)


def put(ex, st, p, s, n):
    a, b = gh(st, 'set ' + name_(p), SETS), gh(st, 'n ' + name_(p), NUMS)
    setgh(ex, st, 'set ' + name_(p), z3.Store(a, p.base, s))
    setgh(ex, st, 'n ' + name_(p), z3.Store(b, p.base, n))


def single(x):
    return z3.Store(z3.K(I, z3.BoolVal(False)), x, z3.BoolVal(True))


EMPTY = z3.K(I, z3.BoolVal(False))


def sv_insert(ex, st, ci):
    p, x = ci.args[-2], iv(ex, st, ci.args[-1])
    s, n = members(st, p), count(st, p)
    put(ex, st, p, z3.Store(s, x, True), n + z3.If(z3.Select(s, x), 0, 1))
    return Agg([Ptr('h', ex.fresh('it')), z3.Not(z3.Select(s, x))]) if len(ci.args) == 2 else None


def sv_erase(ex, st, ci):
    p, x = ci.args[-2], iv(ex, st, ci.args[-1])
    s, n = members(st, p), count(st, p)
    put(ex, st, p, z3.Store(s, x, False), n - z3.If(z3.Select(s, x), 1, 0))
    return z3.Select(s, x)


def sv_size(ex, st, ci):
    p = ci.args[0]
    s, n = members(st, p), count(st, p)
    x, y = z3.Ints('x y')
    st.pc += [n >= 0, n < 2 ** 40, z3.ForAll([x, y], z3.Implies(z3.And(n == 1, z3.Select(s, x), z3.Select(s, y)), x == y)), z3.ForAll([x], z3.Implies(s == single(x), n == 1)), (n == 0) == (s == EMPTY)]
    return n


def sv_empty(ex, st, ci):
    sv_size(ex, st, ci)
    return count(st, ci.args[0]) == 0


def sv_clear(ex, st, ci):
    put(ex, st, ci.args[0], EMPTY, IV(0))


def sv_find(ex, st, ci):
    p, x = ci.args[-2], iv(ex, st, ci.args[-1])
    e = z3.Function('svit ' + name_(p), I, I, I)(p.base, x)
    st.pc.append(e > 0)
    return Ptr('h', z3.If(z3.Select(members(st, p), x), e, IV(0)), root='struct.it')


def sv_contains(ex, st, ci):
    return z3.Select(members(st, ci.args[0]), iv(ex, st, ci.args[1]))


def end(ex, st, ci):
    return Ptr('h', IV(0), root='struct.it')


def it_eq(ex, st, ci):
    a, b = [ex.load(st, x, ex.T('ptr')) for x in ci.args[:2]]
    return asobj(ex, a) == asobj(ex, b)


def it_ne(ex, st, ci):
    return z3.Not(it_eq(ex, st, ci))


def it_copy(ex, st, ci):
    ex.store(st, ci.args[0], ex.load(st, ci.args[1], ex.T('ptr')), ex.T('ptr'))
    return ci.args[0]


for f in (sv_insert, sv_erase, sv_size, sv_clear, sv_find, sv_contains, sv_empty):
    f.cname = 'sorted_vector is a mathematical set (C01)'
SV = r'^CG3::sorted_vector<unsigned int, .*>::'
SETC = [(SV + r'insert\(unsigned int\)', sv_insert), (SV + r'erase\(unsigned int\)', sv_erase), (SV + r'size\(\)', sv_size), (SV + r'clear\(\)', sv_clear), (SV + r'find\(', sv_find),
        (SV + r'(end|cend)\(', end), (SV + r'(contains|count)\(', sv_contains), (SV + r'empty\(', sv_empty),
        (r'__gnu_cxx::operator==<unsigned int', it_eq), (r'__gnu_cxx::operator!=<unsigned int', it_ne)]


# ---- maps
class FMap:
    """cls: regex of the container class; val: 'i32'|'double'|'ptr'|'set' ; voff: offset of the value in the pair"""

    def __init__(self, cls, tag, val, voff, kw=32, itcls=None):
        self.cls, self.tag, self.val, self.voff, self.kw = cls, tag, val, voff, kw
        self.root = 'struct.elem.' + tag
        self.cname = 'map container %s: a mathematical map' % tag

    def keys(self, st, p):
        return z3.Select(gh(st, 'keys ' + name_(p), SETS), p.base)

    def has(self, st, p, k):
        return z3.Select(self.keys(st, p), k)

    def setkeys(self, ex, st, p, s):
        setgh(ex, st, 'keys ' + name_(p), z3.Store(gh(st, 'keys ' + name_(p), SETS), p.base, s))

    def elf(self, p):
        return z3.Function('el ' + name_(p), I, I, I)

    def el(self, ex, st, p, k):
        n = name_(p)
        e = self.elf(p)(p.base, k)
        st.pc += [e > 0, z3.Function('elbase ' + self.root, I, I)(e) == p.base, z3.Function('elkey ' + self.root, I, I)(e) == k,
                  z3.Function('elfield ' + self.root, I, I)(e) == p.off]
        return e

    def elem(self, ex, st, p, k):
        return Ptr('h', self.el(ex, st, p, k), root=self.root)

    def value(self, ex, st, p, k):
        """the value pointer"""
        return self.elem(ex, st, p, k).mv(off=self.voff)

    def at(self, ex, st, p, k):
        """scalar value as a term, without touching the path condition"""
        q = Ptr('h', self.elf(p)(p.base, k), root=self.root, off=self.voff)
        if self.val == 'set':
            return members(st, q)
        t = ex.T(self.val)
        a = ex.memarr(st, ex.cls(q, t), z3.ArraySort(I, ex.sortof(t, ex.cls(q, t))))
        return z3.Select(a, q.base)

    def create(self, ex, st, p, k):
        """the element exists afterwards, with a default value if it is new"""
        q = self.value(ex, st, p, k)
        had = self.has(st, p, k)
        if self.val == 'set':
            put(ex, st, q, z3.If(had, members(st, q), EMPTY), z3.If(had, count(st, q), 0))
        else:
            t = ex.T(self.val)
            zero = {'double': z3.FPVal(0.0, z3.Float64()), 'ptr': IV(0)}.get(self.val, IV(0))
            c = ex.cls(q, t)
            a = ex.memarr(st, c, z3.ArraySort(I, ex.sortof(t, c)))
            cur = z3.Select(a, q.base)
            if cur.sort() == I and self.val not in ('ptr',):
                zero = IV(0)
            elif z3.is_bv(cur):
                zero = z3.BitVecVal(0, cur.size())
            st.mem[c] = z3.Store(a, q.base, z3.If(had, cur, zero))
            ex.note_write(st, ('m', c))
        self.setkeys(ex, st, p, z3.Store(self.keys(st, p), k, True))
        return q

    def contracts(self):
        M = '^' + self.cls + '::'
        kw = self.kw

        def sub(ex, st, ci):
            return self.create(ex, st, ci.args[0], iv(ex, st, ci.args[1], kw))

        def find(ex, st, ci):
            def f(p, k):
                k = iv(ex, st, k, kw)
                e = self.el(ex, st, p, k)
                return Ptr('h', z3.If(self.has(st, p, k), e, IV(0)), root=self.root)
            return ret_it(ex, st, ci, 2, f)

        def endit(ex, st, ci):
            return ret_it(ex, st, ci, 1, lambda p: Ptr('h', IV(0), root=self.root))

        def erase(ex, st, ci):
            p, k = ci.args[0], iv(ex, st, ci.args[1], kw)
            h = self.has(st, p, k)
            self.setkeys(ex, st, p, z3.Store(self.keys(st, p), k, False))
            return z3.If(h, IV(1), IV(0))

        def clear(ex, st, ci):
            self.setkeys(ex, st, ci.args[0], EMPTY)

        def cont(ex, st, ci):
            return self.has(st, ci.args[0], iv(ex, st, ci.args[1], kw))
        for f in (sub, find, endit, erase, clear, cont):
            f.cname = self.cname
        return [(M + r'operator\[\]\(', sub), (M + r'find\(', find), (M + r'c?end\(', endit), (M + r'erase\(unsigned', erase), (M + r'clear\(', clear), (M + r'(contains|count)\(', cont)]


def arrow(ex, st, ci):
    return ex.load(st, ci.args[0], ex.T('ptr'))


arrow.cname = it_eq.cname = it_ne.cname = it_copy.cname = end.cname = 'iterators of containers: identity of the element'
ITC = [(r'boost::container::operator!=\(boost::container::vec_iterator', it_ne), (r'boost::container::operator==\(boost::container::vec_iterator', it_eq),
       (r'boost::container::vec_iterator<.*>::operator(->|\*)\(', arrow),
       (r'std::operator!=\(std::_Rb_tree_', it_ne), (r'std::operator==\(std::_Rb_tree_', it_eq), (r'std::_Rb_tree_(const_)?iterator<.*>::operator(->|\*)\(', arrow)]
