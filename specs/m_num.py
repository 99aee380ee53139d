"""Numeric tag comparison: the rule's tag and the reading's tag each denote a set of numbers."""
import z3
from symex import *
from v import *

MIN, MAX = -float(1 << 48), float((1 << 48) - 1)


def minmax(which):
    def h(ex, st, ci):
        f = z3.Function('cohort_' + which, z3.IntSort(), z3.IntSort(), z3.Float64())
        return f(ci.args[0].base, ex.to_int(ci.args[1], 32))
    h.cname = 'contract Cohort::get%s (verified against its own body)' % which
    return h


def evalmath(ex, st, ci):
    f = z3.Function('math_value', z3.Float64(), z3.Float64(), z3.IntSort(), z3.Float64())
    return f(ex.ghostmm[0], ex.ghostmm[1], ex.ghostexp)


class Numeric(Spec):
    name = 'test_tag_numerical'
    pat = r'^CG3::test_tag_numerical\('

    def contracts_(self):
        return []

    def hmath(self):
        def ctor(ex, st, ci):
            st.ghost['mp'] = (ci.args[1], ci.args[2])
            return None

        def ev(ex, st, ci):
            f = z3.Function('math_value', z3.Float64(), z3.Float64(), z3.IntSort(), z3.Float64())
            return f(st.ghost['mp'][0], st.ghost['mp'][1], ex.tagid)

        def view(ex, st, ci):
            return None
        return [(r'^CG3::MathParser::MathParser\(', ctor), (r'^CG3::MathParser::eval\(', ev), (r'^CG3::MathParser::~MathParser', view),
                (r'basic_string_view<.*>::(basic_string_view|remove_prefix|remove_suffix)\(', view),
                (r'basic_string<.*>::operator (std::)?(__cxx11::)?(experimental::)?.*basic_string_view', view)]

    @property
    def contracts(self):
        return [(r'^CG3::Cohort::getMin\(', minmax('min')), (r'^CG3::Cohort::getMax\(', minmax('max'))] + self.hmath()

    def setup(self, ex, st, F):
        r, t, i = ex.fresh('reading'), ex.fresh('tag'), ex.fresh('itag')
        ex.tagid = t
        return [ptr('Reading', r), ptr('Tag', t), ptr('Tag', i)]

    def requires(self, ex, st, args):
        return []

    def ensures(self, ex, old, st, args, ret):
        r, t, i = (a.base for a in args)
        T = lambda f, ty: fld(ex, old, 'Tag', t, f, ty)
        I = lambda f, ty: fld(ex, old, 'Tag', i, f, ty)
        Ti = lambda f: ifld(ex, old, 'Tag', t, f)
        Ii = lambda f: ifld(ex, old, 'Tag', i, f)
        D = lambda x: z3.FPVal(x, z3.Float64())
        key = Ti('comparison_hash')
        co = fld(ex, old, 'Reading', r, 'parent', 'ptr')
        lo = z3.Function('cohort_min', z3.IntSort(), z3.IntSort(), z3.Float64())(co, key)
        hi = z3.Function('cohort_max', z3.IntSort(), z3.IntSort(), z3.Float64())(co, key)
        mv = z3.Function('math_value', z3.Float64(), z3.Float64(), z3.IntSort(), z3.Float64())(lo, hi, t)
        v = T('comparison_val', 'double')
        ty = ex.to_bv(T('type', 'i32'), 32)
        ismath = z3.And((ty & cst(ex, 'T_NUMERIC_MATH')) != 0, Ti('comparison_offset') != 0)
        a = z3.If(ismath, mv, z3.If(z3.fpLEQ(v, D(MIN)), lo, z3.If(z3.fpGEQ(v, D(MAX)), hi, v)))
        b = I('comparison_val', 'double')
        EQ, NE, LT, LE, GT, GE = [cst(ex, 'OP_' + n) for n in ('EQUALS', 'NOTEQUALS', 'LESSTHAN', 'LESSEQUALS', 'GREATERTHAN', 'GREATEREQUALS')]
        p, q = Ti('comparison_op'), Ii('comparison_op')
        P = lambda o: p == o
        Q = lambda o: q == o
        lows, highs = (LT, LE), (GT, GE)
        anyof = lambda f, s: z3.Or(*[f(o) for o in s])
        lt, gt, eq = z3.fpLT(a, b), z3.fpGT(a, b), z3.fpEQ(a, b)
        # do the two sets of numbers share a number?
        overlap = z3.Or(
            z3.And(P(EQ), z3.Or(z3.And(Q(EQ), eq), z3.And(Q(NE), z3.Not(eq)), z3.And(Q(LT), lt), z3.And(Q(LE), z3.Or(lt, eq)), z3.And(Q(GT), gt), z3.And(Q(GE), z3.Or(gt, eq)))),
            z3.And(P(NE), z3.Or(z3.And(Q(EQ), z3.Not(eq)), z3.And(Q(NE), eq), anyof(Q, lows), anyof(Q, highs))),
            z3.And(anyof(P, lows), z3.Or(Q(NE), anyof(Q, lows))),
            z3.And(anyof(P, highs), z3.Or(Q(NE), anyof(Q, highs))),
            z3.And(P(LT), z3.Or(Q(EQ), anyof(Q, highs)), gt),
            z3.And(P(LE), z3.Or(z3.And(z3.Or(Q(EQ), Q(GE)), z3.Or(gt, eq)), z3.And(Q(GT), gt))),
            z3.And(P(GT), z3.Or(Q(EQ), anyof(Q, lows)), lt),
            z3.And(P(GE), z3.Or(z3.And(z3.Or(Q(EQ), Q(LE)), z3.Or(lt, eq)), z3.And(Q(LT), lt))))
        same = key == Ii('comparison_hash')
        return [('matches exactly when the keys agree and the two conditions can hold together',
                 ex.to_int(ret, 32) == z3.If(z3.And(same, overlap), Ii('hash'), IV(0)))]
