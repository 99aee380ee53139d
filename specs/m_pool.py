"""Recycled objects: what clear() leaves behind is what a constructor makes (Reading, Cohort, SingleWindow)."""
import re
import z3
from symex import *
from v import *

I, B = z3.IntSort(), z3.BoolSort()
AR = z3.ArraySort(I, I)
OPAQUE = r'(std::__cxx11::basic_string<|boost::container::flat_map<|boost::dynamic_bitset<|CG3::flat_unordered_(set|map)<|CG3::bloomish<|std::(unordered_)?(map|set)<)'


def cname_(p):
    return 'content %s+%d' % (p.root, p.off)


def content(st, p):
    n = cname_(p)
    if n not in st.ghost:
        st.ghost[n] = z3.Const(n, AR)
    return st.ghost[n]


def empty(ex, st, ci):
    p = ci.args[0]
    n = cname_(p)
    st.ghost[n] = z3.Store(content(st, p), p.base, IV(0))
    ex.note_write(st, ('g', n))
    return None


empty.cname = 'containers other than std::vector: default construction and clear() leave the empty container (C01, C02, C12)'


def freed(st):
    if 'freed' not in st.ghost:
        st.ghost['freed'] = z3.Const('freed', z3.ArraySort(I, B))
    return st.ghost['freed']


def free_obj(ex, st, ci):
    p = ex.load(st, ci.args[0], ex.T('ptr'))
    b = p.base if isinstance(p, Ptr) else ex.addr_term(p)
    st.ghost['freed'] = z3.Store(freed(st), b, z3.BoolVal(True))
    ex.note_write(st, ('g', 'freed'))
    ex.store(st, ci.args[0], NULL if 'NULL' in globals() else Ptr('h', IV(0)), ex.T('ptr'))
    return None


free_obj.cname = 'free_reading/free_cohort: give the object back to its pool and null the pointer'


FIELDS = {
    'Reading': (['baseform', 'hash', 'hash_plain', 'number', 'tags_string_hash'], ['mapping', 'parent', 'next'], ['hit_by', 'tags_list', 'tags', 'tags_plain', 'tags_textual'],
                ['tags_bloom', 'tags_plain_bloom', 'tags_textual_bloom', 'tags_numerical', 'tags_string']),
    'Cohort': (['type', 'global_number', 'local_number', 'is_pleft', 'is_pright', 'dep_self', 'dep_parent', 'line_number', 'enclosed'], ['wordform', 'parent', 'prev', 'next', 'wread'],
               ['readings', 'deleted', 'delayed', 'ignored', 'dep_children'],
               ['num_max', 'num_min', 'text', 'wblank', 'possible_sets', 'relations', 'relations_input']),
    'SingleWindow': (['number', 'has_enclosures', 'flush_after'], ['next', 'previous', 'parent'], ['all_cohorts', 'cohorts', 'valid_rules', 'hit_external', 'variables_output'],
                     ['text', 'text_post', 'variables_set', 'variables_rem']),
}


def touch(ex, st, cls, b):
    """every field takes part in the comparison, also one that no code mentions"""
    i, p, v, o = FIELDS[cls]
    for f in i:
        ifld(ex, st, cls, b, f)
    for f in p:
        pfld(ex, st, cls, b, f)
    for f in v:
        st.mem.setdefault('%s+%d.len' % (root(cls), off(ex, cls, f)), z3.Const('mem[%s+%d.len]' % (root(cls), off(ex, cls, f)), AR))
    for f in o:
        content(st, ptr(cls, b).mv(off=off(ex, cls, f)))


class Fresh(Spec):
    cls = None
    bits = {}

    def setup(self, ex, st, F):
        self.new, self.old = ex.fresh('fresh'), ex.fresh('used')
        st.pc += [self.new > 0, self.old > 0, self.new != self.old]
        freed(st)
        touch(ex, st, self.cls, self.new)
        return [ptr(self.cls, self.new), ptr(self.cls, self.old)]

    @property
    def contracts(self):
        return [(r'^' + OPAQUE + r'.*::clear\((unsigned long)?\)$', empty), (r'^%s.*>::(basic_string|flat_map|dynamic_bitset|flat_unordered_(set|map)|bloomish|map|set|unordered_(map|set))\(\)$' % OPAQUE, empty),
                (r'^CG3::free_(reading|cohort)\(', free_obj)] + self.more

    more = []

    def others(self, ex, old, st):
        """objects besides the two that may change, per memory class"""
        return {}

    def ensures(self, ex, old, st, args, ret):
        out = []
        for k in sorted(st.ghost):
            if k.startswith('content ' + root(self.cls) + '+'):
                a = st.ghost[k]
                out.append(('%s: empty again' % k, z3.Select(a, self.new) == z3.Select(a, self.old)))
        x = z3.Int('x')
        for k in sorted(st.mem):
            a = st.mem[k]
            if k.startswith(root(self.cls) + '+') and a.sort() == AR and k not in self.skip(ex):
                u, v = z3.Select(a, self.new), z3.Select(a, self.old)
                n = self.bits.get(k)
                out.append(('%s: as constructed' % k, (u % n == v % n) if n else u == v))
            if k in old.mem and not a.eq(old.mem[k]) and a.sort().kind() == z3.Z3_ARRAY_SORT and a.sort().domain() == I:
                oth = self.others(ex, old, st).get(k, [])
                own = z3.Or(*([x == e for e in oth] + ([x == self.new, x == self.old] if k.startswith(root(self.cls) + '+') else [])))
                if k.startswith('raw'):
                    continue
                out.append(('%s: no other object changes' % k, z3.ForAll([x], z3.Implies(z3.Not(own), z3.Select(a, x) == z3.Select(old.mem[k], x)))))
        return out + self.more_ensures(ex, old, st)

    def more_ensures(self, ex, old, st):
        return []

    def skip(self, ex):
        return []


class FreshReading(Fresh):
    cls = 'Reading'
    name = 'Reading::clear'
    pat = r'^h_reading$'
    bits = {'class.CG3::Reading+0:i8': 128}    # seven flags

    def more_ensures(self, ex, old, st):
        n = pfld(ex, old, 'Reading', self.old, 'next')
        return [('its sub-reading goes back to the pool', z3.Implies(n != 0, z3.Select(freed(st), n)))]


LISTS = ['readings', 'deleted', 'delayed', 'ignored']


def map_erase(ex, st, ci):
    p = ci.args[0]
    n = 'map ' + str(p.off)
    k = ex.to_int(ex.load(st, ci.args[1], ex.T('i32')), 32) if isinstance(ci.args[1], Ptr) else ex.to_int(ci.args[1], 32)
    st.ghost.setdefault(n, [])
    st.ghost[n] = st.ghost[n] + [(p.base, k)]
    return ex.fresh_int(st, 64, 'n')


map_erase.cname = 'std::map::erase(key)'


def cleared(st):
    if 'cleared' not in st.ghost:
        st.ghost['cleared'] = z3.Const('cleared', z3.ArraySort(I, B))
    return st.ghost['cleared']


def clear_cs(ex, st, ci):
    p = ci.args[0]
    if p.kind != 'v':
        raise Unsupported('cohort set outside rule_to_cohorts')
    i = p.idx if p.idx is not None else IV(0)
    st.ghost['cleared'] = z3.Store(cleared(st), i, z3.BoolVal(True))
    ex.note_write(st, ('g', 'cleared'))
    return None


clear_cs.cname = 'sorted_vector::clear() on an element of rule_to_cohorts'


def freeing(cx):
    """a loop that frees what it walks over"""
    ex = cx.ex
    x, k = z3.Ints('x k')
    f, g = freed(cx.st), freed(cx.entry)
    out = [('nothing freed is taken back', z3.ForAll([x], z3.Implies(z3.Select(g, x), z3.Select(f, x)), patterns=[z3.Select(f, x)]))]
    for n in cx.locals_used():
        if n.startswith('__begin'):
            c0 = cx.st.al.get(cx.frame().path + '/' + n)
            p = c0[0][1] if c0 and 0 in c0 else None
            if not isinstance(p, Ptr) or p.kind != 'v':
                continue
            vv = ex.container(cx.st, p.base)
            i = p.idx if p.idx is not None else IV(0)
            out += [('position', z3.And(0 <= i, i <= vv.len))]
            if p.base.p.root == root('SingleWindow') and p.base.p.off == off(ex, 'SingleWindow', 'rule_to_cohorts'):
                c = cleared(cx.st)
                out.append(('what was walked over is cleared', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Select(c, k)), patterns=[z3.Select(c, k)])))
                continue
            a = vv.leaves[(0, 'ptr')]
            out += [
                    ('what was walked over is freed', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), z3.Select(f, z3.Select(a, k))), patterns=[z3.Select(a, k)]))]
    return out


class FreshCohort(Fresh):
    cls = 'Cohort'
    name = 'Cohort::clear'
    pat = r'^h_cohort$'
    more = [(r'^std::map<unsigned int, CG3::Cohort\*.*>::erase\(unsigned int const&\)', map_erase)]

    def lists(self, ex, st):
        return [vecf(ex, st, 'Cohort', self.old, f) for f in LISTS]

    def requires(self, ex, st, args):
        p, n = pfld(ex, st, 'Cohort', self.old, 'prev'), pfld(ex, st, 'Cohort', self.old, 'next')
        return [z3.And(q != self.new, q != self.old) for q in (p, n)]

    @property
    def loops(self):
        return [(r'^CG3::Cohort::clear\(', None, freeing)]

    def more_ensures(self, ex, old, st):
        k = z3.Int('k')
        out = []
        for f in LISTS:
            v = vecf(ex, old, 'Cohort', self.old, f)
            out.append(('every reading in %s goes back to the pool' % f, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), z3.Select(freed(st), v[k])))))
        w = pfld(ex, old, 'Cohort', self.old, 'wread')
        out.append(('the reading of static tags goes back to the pool', z3.Implies(w != 0, z3.Select(freed(st), w))))
        return out

    def others(self, ex, old, st):
        p, n = pfld(ex, old, 'Cohort', self.old, 'prev'), pfld(ex, old, 'Cohort', self.old, 'next')
        return {'class.CG3::Cohort+%d:ptr' % off(ex, 'Cohort', 'next'): [p], 'class.CG3::Cohort+%d:ptr' % off(ex, 'Cohort', 'prev'): [n]}




def nothing(ex, st, ci):
    return None


def anybool(ex, st, ci):
    return ex.fresh_int(st, 1, 'more')


def anyobj(ex, st, ci):
    q = ex.fresh('entry')
    st.pc.append(q > 0)
    return Ptr('h', q, root='struct.std::pair.rel')


for f_ in (nothing, anybool, anyobj):
    f_.cname = 'walk over relation_map: any entries'


class FreshSWindow(Fresh):
    cls = 'SingleWindow'
    bits = {'class.CG3::SingleWindow+352:i8': 128}    # flags of the bag of tags
    name = 'SingleWindow::clear'
    pat = r'^h_swindow$'
    opts = {'elem_types': {'CG3::interval_vector<unsigned int>::interval': ([(0, 'i32'), (4, 'i32')], 8),
                           'CG3::sorted_vector<CG3::Cohort*, CG3::compare_Cohort>': ([], 32)}}
    M = r'CG3::flat_unordered_map<unsigned int, unsigned int.*>::'
    loops = [(r'^CG3::SingleWindow::clear\(', None, freeing)]

    def requires(self, ex, st, args):
        p, n = pfld(ex, st, 'SingleWindow', self.old, 'previous'), pfld(ex, st, 'SingleWindow', self.old, 'next')
        return [z3.And(q != self.new, q != self.old) for q in (p, n)] + [pfld(ex, st, 'SingleWindow', self.old, 'parent') > 0]

    @property
    def more(self):
        M = self.M
        return [(r'CG3::sorted_vector<CG3::Cohort\*, .*>::clear\(', clear_cs), (M + r'(begin|end|erase)\(', anyit), (M + r'const_iterator::operator(!=|==)', anybool), (M + r'const_iterator::operator->', anyobj),
                (M + r'const_iterator::(operator\+\+|operator=|const_iterator)\(', nothing)]

    def skip(self, ex):
        return ['class.CG3::SingleWindow+%d.len' % off(ex, 'SingleWindow', 'rule_to_cohorts'),    # its elements are emptied instead
                'class.CG3::SingleWindow+%d:ptr' % off(ex, 'SingleWindow', 'nested_rule_to_cohorts')]    # cleared before each use by override_cohortset

    def others(self, ex, old, st):
        p, n = pfld(ex, old, 'SingleWindow', self.old, 'previous'), pfld(ex, old, 'SingleWindow', self.old, 'next')
        return {'class.CG3::SingleWindow+%d:ptr' % off(ex, 'SingleWindow', 'next'): [p], 'class.CG3::SingleWindow+%d:ptr' % off(ex, 'SingleWindow', 'previous'): [n]}

    def more_ensures(self, ex, old, st):
        k = z3.Int('k')
        v = vecf(ex, old, 'SingleWindow', self.old, 'all_cohorts')
        p, n = pfld(ex, old, 'SingleWindow', self.old, 'previous'), pfld(ex, old, 'SingleWindow', self.old, 'next')
        r = vecf(ex, st, 'SingleWindow', self.old, 'rule_to_cohorts')
        c = cleared(st)
        out = [('every cohort list in rule_to_cohorts is emptied', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r.len), z3.Select(c, k))))]
        out += [('every cohort goes back to the pool', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), z3.Select(freed(st), v[k]))))]
        out.append(('the neighbouring windows are linked to each other', z3.And(z3.Implies(p != 0, pfld(ex, st, 'SingleWindow', p, 'next') == n), z3.Implies(n != 0, pfld(ex, st, 'SingleWindow', n, 'previous') == p))))
        return out


def anyit(ex, st, ci):
    return None


anyit.cname = nothing.cname


def copy_content(ex, st, ci):
    p, q = ci.args[0], ci.args[1]
    n = cname_(p)
    st.ghost[n] = z3.Store(content(st, p), p.base, z3.Select(content(st, q), q.base))
    ex.note_write(st, ('g', n))
    return p


copy_content.cname = 'containers other than std::vector: copies have the content of what was copied (C01, C02, C12)'


def copy_of(st):
    if 'copy of' not in st.ghost:
        st.ghost['copy of'] = z3.Const('copy of', AR)
    return st.ghost['copy of']


def rec_copy(ex, st, ci):
    q = ex.fresh('copied')
    a = ci.args[-1]
    st.pc.append(z3.And(q > 0, q != a.base, *[q != x for x in st.ghost['objects']]))
    st.ghost['copy of'] = z3.Store(copy_of(st), q, a.base)
    return ptr('Reading', q)


rec_copy.cname = 'alloc_reading(const Reading&), this contract: a copy of the sub-reading, a new object'


def pool_get(ex, st, ci):
    q = ex.fresh('pooled')
    st.pc.append(z3.And(q >= 0, *[q != x for x in st.ghost['objects']]))
    return ptr('Reading', q)


def new_reading(ex, st, ci):
    q = ex.fresh('new')
    st.pc.append(z3.And(q > 0, *[q != x for x in st.ghost['objects']]))
    return ptr('Reading', q)


new_reading.cname = 'operator new: an object nothing else refers to'


def the_pool(ex, st, ci):
    return Ptr('h', z3.Int('pool of readings'), root='struct.CG3::pool.readings')


the_pool.cname = "the thread's pool of readings"
pool_get.cname = 'pool<Reading>::get: null or an object nothing else refers to'


class Copies(Spec):
    opts = {'bits8': True}

    def setup(self, ex, st, F):
        self.o = ex.fresh('from')
        st.pc += [self.o > 0]
        st.ghost['objects'] = [self.o]
        copy_of(st)
        touch(ex, st, 'Reading', self.o)
        a = [ptr('Reading', self.o)]
        if len(F.params) == 2:
            self.n = ex.fresh('fresh')
            st.pc += [self.n > 0, self.n != self.o]
            st.ghost['objects'].append(self.n)
            a.append(ptr('Reading', self.n))
        return a

    T = r'.*>::(basic_string|flat_map|dynamic_bitset|flat_unordered_(set|map)|bloomish|map|set|unordered_(map|set))'
    contracts = [(r'^' + OPAQUE + r'.*::clear\((unsigned long)?\)$', empty), (r'^%s%s\(\)$' % (OPAQUE, T), empty),
                 (r'^%s%s\(.* const&\)$' % (OPAQUE, T), copy_content), (r'^%s.*>::operator=\(.* const&\)$' % OPAQUE, copy_content),
                 (r'^CG3::alloc_reading\(CG3::Reading const&', rec_copy), (r'^CG3::Reading::allocateReading\(CG3::Reading const&', rec_copy), (r'^CG3::pool<CG3::Reading>::get\(', pool_get), (r'^operator new\(unsigned long\)', new_reading), (r'^thread-local wrapper routine for CG3::pool_readings', the_pool)]

    def ensures(self, ex, old, st, args, ret):
        r = ret.base if ret is not None else self.n
        o, R = self.o, root('Reading')
        nx, nu = 'class.CG3::Reading+%d:ptr' % off(ex, 'Reading', 'next'), 'class.CG3::Reading+%d:i32' % off(ex, 'Reading', 'number')
        out = [('a reading, other than the one copied', z3.And(r > 0, r != o))]
        x = z3.Int('x')
        for k in sorted(st.ghost):
            if k.startswith('content ' + R + '+'):
                a, b = st.ghost[k], old.ghost.get(k, z3.Const(k, AR))
                out.append(('%s: same content' % k, z3.Select(a, r) == z3.Select(b, o)))
        for k in sorted(st.mem):
            a, b = st.mem[k], old.mem.get(k)
            if k.startswith(R + '+') and '.e' in k:
                f = next((f for f in FIELDS['Reading'][2] if k.startswith('%s+%d.e' % (R, off(ex, 'Reading', f)))), k)
                out.append(('%s: same elements' % f, z3.Select(a, r) == z3.Select(a if b is None else b, o)))
            if not k.startswith(R + '+') or a.sort() != AR:
                if b is not None and not a.eq(b) and not k.startswith('raw'):
                    out.append(('%s: nothing else changes' % k, a == b if not k.startswith(R + '+') else z3.ForAll([x], z3.Implies(x != r, z3.Select(a, x) == z3.Select(b, x)))))
                continue
            if b is None:
                b = a
            u, v = z3.Select(a, r), z3.Select(b, o)
            if k == nx:
                out.append(('its sub-reading is a copy of the sub-reading', z3.If(v == 0, u == 0, z3.And(u != 0, u != v, z3.Select(copy_of(st), u) == v))))
            elif k == nu:
                out.append(('it comes after the reading copied', u == (v + 100) % 2**32))
            elif k == R + '+0:i8':
                bu, bv = ex.bits8(u), ex.bits8(v)
                for n, f in enumerate(('mapped', 'deleted', 'noprint', 'matched_target', 'matched_tests', 'immutable', 'active')):
                    out.append(('flag ' + f, bu[n] == (0 if n in (3, 4) else bv[n])))
            else:
                out.append(('%s: as in the reading copied' % k, u == v))
            if not a.eq(b):
                out.append(('%s: no other reading changes' % k, z3.ForAll([x], z3.Implies(x != r, z3.Select(a, x) == z3.Select(b, x)))))
        return out


class CopyPool(Copies):
    name = 'alloc_reading(const Reading&)'
    pat = r'^CG3::alloc_reading\(CG3::Reading const&\)'


class CopyCtor(Copies):
    name = 'Reading::Reading(const Reading&)'
    pat = r'^h_copy$'


class Alloc(Spec):
    """alloc_*(parent): the object is as a constructor with that argument makes it"""
    cls = par = None

    def setup(self, ex, st, F):
        self.p = ex.fresh('p')
        st.pc += [self.p >= 0]
        st.ghost['objects'] = [self.p]
        return [ptr(self.par, self.p)]

    @property
    def contracts(self):
        return [(r'^CG3::pool<CG3::%s>::get\(' % self.cls, self.get), (r'^thread-local wrapper routine for CG3::pool_', the_pool), (r'^operator new\(unsigned long\)', self.new), (r'^CG3::%s::%s\(CG3::%s\*\)' % (self.cls, self.cls, self.par), self.ctor)]

    def get(self, ex, st, ci):
        self.q = ex.fresh('pooled')
        st.pc += [self.q >= 0, self.q != self.p]
        if self.cls == 'Reading':
            st.pc.append(ifld(ex, st, self.cls, self.q, 'number') == 0)
        return ptr(self.cls, self.q)

    def new(self, ex, st, ci):
        q = ex.fresh('new')
        st.pc += [q > 0, q != self.p]
        return ptr(self.cls, q)

    def ctor(self, ex, st, ci):
        b = ci.args[0].base
        st.ghost['built'] = (b, ci.args[1].base)
        ex.store(st, ptr(self.cls, b).mv(off=off(ex, self.cls, 'parent')), ci.args[1], ex.T('ptr'))
        if self.cls == 'Reading':
            ex.store(st, ptr(self.cls, b).mv(off=off(ex, self.cls, 'number')), self.number(ex, st), ex.T('i32'))
        return None

    get.cname = 'pool::get: null or an object that is as constructed without argument (Pool*, Fresh*)'
    new.cname = new_reading.cname
    ctor.cname = 'constructor: sets parent (and the number of a reading), the rest as constructed without argument'

    def number(self, ex, st):
        v = vecf(ex, st, 'Cohort', self.p, 'readings')
        return z3.If(self.p == 0, 0, (v.len * 1000 + 1000) % 2**32)

    def ensures(self, ex, old, st, args, ret):
        r = ret.base
        out = [('an object', r > 0), ('its parent is the one given', pfld(ex, st, self.cls, r, 'parent') == self.p)]
        if self.cls == 'Reading':
            out.append(('its number is behind those of the readings there', ifld(ex, st, 'Reading', r, 'number') == self.number(ex, old)))
        x = z3.Int('x')
        for k in sorted(st.mem):
            if k in old.mem and not st.mem[k].eq(old.mem[k]) and not k.startswith('raw'):
                ok = k in ('%s+%d:ptr' % (root(self.cls), off(ex, self.cls, 'parent')), '%s+%d:i32' % (root(self.cls), off(ex, 'Reading', 'number') if self.cls == 'Reading' else -1))
                a, b = st.mem[k], old.mem[k]
                out.append(('%s: nothing else changes' % k, z3.ForAll([x], z3.Implies(x != r, z3.Select(a, x) == z3.Select(b, x))) if ok else a == b))
        return out


class AllocReading(Alloc):
    cls, par = 'Reading', 'Cohort'
    name = 'alloc_reading(Cohort*)'
    pat = r'^CG3::alloc_reading\(CG3::Cohort\*\)'


class AllocCohort(Alloc):
    cls, par = 'Cohort', 'SingleWindow'
    name = 'alloc_cohort'
    pat = r'^CG3::alloc_cohort\('


class AllocSWindow(Alloc):
    cls, par = 'SingleWindow', 'Window'
    name = 'alloc_swindow'
    pat = r'^CG3::alloc_swindow\('


class CtorReading(Alloc):
    cls, par = 'Reading', 'Cohort'
    name = 'Reading::Reading(Cohort*)'
    pat = r'^CG3::Reading::Reading\(CG3::Cohort\*\)'
    opts = {'bits8': True}

    def setup(self, ex, st, F):
        self.n = ex.fresh('fresh')
        return [ptr('Reading', self.n)] + super().setup(ex, st, F) + [st.pc.append(z3.And(self.n > 0, self.n != self.p))][:0]

    contracts = Fresh.contracts.fget(Fresh())

    def ensures(self, ex, old, st, args, ret):
        return [('its parent is the one given', pfld(ex, st, 'Reading', self.n, 'parent') == self.p), ('its number is behind those of the readings there', ifld(ex, st, 'Reading', self.n, 'number') == self.number(ex, old))]


class CtorCohort(CtorReading):
    cls, par = 'Cohort', 'SingleWindow'
    name = 'Cohort::Cohort'
    pat = r'^CG3::Cohort::Cohort\(CG3::SingleWindow\*\)'

    def setup(self, ex, st, F):
        a = super().setup(ex, st, F)
        return [ptr('Cohort', self.n)] + a[1:]

    def ensures(self, ex, old, st, args, ret):
        return [('its parent is the one given', pfld(ex, st, 'Cohort', self.n, 'parent') == self.p)]


class CtorSWindow(CtorReading):
    cls, par = 'SingleWindow', 'Window'
    opts = dict(FreshSWindow.opts, bits8=True)
    name = 'SingleWindow::SingleWindow'
    pat = r'^CG3::SingleWindow::SingleWindow\(CG3::Window\*\)'

    def setup(self, ex, st, F):
        a = super().setup(ex, st, F)
        return [ptr('SingleWindow', self.n)] + a[1:]

    def ensures(self, ex, old, st, args, ret):
        return [('its parent is the one given', pfld(ex, st, 'SingleWindow', self.n, 'parent') == self.p)]


POOL = 'struct.CG3::pool'


class PoolGet(Spec):
    """pool<T>::get: what it hands out leaves the pool"""
    cls = 'Reading'

    @property
    def name(self):
        return 'pool<%s>::get' % self.cls

    @property
    def pat(self):
        return r'^CG3::pool<CG3::%s>::get\(' % self.cls

    def pool(self, ex, st):
        return Vec(ex, st, Ptr('h', self.P, root=POOL))

    def setup(self, ex, st, F):
        self.P = ex.fresh('pool')
        st.pc.append(self.P > 0)
        return [Ptr('h', self.P, root=POOL)]

    def requires(self, ex, st, args):
        v = self.pool(ex, st)
        i, j = z3.Ints('i j')
        return [v.len >= 0, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.len), v[i] < v[j]), patterns=[z3.MultiPattern(v[i], v[j])]), z3.ForAll([i], v[i] > 0, patterns=[v[i]])]

    def ensures(self, ex, old, st, args, ret):
        o, n = self.pool(ex, old), self.pool(ex, st)
        r = ret.base
        k = z3.Int('k')
        return [('null when the pool is empty', z3.Implies(o.len == 0, z3.And(r == 0, n.len == 0))),
                ('an object of the pool otherwise', z3.Implies(o.len > 0, z3.Exists([k], z3.And(0 <= k, k < o.len, o[k] == r)))),
                ('it leaves the pool', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n.len), z3.And(n[k] != r, n[k] == o[k])))),
                ('only it leaves the pool', z3.Implies(o.len > 0, n.len == o.len - 1))]


class PoolPut(PoolGet):
    """pool<T>::put: the object is cleared and kept"""

    @property
    def name(self):
        return 'pool<%s>::put' % self.cls

    @property
    def pat(self):
        return r'^CG3::pool<CG3::%s>::put\(' % self.cls

    def setup(self, ex, st, F):
        self.t = ex.fresh('t')
        st.pc.append(self.t > 0)
        st.ghost['cleared'] = z3.Const('cleared', z3.ArraySort(I, B))
        st.ghost['kept'] = z3.Const('kept', z3.ArraySort(I, B))
        self.c0 = st.ghost['cleared']
        return super().setup(ex, st, F) + [ptr(self.cls, self.t)]

    def mark(self, what, i):
        def f(ex, st, ci):
            a = ci.args[i]
            p = ex.load(st, a, ex.T('ptr')) if i and a.kind == 'a' else a
            st.ghost[what] = z3.Store(st.ghost[what], p.base if isinstance(p, Ptr) else p, z3.BoolVal(True))
            if i:
                return Agg([Ptr('h', ex.fresh('pos'), root='raw'), ex.fresh_int(st, 1, 'inserted')]) if 'Agg' in globals() else None
        f.cname = 'clear() / sorted_vector::insert (C01)'
        return f

    @property
    def contracts(self):
        return [(r'^CG3::%s::clear\(\)' % self.cls, self.mark('cleared', 0)), (r'^CG3::sorted_vector<CG3::%s\*,.*>::insert\(' % self.cls, self.mark('kept', 1))]

    def ensures(self, ex, old, st, args, ret):
        return [('the object is cleared', z3.Select(st.ghost['cleared'], self.t)), ('the pool keeps it', z3.Select(st.ghost['kept'], self.t))]


for c_ in ('Cohort', 'SingleWindow'):
    globals()['PoolGet' + c_] = type('PoolGet' + c_, (PoolGet,), {'cls': c_})
    globals()['PoolPut' + c_] = type('PoolPut' + c_, (PoolPut,), {'cls': c_})
