"""The tables of regular expression and case-insensitive answers (doesTagMatchRegexp, doesTagMatchIcase, doesRegexpMatchLine)."""
import z3
from symex import *
from v import *

I, B = z3.IntSort(), z3.BoolSort()
SET = z3.ArraySort(I, B)
RX = z3.Function('RX', I, I, B)     # does the pattern of the tag with hash t match the text with hash x
IC = z3.Function('IC', I, I, B)     # are the tags with hashes t, x equal but for case
GC = z3.Function('GC', I, I)        # capture groups of the pattern of tag t


def ghost(st, n, sort=SET):
    if n not in st.ghost:
        st.ghost[n] = z3.Const(n, sort)
    return st.ghost[n]


def setghost(ex, st, n, v):
    st.ghost[n] = v
    ex.note_write(st, ('g', n))


FIELDS = ['index_regexp_yes', 'index_regexp_no', 'index_icase_yes', 'index_icase_no']


def which(ex, p):
    for f in FIELDS:
        if p.kind == 'h' and p.off == off(ex, 'GrammarApplicator', f):
            return f
    raise Unsupported('table outside %s: %r' % (FIELDS, p))


def t_contains(ex, st, ci):
    return z3.Select(ghost(st, which(ex, ci.args[0])), ex.to_int(ci.args[1], 64))


def t_insert(ex, st, ci):
    n = which(ex, ci.args[0])
    setghost(ex, st, n, z3.Store(ghost(st, n), ex.to_int(ci.args[1], 64), True))
    return None


t_contains.cname = t_insert.cname = 'flat_unordered_set is a mathematical set (C12)'
KEY = 2 ** 32


class Base(Spec):
    truth = staticmethod(RX)
    yes, no = 'index_regexp_yes', 'index_regexp_no'
    line = False

    def setup(self, ex, st, F):
        self.ga, self.tag = ex.fresh('ga'), ex.fresh('tag')
        self.bypass = z3.Bool('bypass_index')
        st.pc += [self.ga > 0, self.tag > 0]
        for f in FIELDS:
            ghost(st, f)
        st.ghost['captures'] = IV(0)
        if self.line:
            self.rd = ex.fresh('reading')
            st.pc.append(self.rd > 0)
            a = ptr('Reading', self.rd)
        else:
            a = self.test = ex.fresh_int(st, 32, 'test')
        return [ptr('GrammarApplicator', self.ga), a, ptr('Tag', self.tag), self.bypass]

    def th(self, ex, st):
        return ifld(ex, st, 'Tag', self.tag, 'hash')

    def tx(self, ex, st):
        """the text tested, by hash"""
        return ifld(ex, st, 'Reading', self.rd, 'tags_string_hash') if self.line else ex.to_int(self.test, 32)

    def inv(self, ex, st):
        t, x = z3.Ints('t x')
        k = (x * KEY + t) if self.line else (t * KEY + x)
        y, n = z3.Select(ghost(st, self.yes), k), z3.Select(ghost(st, self.no), k)
        inr = z3.And(0 <= t, t < KEY, 0 <= x, x < KEY)
        return [('a recorded match is a match', z3.ForAll([t, x], z3.Implies(z3.And(inr, y), self.truth(t, x)), patterns=[self.truth(t, x)])),
                ('a recorded failure is a failure', z3.ForAll([t, x], z3.Implies(z3.And(inr, n), z3.Not(self.truth(t, x))), patterns=[self.truth(t, x)]))]

    def requires(self, ex, st, args):
        # hashes identify tags and lines: no two distinct ones share a hash
        h = self.tx(ex, st)
        return [f for _, f in self.inv(ex, st)] + [h > 0]

    @property
    def contracts(self):
        def find(ex, st, ci):
            k = ex.to_int(ci.args[-1], 32)
            t = ex.fresh('found')
            st.pc += [t > 0, ifld(ex, st, 'Tag', t, 'hash') == k]
            st.ghost['found'] = t
            return None

        def arrow(ex, st, ci):
            q = ex.fresh('pair')
            st.pc.append(q > 0)
            P = Ptr('h', q, root='struct.std::pair.tag')
            ex.store(st, P.mv(off=8), ptr('Tag', st.ghost['found']), ex.T('ptr'))
            return P
        find.cname = arrow.cname = 'flat_unordered_map::find: the entry with that key exists (every tag of a reading is in single_tags)'

        def gcount(ex, st, ci):
            r = GC(self.th(ex, st))
            st.pc.append(z3.And(r >= -1, r < 2 ** 31))
            return r
        gcount.cname = 'ICU uregex_groupCount: a function of the pattern'

        def settext(ex, st, ci):
            st.ghost['text'] = ci.args[1]
            ex.store(st, ci.args[3], ex.fresh_int(st, 32, 'status'), ex.T('i32'))
            return None

        def data(ex, st, ci):
            return Ptr('h', ex.addr_term(ci.args[0]), root='text')

        def length(ex, st, ci):
            r = ex.fresh('len')
            st.pc.append(z3.And(r >= 0, r < 2 ** 48))
            return r

        def rfind(ex, st, ci):
            ex.store(st, ci.args[2], ex.fresh_int(st, 32, 'status'), ex.T('i32'))
            if self.line:
                want = ptr('Reading', self.rd).mv(off=off(ex, 'Reading', 'tags_string'))
            else:
                want = ptr('Tag', st.ghost.get('found', IV(0))).mv(off=off(ex, 'Tag', 'tag'))
            ex.oblige(st, 'the pattern is searched in the text of the tag under test', st.ghost['text'].base == ex.addr_term(want), kind='pre')
            return RX(self.th(ex, st), self.tx(ex, st))
        settext.cname = rfind.cname = 'ICU uregex_find: a function of pattern and text'

        def icase(ex, st, ci):
            a, b = ci.args
            ex.oblige(st, 'the text of the tag is compared with the text of the tag under test', z3.And(
                ex.peq(st, a, ptr('Tag', self.tag).mv(off=off(ex, 'Tag', 'tag'))), ex.peq(st, b, ptr('Tag', st.ghost['found']).mv(off=off(ex, 'Tag', 'tag')))), kind='pre')
            return IC(self.th(ex, st), self.tx(ex, st))
        icase.cname = 'ux_strCaseCompare: a function of both texts'

        def capture(ex, st, ci):
            st.ghost['captures'] = simp(st.ghost['captures'] + 1)
            return None
        capture.cname = 'captureRegex: stores the groups of the last match'
        nop = lambda ex, st, ci: None

        def errname(ex, st, ci):
            return Ptr('h', IV(1), root='text')
        return [(r'flat_unordered_set<unsigned long.*>::contains\(', t_contains), (r'flat_unordered_set<unsigned long.*>::insert\(', t_insert),
                (r'flat_unordered_map<unsigned int, CG3::Tag\*.*>::find\(', find), (r'flat_unordered_map<unsigned int, CG3::Tag\*.*iterator::operator->\(', arrow),
                (r'^uregex_groupCount', gcount), (r'^uregex_setText', settext), (r'^uregex_find', rfind), (r'^u_errorName', errname), (r'^u_fprintf', lambda ex, st, ci: IV(0)),
                (r'basic_string<char16_t.*>::data\(', data), (r'basic_string<char16_t.*>::size\(', length), (r'ux_strCaseCompare\(', icase), (r'captureRegex<', capture)]

    def ensures(self, ex, old, st, args, ret):
        T = self.truth(self.th(ex, old), self.tx(ex, old))
        r = ex.to_int(ret, 32)
        out = [('matches exactly when the text does', (r != 0) == T), ('a match is reported as the tag under test', z3.Or(r == 0, r == self.tx(ex, old)))]
        out += self.inv(ex, st)
        if self.truth is RX:
            ctx = z3.And(GC(self.th(ex, old)) > 0, vecf(ex, old, 'GrammarApplicator', self.ga, 'context_stack', (0, 'ptr')).len > 0)
            rg = st.ghost.get('regexgrps')
            g = vecf(ex, old, 'GrammarApplicator', self.ga, 'context_stack', (0, 'ptr'))
            out.append(('a pattern with groups is searched anew whenever it matches', z3.Implies(z3.And(T, GC(self.th(ex, old)) > 0), st.ghost.get('text') is not None)))
        ch = [c for c in changed(ex, old, st) if not c.startswith(('raw', 'struct.std::pair.tag'))]
        out.append(('nothing else changes (%s)' % ','.join(ch), z3.BoolVal(not ch)))
        return out

    def on_exit(self, ex, old, st, args):
        return []


class Regexp(Base):
    name = 'doesTagMatchRegexp'
    pat = r'^CG3::GrammarApplicator::doesTagMatchRegexp\('


class Line(Base):
    name = 'doesRegexpMatchLine'
    pat = r'^CG3::GrammarApplicator::doesRegexpMatchLine\('
    line = True


class Icase(Base):
    name = 'doesTagMatchIcase'
    pat = r'^CG3::GrammarApplicator::doesTagMatchIcase\('
    truth = staticmethod(IC)
    yes, no = 'index_icase_yes', 'index_icase_no'
