"""Trusted contracts of library functions (libstdc++, ICU, libc) used by the code under verification.

Every handler here is part of the trusted base and is listed by name in the evidence of each
check that relied on it. A std::vector is modelled by its value: a length and the sequence of
elements; growth never fails. Using an iterator after an insertion or a
later-positioned erasure is an obligation within one loop iteration; across iterations it is not tracked.
"""
import re
import z3
from symex import *

NEXT_EXIT = EXIT


def split_sig(dem):
    """(class, method, params) of a demangled C++ function name"""
    d = 0
    i = 0
    n = len(dem)
    pos = None
    last_scope = None
    space = None
    while i < n:
        c = dem[i]
        if dem.startswith('operator', i) and (i == 0 or not (dem[i - 1].isalnum() or dem[i - 1] == '_')):
            j = i + 8
            m = re.match(r'(\(\)|\[\]|->\*?|<<=?|>>=?|<=>|<=|>=|==|!=|\+\+|--|&&|\|\||[+\-*/%^&|~!=<>]=?|,| new| delete)', dem[j:])
            if m:
                i = j + len(m.group(0))
                continue
        if c in '<({[':
            if c == '(' and d == 0:
                if dem.startswith('(anonymous namespace)', i):
                    i += len('(anonymous namespace)')
                    continue
                pos = i
                break
            d += 1
        elif c in '>)}]':
            if not (c == '>' and dem[i - 1] == '-'):
                d -= 1
        elif d == 0 and dem.startswith('::', i):
            last_scope = i
            i += 2
            continue
        elif d == 0 and c == ' ':
            # return type before the name
            space = i
            last_scope = None
        i += 1
    if pos is None:
        pos = n
    start = 0 if space is None else space + 1
    if last_scope is None or last_scope < start:
        return '', dem[start:pos], dem[pos:]
    return dem[start:last_scope], dem[last_scope + 2:pos], dem[pos:]


_sigcache = {}


def sig(dem):
    r = _sigcache.get(dem)
    if r is None:
        r = _sigcache[dem] = split_sig(dem)
    return r


def tmpl_args(t):
    """top-level template arguments of a type text"""
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    out = []
    cur = ''
    for c in t[i + 1:]:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            if c == '>' and d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def params_of(p):
    """parameter list text -> list"""
    i = p.find('(')
    d = 0
    out, cur = [], ''
    for c in p[i + 1:]:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            if c == ')' and d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def vkey(ex, p, cls='vector'):
    if p.kind == 'h' and p.root is None:
        p = p.mv(root=cls)
    if p.kind == 'h' and p.idx is not None:
        raise Unsupported('vector inside array %r' % p)
    return CKey('vec', p)


def getleaves(ex, st, vv, T):
    leaves, size = ex.elem_type_leaves(T)
    out = {}
    for o, t in leaves:
        k = (o, t.s)
        if k in vv.leaves:
            out[k] = vv.leaves[k]
        else:
            a = ex.fresh('celem', z3.ArraySort(z3.IntSort(), ex.sortof(t)))
            ex.range_fact(st, a, t.s)
            out[k] = a
    return out, leaves, size


def load_elem(ex, st, p, T):
    leaves, size = ex.elem_type_leaves(T)
    return {(o, t.s): ex.unwrap(ex.load(st, p.mv(off=p.off + o), t), t, ex.sortof(t)) for o, t in leaves}


def zero_elem(ex, T):
    leaves, size = ex.elem_type_leaves(T)
    r = {}
    for o, t in leaves:
        s = ex.sortof(t)
        if s == z3.IntSort():
            r[(o, t.s)] = IV(0)
        elif s == z3.Float64():
            r[(o, t.s)] = z3.FPVal(0.0, s)
        else:
            r[(o, t.s)] = z3.BitVecVal(0, s.size())
    return r


def insert_at(ex, st, vv, L, i, elem, n=1):
    """sequence with elem inserted at i"""
    out = {}
    k = z3.Int('k!ins')
    for key, a in L.items():
        b = ex.fresh('ins', a.sort())
        v = elem[key]
        st.qpc.append(z3.ForAll([k], z3.Select(b, k) == z3.If(k < i, z3.Select(a, k), z3.If(k == i, v, z3.Select(a, k - 1))), patterns=[z3.Select(b, k)]))
        st.qpc.append(z3.ForAll([k], z3.And(z3.Implies(k < i, z3.Select(b, k) == z3.Select(a, k)), z3.Implies(k >= i, z3.Select(b, k + 1) == z3.Select(a, k))), patterns=[z3.Select(a, k)]))
        st.pc.append(z3.Select(b, i) == v)
        out[key] = b
    return VecVal(vv.len + 1, out)


def erase_range(ex, st, vv, L, i, j):
    out = {}
    k = z3.Int('k!er')
    d = simp(j - i)
    for key, a in L.items():
        b = ex.fresh('era', a.sort())
        st.qpc.append(z3.ForAll([k], z3.Select(b, k) == z3.If(k < i, z3.Select(a, k), z3.Select(a, k + d)), patterns=[z3.Select(b, k)]))
        st.qpc.append(z3.ForAll([k], z3.And(z3.Implies(k < i, z3.Select(b, k) == z3.Select(a, k)), z3.Implies(k >= i + d, z3.Select(b, k - d) == z3.Select(a, k))), patterns=[z3.Select(a, k)]))
        out[key] = b
    return VecVal(simp(vv.len - d), out)


def it_index(p):
    return p.idx if p.idx is not None else IV(0)


def vector_method(ex, st, ci):
    cls, meth, par = sig(ci.dem)
    T = tmpl_args(cls)[0]
    m = re.sub(r'<.*', '', meth) if not meth.startswith('operator') else meth
    a = ci.args
    sret = 0
    this = a[0]
    ps = params_of(par)
    key = vkey(ex, this, 'vector<%s>' % T)

    def V():
        return ex.container(st, key)

    def elem(i):
        return Ptr('v', key, idx=simp(i), ep=len(st.ghost.get('inval', ())))

    def put(vv):
        ex.set_container(st, key, vv)
    if m in ('begin', 'cbegin', 'data'):
        V()
        return elem(IV(0))
    if m in ('end', 'cend'):
        return elem(V().len)
    if m == 'size':
        return V().len
    if m == 'empty':
        return V().len == 0
    if m == 'capacity':
        c = ex.fresh_int(st, 64, 'cap')
        st.pc.append(c >= V().len)
        return c
    if m == 'reserve' or m == 'shrink_to_fit':
        ex.invalidate(st, key)
        return None
    if m in ('operator[]', 'at'):
        i = ex.to_int(a[1], 64)
        ex.oblige(st, 'bounds: vector index inside size', z3.And(i >= 0, i < V().len), kind='bounds')
        st.pc.append(i < V().len)
        return elem(i)
    if m in ('back', 'front'):
        ex.oblige(st, 'bounds: %s() of non-empty vector' % m, V().len > 0, kind='bounds')
        st.pc.append(V().len > 0)
        return elem(V().len - 1 if m == 'back' else IV(0))
    if m == 'clear':
        ex.invalidate(st, key)
        L, lv, sz = getleaves(ex, st, V(), T)
        put(VecVal(IV(0), L))
        return None
    if m in ('push_back', 'emplace_back'):
        if m == 'emplace_back' and len(ps) != 1:
            if len(ps) == 0:
                e = zero_elem(ex, T)
            else:
                h = ex.opts.get('emplace')
                e = h(ex, st, T, a[1:], ps) if h else None
                if e is None:
                    raise Unsupported('emplace_back ' + ci.dem)
        else:
            e = load_elem(ex, st, a[1], T)
        vv = V()
        L, lv, sz = getleaves(ex, st, vv, T)
        n = vv.len
        ex.invalidate(st, key)
        put(VecVal(simp(n + 1), {k: z3.Store(L[k], n, e[k]) for k in L}))
        return elem(n)
    if m == 'pop_back':
        vv = V()
        ex.oblige(st, 'bounds: pop_back of non-empty vector', vv.len > 0, kind='bounds')
        st.pc.append(vv.len > 0)
        L, lv, sz = getleaves(ex, st, vv, T)
        put(VecVal(simp(vv.len - 1), L))
        return None
    if m in ('insert', 'emplace') and len(a) == 3 and not (len(ps) == 2 and 'initializer_list' in ps[1]):
        i = it_index(a[1])
        vv = V()
        L, lv, sz = getleaves(ex, st, vv, T)
        ex.oblige(st, 'bounds: insert position inside vector', z3.And(i >= 0, i <= vv.len), kind='bounds')
        e = load_elem(ex, st, a[2], T)
        ex.invalidate(st, key)
        put(insert_at(ex, st, vv, L, i, e))
        return elem(i)
    if m == 'erase' and len(a) == 2:
        i = it_index(a[1])
        vv = V()
        L, lv, sz = getleaves(ex, st, vv, T)
        ex.oblige(st, 'bounds: erase position inside vector', z3.And(i >= 0, i < vv.len), kind='bounds')
        ex.invalidate(st, key, i)
        put(erase_range(ex, st, vv, L, i, i + 1))
        return elem(i)
    if m == 'erase' and len(a) == 3:
        i, j = it_index(a[1]), it_index(a[2])
        vv = V()
        L, lv, sz = getleaves(ex, st, vv, T)
        ex.oblige(st, 'bounds: erase range inside vector', z3.And(i >= 0, i <= j, j <= vv.len), kind='bounds')
        ex.invalidate(st, key, i)
        put(erase_range(ex, st, vv, L, i, j))
        return elem(i)
    if m == 'resize':
        ex.invalidate(st, key)
        n = ex.to_int(a[1], 64)
        vv = V()
        L, lv, sz = getleaves(ex, st, vv, T)
        e = load_elem(ex, st, a[2], T) if len(a) > 2 else zero_elem(ex, T)
        out = {}
        k = z3.Int('k!rs')
        ns = simp(n)
        for key2, arr in L.items():
            if is_ic(ns) and ns.as_long() == 0:
                out[key2] = arr
                continue
            b = ex.fresh('rsz', arr.sort())
            st.qpc.append(z3.ForAll([k], z3.Select(b, k) == z3.If(k < vv.len, z3.Select(arr, k), e[key2]), patterns=[z3.Select(b, k)]))
            st.qpc.append(z3.ForAll([k], z3.Implies(z3.And(k < vv.len), z3.Select(b, k) == z3.Select(arr, k)), patterns=[z3.Select(arr, k)]))
            out[key2] = b
        put(VecVal(n, out))
        return None
    if m == 'swap':
        k2 = vkey(ex, a[1], 'vector<%s>' % T)
        x, y = V(), ex.container(st, k2)
        Lx, _, _ = getleaves(ex, st, x, T)
        Ly, _, _ = getleaves(ex, st, y, T)
        lx, ly = x.len, y.len
        put(VecVal(ly, Ly))
        ex.set_container(st, k2, VecVal(lx, Lx))
        return None
    if m == 'operator=':
        k2 = vkey(ex, a[1], 'vector<%s>' % T)
        y = ex.container(st, k2)
        Ly, _, _ = getleaves(ex, st, y, T)
        ly = y.len
        put(VecVal(ly, Ly))
        if '&&' in ps[0]:
            ex.set_container(st, k2, VecVal(IV(0), Ly))
        return this
    if m == 'vector':
        if len(ps) == 0 or (len(ps) == 1 and 'allocator' in ps[0] and not ps[0].startswith('std::vector')):
            L, _, _ = getleaves(ex, st, VecVal(IV(0), {}), T)
            put(VecVal(IV(0), L))
            return None
        if ps[0].startswith('std::vector'):
            k2 = vkey(ex, a[1], 'vector<%s>' % T)
            y = ex.container(st, k2)
            Ly, _, _ = getleaves(ex, st, y, T)
            ly = y.len
            put(VecVal(ly, Ly))
            if '&&' in ps[0]:
                ex.set_container(st, k2, VecVal(IV(0), Ly))
            return None
        if ps[0] == 'unsigned long':
            n = ex.to_int(a[1], 64)
            e = load_elem(ex, st, a[2], T) if len(ps) > 1 and 'allocator' not in ps[1] else zero_elem(ex, T)
            out = {}
            for k2, v in e.items():
                out[k2] = z3.K(z3.IntSort(), v)
            put(VecVal(n, out))
            return None
    if m == '~vector':
        return None
    if m == 'assign' and len(ps) == 2 and ps[0] == 'unsigned long':
        n = ex.to_int(a[1], 64)
        e = load_elem(ex, st, a[2], T)
        put(VecVal(n, {k2: z3.K(z3.IntSort(), v) for k2, v in e.items()}))
        return None
    if (m == 'assign' and len(a) == 3) or (m == 'insert' and len(a) == 4):
        src = a[-2]
        lo, hi = it_index(a[-2]), it_index(a[-1])
        leaves, size = ex.elem_type_leaves(T)
        if src.kind == 'v':
            sv = ex.container(st, src.base)
            SL, _, _ = getleaves(ex, st, sv, T)
        else:
            raise Unsupported('range insert from raw memory')
        vv = V()
        L, _, _ = getleaves(ex, st, vv, T)
        at = IV(0) if m == 'assign' else it_index(a[1])
        oldlen = IV(0) if m == 'assign' else vv.len
        n = simp(hi - lo)
        out = {}
        k = z3.Int('k!ri')
        for kk, arr in L.items():
            b = ex.fresh('rins', arr.sort())
            s2 = SL[kk]
            st.qpc.append(z3.ForAll([k], z3.Select(b, k) == z3.If(k < at, z3.Select(arr, k), z3.If(k < at + n, z3.Select(s2, k - at + lo), z3.Select(arr, k - n))), patterns=[z3.Select(b, k)]))
            if m != 'assign':
                st.qpc.append(z3.ForAll([k], z3.And(z3.Implies(k < at, z3.Select(b, k) == z3.Select(arr, k)), z3.Implies(k >= at, z3.Select(b, k + n) == z3.Select(arr, k))), patterns=[z3.Select(arr, k)]))
            st.qpc.append(z3.ForAll([k], z3.Implies(z3.And(k >= lo, k < hi), z3.Select(b, k - lo + at) == z3.Select(s2, k)), patterns=[z3.Select(s2, k)]))
            out[kk] = b
        ex.invalidate(st, key)
        put(VecVal(simp(oldlen + n), out))
        return elem(at) if m == 'insert' else None
    if ci.fn.decl:
        raise Unsupported('vector method ' + ci.dem)
    raise StepIn()


class StepIn(Exception):
    pass


def comparator(ex, st, dem_args, comp, elem_ptr_of, vptr, T, ci, order='ev'):
    """formula lt(e[k], v) (order 'ev') or lt(v, e[k]) ('ve') as a python function of k"""
    def f(k):
        ep = elem_ptr_of(k)
        x, y = (ep, vptr) if order == 'ev' else (vptr, ep)
        return compare(ex, st, comp, x, y, T, ci)
    return f


def compare(ex, st, comp, xp, yp, T, ci):
    leaves, size = ex.elem_type_leaves(T)
    ctype, cobj = comp
    if ctype is None or ctype.startswith('std::less<'):
        if len(leaves) == 1:
            t = leaves[0][1]
            s2 = st.clone()
            x, y = ex.load(s2, xp, t), ex.load(s2, yp, t)
            if isinstance(x, Ptr):
                return ex.addr_term(x) < ex.addr_term(y)
            if t.kind == 'double':
                return z3.fpLT(x, y)
            x, y = ex.to_int(x, t.width), ex.to_int(y, t.width)
            if T in ('int', 'long', 'short', 'signed char', 'long long'):
                h = two(t.width - 1)
                x, y = z3.If(x >= h, x - 2 * h, x), z3.If(y >= h, y - 2 * h, y)
            return x < y
        fs = [f for f in ex.mod.funcs.values() if not f.decl and sig(f.dem)[0] == T and sig(f.dem)[1] == 'operator<']
        if len(fs) > 1:
            q = [f for f in fs if params_of(sig(f.dem)[2])[0].startswith(T) == bool(yp.root and ('struct.' + T == yp.root or 'class.' + T == yp.root))]
            fs = q or fs
        if not fs:
            raise Unsupported('no comparator for ' + T)
        return ex.pure(st, fs[0], [xp, yp])
    fs = [f for f in ex.mod.funcs.values() if not f.decl and sig(f.dem)[0] == ctype and sig(f.dem)[1] == 'operator()']
    if not fs:
        raise Unsupported('no comparator body for ' + ctype)
    f = fs[0]
    ps = params_of(sig(f.dem)[2])
    args = [cobj if cobj is not None else Ptr('h', IV(0))]
    for p, q in zip(ps, (xp, yp)):
        if p.endswith('&'):
            args.append(q)
        else:
            s2 = st.clone()
            args.append(ex.load(s2, q, ex.elem_type_leaves(T)[0][0][1]))
    return ex.pure(st, f, args)


def iter_T(itname):
    """element type of an iterator type text"""
    m = re.match(r'__gnu_cxx::__normal_iterator<(.*)', itname)
    if m:
        t = tmpl_args(itname)[0]
    else:
        t = itname
    t = t.strip()
    if t.endswith('*'):
        t = t[:-1].strip()
    if t.endswith('const'):
        t = t[:-5].strip()
    return t


def bound_fn(which):
    def h(ex, st, ci):
        cls, meth, par = sig(ci.dem)
        ta = tmpl_args(meth)
        T = iter_T(ta[0])
        first, last, vp = ci.args[0], ci.args[1], ci.args[2]
        comp = (ta[2], ci.args[3] if len(ci.args) > 3 else None) if len(ta) > 2 else (None, None)
        lo, hi = it_index(first), it_index(last)

        def mk(k):
            return first.mv(idx=k)

        def lt(k):   # element k goes before the bound
            if which == 'lower':
                return compare(ex, st, comp, mk(k), vp, T, ci)
            return z3.Not(compare(ex, st, comp, vp, mk(k), T, ci))
        i, j = z3.Int('i!lb'), z3.Int('j!lb')
        def tt(k):
            cv = ex.container(st, first.base) if first.kind == 'v' else None
            if cv is None:
                raise Unsupported('bound over raw memory')
            o, t0 = ex.elem_type_leaves(T)[0][0]
            return z3.Select(cv.leaves[(o, t0.s)], k)
        ex.oblige(st, 'callee pre: std::%s_bound range is partitioned' % which,
                  z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi, lt(j)), lt(i))), kind='pre')
        r = ex.fresh('lb')
        st.pc.append(z3.And(lo <= r, r <= hi))
        k = z3.Int('k!lb')
        st.qpc.append(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < r), lt(k)), patterns=[tt(k)]))
        st.qpc.append(z3.ForAll([k], z3.Implies(z3.And(r <= k, k < hi), z3.Not(lt(k))), patterns=[tt(k)]))
        st.pc.append(z3.Implies(r < hi, z3.Not(lt(r))))
        st.pc.append(z3.Implies(r > lo, lt(simp(r - 1))))
        # stride for later pointer arithmetic
        return first.mv(idx=r, stride=ex.elem_type_leaves(T)[1])
    h.__name__ = 'std::%s_bound' % which
    return h


def std_swap(ex, st, ci):
    cls, meth, par = sig(ci.dem)
    raise StepIn()


def noret(ex, st, ci):
    return EXIT


def do_throw(ex, st, ci):
    return THROW


def op_new(ex, st, ci):
    r = ex.fresh('new')
    st.pc.append(r > 0)
    seen = st.ghost.get('allocated', ())
    for x in seen:
        st.pc.append(r != x)
    st.ghost['allocated'] = seen + (r,)
    return Ptr('h', r)


def nop(ex, st, ci):
    return None


def wrap(h):
    """contract handler that may decline (StepIn) so that the callee's own body is executed"""
    def g(ex, st, ci):
        try:
            return h(ex, st, ci)
        except StepIn:
            return STEPIN
    g.__name__ = getattr(h, '__name__', 'contract')
    g.cname = 'trusted: ' + g.__name__
    return g


STEPIN = object()

BASE = [
    (r'^([\w:&<>, \*]+ )?std::vector<.*>::(vector|~vector|operator=|operator\[\]|begin|end|cbegin|cend|data|size|empty|capacity|reserve|at|back|front|clear|push_back|emplace_back|pop_back|insert|emplace|erase|resize|swap|assign|shrink_to_fit)[<(]', wrap(vector_method)),
    (r'\bstd::lower_bound<', wrap(bound_fn('lower'))),
    (r'\bstd::upper_bound<', wrap(bound_fn('upper'))),
    (r'^operator new(\[\])?\(', wrap(op_new)),
    (r'^operator delete(\[\])?\(', wrap(nop)),
    (r'^__cxa_thread_atexit', wrap(nop)),
    (r'^(CG3::)?CG3Quit\(', wrap(noret)),
    (r'^(std::terminate|abort|exit|__clang_call_terminate|__cxa_pure_virtual)', wrap(noret)),
    (r'^__cxa_throw', wrap(do_throw)),
    (r'^std::__throw_', wrap(do_throw)),
    (r'^__cxa_(allocate_exception|free_exception)', wrap(op_new)),
]
