"""Contract-based deductive verifier for LLVM IR: verification-condition generator.

A function under contract is executed symbolically on the IR clang makes from /repo's
current source: loops are cut at their headers by invariants, calls are replaced by the
callee's contract (or, for helpers without one, by their own body), every path between
cut points yields named proof obligations that back ends (z3, cvc5) must discharge.
No bound is put on inputs or iterations.
"""
import re
import time
import z3

import llvmir

TWO = {w: 1 << w for w in (1, 8, 16, 32, 64, 128)}


class Unsupported(Exception):
    pass


class Bad(Exception):
    pass


def two(w):
    return 1 << w


def simp(t):
    return z3.simplify(t)


def IV(v):
    return z3.IntVal(v)


def is_ic(t):
    return isinstance(t, z3.ExprRef) and z3.is_int_value(t)


def is_i(t):
    return isinstance(t, z3.ArithRef) and t.is_int()


def is_bv(t):
    return isinstance(t, z3.BitVecRef)


class Ptr:
    """kinds: h heap object (base: Int term), a local variable (base: id), v element of a container (base: CKey), f function"""
    __slots__ = ('kind', 'base', 'idx', 'stride', 'off', 'root', 'ep')

    def __init__(self, kind, base, idx=None, stride=None, off=0, root=None, ep=None):
        self.kind, self.base, self.idx, self.stride, self.off, self.root, self.ep = kind, base, idx, stride, off, root, ep

    def mv(self, **k):
        r = Ptr(self.kind, self.base, self.idx, self.stride, self.off, self.root, self.ep)
        for a, b in k.items():
            setattr(r, a, b)
        return r

    def __repr__(self):
        return 'P(%s %s [%s] +%s %s)' % (self.kind, self.base, self.idx, self.off, self.root)


class CKey:
    """identity of a container holding elements: a std::vector object ('vec') or a C array ('arr') at pointer p"""
    __slots__ = ('kind', 'p', 'ety')

    def __init__(self, kind, p, ety=None):
        self.kind, self.p, self.ety = kind, p, ety

    def same(self, o):
        a, b = self.p, o.p
        if self.kind != o.kind or a.kind != b.kind:
            return False
        if a.kind == 'a':
            return a.base == b.base and a.off == b.off
        if a.kind == 'v':
            return a.base.same(b.base) and a.off == b.off and ideq(a.idx, b.idx)
        return a.off == b.off and simp(a.base).eq(simp(b.base)) and ideq(a.idx, b.idx)

    def __repr__(self):
        return 'CKey(%s %r)' % (self.kind, self.p)


def ideq(a, b):
    a = IV(0) if a is None else a
    b = IV(0) if b is None else b
    return simp(a).eq(simp(b))


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


UAND = z3.Function('UAND', z3.IntSort(), z3.IntSort(), z3.IntSort())


class VecVal:
    """abstract value of a container: length and one Int->value array per scalar leaf of the element type"""
    __slots__ = ('len', 'leaves')

    def __init__(self, ln, leaves):
        self.len, self.leaves = ln, leaves


class PInt:
    """an integer that is the address of p"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Diff:
    """an integer d*stride (byte distance of two element pointers)"""
    __slots__ = ('d', 'stride')

    def __init__(self, d, stride):
        self.d, self.stride = d, stride


class Pack:
    """an integer holding several smaller cells [(off,size,value)]"""
    __slots__ = ('cells', 'size')

    def __init__(self, cells, size):
        self.cells, self.size = cells, size


UNDEF = object()


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'regs', 'prev', 'retinst', 'path', 'args', 'loops', 'names')

    def clone(self):
        f = Frame()
        f.fn, f.block, f.ip, f.prev, f.retinst, f.path, f.args = self.fn, self.block, self.ip, self.prev, self.retinst, self.path, self.args
        f.regs = dict(self.regs)
        f.loops = dict(self.loops)
        f.names = self.names
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.al = {}
        self.pc = []
        self.qpc = []      # quantified / heavy facts
        self.ghost = {}
        self.trace = []
        self.model = None
        self.notes = []

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.al = {k: dict(v) for k, v in self.al.items()}
        s.pc = list(self.pc)
        s.qpc = list(self.qpc)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        s.model = self.model
        s.notes = list(self.notes)
        return s

    def snap(self):
        """memory snapshot (no frames)"""
        s = State()
        s.mem = dict(self.mem)
        s.al = {k: dict(v) for k, v in self.al.items()}
        s.ghost = dict(self.ghost)
        s.pc = self.pc
        s.qpc = self.qpc
        s.frames = self.frames
        return s


class Obligation:
    __slots__ = ('name', 'pc', 'goal', 'trace', 'cand', 'fn', 'status', 'solver', 'time', 'model', 'kind')

    def __init__(self, name, pc, goal, trace, fn, cand=None, kind='post'):
        self.name, self.pc, self.goal, self.trace, self.fn, self.cand, self.kind = name, pc, goal, trace, fn, cand, kind
        self.status = self.solver = self.model = None
        self.time = 0


def has_quant(f):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


class LoopCx:
    def __init__(self, ex, st, entry, fn, header, L=None):
        self.ex, self.st, self.entry, self.fn, self.header, self.L = ex, st, entry, fn, header, L
        self.old = ex.old

    def frame(self):
        return self.st.frames[-1]

    def locals_used(self):
        """locals of this frame that the loop's instructions touch"""
        if not hasattr(self, '_lu'):
            self._lu = []
            names = {I.h: I.name for b in self.fn.blocks for I in b.insts if I.op == 'alloca'}
            for b in self.fn.blocks:
                if self.L is None or b.index in self.L['body']:
                    for I in b.insts:
                        for o in list(I.ops or []) + list(I.args or []):
                            n = names.get(o.v) if o.kind == 'inst' else None
                            if n and n not in self._lu:
                                self._lu.append(n)
        return self._lu

    def uses(self, name):
        """does the loop's code touch a local of that name"""
        return any(re.match(re.escape(name) + r'(\.addr)?\d*$', n) for n in self.locals_used())

    def innermost(self):
        return not any(l is not self.L and l['body'] < self.L['body'] for l in self.fn.loops())

    def aid(self, name):
        f = self.frame()
        live = [n for n in self.locals_used() if re.match(re.escape(name) + r'(\.addr)?\d*$', n) and self.st.al.get(f.path + '/' + n)]
        if live:
            return f.path + '/' + live[0]
        for cand in (name, name + '.addr'):
            a = f.path + '/' + cand
            if a in self.st.al:
                return a
        raise Bad('no local variable %r in %s' % (name, f.fn.dem))

    def var(self, name, st=None, off=0):
        st = st or self.st
        a = self.aid(name)
        return st.al[a][off][1]

    def has(self, name, off=0):
        try:
            a = self.aid(name)
            return off in self.st.al[a]
        except Bad:
            return False

    def idx(self, name, st=None, off=0):
        p = self.var(name, st, off)
        if isinstance(p, Ptr):
            return p.idx if p.idx is not None else IV(0)
        return p


class Exec:
    def __init__(self, mod, contracts=(), opts=None):
        self.mod = mod
        self.contracts = list(contracts)
        self.opts = opts or {}
        self._b8 = {}
        self.obs = []
        self.fresh_n = 0
        self.loopinfo = {}
        self.dropped = set()
        self.restart = False
        self.stats = dict(paths=0, returns=0, insts=0, throws=0, exits=0, queries=0, qtime=0.0)
        self.used_contracts = {}
        self.inlined = {}
        self.loopspecs = []
        self.spec = None
        self.old = None
        self.qs = z3.Solver()
        self.bvclasses = self.opts.get('bv', ())
        self.array_roots = set(self.opts.get('array_roots', ()))
        self.elem_types = self.opts.get('elem_types', {})
        self.globals_addr = {}
        self.maxpaths = self.opts.get('maxpaths', 4000)
        self.bounds = self.opts.get('bounds', False)
        self.sig = {}
        self._ccache = {}
        self.clssort = {}
        self.nameof = {}
        self.qlabel = {}
        self.deadline = None

    # ------------------------------------------------------------------ values
    def fresh(self, hint='v', sort=None):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (hint, self.fresh_n), sort if sort is not None else z3.IntSort())

    def fresh_int(self, st, w, hint='i', rep=None):
        if w == 1:
            return self.fresh(hint, z3.BoolSort())
        if rep == 'bv' or (rep is None and self.opts.get('intrep') == 'bv'):
            return self.fresh(hint, z3.BitVecSort(w))
        v = self.fresh(hint)
        st.pc.append(z3.And(v >= 0, v < two(w)))
        return v

    def fresh_ptr(self, st, hint='p', root=None):
        v = self.fresh(hint)
        st.pc.append(v >= 0)
        return Ptr('h', v, root=root)

    def fresh_of(self, st, ty, hint='v'):
        if ty.kind == 'int':
            return self.fresh_int(st, ty.width, hint)
        if ty.kind == 'ptr':
            return self.fresh_ptr(st, hint)
        if ty.kind == 'double':
            return self.fresh(hint, z3.Float64())
        if ty.kind == 'float':
            return self.fresh(hint, z3.Float32())
        if ty.kind == 'struct':
            return Agg([self.fresh_of(st, e, hint) for e in ty.elems])
        if ty.kind == 'void':
            return None
        raise Unsupported('fresh of ' + ty.s)

    def to_int(self, v, w):
        if isinstance(v, (PInt, Diff, Pack)):
            v = self.concretize(v)
        if isinstance(v, int):
            return IV(v % two(w))
        if is_i(v):
            return v
        if is_bv(v):
            if z3.is_bv_value(v):
                return IV(v.as_long())
            if v.decl().kind() == z3.Z3_OP_INT2BV and v.size() == w:
                return v.arg(0) if v.num_args() else z3.BV2Int(v)
            return z3.BV2Int(v)
        if z3.is_bool(v):
            return z3.If(v, IV(1), IV(0))
        raise Unsupported('to_int %r' % (v,))

    def to_bv(self, v, w):
        if isinstance(v, (PInt, Diff, Pack)):
            v = self.concretize(v)
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if is_bv(v):
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if is_ic(v):
            return z3.BitVecVal(v.as_long(), w)
        if is_i(v):
            if v.decl().kind() == z3.Z3_OP_BV2INT and v.arg(0).size() == w:
                return v.arg(0)
            return z3.Int2BV(v, w)
        raise Unsupported('to_bv %r' % (v,))

    def concretize(self, v):
        if isinstance(v, Diff):
            return v.d * v.stride if not is_ic(v.d) else IV(v.d.as_long() * v.stride)
        if isinstance(v, PInt):
            return self.addr_term(v.p)
        if isinstance(v, Pack):
            t = IV(0)
            for off, size, c in v.cells:
                t = t + self.to_int(c, size * 8) * two(off * 8)
            return t
        return v

    def addr_term(self, p):
        """scalar Int for a pointer stored into heap memory or compared as integer"""
        if p.kind == 'h':
            if p.idx is None and p.off == 0:
                return p.base
            if p.idx is None:
                return p.base + p.off
            return self.uf('elemaddr', z3.IntSort(), p.base, p.idx, IV(p.stride or 0), IV(p.off))
        if p.kind == 'f':
            return self.gaddr('fn:' + p.base.name)
        if p.kind == 'a':
            return self.gaddr('local:%s+%d' % (p.base, p.off))
        if p.kind == 'v':
            k = p.base
            return self.uf('celemaddr', z3.IntSort(), self.addr_term(k.p), p.idx if p.idx is not None else IV(0), IV(p.off))
        raise Unsupported('address of %r' % p)

    def gaddr(self, name):
        if name not in self.globals_addr:
            self.globals_addr[name] = IV((1 << 63) + (len(self.globals_addr) + 1) * (1 << 36))
        return self.globals_addr[name]

    def uf(self, name, ret, *args):
        f = z3.Function(name, *([a.sort() for a in args] + [ret]))
        return f(*args)

    # ------------------------------------------------------------------ solver
    def _sat(self, st, extra, timeout=400):
        t = time.time()
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout)
        s.set('rlimit', timeout * 15000)     # a limit that does not depend on z3's timer thread, which a fork can lose
        for f in st.pc:
            s.add(f)
        for f in extra:
            s.add(f)
        r = s.check()
        self.stats['queries'] += 1
        self.stats['qtime'] += time.time() - t
        if r == z3.sat:
            return True, s.model()
        if r == z3.unsat:
            return False, None
        return None, None

    def feasible(self, st, cond):
        """False only if pc && cond is unsatisfiable"""
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r, m = self._sat(st, [c])
        return r is not False

    def entails(self, st, cond, timeout=150):
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r, m = self._sat(st, [z3.Not(c)], timeout)
        return r is False

    def assume(self, st, f, label=None):
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(st, x, label)
            return
        if f is True or f is None:
            return
        f2 = f
        if z3.is_true(f2):
            return
        if z3.is_and(f2):
            for x in f2.children():
                self.assume(st, x, label)
            return
        if has_quant(f2):
            st.qpc.append(f2)
            if label:
                self.qlabel.setdefault(f2.get_id(), (f2, label))
        else:
            st.pc.append(f2)

    def oblige(self, st, name, goal, cand=None, kind='post', hide=None):
        if goal is True:
            goal = z3.BoolVal(True)
        fr = st.frames[-1] if st.frames else None
        if z3.is_and(goal) and cand is None and len(goal.children()) > 1:
            for k, g in enumerate(goal.children()):
                self.oblige(st, '%s.%d' % (name, k), g, cand, kind, hide)
            return
        q = st.qpc
        if hide:
            q = [f for f in q if not (f.get_id() in self.qlabel and re.search(hide, self.qlabel[f.get_id()][1]))]
        self.obs.append(Obligation(name, st.pc + q, goal, list(st.trace), fr.fn.dem if fr else '', cand, kind))

    # ------------------------------------------------------------------ types
    def sortof(self, ty, cls=''):
        if ty.kind == 'int':
            if ty.width == 1:
                return z3.BoolSort()
            if self.opts.get('intrep') == 'bv' or any(re.search(p, cls) for p in self.bvclasses):
                return z3.BitVecSort(ty.width)
            return z3.IntSort()
        if ty.kind == 'ptr':
            return z3.IntSort()
        if ty.kind == 'double':
            return z3.Float64()
        if ty.kind == 'float':
            return z3.Float32()
        raise Unsupported('memory sort of ' + ty.s)

    def wrapload(self, st, t, ty):
        """value loaded from an SMT array -> executor value, with its range facts"""
        if ty.kind == 'int':
            if is_i(t):
                ts = simp(t)
                if not is_ic(ts):
                    st.pc.append(z3.And(ts >= 0, ts < two(ty.width)))
                return ts
            return t
        if ty.kind == 'ptr':
            ts = simp(t)
            if not is_ic(ts):
                st.pc.append(ts >= 0)
            return Ptr('h', ts)
        return t

    def unwrap(self, v, ty, sort, cls=''):
        """executor value -> SMT term of the given sort for storing"""
        if v is UNDEF:
            return self.fresh('undef', sort)
        if ty.kind == 'ptr':
            if not isinstance(v, Ptr):
                v2 = self.concretize(v) if isinstance(v, PInt) else v
                return v2
            return self.addr_term(v)
        if ty.kind == 'int':
            if sort == z3.BoolSort():
                return v
            if sort == z3.IntSort():
                return self.to_int(v, ty.width)
            return self.to_bv(v, ty.width)
        return v

    def scalar_leaves(self, ty, base=0):
        """[(off, scalar type)] of a type; C arrays of scalars give ('arr', ...)"""
        if ty.kind in ('int', 'ptr', 'double', 'float'):
            return [(base, ty)]
        if ty.kind == 'struct':
            r = []
            for o, e in zip(ty.offsets, ty.elems):
                r += self.scalar_leaves(e, base + o)
            return r
        if ty.kind == 'array':
            r = []
            for k in range(ty.count):
                r += self.scalar_leaves(ty.elem, base + k * ty.elem.size)
            return r
        raise Unsupported('leaves of ' + ty.s)

    def T(self, s):
        """scalar type by short name"""
        t = self.sig.get(s)
        if t is None:
            class X:
                pass
            t = llvmir.Type()
            t.name = t.elems = t.offsets = t.elem = t.count = None
            t.h = None
            t.s = s
            if s == 'ptr':
                t.kind, t.width, t.size = 'ptr', None, 8
            elif s == 'double':
                t.kind, t.width, t.size = 'double', None, 8
            elif s == 'float':
                t.kind, t.width, t.size = 'float', None, 4
            elif s == 'void':
                t.kind, t.width, t.size = 'void', None, 0
            else:
                t.kind, t.width = 'int', int(s[1:])
                t.size = max(1, t.width // 8)
            self.sig[s] = t
        return t

    def elem_type_leaves(self, T):
        """leaves [(off, Type)] and size of a C++ element type given its demangled name"""
        T = T.strip()
        if T in self.elem_types:
            e = self.elem_types[T]
            if isinstance(e, str):
                s = self.mod.struct(e)
                return self.scalar_leaves(s), s.size
            return [(o, self.T(t)) for o, t in e[0]], e[1]
        if T.endswith('const'):
            T = T[:-5].strip()
        if T.endswith('*'):
            return [(0, self.T('ptr'))], 8
        m = {'unsigned int': 'i32', 'int': 'i32', 'unsigned long': 'i64', 'long': 'i64', 'unsigned short': 'i16', 'short': 'i16', 'char16_t': 'i16',
             'char': 'i8', 'unsigned char': 'i8', 'signed char': 'i8', 'double': 'double', 'unsigned long long': 'i64', 'long long': 'i64'}
        if T in m:
            t = self.T(m[T])
            return [(0, t)], t.size
        for pre in ('struct.', 'class.'):
            s = self.mod.struct(pre + T)
            if s is not None and s.elems:
                return self.scalar_leaves(s), s.size
        raise Unsupported('element type ' + T)

    # ------------------------------------------------------------------ memory
    def note_write(self, st, item):
        for fr in st.frames:
            for li in fr.loops.values():
                info = li['info']
                if item not in info['mods']:
                    if item[0] == 'a':
                        # only cells that exist before the loop matter
                        if item[1] not in li['aids']:
                            continue
                    info['mods'].add(item)
                    self.restart = True
        for rec in st.ghost.get('recorders', ()):
            rec.add(item)

    def cls(self, p, ty):
        """class name of the heap location p points to"""
        if p.root is None:
            if p.off != 0:
                return 'raw+%d:%s' % (p.off, ty.s)
            return 'raw:%s' % ty.s
        return '%s+%d:%s' % (p.root, p.off, ty.s)

    def memarr(self, st, name, sort):
        a = st.mem.get(name)
        self.clssort[name] = sort
        if a is None:
            a = z3.Const('mem[%s]' % name, sort)
            st.mem[name] = a
            if self.old is not None and name not in self.old.mem:
                self.old.mem[name] = a
        return a

    def is2d(self, p):
        if p.root is None:
            return True
        return p.root in self.array_roots

    def load(self, st, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('load through %r' % (p,))
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'struct':
                return Agg([self.load(st, p.mv(off=p.off + o), e) for o, e in zip(ty.offsets, ty.elems)])
            raise Unsupported('load of ' + ty.s)
        if p.kind == 'a':
            return self.load_local(st, p, ty)
        if p.kind == 'v':
            vv = self.container(st, p.base)
            if p.idx is None:
                p = p.mv(idx=IV(0))
            if self.bounds and p.base.kind == 'vec':
                self.oblige(st, 'bounds: element read inside container', z3.And(p.idx >= 0, p.idx < vv.len), kind='bounds')
            self.itervalid(st, p)
            k = (p.off, ty.s)
            if k not in vv.leaves:
                hit = [kk for kk in vv.leaves if kk[0] == p.off]
                if hit:
                    raise Unsupported('element leaf %s vs %s' % (k, hit))
                s = z3.ArraySort(z3.IntSort(), self.sortof(ty))
                vv.leaves[k] = self.fresh('celem', s)
            return self.wrapload(st, z3.Select(vv.leaves[k], p.idx), ty)
        if p.kind == 'h':
            c = self.cls(p, ty)
            s = self.sortof(ty, c)
            if self.is2d(p):
                a = self.memarr(st, c, z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), s)))
                return self.wrapload(st, z3.Select(z3.Select(a, p.base), p.idx if p.idx is not None else IV(0)), ty)
            if p.idx is not None and not (is_ic(simp(p.idx)) and simp(p.idx).as_long() == 0):
                raise Unsupported('indexed access to object class %s' % p.root)
            a = self.memarr(st, c, z3.ArraySort(z3.IntSort(), s))
            self.nullcheck(st, p)
            return self.wrapload(st, z3.Select(a, p.base), ty)
        raise Unsupported('load via %r' % p)

    def itervalid(self, st, p):
        """the iterator was not invalidated by an insertion or erasure since it was made"""
        if p.ep is None:
            return
        for key, at in st.ghost.get('inval', ())[p.ep:]:
            if key.same(p.base):
                self.oblige(st, 'iterator not invalidated before use', z3.BoolVal(False) if at is None else p.idx < at, kind='bounds')

    def invalidate(self, st, key, at=None):
        st.ghost['inval'] = st.ghost.get('inval', ()) + ((key, at),)

    def nullcheck(self, st, p):
        if self.opts.get('nullcheck') and not is_ic(p.base):
            key = ('nn', p.base.get_id())
            if key not in st.ghost:
                st.ghost[key] = p.base
                self.oblige(st, 'no null dereference', p.base != 0, kind='null')

    def store(self, st, p, v, ty):
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if ty.kind == 'struct':
            if v is UNDEF:
                return
            for (o, e), x in zip(zip(ty.offsets, ty.elems), v.v):
                self.store(st, p.mv(off=p.off + o), x, e)
            return
        if p.kind == 'a':
            self.store_local(st, p, v, ty)
            return
        if p.kind == 'v':
            vv = self.container(st, p.base)
            if p.idx is None:
                p = p.mv(idx=IV(0))
            if self.bounds and p.base.kind == 'vec':
                self.oblige(st, 'bounds: element write inside container', z3.And(p.idx >= 0, p.idx < vv.len), kind='bounds')
            self.itervalid(st, p)
            k = (p.off, ty.s)
            if k in vv.leaves:
                a = vv.leaves[k]
            else:
                a = self.fresh('celem', z3.ArraySort(z3.IntSort(), self.sortof(ty)))
            n = dict(vv.leaves)
            n[k] = z3.Store(a, p.idx, self.unwrap(v, ty, a.sort().range()))
            self.set_container(st, p.base, VecVal(vv.len, n))
            return
        if p.kind == 'h':
            c = self.cls(p, ty)
            s = self.sortof(ty, c)
            self.note_write(st, ('h', c))
            if self.is2d(p):
                a = self.memarr(st, c, z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), s)))
                row = z3.Select(a, p.base)
                st.mem[c] = z3.Store(a, p.base, z3.Store(row, p.idx if p.idx is not None else IV(0), self.unwrap(v, ty, s, c)))
                return
            if p.idx is not None and not (is_ic(simp(p.idx)) and simp(p.idx).as_long() == 0):
                raise Unsupported('indexed access to object class %s' % p.root)
            a = self.memarr(st, c, z3.ArraySort(z3.IntSort(), s))
            self.nullcheck(st, p)
            st.mem[c] = z3.Store(a, p.base, self.unwrap(v, ty, s, c))
            return
        raise Unsupported('store via %r' % p)

    # locals: {off: (size, value)}
    def load_local(self, st, p, ty):
        cells = st.al.get(p.base)
        if cells is None:
            raise Unsupported('dead local %s' % p.base)
        off, size = p.off, ty.size
        if p.idx is not None:
            raise Unsupported('indexed local %s' % p.base)
        c = cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            return self.coerce(st, v, ty)
        inside = sorted((o, s, v) for o, (s, v) in cells.items() if off <= o and o + s <= off + size) if True else []
        if inside and sum(s for o, s, v in inside) >= 1 and ty.kind == 'int' and c is not None:
            # fill gaps (padding) with fresh
            cs = [(o - off, s, v) for o, s, v in inside]
            return Pack(cs, size)
        for o, (s, v) in cells.items():
            if o <= off and off + size <= o + s and ty.kind == 'int':
                if isinstance(v, Pack):
                    for (oo, ss, vv) in v.cells:
                        if oo == off - o and ss == size:
                            return self.coerce(st, vv, ty)
                t = self.to_int(v, s * 8)
                sh = (off - o) * 8
                return simp((t / two(sh)) % two(ty.width))
        if c is None and not any(o < off + size and off < o + s for o, (s, v) in cells.items()):
            v = self.fresh_of(st, ty, 'uninit')
            cells[off] = (size, v)
            return v
        raise Unsupported('local load %s+%d size %d' % (p.base, off, size))

    def coerce(self, st, v, ty):
        if v is UNDEF:
            return self.fresh_of(st, ty, 'undef')
        if ty.kind == 'ptr' and isinstance(v, (PInt,)):
            return v.p
        if ty.kind == 'ptr' and isinstance(v, z3.ExprRef):
            return Ptr('h', self.to_int(v, 64))
        if ty.kind == 'int' and isinstance(v, Ptr):
            return PInt(v)
        if ty.kind == 'int' and ty.width == 8 and isinstance(v, z3.BoolRef):
            return z3.If(v, IV(1), IV(0))
        return v

    def store_local(self, st, p, v, ty):
        cells = st.al.get(p.base)
        if cells is None:
            raise Unsupported('dead local %s' % p.base)
        if p.idx is not None:
            raise Unsupported('indexed local %s' % p.base)
        off, size = p.off, ty.size
        c = cells.get(off)
        if c is not None and c[0] == size:
            pass
        else:
            for o in [o for o, (s, x) in cells.items() if o < off + size and off < o + s]:
                s, x = cells[o]
                if o >= off and o + s <= off + size:
                    del cells[o]
                elif isinstance(x, Pack):
                    del cells[o]
                    for (oo, ss, vv) in x.cells:
                        if not (o + oo < off + size and off < o + oo + ss):
                            cells[o + oo] = (ss, vv)
                else:
                    t = self.to_int(x, s * 8)
                    del cells[o]
                    if o < off:
                        cells[o] = (off - o, simp(t % two((off - o) * 8)))
                    if o + s > off + size:
                        cells[off + size] = (o + s - off - size, simp(t / two((off + size - o) * 8)))
        if isinstance(v, Pack):
            for (oo, ss, vv) in v.cells:
                cells[off + oo] = (ss, vv)
                self.note_write(st, ('a', p.base, off + oo))
            return
        cells[off] = (size, v)
        self.note_write(st, ('a', p.base, off))

    # containers
    def container(self, st, key):
        p = key.p
        if key.kind == 'vec':
            if p.kind == 'a':
                cells = st.al[p.base]
                c = cells.get(p.off)
                if c is None:
                    vv = VecVal(self.fresh('len'), {})
                    st.pc.append(vv.len >= 0)
                    cells[p.off] = (24, vv)
                    return vv
                if not isinstance(c[1], VecVal):
                    raise Unsupported('container at %r holds %r' % (p, c[1]))
                return c[1]
            if p.kind == 'h':
                cn = '%s+%d' % (p.root, p.off)
                la = self.memarr(st, cn + '.len', z3.ArraySort(z3.IntSort(), z3.IntSort()))
                ln = z3.Select(la, p.base)
                pre = cn + '.e'
                leaves = LeafMap(self, st, pre, p.base)
                lns = simp(ln)
                if not is_ic(lns):
                    st.pc.append(z3.And(lns >= 0, lns < two(48)))
                return VecVal(ln, leaves)
            raise Unsupported('container in container')
        if key.kind == 'arr':
            if p.kind == 'a':
                cells = st.al[p.base]
                c = cells.get(p.off)
                n = key.ety.count
                if c is None or not isinstance(c[1], VecVal):
                    vv = VecVal(IV(n), {})
                    cells[p.off] = (key.ety.size, vv)
                    return vv
                return c[1]
            if p.kind == 'h':
                return VecVal(IV(key.ety.count), LeafMap(self, st, '%s+%d.a' % (p.root, p.off), p.base))
        raise Unsupported('container %r' % key)

    def range_fact(self, st, a, ty):
        """memory cells of type iN hold values in [0,2^N)"""
        if a.sort().range() == z3.IntSort() and ty[0] == 'i':
            k = z3.Int('k!rg')
            st.qpc.append(z3.ForAll([k], z3.And(z3.Select(a, k) >= 0, z3.Select(a, k) < two(int(ty[1:]))), patterns=[z3.Select(a, k)]))
        elif a.sort().range() == z3.IntSort() and ty == 'ptr':
            k = z3.Int('k!rg')
            st.qpc.append(z3.ForAll([k], z3.Select(a, k) >= 0, patterns=[z3.Select(a, k)]))

    def named(self, st, a):
        """give a compound array a name, so that it can be a trigger"""
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return a
        if z3.is_select(a):
            return a
        b = self.fresh('arr', a.sort())
        st.pc.append(b == a)
        self.nameof[b.get_id()] = (b, a)
        return b

    def set_container(self, st, key, vv):
        p = key.p
        vv = VecVal(vv.len, {k: self.named(st, a) for k, a in vv.leaves.items()})
        if p.kind == 'a':
            st.al[p.base][p.off] = (24 if key.kind == 'vec' else key.ety.size, VecVal(vv.len, dict(vv.leaves)))
            self.note_write(st, ('a', p.base, p.off))
            return
        if p.kind == 'h':
            if key.kind == 'vec':
                cn = '%s+%d' % (p.root, p.off)
                n = cn + '.len'
                la = self.memarr(st, n, z3.ArraySort(z3.IntSort(), z3.IntSort()))
                cur = z3.Select(la, p.base)
                if not (vv.len is cur or vv.len.eq(cur)):
                    st.mem[n] = z3.Store(la, p.base, vv.len)
                    self.note_write(st, ('h', n))
                pre = cn + '.e'
            else:
                pre = '%s+%d.a' % (p.root, p.off)
            for (o, t), a in vv.leaves.items():
                n = '%s%d:%s' % (pre, o, t)
                ma = self.memarr(st, n, z3.ArraySort(z3.IntSort(), a.sort()))
                cur = z3.Select(ma, p.base)
                if a.eq(cur) or a.eq(simp(cur)):
                    continue
                st.mem[n] = z3.Store(ma, p.base, a)
                self.note_write(st, ('h', n))
            return
        raise Unsupported('container %r' % key)

    # ------------------------------------------------------------------ operands
    def val(self, st, o):
        k = o.kind
        fr = st.frames[-1]
        if k == 'inst':
            try:
                return fr.regs[o.v]
            except KeyError:
                raise Unsupported('use of undefined value')
        if k == 'arg':
            return fr.args[o.v]
        if k == 'int':
            if o.ty.width == 1:
                return z3.BoolVal(bool(o.v))
            return IV(o.v)
        if k == 'null':
            return Ptr('h', IV(0))
        if k == 'undef':
            if o.ty.kind == 'struct':
                return Agg([UNDEF] * len(o.ty.elems))
            return UNDEF
        if k == 'zero':
            return self.zero(o.ty)
        if k == 'fp':
            return z3.FPVal(o.v, z3.Float64() if o.ty.kind == 'double' else z3.Float32())
        if k == 'func':
            return Ptr('f', o.v)
        if k == 'global':
            return Ptr('h', self.gaddr(o.v))
        if k == 'cexpr':
            if o.v == 'gep':
                p = self.val(st, o.ops[0])
                return self.gep(st, o.src, p, [self.val(st, x) for x in o.ops[1:]])
            if o.v == 'ptrtoint':
                return PInt(self.val(st, o.ops[0]))
            if o.v == 'inttoptr':
                v = self.val(st, o.ops[0])
                return v.p if isinstance(v, PInt) else Ptr('h', v)
        if k == 'agg':
            return Agg([self.val(st, x) for x in o.ops])
        raise Unsupported('operand %s' % k)

    def zero(self, ty):
        if ty.kind == 'int':
            return z3.BoolVal(False) if ty.width == 1 else IV(0)
        if ty.kind == 'ptr':
            return Ptr('h', IV(0))
        if ty.kind == 'struct':
            return Agg([self.zero(e) for e in ty.elems])
        if ty.kind == 'double':
            return z3.FPVal(0.0, z3.Float64())
        raise Unsupported('zero of ' + ty.s)

    def sgn(self, st, v, w):
        v = self.to_int(v, w)
        if is_ic(v):
            x = v.as_long()
            return IV(x - two(w) if x >= two(w - 1) else x)
        if self.entails(st, v < two(w - 1)):
            return v
        return z3.If(v >= two(w - 1), v - two(w), v)

    def unsgn(self, st, t, w):
        """mathematical Int -> canonical unsigned iN"""
        ts = simp(t)
        if is_ic(ts):
            return IV(ts.as_long() % two(w))
        if self.entails(st, z3.And(ts >= 0, ts < two(w))):
            return ts
        if self.entails(st, z3.And(ts >= -two(w), ts < 2 * two(w))):
            if self.entails(st, ts >= 0):
                return z3.If(ts >= two(w), ts - two(w), ts)
            if self.entails(st, ts < two(w)):
                return z3.If(ts < 0, ts + two(w), ts)
            return z3.If(ts < 0, ts + two(w), z3.If(ts >= two(w), ts - two(w), ts))
        return ts % two(w)

    def gep(self, st, src, p, idx):
        if isinstance(p, PInt):
            p = p.p
        if p is UNDEF:
            raise Unsupported('gep of undef')
        if not isinstance(p, Ptr):
            raise Unsupported('gep of %r' % (p,))
        i0 = idx[0]
        i0 = self.signed_index(st, i0)
        zero0 = is_ic(i0) and i0.as_long() == 0
        if not zero0:
            size = src.size
            if src.kind == 'int' and src.width == 8 and is_ic(i0) and (p.kind != 'v' or p.off or p.root or p.stride not in (1, None)) and p.stride != 1 and not (p.kind == 'h' and p.root is None):
                p = p.mv(off=p.off + i0.as_long())
            elif p.kind == 'a':
                if is_ic(i0):
                    p = p.mv(off=p.off + size * i0.as_long())
                else:
                    raise Unsupported('variable index into local')
            else:
                if p.kind == 'h' and p.off != 0 and p.root is not None:
                    raise Unsupported('array step inside object %r by %s' % (p, src))
                if p.stride is not None and p.stride != size and p.idx is not None:
                    raise Unsupported('stride change %s -> %s' % (p.stride, size))
                if p.off != 0:
                    raise Unsupported('array step at element offset %r' % p)
                ni = i0 if p.idx is None else simp(p.idx + i0)
                p = p.mv(idx=ni, stride=size)
        ty = src
        if len(idx) > 1 and ty.kind == 'struct' and p.root is None:
            if ty.name:
                p = p.mv(root=ty.name)
        for ix in idx[1:]:
            ix = self.signed_index(st, ix)
            if ty.kind == 'struct':
                k = ix.as_long()
                p = p.mv(off=p.off + ty.offsets[k])
                ty = ty.elems[k]
            elif ty.kind == 'array':
                if ty.elem.kind in ('int', 'ptr', 'double') and p.kind in ('h', 'a'):
                    p = Ptr('v', CKey('arr', p, ty), idx=ix, stride=ty.elem.size)
                elif is_ic(ix):
                    p = p.mv(off=p.off + ty.elem.size * ix.as_long())
                else:
                    raise Unsupported('variable index into array of ' + ty.elem.s)
                ty = ty.elem
            else:
                raise Unsupported('gep into ' + ty.s)
        return p

    def signed_index(self, st, v):
        if isinstance(v, (PInt, Diff, Pack)):
            v = self.concretize(v)
            return v  # Diff is already a signed mathematical value
        if is_bv(v):
            w = v.size()
            v = self.to_int(v, w)
            return simp(self.sgn(st, v, w))
        if is_ic(v):
            x = v.as_long()
            # index operands are i32 or i64 constants
            if x >= two(63):
                x -= two(64)
            return IV(x)
        return simp(self.sgn(st, v, 64))

    # ------------------------------------------------------------------ run
    def run(self, spec):
        """verify one function against its contract; returns list of obligations"""
        self.spec = spec
        for attempt in range(60):
            self.obs = []
            self.restart = False
            self.fresh_n = 0
            self.stats.update(paths=0, returns=0, insts=0, throws=0, exits=0)
            self.explore(spec)
            if not self.restart:
                break
        else:
            raise Unsupported('loop modification sets do not stabilise')
        return self.obs

    def explore(self, spec):
        st = State()
        self.old = None
        F = spec.function(self)
        args = spec.setup(self, st, F)
        fr = self.new_frame(F, args, 'f', None)
        st.frames.append(fr)
        self.assume(st, spec.requires(self, st, args))
        self.old = st.snap()
        self.old.pc = list(st.pc)
        self.old.qpc = list(st.qpc)
        self.args = args
        self.pre_pc = st.pc + st.qpc
        wl = [st]
        self.pending, self.joinat = {}, {}
        while wl or self.pending:
            if not wl:
                # all paths wait at loops: join those that wait at the same one
                k = next(iter(self.pending))
                for s in self.join(self.pending.pop(k)):
                    wl.extend(self.loop_entry(s, *self.joinat[k]))
                continue
            s = wl.pop()
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('exploration time limit')
            out = self.steps(s)
            wl.extend(out)
            if self.stats['paths'] > self.maxpaths:
                raise Unsupported('too many paths')

    def new_frame(self, F, args, path, retinst):
        if F.decl:
            raise Unsupported('no body: ' + F.dem)
        fr = Frame()
        fr.fn, fr.block, fr.ip, fr.regs, fr.prev, fr.retinst, fr.path, fr.args = F, F.blocks[0], 0, {}, None, retinst, path, list(args)
        fr.loops = {}
        fr.names = None
        return fr

    def end(self, st, kind, val=None):
        self.stats['paths'] += 1
        if kind == 'return':
            self.stats['returns'] += 1
            r = self.spec.ensures(self, self.old, st, self.args, val)
            for t in r:
                self.oblige(st, t[0], t[1], hide=t[2] if len(t) > 2 else None)
        elif kind == 'throw':
            self.stats['throws'] += 1
            for label, f in self.spec.on_throw(self, self.old, st, self.args):
                self.oblige(st, label, f)
        elif kind == 'exit':
            self.stats['exits'] += 1
            for label, f in self.spec.on_exit(self, self.old, st, self.args):
                self.oblige(st, label, f)

    def steps(self, st):
        """run until the state forks or ends; returns successor states"""
        while True:
            fr = st.frames[-1]
            I = fr.block.insts[fr.ip]
            self.stats['insts'] += 1
            if self.stats['insts'] > 400000:
                raise Unsupported('instruction budget')
            try:
                r = self.step(st, fr, I)
            except Unsupported as e:
                if not getattr(e, 'located', False):
                    e.located = True
                    e.args = (e.args[0] + '  [in %s, block %d, %s %s]' % (fr.fn.dem[:120], fr.block.index, I.op, I.name),)
                raise
            if r is None:
                continue
            return r

    def set(self, st, I, v):
        fr = st.frames[-1]
        fr.regs[I.h] = v
        fr.ip += 1

    def goto(self, st, target):
        """enter a block: phi evaluation and loop cut points; returns list of states (possibly empty)"""
        fr = st.frames[-1]
        F = fr.fn
        src = fr.block
        # leave loops that do not contain the target
        loops = F.loops()
        for h in [h for h in fr.loops if target.index not in fr.loops[h]['body']]:
            del fr.loops[h]
        vals = [(ph, self.val(st, ph.inc[src.index])) for ph in target.phis]
        for ph, v in vals:
            fr.regs[ph.h] = v
        fr.prev = src
        fr.block = target
        fr.ip = len(target.phis)
        L = next((l for l in loops if l['header'] == target.index), None)
        if L is None:
            return [st]
        return self.loop_head(st, fr, L, target)

    def loop_key(self, fr, L):
        return (fr.path, fr.fn.name, L['index'])

    def loop_spec(self, fr, L):
        r = []
        for pat, idx, fn in self.loopspecs_for():
            if (idx is None or idx == L['index']) and re.search(pat, fr.fn.dem):
                r.append(fn)
        return r

    def loopspecs_for(self):
        return self.spec.loops

    def loop_head(self, st, fr, L, target):
        key = self.loop_key(fr, L)
        info = self.loopinfo.setdefault(key, dict(mods=set(), opaque=set()))
        specs = self.loop_spec(fr, L)
        if target.index in fr.loops:
            # back edge
            li = fr.loops[target.index]
            cx = LoopCx(self, st, li['entry'], fr.fn, target, L)
            self.check_shapes(st, li, info)
            for label, f, cand, hide in self.invariants(cx, key, specs, li):
                self.oblige(st, 'loop %s invariant preserved: %s' % (self.loopname(fr, L), label), f, cand=(key, label) if cand else None, kind='inv', hide=hide)
            v1 = self.variants(cx, specs)
            if v1 is not None and li.get('variant') is not None:
                self.oblige(st, 'loop %s variant decreases' % self.loopname(fr, L), z3.And(v1 < li['variant'], li['variant'] >= 0), kind='term')
            self.stats['paths'] += 1
            return []
        if self.opts.get('join'):
            k = tuple((f.path, f.fn.name, f.block.index, f.ip, tuple(sorted((h, id(li)) for h, li in f.loops.items()))) for f in st.frames)
            self.pending.setdefault(k, []).append(st)
            self.joinat[k] = (L, target)
            return []
        return self.loop_entry(st, L, target)

    def loop_entry(self, st, L, target):
        fr = st.frames[-1]
        key = self.loop_key(fr, L)
        info = self.loopinfo[key]
        specs = self.loop_spec(fr, L)
        if not specs and not self.spec.auto_loops:
            raise Unsupported('loop without invariant in ' + fr.fn.dem)
        for it in info['mods']:
            if it[0] == 'h':
                self.memarr(st, it[1], self.clssort[it[1]])
        entry = st.snap()
        li = dict(info=info, entry=entry, body=L['body'], aids=set(st.al), variant=None)
        cx = LoopCx(self, st, entry, fr.fn, target, L)
        for label, f, cand, hide in self.invariants(cx, key, specs, li):
            self.oblige(st, 'loop %s invariant initially: %s' % (self.loopname(fr, L), label), f, cand=(key, label) if cand else None, kind='inv', hide=hide)
        fr.loops[target.index] = li
        # havoc
        shapes = {}
        for it in sorted(info['mods'], key=repr):
            if it[0] == 'a':
                cells = st.al.get(it[1])
                if cells is None or it[2] not in cells:
                    continue
                size, v = cells[it[2]]
                if it in info['opaque']:
                    nv = self.fresh_ptr(st, 'lp')
                else:
                    nv = self.havoc_value(st, v, it, size)
                if nv is None:
                    del cells[it[2]]
                else:
                    cells[it[2]] = (size, nv)
                    shapes[it] = nv
            elif it[0] == 'h':
                a = st.mem.get(it[1])
                if a is not None:
                    st.mem[it[1]] = self.fresh('mem[%s]' % it[1], a.sort())
            elif it[0] == 'g':
                g = st.ghost.get(it[1])
                if isinstance(g, z3.ExprRef):
                    st.ghost[it[1]] = self.fresh('ghost_%s' % it[1], g.sort())
                elif g is not None:
                    raise Unsupported('ghost %s changed in loop' % it[1])
        for ph in target.phis:
            k = ('phi', ph.h)
            v = fr.regs[ph.h]
            nv = self.fresh_ptr(st, 'lp') if k in info['opaque'] else self.havoc_value(st, v, k, ph.ty.size)
            fr.regs[ph.h] = nv
            shapes[k] = nv
        li['shapes'] = shapes
        st.model = None
        cx = LoopCx(self, st, entry, fr.fn, target, L)
        for label, f, cand, hide in self.invariants(cx, key, specs, li):
            self.assume(st, f, label)
        li['variant'] = self.variants(cx, specs)
        return [st]

    # ------------------------------------------------------------------ joining paths
    def join(self, group):
        """one state that stands for every state of the group (they wait at the same place); those that cannot be joined stay apart"""
        out = []
        while group:
            best = [group[0]]
            for s in group[1:]:
                if all(self.joinable(b, s) for b in best):
                    best.append(s)
            group = [s for s in group if s not in best]
            out.append(self.join_all(best) if len(best) > 1 else best[0])
        return out

    def vkind(self, v):
        if isinstance(v, Ptr):
            return ('p', v.kind, v.root, v.off, v.stride, repr(v.base) if v.kind != 'h' else '', v.idx is None)
        if isinstance(v, VecVal):
            return 'v'
        if isinstance(v, z3.ExprRef):
            return v.sort().name()
        return ('o', repr(v))

    def jsame(self, a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and self.vkind(a) == self.vkind(b):
            ok = a.base.eq(b.base) if a.kind == 'h' else True
            return ok and (a.idx is None or a.idx.eq(b.idx)) and a.ep == b.ep
        return False

    def joinable(self, a, b):
        def fits(x, y):
            if x is None or y is None or x is UNDEF or y is UNDEF or self.jsame(x, y):
                return True
            kx, ky = self.vkind(x), self.vkind(y)
            return kx == ky and (kx == 'v' or isinstance(x, (z3.ExprRef, Ptr)))
        for k in set(a.al) & set(b.al):
            for o in set(a.al[k]) & set(b.al[k]):
                if a.al[k][o][0] != b.al[k][o][0] or not fits(a.al[k][o][1], b.al[k][o][1]):
                    return False
        for f, g in zip(a.frames, b.frames):
            for r in set(f.regs) & set(g.regs):
                if not fits(f.regs[r], g.regs[r]):
                    return False
        for k in set(a.ghost) & set(b.ghost):
            x, y = a.ghost[k], b.ghost[k]
            if k == 'inval' or x is y:
                continue
            if not (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.sort() == y.sort()) and x != y:
                return False
        return True

    def join_all(self, ss):
        n = len(ss)
        sel = [self.fresh('path', z3.BoolSort()) for _ in ss]
        r = ss[0].clone()
        pc, qpc = [], []
        for attr, dst in (('pc', pc), ('qpc', qpc)):
            ids = [{f.get_id() for f in getattr(s, attr)} for s in ss]
            common = set.intersection(*ids)
            seen = set()
            for s, b in zip(ss, sel):
                for f in getattr(s, attr):
                    i = f.get_id()
                    if i in common:
                        if i not in seen:
                            seen.add(i)
                            dst.append(f)
                    else:
                        g = z3.Implies(b, f)
                        dst.append(g)
                        if i in self.qlabel:
                            self.qlabel.setdefault(g.get_id(), (g, self.qlabel[i][1]))
        pc.append(z3.Or(*sel))
        pre = 0
        inv = [s.ghost.get('inval', ()) for s in ss]
        while all(len(x) > pre and x[pre] is inv[0][pre] for x in inv):
            pre += 1

        def ep(v):
            return v.mv(ep=min(v.ep, pre)) if isinstance(v, Ptr) and v.ep is not None else v

        def one(vals):
            """a value that is vals[i] on path i; on paths where it is not defined it may be anything"""
            d = [(i, v) for i, v in enumerate(vals) if v is not None and v is not UNDEF]
            if not d:
                return UNDEF
            v0 = d[0][1]
            if all(self.jsame(v0, v) for _, v in d):
                return ep(v0)
            if isinstance(v0, z3.ExprRef):
                j = self.fresh('join', v0.sort())
                for i, v in d:
                    pc.append(z3.Implies(sel[i], j == v))
                return j
            if isinstance(v0, Ptr):
                kw = {}
                if v0.kind == 'h':
                    kw['base'] = one([v.base if isinstance(v, Ptr) else None for v in vals])
                if v0.idx is not None:
                    kw['idx'] = one([v.idx if isinstance(v, Ptr) else None for v in vals])
                eps = [v.ep for _, v in d if v.ep is not None]
                return v0.mv(ep=min(eps + [pre]) if eps else None, **kw)
            if isinstance(v0, VecVal):
                ln = one([v.len if isinstance(v, VecVal) else None for v in vals])
                ks = {k for _, v in d for k in v.leaves}
                return VecVal(ln, {k: one([v.leaves.get(k) if isinstance(v, VecVal) else None for v in vals]) for k in ks})
            raise Unsupported('join of %r' % (v0,))
        for k in {k for s in ss for k in s.mem}:
            s0 = next(s for s in ss if k in s.mem)
            base = z3.Const('mem[%s]' % k, s0.mem[k].sort())
            r.mem[k] = one([s.mem.get(k, base) for s in ss])
        r.al = {}
        for k in {k for s in ss for k in s.al}:
            cells = {}
            for o in {o for s in ss for o in s.al.get(k, {})}:
                c = [s.al.get(k, {}).get(o) for s in ss]
                size = next(x[0] for x in c if x is not None)
                cells[o] = (size, one([x[1] if x is not None else None for x in c]))
            r.al[k] = cells
        for fi, f in enumerate(r.frames):
            for h in {h for s in ss for h in s.frames[fi].regs}:
                f.regs[h] = one([s.frames[fi].regs.get(h) for s in ss])
        for k in {k for s in ss for k in s.ghost}:
            if k == 'inval':
                continue
            vals = [s.ghost.get(k) for s in ss]
            v0 = next(v for v in vals if v is not None)
            r.ghost[k] = one(vals) if isinstance(v0, z3.ExprRef) and not (isinstance(k, tuple)) else v0
            if isinstance(k, tuple) and any(v is None for v in vals):
                del r.ghost[k]      # a fact already established on some paths only
        if any(inv):
            r.ghost['inval'] = inv[0][:pre] + tuple(x for l in inv for x in l[pre:])
        r.pc, r.qpc = pc, qpc
        r.trace = ['join of %d paths' % n] + list(ss[0].trace)
        r.model = None
        for s in ss:
            for x in s.notes:
                if x not in r.notes:
                    r.notes.append(x)
        self.stats['joined'] = self.stats.get('joined', 0) + n
        return r

    def loopname(self, fr, L):
        return '%s#%d' % (re.sub(r'\(.*', '', fr.fn.dem)[-60:], L['index'])

    def variants(self, cx, specs):
        for s in specs:
            v = getattr(s, 'variant', None)
            if v:
                return v(cx)
        return None

    def invariants(self, cx, key, specs, li):
        out = []
        for s in specs:
            for t in s(cx):
                if t is None:
                    continue
                label, f = t[0], t[1]
                cand = len(t) > 2 and t[2]
                if cand and (key, label) in self.dropped:
                    continue
                out.append((label, f, cand, t[3] if len(t) > 3 else None))
        if self.spec.auto_loops:
            for label, f in self.auto_invariants(cx, key, li):
                if (key, label) in self.dropped:
                    continue
                out.append((label, f, True, None))
        return out

    def auto_invariants(self, cx, key, li):
        """candidate invariants (Houdini): element pointers stay inside their container and move forward"""
        r = []
        info = li['info']
        for it in sorted(info['mods'], key=repr):
            if it[0] != 'a' or it in info['opaque']:
                continue
            cells = cx.st.al.get(it[1], {})
            e = cx.entry.al.get(it[1], {})
            if it[2] not in cells or it[2] not in e:
                continue
            v, v0 = cells[it[2]][1], e[it[2]][1]
            nm = '%s+%d' % (it[1], it[2])
            if isinstance(v, Ptr) and isinstance(v0, Ptr) and v.kind == 'v' and v0.kind == 'v':
                i, i0 = v.idx if v.idx is not None else IV(0), v0.idx if v0.idx is not None else IV(0)
                r.append(('auto fwd ' + nm, i >= i0))
                r.append(('auto bwd ' + nm, i <= i0))
                try:
                    ln = self.container(cx.st, v.base).len
                    r.append(('auto le len ' + nm, i <= ln))
                    r.append(('auto ge0 ' + nm, i >= 0))
                except Unsupported:
                    pass
            elif is_i(v) and is_i(v0):
                r.append(('auto fwd ' + nm, v >= v0))
                r.append(('auto bwd ' + nm, v <= v0))
                if cells[it[2]][0] == 1:
                    r.append(('auto bool ' + nm, z3.And(v >= 0, v <= 1)))
        return r

    def havoc_value(self, st, v, it, size):
        if v is UNDEF:
            return None
        if isinstance(v, Ptr):
            if v.kind == 'h' and v.idx is None and v.off == 0:
                return Ptr('h', self.fresh_ptr(st, 'lp').base, root=v.root)
            if v.kind in ('v', 'h'):
                i = self.fresh('li')
                return v.mv(idx=i)
            return v
        if isinstance(v, VecVal):
            n = VecVal(self.fresh('len'), {k: self.fresh('lv', a.sort()) for k, a in v.leaves.items()})
            st.pc.append(n.len >= 0)
            for k, a in n.leaves.items():
                self.range_fact(st, a, k[1])
            return n
        if isinstance(v, (PInt, Pack)):
            return None
        if isinstance(v, Diff):
            return Diff(self.fresh('ld'), v.stride)
        if z3.is_bool(v):
            return self.fresh('lb', z3.BoolSort())
        if is_i(v):
            n = self.fresh('l')
            w = 64 if isinstance(size, int) and size >= 8 else (size or 8) * 8
            st.pc.append(z3.And(n >= 0, n < two(w)))
            return n
        if isinstance(v, z3.ExprRef):
            return self.fresh('l', v.sort())
        raise Unsupported('havoc %r' % (v,))

    def check_shapes(self, st, li, info):
        fr = st.frames[-1]
        for it, nv in li.get('shapes', {}).items():
            cur = fr.regs.get(it[1]) if it[0] == 'phi' else (st.al.get(it[1], {}).get(it[2], (0, None))[1])
            if isinstance(nv, Ptr) and it not in info['opaque']:
                ok = isinstance(cur, Ptr) and cur.kind == nv.kind
                if ok and nv.kind == 'v':
                    ok = cur.base.same(nv.base) and cur.off == nv.off
                elif ok and nv.kind == 'h':
                    if nv.idx is None:
                        ok = cur.idx is None and cur.off == 0
                    else:
                        ok = simp(cur.base).eq(simp(nv.base)) and cur.off == nv.off
                elif ok and nv.kind == 'a':
                    ok = cur.base == nv.base and cur.off == nv.off
                if not ok:
                    if isinstance(cur, Ptr) and cur.kind in ('v', 'a'):
                        raise Unsupported('pointer variable changes container in loop')
                    info['opaque'].add(it)
                    self.restart = True

    # ------------------------------------------------------------------ instructions
    def branch(self, st, cond, tb, fb):
        c = simp(cond)
        if z3.is_true(c):
            return self.goto(st, tb)
        if z3.is_false(c):
            return self.goto(st, fb)
        out = []
        t_ok = self.feasible(st, c)
        f_ok = self.feasible(st, z3.Not(c)) if t_ok else True
        if t_ok and f_ok:
            s2 = st.clone()
            s2.pc.append(c)
            st.pc.append(simp(z3.Not(c)))
            out += self.goto(s2, tb)
            out += self.goto(st, fb)
        elif t_ok:
            out += self.goto(st, tb)
        else:
            out += self.goto(st, fb)
        return out

    def one(self, r):
        return r

    def step(self, st, fr, I):
        op = I.op
        if op == 'alloca':
            aid = fr.path + '/' + (I.name or 'a%d' % fr.block.insts.index(I))
            st.al[aid] = {}
            self.set(st, I, Ptr('a', aid, root=I.src.name if I.src.kind == 'struct' else None))
            return None
        if op == 'load':
            p = self.val(st, I.ops[0])
            self.set(st, I, self.load(st, p, I.ty))
            return None
        if op == 'store':
            v, p = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            self.store(st, p, v, I.ops[0].ty)
            fr.ip += 1
            return None
        if op == 'gep':
            p = self.val(st, I.ops[0])
            self.set(st, I, self.gep(st, I.src, p, [self.val(st, o) for o in I.ops[1:]]))
            return None
        if op == 'br':
            if len(I.succ) == 1:
                r = self.goto(st, I.succ[0])
                return r if (len(r) != 1) else None
            c = self.val(st, I.ops[0])
            if c is UNDEF:
                c = self.fresh('undef', z3.BoolSort())
            # LLVM successor order: true, false
            r = self.branch(st, c, I.succ[0], I.succ[1])
            return r if not (len(r) == 1 and r[0] is st) else None
        if op == 'switch':
            v = self.val(st, I.ops[0])
            w = I.ops[0].ty.width
            out = []
            rest = []
            for cv, blk in I.cases:
                c = self.eqint(v, IV(cv), w)
                cs = simp(c)
                if z3.is_false(cs):
                    continue
                s2 = st.clone()
                for x in rest:
                    s2.pc.append(x)
                if z3.is_true(cs) or self.feasible(s2, cs):
                    if not z3.is_true(cs):
                        s2.pc.append(cs)
                    out += self.goto(s2, blk)
                if z3.is_true(cs):
                    return out
                rest.append(simp(z3.Not(cs)))
            for x in rest:
                st.pc.append(x)
            if self.feasible(st, z3.BoolVal(True)) and self._sat(st, [])[0] is not False:
                out += self.goto(st, I.succ[0])
            return out
        if op == 'ret':
            v = self.val(st, I.ops[0]) if I.ops else None
            return self.do_return(st, fr, v)
        if op in ('call', 'invoke'):
            return self.call(st, fr, I)
        if op == 'unreachable':
            self.stats['paths'] += 1
            return []
        if op == 'icmp':
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            self.set(st, I, self.icmp(st, I.pred, a, b, I.ops[0].ty))
            return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            self.set(st, I, self.arith(st, op, a, b, I.ty.width, I.flags))
            return None
        if op in ('zext', 'sext', 'trunc'):
            v = self.val(st, I.ops[0])
            self.set(st, I, self.cast(st, op, v, I.ops[0].ty.width, I.ty.width))
            return None
        if op == 'select':
            c, a, b = (self.val(st, o) for o in I.ops)
            m = self.merge(c, a, b, I.ty)
            if m is not None:
                self.set(st, I, m)
                return None
            out = []
            for cond, v in ((c, a), (z3.Not(c), b)):
                if self.feasible(st, cond):
                    s2 = st.clone()
                    s2.pc.append(cond)
                    s2.frames[-1].regs[I.h] = v
                    s2.frames[-1].ip += 1
                    out.append(s2)
            return out
        if op == 'ptrtoint':
            self.set(st, I, PInt(self.val(st, I.ops[0])))
            return None
        if op == 'inttoptr':
            v = self.val(st, I.ops[0])
            self.set(st, I, v.p if isinstance(v, PInt) else Ptr('h', self.to_int(v, 64)))
            return None
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            v = self.val(st, I.ops[0])
            if op == 'bitcast' and I.ops[0].ty.kind != I.ty.kind:
                v = self.bitcast(v, I.ops[0].ty, I.ty)
            self.set(st, I, v)
            return None
        if op == 'extractvalue':
            v = self.val(st, I.ops[0])
            for k in I.idx:
                v = v.v[k]
            self.set(st, I, v)
            return None
        if op == 'insertvalue':
            a, v = self.val(st, I.ops[0]), self.val(st, I.ops[1])
            if a is UNDEF:
                a = Agg([UNDEF] * len(I.ty.elems))

            def ins(a, path):
                n = Agg(a.v)
                if len(path) == 1:
                    n.v[path[0]] = v
                else:
                    n.v[path[0]] = ins(a.v[path[0]], path[1:])
                return n
            self.set(st, I, ins(a, I.idx))
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            self.set(st, I, self.fp(st, I, [self.val(st, o) for o in I.ops]))
            return None
        if op == 'landingpad' or op == 'resume':
            raise Unsupported('exception path')
        if op == 'fence':
            fr.ip += 1
            return None
        raise Unsupported('instruction ' + op)

    def bitcast(self, v, a, b):
        if a.kind == 'double' and b.kind == 'int':
            return z3.fpToIEEEBV(v)
        if a.kind == 'int' and b.kind == 'double':
            return z3.fpBVToFP(self.to_bv(v, 64), z3.Float64())
        raise Unsupported('bitcast')

    def merge(self, c, a, b, ty):
        cs = simp(c)
        if z3.is_true(cs):
            return a
        if z3.is_false(cs):
            return b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.kind != b.kind:
                return None
            if a.kind == 'h':
                if a.idx is None and b.idx is None and a.off == b.off and (a.root == b.root or a.root is None or b.root is None) and not (a.off and a.root != b.root):
                    return Ptr('h', z3.If(c, a.base, b.base), off=a.off, root=a.root or b.root)
                if a.base.eq(b.base) and a.off == b.off:
                    return a.mv(idx=z3.If(c, a.idx if a.idx is not None else IV(0), b.idx if b.idx is not None else IV(0)), stride=a.stride or b.stride)
                return None
            if a.kind == 'v' and a.base.same(b.base) and a.off == b.off:
                return a.mv(idx=z3.If(c, a.idx if a.idx is not None else IV(0), b.idx if b.idx is not None else IV(0)), stride=a.stride or b.stride)
            return None
        if isinstance(a, (Agg, PInt, Diff, Pack)) or isinstance(b, (Agg, PInt, Diff, Pack)) or a is UNDEF or b is UNDEF:
            return None
        if a.sort() != b.sort():
            if ty.kind == 'int':
                if is_bv(a) or is_bv(b):
                    if (is_ic(a) or is_bv(a)) and (is_ic(b) or is_bv(b)):
                        a, b = self.to_bv(a, ty.width), self.to_bv(b, ty.width)
                    else:
                        a, b = self.to_int(a, ty.width), self.to_int(b, ty.width)
        return z3.If(c, a, b)

    def do_return(self, st, fr, v):
        if len(st.frames) == 1:
            self.end(st, 'return', v)
            return []
        I = fr.retinst
        # drop callee's locals that cannot be referenced any more
        pre = fr.path + '/'
        st.frames.pop()
        for a in [a for a in st.al if a.startswith(pre)]:
            if not self.opts.get('keep_locals'):
                del st.al[a]
        caller = st.frames[-1]
        if I.ty.kind != 'void':
            caller.regs[I.h] = v
        caller.ip += 1
        if I.op == 'invoke':
            r = self.goto(st, I.succ[0])
            return r if not (len(r) == 1 and r[0] is st) else None
        return None

    def eqint(self, a, b, w):
        if w == 1:
            return a == b
        if isinstance(a, Pack) or isinstance(b, Pack):
            a, b = self.concretize(a), self.concretize(b)
        if is_bv(a) or is_bv(b):
            if (is_bv(a) or is_ic(a)) and (is_bv(b) or is_ic(b)):
                return self.to_bv(a, w) == self.to_bv(b, w)
        return self.to_int(a, w) == self.to_int(b, w)

    def peq(self, st, a, b):
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p

        def isnull(p):
            return isinstance(p, Ptr) and p.kind == 'h' and is_ic(p.base) and p.base.as_long() == 0 and p.idx is None
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer comparison %r %r' % (a, b))
        if a.kind == 'f' and b.kind == 'f':
            return z3.BoolVal(a.base is b.base)
        if isnull(b):
            a, b = b, a
        if isnull(a):
            if isnull(b):
                return z3.BoolVal(True)
            if b.kind in ('a', 'f'):
                return z3.BoolVal(False)
            if b.kind == 'h':
                if b.idx is None and b.off == 0:
                    return b.base == 0
                return z3.BoolVal(False)
            if b.kind == 'v' and b.base.kind == 'arr':
                return z3.BoolVal(False)
            raise Unsupported('null comparison of container element')
        if a.kind == 'a' or b.kind == 'a':
            if a.kind == b.kind:
                return z3.BoolVal(a.base == b.base and a.off == b.off)
            return z3.BoolVal(False)
        if a.kind == 'v' and b.kind == 'v':
            ia = a.idx if a.idx is not None else IV(0)
            ib = b.idx if b.idx is not None else IV(0)
            if a.base.same(b.base):
                if a.off != b.off:
                    return z3.BoolVal(False)
                return ia == ib
            raise Unsupported('comparison of iterators of different containers %r %r' % (a, b))
        if a.kind == 'h' and b.kind == 'h':
            if a.idx is None and b.idx is None:
                if a.off == b.off:
                    return a.base == b.base
                return self.addr_term(a) == self.addr_term(b)
            ia = a.idx if a.idx is not None else IV(0)
            ib = b.idx if b.idx is not None else IV(0)
            if a.base.eq(b.base) and a.off == b.off:
                return ia == ib
            raise Unsupported('comparison of raw pointers')
        raise Unsupported('pointer comparison %r %r' % (a, b))

    def icmp(self, st, pred, a, b, ty):
        if ty.kind == 'ptr' or isinstance(a, PInt) and isinstance(b, PInt):
            if a is UNDEF or b is UNDEF:
                return self.fresh('undef', z3.BoolSort())
            if pred == 'eq':
                return self.peq(st, a, b)
            if pred == 'ne':
                return z3.Not(self.peq(st, a, b))
            pa = a.p if isinstance(a, PInt) else a
            pb = b.p if isinstance(b, PInt) else b
            if pa.kind == pb.kind and (pa.kind == 'v' and pa.base.same(pb.base) or pa.kind == 'h' and pa.base.eq(pb.base)) and pa.off == pb.off:
                x = pa.idx if pa.idx is not None else IV(0)
                y = pb.idx if pb.idx is not None else IV(0)
            elif pa.kind == 'h' and pb.kind == 'h' and pa.idx is None and pb.idx is None:
                x, y = self.addr_term(pa), self.addr_term(pb)
            else:
                raise Unsupported('relational comparison of unrelated pointers')
            return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        w = ty.width
        if a is UNDEF or b is UNDEF:
            return self.fresh('undef', z3.BoolSort())
        if w == 1:
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return a != b
            ia, ib = z3.If(a, IV(1), IV(0)), z3.If(b, IV(1), IV(0))
            return {'ult': ia < ib, 'ule': ia <= ib, 'ugt': ia > ib, 'uge': ia >= ib}[pred]
        # Diff against constant/diff: signed mathematical value
        if isinstance(a, Diff) or isinstance(b, Diff):
            x = self.concretize(a) if isinstance(a, Diff) else self.sgn(st, a, w)
            y = self.concretize(b) if isinstance(b, Diff) else self.sgn(st, b, w)
            if pred in ('ult', 'ule', 'ugt', 'uge'):
                x, y = self.unsgn(st, x, w), self.unsgn(st, y, w)
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            return {'eq': x == y, 'ne': x != y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        a, b = self.concretize(a), self.concretize(b)
        if pred == 'eq':
            return self.eqint(a, b, w)
        if pred == 'ne':
            return z3.Not(self.eqint(a, b, w))
        if (is_bv(a) or is_ic(a)) and (is_bv(b) or is_ic(b)) and (is_bv(a) or is_bv(b)):
            x, y = self.to_bv(a, w), self.to_bv(b, w)
            return {'ult': z3.ULT(x, y), 'ule': z3.ULE(x, y), 'ugt': z3.UGT(x, y), 'uge': z3.UGE(x, y),
                    'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
        if pred[0] == 's':
            x, y = self.sgn(st, a, w), self.sgn(st, b, w)
        else:
            x, y = self.to_int(a, w), self.to_int(b, w)
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]

    def cast(self, st, op, v, w1, w2):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, (PInt, Diff, Pack)):
            if op == 'trunc' and isinstance(v, Pack):
                for (oo, ss, vv) in v.cells:
                    if oo == 0 and ss * 8 == w2:
                        return vv
            if op == 'trunc' and isinstance(v, Diff):
                v = self.unsgn(st, self.concretize(v), w1)
            else:
                v = self.concretize(v)
        if op == 'zext':
            if w1 == 1:
                if self.opts.get('intrep') == 'bv':
                    return z3.If(v, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
                return z3.If(v, IV(1), IV(0))
            if is_bv(v):
                return z3.ZeroExt(w2 - w1, v)
            return v
        if op == 'sext':
            if w1 == 1:
                return z3.If(v, IV(two(w2) - 1), IV(0))
            if is_bv(v):
                return z3.SignExt(w2 - w1, v)
            if self.entails(st, v < two(w1 - 1)):
                return v
            return simp(z3.If(v >= two(w1 - 1), v + (two(w2) - two(w1)), v))
        # trunc
        if w2 == 1:
            if is_bv(v):
                return z3.Extract(0, 0, v) == 1
            v = simp(v)
            # bool stored as 0/1 byte
            if v.decl().kind() == z3.Z3_OP_ITE and is_ic(v.arg(1)) and is_ic(v.arg(2)) and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
                return v.arg(0)
            if self.opts.get('bool01', True):
                # C++ bool objects hold 0 or 1 (assumption listed in the trusted base)
                return v == 1 if self.is_boolload(v) else simp(v % 2 == 1)
            return simp(v % 2 == 1)
        if is_bv(v):
            return z3.Extract(w2 - 1, 0, v)
        if is_ic(v):
            return IV(v.as_long() % two(w2))
        if self.entails(st, v < two(w2)):
            return v
        return simp(v % two(w2))

    def is_boolload(self, v):
        return True

    def arith(self, st, op, a, b, w, flags):
        if a is UNDEF or b is UNDEF:
            return self.fresh_int(st, w, 'undef')
        if w == 1:
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(a, b))
            raise Unsupported('i1 ' + op)
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            pa, pb = a.p, b.p
            if pa.kind == pb.kind and pa.off == pb.off and (pa.kind == 'v' and pa.base.same(pb.base) or pa.kind == 'h' and pa.base.eq(pb.base)):
                s = pa.stride or pb.stride or self.opts.get('default_stride')
                x = pa.idx if pa.idx is not None else IV(0)
                y = pb.idx if pb.idx is not None else IV(0)
                if s is None:
                    d = simp(x - y)
                    if is_ic(d) and d.as_long() == 0:
                        return IV(0)
                    return Diff(d, None)
                return Diff(simp(x - y), s)
            raise Unsupported('difference of unrelated pointers %r %r' % (pa, pb))
        if isinstance(a, Diff) and op in ('sdiv', 'ashr', 'udiv', 'lshr') and is_ic(b):
            k = b.as_long() if op in ('sdiv', 'udiv') else 1 << b.as_long()
            if a.stride is None or a.stride == k:
                return self.unsgn(st, a.d, w)
            if a.stride % k == 0 and (flags & 4 or op == 'sdiv'):
                return self.unsgn(st, a.d * (a.stride // k), w)
            if k % a.stride == 0:
                return self.unsgn(st, a.d / (k // a.stride), w)
        a, b = self.concretize_u(st, a, w), self.concretize_u(st, b, w)
        ca, cb = (a.as_long() if is_ic(a) or z3.is_bv_value(a) else None), (b.as_long() if is_ic(b) or z3.is_bv_value(b) else None)
        if ca is not None and cb is not None:
            return IV(self.fold(op, ca, cb, w)) if not (is_bv(a) or is_bv(b)) else z3.BitVecVal(self.fold(op, ca, cb, w), w)
        usebv = (is_bv(a) or is_bv(b)) and (is_bv(a) or ca is not None) and (is_bv(b) or cb is not None)
        if w == 8 and self.opts.get('bits8') and not is_bv(a) and not is_bv(b):
            x, y = self.bits8(a, st), self.bits8(b, st)
            if op == 'and':
                return self.of_bits8([IV(0) if is_ic(p) and p.as_long() == 0 or is_ic(q) and q.as_long() == 0 else q if is_ic(p) else p if is_ic(q) else p * q for p, q in zip(x, y)])
            if op == 'or' and all(is_ic(p) and p.as_long() == 0 or is_ic(q) and q.as_long() == 0 for p, q in zip(x, y)):
                return self.of_bits8([q if is_ic(p) and p.as_long() == 0 else p for p, q in zip(x, y)])
            if op == 'shl' and cb is not None and cb < 8:
                return self.of_bits8([IV(0)] * cb + x[:8 - cb])
            if op == 'lshr' and cb is not None and cb < 8:
                return self.of_bits8(x[cb:] + [IV(0)] * cb)
        if op == 'and' and self.opts.get('uand') and ca is None and cb is None and not is_bv(a) and not is_bv(b):
            # some function of both operands that is at most either
            r = UAND(a, b)
            self.assume(st, [r >= 0, r <= a, r <= b])
            return r
        if op in ('and', 'or', 'xor') and not usebv:
            if ca is not None:
                a, b, ca, cb = b, a, cb, ca
            if cb is None and op in ('or', 'xor') and not is_bv(a) and not is_bv(b):
                # disjoint bits: one operand a multiple of 2^k, the other below 2^k
                for x, y in ((a, b), (b, a)):
                    k = self.pow2factor(x)
                    if k > 1 and self.entails(st, z3.And(y >= 0, y < k)):
                        return simp(x + y)
            if cb is not None:
                if op == 'and':
                    if cb == 0:
                        return IV(0)
                    if (cb & (cb + 1)) == 0:
                        k = cb + 1
                        if k == two(w) or self.entails(st, a < k):
                            return a
                        return simp(a % k)
                    if (cb & (cb - 1)) == 0:
                        # single bit
                        return z3.If((a / cb) % 2 == 1, IV(cb), IV(0))
                    inv = (two(w) - 1) ^ cb
                    if (inv & (inv + 1)) == 0:
                        k = inv + 1
                        return simp(a - a % k)
                    if (inv & (inv - 1)) == 0:
                        return simp(z3.If((a / inv) % 2 == 1, a - inv, a))
                if op == 'or':
                    if cb == 0:
                        return a
                    if (cb & (cb - 1)) == 0:
                        return simp(z3.If((a / cb) % 2 == 1, a, a + cb))
                if op == 'xor':
                    if cb == 0:
                        return a
                    if cb == two(w) - 1:
                        return simp(two(w) - 1 - a)
            usebv = True
        if usebv or op in ('shl', 'lshr', 'ashr') and cb is None:
            x, y = self.to_bv(a, w), self.to_bv(b, w)
            return simp({'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                         'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
                         'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]())
        a, b = self.to_int(a, w), self.to_int(b, w)
        if op == 'add':
            if cb is not None and cb >= two(w - 1):
                # adding a negative constant
                return self.unsgn(st, a - (two(w) - cb), w)
            return self.unsgn(st, a + b, w)
        if op == 'sub':
            return self.unsgn(st, a - b, w)
        if op == 'mul':
            if cb is None and ca is None:
                t = a * b
            else:
                t = a * b
            if self.entails(st, t < two(w)):
                return simp(t)
            return simp(t % two(w))
        if op == 'shl':
            t = a * (1 << cb)
            if self.entails(st, t < two(w)):
                return simp(t)
            return simp(t % two(w))
        if op == 'lshr':
            return simp(a / (1 << cb))
        if op == 'udiv':
            return simp(a / b)
        if op == 'urem':
            return simp(a % b)
        if op in ('sdiv', 'srem', 'ashr'):
            x, y = self.sgn(st, a, w), (self.sgn(st, b, w) if op != 'ashr' else IV(1 << cb))
            if op == 'ashr':
                return self.unsgn(st, x / y, w)
            if self.entails(st, z3.And(x >= 0, y > 0)):
                return simp(x / y if op == 'sdiv' else x % y)
            ax, ay = z3.If(x < 0, -x, x), z3.If(y < 0, -y, y)
            q = ax / ay
            r = ax % ay
            if op == 'sdiv':
                return self.unsgn(st, z3.If((x < 0) == (y < 0), q, -q), w)
            return self.unsgn(st, z3.If(x < 0, -r, r), w)
        raise Unsupported(op)

    def bits8(self, t, st=None):
        """the eight bits of a byte, as terms that are 0 or 1"""
        c = self._b8.get(t.get_id())
        if c is not None:
            return list(c[1])
        if is_ic(t):
            return [IV(t.as_long() >> i & 1) for i in range(8)]
        if z3.is_app_of(t, z3.Z3_OP_MOD) and is_ic(t.arg(1)) and t.arg(1).as_long() in (2, 4, 8, 16, 32, 64, 128):
            x = self.bits8(t.arg(0), st)
            n = t.arg(1).as_long().bit_length() - 1
            return x[:n] + [IV(0)] * (8 - n)
        if st is not None and self.entails(st, t < 2):
            return [t] + [IV(0)] * 7
        return [(t / 2 ** i) % 2 for i in range(8)]

    def of_bits8(self, b):
        t = simp(z3.Sum([x * 2 ** i for i, x in enumerate(b)]))
        self._b8[t.get_id()] = (t, b)
        return t

    def pow2factor(self, x):
        """a power of two that divides the integer term x, from its shape"""
        if is_ic(x):
            n = x.as_long()
            return n & -n if n else 1 << 64
        k = x.decl().kind()
        if k == z3.Z3_OP_MUL:
            r = 1
            for c in x.children():
                r *= self.pow2factor(c)
            return r
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            return min(self.pow2factor(c) for c in x.children())
        if k == z3.Z3_OP_ITE:
            return min(self.pow2factor(x.arg(1)), self.pow2factor(x.arg(2)))
        if k == z3.Z3_OP_MOD and is_ic(x.arg(1)):
            return min(self.pow2factor(x.arg(0)), self.pow2factor(x.arg(1)))
        return 1

    def concretize_u(self, st, v, w):
        if isinstance(v, Diff):
            return self.unsgn(st, self.concretize(v), w)
        return self.concretize(v)

    def fold(self, op, a, b, w):
        M = two(w)

        def s(x):
            return x - M if x >= M // 2 else x
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = a >> b
        elif op == 'ashr':
            r = s(a) >> b
        elif op == 'udiv':
            r = a // b
        elif op == 'urem':
            r = a % b
        elif op == 'sdiv':
            q = abs(s(a)) // abs(s(b))
            r = q if (s(a) < 0) == (s(b) < 0) else -q
        elif op == 'srem':
            q = abs(s(a)) % abs(s(b))
            r = -q if s(a) < 0 else q
        return r % M

    def fp(self, st, I, v):
        op = I.op
        rm = z3.RNE()
        v = [self.fresh_of(st, o.ty) if x is UNDEF else x for x, o in zip(v, I.ops)]
        if op == 'fcmp':
            a, b = v
            nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            p = I.pred
            base = {'eq': lambda: z3.fpEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b), 'lt': lambda: z3.fpLT(a, b),
                    'le': lambda: z3.fpLEQ(a, b), 'ne': lambda: z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))}
            if p == 'ord':
                return z3.Not(nan)
            if p == 'uno':
                return nan
            t = base[p[1:]]()
            return t if p[0] == 'o' else z3.Or(nan, t)
        uf = self.opts.get('fpuf')
        if uf and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return self.uf('fp_' + op, z3.Float64(), *v)
        if op == 'fadd':
            return z3.fpAdd(rm, *v)
        if op == 'fsub':
            return z3.fpSub(rm, *v)
        if op == 'fmul':
            return z3.fpMul(rm, *v)
        if op == 'fdiv':
            return z3.fpDiv(rm, *v)
        if op == 'fneg':
            return z3.fpNeg(v[0])
        if op in ('sitofp', 'uitofp'):
            w = I.ops[0].ty.width
            if self.opts.get('intrep') == 'bv' or is_bv(v[0]):
                b = self.to_bv(v[0], w)
                return z3.fpSignedToFP(rm, b, z3.Float64()) if op == 'sitofp' else z3.fpUnsignedToFP(rm, b, z3.Float64())
            return self.uf('%s_%d' % (op, w), z3.Float64(), self.to_int(v[0], w))
        if op in ('fptosi', 'fptoui'):
            w = I.ty.width
            if self.opts.get('intrep') == 'bv':
                return z3.fpToSBV(z3.RTZ(), v[0], z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v[0], z3.BitVecSort(w))
            r = self.uf('%s_%d' % (op, w), z3.IntSort(), v[0])
            st.pc.append(z3.And(r >= 0, r < two(w)))
            return r
        raise Unsupported(op)

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, I):
        c = I.callee
        if c.kind == 'asm':
            raise Unsupported('inline asm')
        if c.kind != 'func':
            fp = self.val(st, c)
            if isinstance(fp, Ptr) and fp.kind == 'f':
                F = fp.base
            else:
                h = self.opts.get('indirect')
                if h:
                    return self.finish_call(st, I, h(self, st, I, fp, [self.val(st, a) for a in I.args]))
                raise Unsupported('indirect call')
        else:
            F = c.v
        name = F.name
        if name.startswith('llvm.'):
            return self.intrinsic(st, I, name)
        args = [self.val(st, a) if a.kind != 'meta' else None for a in I.args]
        h = self.lookup(F)
        if h is not None:
            self.used_contracts[F.dem] = getattr(h, 'cname', getattr(h, '__name__', str(h)))
            r = h(self, st, CallInfo(self, st, I, F, args))
            if r is not stepin():
                return self.finish_call(st, I, r)
        if F.decl:
            raise Unsupported('no contract for external function ' + F.dem)
        depth = sum(1 for f in st.frames if f.fn is F)
        if depth > 0:
            raise Unsupported('recursive call without contract: ' + F.dem)
        self.inlined[F.dem] = self.inlined.get(F.dem, 0) + 1
        bi = fr.block.insts.index(I)
        nf = self.new_frame(F, args, '%s.%d_%d' % (fr.path, fr.block.index, bi), I)
        # byval copies are not modelled separately: clang passes byval only for trivially copyable aggregates
        st.frames.append(nf)
        return None

    def finish_call(self, st, I, r):
        """r: single value/None, or list of (state, value) for forking contracts; 'exit'/'throw' outcomes as Outcome"""
        if isinstance(r, Outcome):
            self.end(st, r.kind)
            return []
        if isinstance(r, list):
            out = []
            for s, v in r:
                if isinstance(v, Outcome):
                    self.end(s, v.kind)
                    continue
                out += self._ret_to(s, I, v)
            return out
        x = self._ret_to(st, I, r)
        return x if not (len(x) == 1 and x[0] is st) else None

    def _ret_to(self, st, I, v):
        fr = st.frames[-1]
        if I.ty.kind != 'void':
            if v is None:
                v = self.fresh_of(st, I.ty, 'ret')
            fr.regs[I.h] = v
        fr.ip += 1
        if I.op == 'invoke':
            return self.goto(st, I.succ[0])
        return [st]

    def lookup(self, F):
        if F.name in self._ccache:
            return self._ccache[F.name]
        h = None
        sp = self.spec.contracts if self.spec else ()
        for pat, fn in list(sp) + self.contracts:
            m = re.search(pat, F.dem)
            if m:
                h = fn
                break
        if self.spec and h is not None and getattr(h, 'fname', None) == F.name and h is self.spec.selfcontract:
            pass
        self._ccache[F.name] = h
        return h

    def intrinsic(self, st, I, name):
        fr = st.frames[-1]
        a = I.args
        if name.startswith(('llvm.lifetime.', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.prefetch')):
            fr.ip += 1
            return None
        if name.startswith('llvm.expect'):
            self.set(st, I, self.val(st, a[0]))
            return None
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, self.val(st, a[0]), self.val(st, a[1]), self.val(st, a[2]))
            fr.ip += 1
            return None
        if name.startswith('llvm.memset'):
            self.memset(st, self.val(st, a[0]), self.val(st, a[1]), self.val(st, a[2]))
            fr.ip += 1
            return None
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            x, y = self.val(st, a[0]), self.val(st, a[1])
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[m.group(1)]
            c = self.icmp(st, pred, x, y, I.ty)
            self.set(st, I, self.merge(c, x, y, I.ty))
            return None
        m = re.match(r'llvm\.(uadd|umul|usub)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(2))
            x, y = self.to_int(self.val(st, a[0]), w), self.to_int(self.val(st, a[1]), w)
            t = {'uadd': x + y, 'umul': x * y, 'usub': x - y}[m.group(1)]
            self.set(st, I, Agg([self.unsgn(st, t, w), z3.Or(t >= two(w), t < 0)]))
            return None
        m = re.match(r'llvm\.bswap\.i(\d+)', name)
        if m:
            w = int(m.group(1))
            x = self.to_bv(self.val(st, a[0]), w)
            self.set(st, I, z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, x) for k in range(w // 8)]))
            return None
        if name == 'llvm.trap' or name == 'llvm.ubsantrap':
            self.end(st, 'exit')
            return []
        if name.startswith('llvm.threadlocal.address'):
            self.set(st, I, self.val(st, a[0]))
            return None
        if name.startswith('llvm.fabs'):
            self.set(st, I, z3.fpAbs(self.val(st, a[0])))
            return None
        m = re.match(r'llvm\.(floor|ceil|trunc|round)\.f64', name)
        if m:
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}[m.group(1)]
            self.set(st, I, z3.fpRoundToIntegral(rm, self.val(st, a[0])))
            return None
        if name.startswith('llvm.stacksave'):
            self.set(st, I, Ptr('h', IV(0)))
            return None
        if name.startswith('llvm.is.constant'):
            self.set(st, I, z3.BoolVal(False))
            return None
        h = self.lookup(I.callee.v)
        if h is not None:
            return self.finish_call(st, I, h(self, st, CallInfo(self, st, I, I.callee.v, [self.val(st, x) if x.kind != 'meta' else None for x in a])))
        raise Unsupported('intrinsic ' + name)

    def memcpy(self, st, d, s, n):
        n = simp(self.to_int(n, 64))
        if not is_ic(n):
            raise Unsupported('memcpy of variable size')
        n = n.as_long()
        if n == 0:
            return
        ty = None
        lv = None
        for p in (d, s):
            if p.kind == 'v' and p.base.kind == 'arr' and p.base.ety.size == n and is_ic(p.idx) and p.idx.as_long() == 0:
                lv = 'arr'
        if lv == 'arr' and d.kind == 'v' and s.kind == 'v':
            vv = self.container(st, s.base)
            self.set_container(st, d.base, VecVal(vv.len, dict(vv.leaves.items())))
            return
        for p in (d, s):
            if p.root and p.kind in ('h', 'a', 'v'):
                t = self.mod.struct(p.root)
                if t is not None:
                    L = [(o - p.off, x) for o, x in self.scalar_leaves(t) if p.off <= o < p.off + n]
                    if L and sum(x.size for o, x in L) <= n:
                        lv = L
                        break
        if lv is None:
            if s.kind == 'a':
                cells = st.al[s.base]
                lv = []
                for o, (sz, v) in sorted(cells.items()):
                    if s.off <= o and o + sz <= s.off + n:
                        st.al[d.base][d.off + o - s.off] = (sz, v) if d.kind == 'a' else None
                        if d.kind != 'a':
                            raise Unsupported('untyped memcpy')
                        self.note_write(st, ('a', d.base, d.off + o - s.off))
                return
            if n in (1, 2, 4, 8):
                lv = [(0, self.T('i%d' % (8 * n)))]
        if lv is None or lv == 'arr':
            raise Unsupported('memcpy %r <- %r of %d' % (d, s, n))
        for o, x in lv:
            v = self.load(st, self.padd(s, o), x)
            self.store(st, self.padd(d, o), v, x)

    def padd(self, p, o):
        return p.mv(off=p.off + o)

    def memset(self, st, d, v, n):
        n = simp(self.to_int(n, 64))
        v = simp(self.to_int(v, 8))
        if not is_ic(n) or not is_ic(v):
            raise Unsupported('memset of variable size')
        n, v = n.as_long(), v.as_long()
        if d.kind == 'v' and d.base.kind == 'arr':
            e = d.base.ety.elem
            c = sum(v << (8 * k) for k in range(e.size))
            for k in range(n // e.size):
                self.store(st, d.mv(idx=simp((d.idx if d.idx is not None else IV(0)) + k)), IV(c) if e.kind == 'int' else Ptr('h', IV(c)), e)
            return
        if d.root:
            t = self.mod.struct(d.root)
            for o, x in self.scalar_leaves(t):
                if d.off <= o < d.off + n:
                    c = sum(v << (8 * k) for k in range(x.size))
                    self.store(st, d.mv(off=o), z3.FPVal(0.0, z3.Float64()) if x.kind == 'double' else (Ptr('h', IV(c)) if x.kind == 'ptr' else (z3.BoolVal(bool(c & 1)) if x.width == 1 else IV(c))), x)
            return
        if d.kind == 'a' and n <= 64:
            st.al[d.base][d.off] = (n, IV(sum(v << (8 * k) for k in range(n))))
            return
        raise Unsupported('memset')

    # ------------------------------------------------------------------ pure evaluation of small functions in specs
    def pure(self, st, F, args):
        """evaluate a loop-free side-effect-free function symbolically; returns one merged value"""
        s = st.clone()
        s.frames = [self.new_frame(F, args, 'pure%d' % self.fresh_n, None)]
        self.fresh_n += 1
        base = len(s.pc)
        res = []
        saved_end, saved_ob = self.end, self.obs
        saved_restart = self.restart
        self.obs = []

        def end(x, kind, val=None):
            if kind == 'return':
                res.append((x.pc[base:], val))
        self.end = end
        try:
            wl = [s]
            while wl:
                wl.extend(self.steps(wl.pop()))
        finally:
            self.end = saved_end
            self.obs = saved_ob
            self.restart = saved_restart
        if not res:
            raise Unsupported('pure function has no result')
        val = res[-1][1]
        facts = []
        for pcs, v in reversed(res[:-1]):
            val = z3.If(z3.And(*pcs) if pcs else z3.BoolVal(True), v, val)
        return val


class LeafMap(dict):
    """leaves of a heap container, fetched on demand from the class arrays"""

    def __init__(self, ex, st, pre, base):
        super().__init__()
        self.ex, self.st, self.pre, self.base = ex, st, pre, base
        for n, a in list(st.mem.items()):
            if n.startswith(pre):
                m = re.match(r'(\d+):(.*)$', n[len(pre):])
                if m:
                    dict.__setitem__(self, (int(m.group(1)), m.group(2)), simp(z3.Select(a, base)))

    def __contains__(self, k):
        self.fetch(k)
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        self.fetch(k)
        return dict.__getitem__(self, k)

    def fetch(self, k):
        if not dict.__contains__(self, k):
            n = '%s%d:%s' % (self.pre, k[0], k[1])
            s = self.ex.sortof(self.ex.T(k[1]) if k[1][0] == 'i' or k[1] in ('ptr', 'double', 'float') else None, n)
            a = self.ex.memarr(self.st, n, z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), s)))
            dict.__setitem__(self, k, simp(z3.Select(a, self.base)))


def stepin():
    import stdlib
    return stdlib.STEPIN


class Outcome:
    def __init__(self, kind):
        self.kind = kind


EXIT = Outcome('exit')
THROW = Outcome('throw')
STOP = Outcome('stop')


class CallInfo:
    def __init__(self, ex, st, inst, fn, args):
        self.ex, self.st, self.inst, self.fn, self.args = ex, st, inst, fn, args
        self.dem = fn.dem


class Spec:
    """contract of one function. Subclasses give setup/requires/ensures and loop invariants."""
    name = ''
    pat = None            # regex on the demangled name
    loops = ()            # (function regex, loop index or None, invariant function)
    contracts = ()        # extra (regex, handler) used while verifying this function
    auto_loops = True
    selfcontract = None
    opts = {}

    def function(self, ex):
        return ex.mod.find(self.pat)

    def setup(self, ex, st, F):
        """symbolic arguments by IR parameter types"""
        out = []
        for t, n in zip(F.param_types(), F.param_names()):
            out.append(ex.fresh_of(st, t, n or 'arg'))
        return out

    def requires(self, ex, st, args):
        return []

    def ensures(self, ex, old, st, args, ret):
        return []

    def on_throw(self, ex, old, st, args):
        return [('no exception escapes', z3.BoolVal(False))]

    def on_exit(self, ex, old, st, args):
        return []
