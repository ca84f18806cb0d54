"""Value numbering of functions (gated SSA): every expression gets a term of va.terms, control flow joins
become gated values, loops become sums, maps, folds and trip counts, calls of repository functions are
replaced by their bodies, all other calls are uninterpreted functions of arguments and object state."""
import re
from fractions import Fraction as Fr
from . import terms as T
from .vals import (AV, FN, GV, HP, IT, KI, LV, MV, NOP, PV, SV, St, Heap, Undecided, V, depth, gate_at, getleaf, hmerge, isbool,
                   leaves, merge, same, setleaf, smerge, vmap, vsubst)
from .prog import REPO, VERIF, kind_of, split_targs, strip_cv
from . import builtin as B

OUT = ('n', 'ret', 'brk', 'cont', 'thr')


class Frame:
    _n = 0

    def __init__(self, fn, this=None):
        Frame._n += 1
        self.no, self.fn, self.this, self.refs, self.types = Frame._n, fn, this, {}, {}


class Ev:
    def __init__(self, prog, opaque=(), pure=(), constargs=(), replace=None, inline_depth=40):
        self.replace = replace or {}
        self.constargs = set(constargs)
        self.pure = set(pure)
        self.p = prog
        self.opaque = set(opaque) | self.pure
        self.fr = None
        self.pend = []
        self.stack = []
        self.loopdepth = 0
        self.nothrow = []
        self.assumes = []      # literals of assumptions, they outlive the block they are made in
        self.outs = []
        self.assumed = T.TT
        self.prov = {}
        self.visited = {}
        self.tmp = 0
        self.max_depth = inline_depth
        self.unknown = []
        self.loops = 0
        self.loopmods = {}
        self.factmemo = (None, [], {})
        self.muids = 0
        self.heaps0 = {}
        self.loc = '?'
        self.lits = ()
        self.callq = {}

    # ------------------------------------------------------------ values of types
    def rec(self, name):
        r = self.p.records.get(name)
        return r

    def leaf(self, op, root, path, idx, kind):
        if kind == 'ptr':
            return T.atom(op, root, path, idx, 'ptr')
        a = T.atom(op, root, path, idx, kind)
        if kind == 'bool':
            return T.ite(a, T.TT, T.FF)
        if kind == 'obj' or kind == 'str':
            return a
        return T.atom_num(a)

    def symbolic(self, t, root, path='', idx=(), op='in'):
        """arbitrary value of a type; its parts are input atoms"""
        t = strip_cv(t)
        k = kind_of(t)
        if k[0] == 'real':
            return self.leaf(op, root, path, idx, 'real')
        if k[0] == 'int':
            return self.leaf(op, root, path, idx, 'size' if 'unsigned' in t else 'int')
        if k[0] == 'bool':
            return self.leaf(op, root, path, idx, 'bool')
        if k[0] == 'ptr':
            return self.leaf(op, root, path, idx, 'ptr')
        if k[0] == 'str':
            return self.leaf(op, root, path, idx, 'str')
        if k[0] == 'atomic':
            return self.symbolic(k[1], root, path, idx, op)
        if k[0] == 'vec':
            d = self.tdepth(k[1])
            e = self.symbolic(k[1], root, path + '[]', idx + (T.atom_num(KI[d]),), op)
            return AV(k[1], self.leaf(op, root, path + '#', idx, 'size'), e)
        if k[0] == 'arr':
            d = self.tdepth(k[1])
            e = self.symbolic(k[1], root, path + '[]', idx + (T.atom_num(KI[d]),), op)
            return AV(k[1], T.num(int(k[2])), e)
        if k[0] == 'map':
            d = self.tdepth(k[2])
            i = idx + (T.atom_num(KI[d]),)
            return AV('map', T.ZERO, SV('pair', {'has': self.leaf(op, root, path + '.has', i, 'bool'), 'first': T.atom_num(KI[d]),
                                                 'second': self.symbolic(k[2], root, path + '[]', i, op)}))
        if k[0] == 'mat':
            return MV(k[1], k[2], [self.leaf(op, root, path + '(%d,%d)' % (i, j), idx, 'real') for i in range(k[1]) for j in range(k[2])])
        if k[0] == 'pair':
            return SV('pair', {'first': self.symbolic(k[1], root, path + '.first', idx, op), 'second': self.symbolic(k[2], root, path + '.second', idx, op)})
        if k[0] == 'iso':
            return MV(k[1] + 1, k[1] + 1, [self.leaf(op, root, path + '(%d,%d)' % (i, j), idx, 'real') for i in range(k[1] + 1) for j in range(k[1] + 1)], True)
        if B.is_nop(t):
            return NOP(t)
        if t in ('ceres.known', 'ceres.fixed'):
            return self.leaf(op, root, path, idx, 'bool')
        if t == 'ceres::Problem':
            return SV(t, {'blocks': self.symbolic('std::vector<ceres::ResidualBlock>', root, path + '.blocks', idx, op)})
        r = self.rec(t)
        if r is not None and not self.is_opaque(t):
            return SV(t, {f['name']: self.symbolic(f['t'], root, path + '.' + f['name'], idx, op) for f in self.fields(t)})
        return self.leaf(op, root, path, idx, 'obj')

    def tdepth(self, t):
        k = kind_of(strip_cv(t))
        if k[0] in ('vec', 'arr'):
            return self.tdepth(k[1]) + 1
        if k[0] == 'map':
            return self.tdepth(k[2]) + 1
        if k[0] == 'pair':
            return max(self.tdepth(k[1]), self.tdepth(k[2]))
        if k[0] == 'rec':
            r = self.rec(strip_cv(t))
            if r is not None and not self.is_opaque(strip_cv(t)):
                return max([self.tdepth(f['t']) for f in self.fields(strip_cv(t))], default=0)
        return 0

    def fields(self, name):
        r = self.rec(name)
        out = []
        if r is None:
            return out
        for b in r['bases']:
            out += self.fields(strip_cv(b))
        return out + r['fields']

    def is_opaque(self, name):
        b = split_targs(name)[0]
        if b in self.opaque or name in self.opaque:
            return True
        r = self.rec(name)
        if r is None:
            return True
        f = r['l']
        if f.startswith((REPO + '/', VERIF + '/specs')):
            return False
        return not B.is_plain_record(name)

    def is_base_of(self, base, name):
        r = self.rec(name)
        return r is not None and any(strip_cv(b) == base or self.is_base_of(base, strip_cv(b)) for b in r['bases'])

    def undef(self, t, what):
        return self.symbolic(t, 'undef', what, (), 'in')

    def zero(self, t):
        k = kind_of(t)
        if k[0] in ('real', 'int'):
            return T.ZERO
        if k[0] == 'bool':
            return T.FF
        if k[0] == 'ptr':
            return T.NULL
        return self.default(t, True)

    def default(self, t, value_init=False):
        """default-initialised value"""
        t = strip_cv(t)
        k = kind_of(t)
        if k[0] in ('real', 'int', 'bool'):
            return self.zero(t) if value_init else self.undef(t, 'uninitialised')
        if k[0] == 'ptr':
            return T.NULL if value_init or not t.endswith('*') else self.undef(t, 'uninitialised')
        if k[0] == 'str':
            return T.string('')
        if k[0] == 'atomic':
            return self.default(k[1], True)
        if k[0] == 'vec':
            return AV(k[1], T.ZERO, self.undef_el(k[1]))
        if k[0] == 'arr':
            return AV(k[1], T.num(int(k[2])), self.default(k[1], value_init))
        if k[0] == 'map':
            d = self.tdepth(k[2])
            return AV('map', T.ZERO, SV('pair', {'has': T.FF, 'first': T.atom_num(KI[d]), 'second': self.undef_el(k[2])}))
        if k[0] == 'mat':
            return MV(k[1], k[2], [self.undef('double', 'uninitialised')] * (k[1] * k[2]))
        if k[0] == 'iso':
            return MV(k[1] + 1, k[1] + 1, [self.undef('double', 'uninitialised')] * (k[1] + 1) ** 2, True)
        if k[0] == 'pair':
            return SV('pair', {'first': self.zero(k[1]), 'second': self.zero(k[2])})
        if B.is_nop(t):
            return NOP(t)
        if t == 'ceres::Problem':
            for c in ('ceres.known', 'ceres.fixed'):
                self.st.heap[c] = Heap(c, T.FF)
            return SV(t, {'blocks': self.default('std::vector<ceres::ResidualBlock>')})
        if self.is_opaque(t):
            return T.atom('obj0', t)
        r = self.rec(t)
        for m in r['methods']:
            if m['f'] in self.p.funcs and self.p.funcs[m['f']].get('ctor') and not self.p.funcs[m['f']]['params']:
                return self.construct(t, m['f'], [])
        return self.aggregate(t, value_init)

    def undef_el(self, t):
        return vmap(lambda x: x, self.default(t, True))

    def aggregate(self, t, value_init=False):
        f = {}
        for x in self.fields(t):
            if x.get('init'):
                f[x['name']] = self.conv(self.rval(x['init']), x['t'])
            else:
                f[x['name']] = self.default(x['t'], value_init)
        return SV(t, f)

    # ------------------------------------------------------------ heap
    def new_heap(self, cls):
        h = self.heaps0.get(cls)
        if h is None:
            h = self.heaps0[cls] = Heap(cls, self.symbolic(cls, HP(cls), cls))
        return h

    def heap(self, cls):
        h = self.st.heap.get(cls)
        if h is None:
            h = self.st.heap[cls] = self.new_heap(cls)
        return h

    def allocate(self, cls, value):
        q = T.new(cls, self.st.alloc)
        self.st.alloc = T.add(self.st.alloc, T.ONE)
        self.st.heap[cls] = self.heap(cls).write(q, value)
        return q

    def known(self, t):
        """simplifies a gated value by the conditions of the current path"""
        if isinstance(t, T.T) and t.k == 'ite':
            for v, b in self.lits:
                if t.k != 'ite':
                    return t
                t = T._restrict(t, v, b)
            if t.k == 'ite' and self.lits:
                vs, st, seen = [], [t], set()
                while st and len(vs) <= 12:
                    x = st.pop()
                    if x.k != 'ite' or x in seen:
                        continue
                    seen.add(x)
                    if x.a[0] not in vs:
                        vs.append(x.a[0])
                    st += [x.a[1], x.a[2]]
                if len(vs) <= 12:
                    for w in vs:
                        b = self.decided(w)
                        if b is not None:
                            t = T._restrict(t, w, b)
                            if t.k != 'ite':
                                break
        return t

    def facts(self):
        """polynomials known to be nonnegative on this path, and whether strictly positive"""
        key = self.lits
        if self.factmemo[0] is not key:
            out = []
            for v, b in key:
                if v.a[0] == 'lt0':
                    q = v.a[1]
                    if not b:
                        out.append((q, False))
                    elif T.is_int(q):
                        out.append((T.padd(T.neg(q), T.num(-1)), False))
                    else:
                        out.append((T.neg(q), True))
                elif v.a[0] == 'eq0' and b:
                    out += [(v.a[1], False), (T.neg(v.a[1]), False)]
            self.factmemo = (key, out, {})
        return self.factmemo[1]

    def atleast0(self, p, strict=False):
        """p >= 0 (p > 0) by one or two conditions of the path"""
        fs = self.facts()
        memo = self.factmemo[2]
        r = memo.get((p, strict))
        if r is None:
            ms = {m for m, _ in p.a if m != ()}
            r = False

            def enough(d, st):
                c = T.const(d)
                if c is not None:
                    return c > 0 or c == 0 and (st or not strict)
                return T._nonneg(d) and (st or not strict)
            cand = []
            for f, st in fs:
                fm = {m for m, _ in f.a if m != ()}
                if not (fm & ms):
                    continue
                d = T.psub(p, f)
                if enough(d, st):
                    r = True
                    break
                cand.append((f, st, d))
            if not r and len(cand) and len(fs) <= 24:
                for f, st, d in cand:
                    dm = {m for m, _ in d.a if m != ()}
                    for g, sg in fs:
                        if g is not f and dm & {m for m, _ in g.a if m != ()} and enough(T.psub(d, g), st or sg):
                            r = True
                            break
                    if r:
                        break
            memo[(p, strict)] = r
        return r

    def decided(self, w):
        """truth of a condition by the conditions of the path, or None"""
        if T.NAN_MODE[0] or w.a[0] not in ('lt0', 'eq0') or len(w.a[1].a) > 6:
            return None
        p = w.a[1]
        i = T.is_int(p)
        if w.a[0] == 'lt0':
            if self.atleast0(p):
                return False
            n = T.neg(p)
            if self.atleast0(T.padd(n, T.num(-1)) if i else n, not i):
                return True
            return None
        n = T.neg(p)
        if self.atleast0(T.padd(p, T.num(-1)) if i else p, not i) or self.atleast0(T.padd(n, T.num(-1)) if i else n, not i):
            return False
        return None

    def guard(self):
        g = self.assumed
        for v, b in self.lits:
            x = T._mk('ite', (v, T.TT, T.FF))
            g = T.b_and(g, x if b else T.b_not(x))
        return g

    def assume_path(self, c):
        save = self.lits
        self.lits = save + tuple(T.literals(c))
        return save

    def pointee(self, ptr, t):
        """place that a pointer value points to"""
        ptr = self.known(ptr)
        if isinstance(ptr, PV):
            return ptr.lv
        if isinstance(ptr, GV):
            return GV(ptr.c, self.pointee(ptr.a, t), self.pointee(ptr.b, t))
        if isinstance(ptr, LV):
            return ptr
        if isinstance(ptr, IT):
            return self.elem(ptr.lv, ptr.i)
        if isinstance(ptr, NOP):
            return ptr
        cls = strip_cv(t)
        for l in T._leaves(ptr):
            if l.k == 'at' and l.a[0] == 'new' and l.a[1] != cls:
                if ptr.k == 'ite':
                    c = T._mk('ite', (ptr.a[0], T.TT, T.FF))
                    return GV(c, self.pointee(ptr.a[1], t), self.pointee(ptr.a[2], t))
                cls = l.a[1]
        return LV(('h', cls, ptr))

    # ------------------------------------------------------------ places
    def read(self, lv):
        if isinstance(lv, GV):
            return merge(lv.c, self.read(lv.a), self.read(lv.b))
        if not isinstance(lv, LV):
            return lv
        r = lv.root
        if r[0] == 'v':
            if r[1] not in self.st.vars:
                raise Undecided('variable out of scope at ' + self.loc)
            v = self.st.vars[r[1]]
        else:
            v = self.heap(r[1]).read(r[2])
        for p in lv.path:
            v = self.sub(v, p)
        return v

    def sub(self, v, p):
        if isinstance(v, NOP):
            return v
        if p[0] == 'f':
            if isinstance(v, SV):
                if p[1] in v.f:
                    return v.f[p[1]]
            if isinstance(v, T.T):
                return B.opaque_field(self, v, p[1], p[2] if len(p) > 2 else 'double')
            raise Undecided('field %s of %s at %s' % (p[1], type(v).__name__, self.loc))
        if p[0] == 'i':
            if isinstance(v, AV):
                return vsubst(v.e, {v.k: p[1]})
            if isinstance(v, MV):
                c = T.const(p[1])
                if c is not None:
                    return v.e[int(c)]
            raise Undecided('index at ' + self.loc)
        if p[0] == 'm':
            if not isinstance(v, MV):
                raise Undecided('matrix element of %s at %s' % (type(v).__name__, self.loc))
            i, j = T.const(p[1]), T.const(p[2])
            if i is not None and j is not None:
                if v.c == 1 or int(i) * v.c + int(j) < len(v.e):
                    return v.at(int(i), int(j))
            out = None
            for a in range(v.r):
                for b in range(v.c):
                    x = v.at(a, b)
                    out = x if out is None else T.ite(T.b_and(T.eq(p[1], T.num(a)), T.eq(p[2], T.num(b))), x, out)
            return out
        if p[0] == 'blk':
            i, j, r, c = p[1:]
            return MV(r, c, [v.at(i + a, j + b) for a in range(r) for b in range(c)])
        raise Undecided('path')

    def upd(self, v, path, x):
        if not path:
            return self.shape(x, v)
        p, rest = path[0], path[1:]
        if isinstance(v, NOP):
            return v
        if p[0] == 'f':
            if isinstance(v, SV):
                f = dict(v.f)
                if p[1] not in f:
                    raise Undecided('field ' + p[1])
                f[p[1]] = self.upd(f[p[1]], rest, x)
                return SV(v.t, f)
            if isinstance(v, T.T):
                return B.opaque_set(self, v, p[1], x)
        if p[0] == 'i' and isinstance(v, AV):
            old = self.sub(v, p)
            new = self.upd(old, rest, x)
            return AV(v.et, v.n, self.store(v, p[1], new))
        if p[0] == 'i' and isinstance(v, MV):
            c = T.const(p[1])
            if c is not None:
                e = list(v.e)
                e[int(c)] = x
                return MV(v.r, v.c, e, v.iso)
        if p[0] == 'm' and isinstance(v, MV):
            e = list(v.e)
            i, j = T.const(p[1]), T.const(p[2])
            if i is not None and j is not None:
                e[int(i) * v.c + int(j)] = x
            else:
                for a in range(v.r):
                    for b in range(v.c):
                        c = T.b_and(T.eq(p[1], T.num(a)), T.eq(p[2], T.num(b)))
                        e[a * v.c + b] = T.ite(c, x, e[a * v.c + b])
            return MV(v.r, v.c, e, v.iso)
        if p[0] == 'blk' and isinstance(v, MV) and isinstance(x, MV):
            i, j, r, c = p[1:]
            e = list(v.e)
            for a in range(r):
                for b in range(c):
                    e[(i + a) * v.c + j + b] = x.e[a * c + b]
            return MV(v.r, v.c, e, v.iso)
        raise Undecided('store at ' + self.loc)

    def store(self, v, i, new):
        """element template after v[i] = new"""
        return gate_at(T.eq(T.atom_num(v.k), i), v.k, i, new, v.e)

    def shape(self, x, like):
        if isinstance(like, MV) and isinstance(x, MV) and len(x.e) == len(like.e):
            return MV(like.r, like.c, x.e, like.iso)
        if isinstance(like, AV) and isinstance(x, AV) and like.et != x.et and like.et != 'map':
            return AV(like.et, x.n, x.e)
        return x

    def write(self, lv, x):
        if isinstance(lv, NOP):
            return
        if isinstance(lv, GV):
            old = self.read(lv.a)
            self.write(lv.a, merge(lv.c, x, old))
            old = self.read(lv.b)
            self.write(lv.b, merge(lv.c, old, x))
            return
        if not isinstance(lv, LV):
            raise Undecided('assignment to a non-place at ' + self.loc)
        r = lv.root
        if r[0] == 'v':
            self.st.vars[r[1]] = self.upd(self.st.vars.get(r[1]), lv.path, x) if lv.path else x
        else:
            h = self.heap(r[1])
            self.st.heap[r[1]] = h.write(r[2], self.upd(h.read(r[2]), lv.path, x))

    def temp(self, v, t=None):
        self.tmp += 1
        key = (self.fr.no if self.fr else 0, 't%d' % self.tmp)
        self.st.vars[key] = v
        return LV(('v', key))

    def elem(self, lv, i):
        if isinstance(lv, GV):
            return GV(lv.c, self.elem(lv.a, i), self.elem(lv.b, i))
        return lv / ('i', self.known(i))

    def field(self, lv, name, t=None):
        if isinstance(lv, GV):
            return GV(lv.c, self.field(lv.a, name, t), self.field(lv.b, name, t))
        if isinstance(lv, NOP):
            return lv
        if not isinstance(lv, LV):
            raise Undecided('field of non-place at ' + self.loc)
        return lv / ('f', name, t)

    # ------------------------------------------------------------ expressions
    def rval(self, e):
        v = self.expr(e)
        if isinstance(v, (LV, GV)):
            v = self.read(v)
        self.note(v, e)
        return v

    def note(self, v, e):
        if isinstance(v, T.T) and v.k in ('num', 'ite') and e['l'].startswith(REPO) and v not in self.prov:
            self.prov[v] = e['l']
            if v.k == 'ite':
                self.prov.setdefault(v.a[0], e['l'])
                for x in v.a[0].kids:
                    self.prov.setdefault(x, e['l'])
            elif len(v.a) == 1 and len(v.a[0][0]) == 1:
                self.prov.setdefault(v.a[0][0][0][0], e['l'])

    def num(self, e):
        v = self.rval(e)
        return B.scalar(self, v)

    def cond(self, e):
        v = self.rval(e)
        return self.known(self.truth(v))

    def truth(self, v):
        if isinstance(v, MV) and len(v.e) == 1:
            v = v.e[0]
        if isinstance(v, (PV, LV, IT)):
            return T.TT
        if isinstance(v, GV):
            return T.ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, FN) or isinstance(v, NOP):
            return T.TT
        if not isinstance(v, T.T):
            raise Undecided('condition at ' + self.loc)
        if isbool(v):
            return v
        if v.k == 'num' or (v.k == 'ite' and any(l.k == 'num' for l in T._leaves(v))):
            return T.b_not(T.eq(v, T.ZERO))
        return T.b_not(T.eq(v, T.NULL))

    def place(self, e):
        """place of an expression, a temporary when it is a value"""
        v = self.expr(e)
        if isinstance(v, LV) or (isinstance(v, GV) and self.gated_place(v)):
            return v
        return self.temp(v)

    def gated_place(self, v):
        return isinstance(v, LV) or (isinstance(v, GV) and self.gated_place(v.a) and self.gated_place(v.b))

    def expr(self, e):
        k = e['k']
        self.loc = e['l']
        f = getattr(self, 'x_' + k, None)
        if f is None:
            raise Undecided('expression %s at %s' % (k + str(e.get('what', '')), e['l']))
        return f(e)

    def x_int(self, e):
        return T.num(int(e['v']))

    def x_float(self, e):
        txt = e.get('txt', '').rstrip('fFlL').replace("'", '')
        try:
            v = Fr(txt)
        except ValueError:
            v = Fr(e['v'])
        return B.constant(v)

    def x_bool(self, e):
        return T.TT if e['v'] else T.FF

    def x_str(self, e):
        return T.string(e['v'])

    def x_null(self, e):
        return T.NULL

    def x_zero(self, e):
        return self.zero(e['t'])

    def x_this(self, e):
        if self.fr.this is None:
            raise Undecided('this')
        return PV(self.fr.this)

    def x_ref(self, e):
        dk = e['dk']
        if dk in ('local', 'param'):
            fr = self.fr
            r = fr.refs.get(e['id'])
            if r is not None:
                return r
            return LV(('v', (fr.no, e['id'])))
        if dk == 'enum':
            return T.num(int(e['v']))
        if dk == 'func':
            return FN(e, None)
        if dk == 'global':
            if 'v' in e:
                return T.num(int(e['v'])) if kind_of(e['t'])[0] != 'bool' else (T.TT if int(e['v']) else T.FF)
            if 'fv' in e:
                return B.constant(Fr(e['fv']))
            key = ('g', e['q'])
            if key not in self.st.vars:
                g = self.p.globals.get(e['q'])
                if g is not None and g.get('init') and strip_cv(g['t']) != g['t'].replace('const ', '', 1) or e['t'].startswith('const'):
                    if g is not None and g.get('init'):
                        self.st.vars[key] = self.conv(self.rval(g['init']), g['t'])
                        return LV(('v', key))
                self.st.vars[key] = self.symbolic(e['t'], e['q'])
            return LV(('v', key))
        if dk == 'binding':
            r = self.fr.refs.get(e['id'])
            if r is not None:
                return r
            return self.expr(e['b'])
        raise Undecided('reference at ' + e['l'])

    def x_member(self, e):
        if not e['isf']:
            return FN(e, self.fr)
        if e['arrow']:
            b = self.pointee(self.rval(e['b']), pointee_type(e['b']['t']))
        else:
            b = self.place(e['b'])
        lv = self.field(b, e['name'], e['t'])
        return lv

    def x_index(self, e):
        i = self.num(e['i'])
        if kind_of(e['b']['t'])[0] == 'ptr':
            b = self.rval(e['b'])
            if isinstance(b, PV):
                return self.offset(b.lv, i)
            raise Undecided('pointer index at ' + e['l'])
        return self.elem(self.place(e['b']), i)

    def x_decay(self, e):
        return PV(self.elem(self.place(e['e']), T.ZERO))

    def offset(self, lv, i):
        if isinstance(lv, LV) and lv.path and lv.path[-1][0] == 'i':
            return LV(lv.root, lv.path[:-1] + (('i', T.add(lv.path[-1][1], i)),))
        if isinstance(lv, LV) and T.const(i) == 0:
            return lv
        raise Undecided('pointer arithmetic at ' + self.loc)

    def x_un(self, e):
        op = e['op']
        if op == '&':
            return PV(self.place(e['e']))
        if op == '*':
            v = self.rval(e['e'])
            return self.pointee(v, pointee_type(e['e']['t']))
        if op in ('++', '--'):
            lv = self.place(e['e'])
            old = self.read(lv)
            d = T.ONE if op == '++' else T.num(-1)
            self.write(lv, B.advance(self, old, d))
            return old if e.get('post') else lv
        v = self.rval(e['e'])
        if op == '-':
            return T.neg(B.scalar(self, v))
        if op == '+':
            return v
        if op == '!':
            return T.b_not(self.truth(v))
        if op == '~':
            return T.sub(T.num(-1), v)
        raise Undecided('operator ' + op)

    def x_bin(self, e):
        op = e['op']
        if op == '&&' or op == '||':
            a = self.cond(e['a'])
            if (op == '&&' and a is T.FF) or (op == '||' and a is T.TT):
                return a
            c = a if op == '&&' else T.b_not(a)
            b = self.under(c, lambda: self.cond(e['b']))
            return T.b_and(a, b) if op == '&&' else T.b_or(a, b)
        if op == ',':
            self.expr(e['a'])
            return self.expr(e['b'])
        a, b = self.rval(e['a']), self.rval(e['b'])
        return self.arith(op, a, b, e['t'], e['a']['t'], e['b']['t'])

    def under(self, c, f):
        """evaluates f on the paths where c holds, merging its effects"""
        if c is T.TT:
            return f()
        s0 = self.st
        s1 = s0.copy()
        self.st = s1
        n = len(self.pend)
        save = self.assume_path(c)
        v = f()
        self.lits = save
        for i in range(n, len(self.pend)):
            g, s, x = self.pend[i]
            self.pend[i] = (T.b_and(c, g), s, x)
        s1 = self.st
        self.st = s0
        self.st = smerge(c, s1, s0, self) if (s1.vars != s0.vars or s1.heap != s0.heap or s1.alloc is not s0.alloc) else s0
        return v

    def implied_nonneg(self, p):
        for v, b in self.lits:
            if v.a[0] == 'lt0':
                q = v.a[1]
                d = T.psub(p, q) if not b else T.padd(p, q)
                c = T.const(d)
                if c is not None and (c >= 0 if not b else c >= -1 and T.is_int(q)):
                    return True
        return False

    def unsigned(self, v, t):
        """the value of an unsigned expression: differences below zero have wrapped around"""
        t = strip_cv(t)
        if 'unsigned' not in t or not isinstance(v, T.T) or v.k not in ('num', 'ite'):
            return v
        m = {'unsigned long': 64, 'unsigned long long': 64, 'unsigned int': 32}.get(t)
        if m is None:
            return v

        def f(p):
            if p.k != 'num':
                return p
            n = self.known(T.lt(p, T.ZERO))
            if n is T.FF or not T.is_int(p) or self.nonneg_here(p):
                return p
            return T.ite(n, T.add(p, T.num(2 ** m)), p)
        return T.lift(f, v)

    def nonneg_here(self, p):
        """p >= 0 on this path, up to a positive factor"""
        for w, b in self.lits:
            if w.a[0] == 'lt0' and p.a and w.a[1].a:
                q = T.ratio(p, w.a[1])
                if q is not None and T._positive(T.neg(q) if b else q):
                    return True
        if self.implied_nonneg(p):
            return True
        return all(c > 0 and all(e % 2 == 0 or T.nonneg_atom(x) or (x.a[0] in ('floor', 'trunc') and e > 0 and self.nonneg_here(x.a[1])) for x, e in m)
                   for m, c in p.a)

    def toint(self, v, t):
        """floating point to integer conversion; only meaningful inside the range of the type"""
        if not T.NAN_MODE[0]:
            if v.k == 'num' and not T._nonneg(v) and T.const(v) is None and not T.is_int(v) and self.nonneg_here(v):
                return T.floor(v)
            return T.trunc(v)

        def f(p):
            if T.const(p) is not None or T.is_int(p):
                return T.trunc(p)
            low = high = False
            neg = {}
            for m, c in p.a:
                for x, e in m:
                    if e < 0:
                        neg[x] = min(neg.get(x, 0), e)
            forms = [p]
            if neg and all(T.pos_atom(x) for x in neg):
                forms.append(T.pmul(p, T._poly({tuple(sorted(((x, -e) for x, e in neg.items()), key=lambda y: y[0].uid)): 1})))
            for w, b in self.lits:
                if w.a[0] not in ('lt0', 'le0') or not b:
                    continue
                d = w.a[1]
                for f in forms:
                    r = T.psub(d, f)
                    if not any(x in dict(f.a) for x in dict(r.a)) and len(r.a) < len(d.a):
                        high = True
                c = T.const(T.padd(d, p))
                if c is not None and c <= 0:
                    low = True
                # scaled by a positive quantity
                q = T.ratio(d, p)
                if q is not None and T._positive(T.neg(q)):
                    low = True
            if low and high:
                return T.trunc(p)
            return T.atom_num(T.atom('uf', 'unchecked conversion', (p,), 'int'))
        return T.lift(f, v)

    def arith(self, op, a, b, t, ta='', tb=''):
        if op in ('==', '!='):
            r = B.equal(self, a, b)
            return r if op == '==' else T.b_not(r)
        if isinstance(a, (PV, IT)) or isinstance(b, (PV, IT)):
            return B.ptr_arith(self, op, a, b)
        a, b = B.scalar(self, a), B.scalar(self, b)
        if op in ('<', '>', '<=', '>=', '/', '%'):
            a, b = self.unsigned(a, ta), self.unsigned(b, tb)
        if op == '<':
            return T.lt(a, b)
        if op == '>':
            return T.lt(b, a)
        if op == '<=':
            return T.le(a, b)
        if op == '>=':
            return T.le(b, a)
        if op == '+':
            return T.add(a, b)
        if op == '-':
            return T.sub(a, b)
        if op == '*':
            return T.mul(a, b)
        isint = kind_of(t)[0] in ('int', 'bool')
        if op == '/':
            r = T.div(a, b)
            return T.trunc(r) if isint else r
        if op == '%':
            return T.sub(a, T.mul(b, T.trunc(T.div(a, b))))
        if op in ('&', '|', '^', '<<', '>>'):
            if kind_of(t)[0] == 'bool' and isbool(a) and isbool(b):
                return T.b_and(a, b) if op == '&' else T.b_or(a, b) if op == '|' else T.ite(a, T.b_not(b), b)
            ca, cb = T.const(T.as_num(a)), T.const(T.as_num(b))
            if ca is not None and cb is not None:
                ia, ib = int(ca), int(cb)
                return T.num({'&': ia & ib, '|': ia | ib, '^': ia ^ ib, '<<': ia << ib if ib >= 0 else 0, '>>': ia >> ib if ib >= 0 else 0}[op])
            if op == '<<' and cb is not None:
                return T.mul(a, T.num(2 ** int(cb)))
            x, y = T.as_num(a), T.as_num(b)
            if op in '&|^' and x.uid > y.uid:
                x, y = y, x
            return T.lift(lambda p, q: T.atom_num(T.atom('uf', 'bit' + op, (T.as_num(p), T.as_num(q)), 'size')), x, y)
        raise Undecided('operator ' + op)

    def x_assign(self, e):
        v = self.conv(self.rval(e['b']), e['a']['t'])
        lv = self.place(e['a'])
        self.write(lv, v)
        return lv

    def x_cassign(self, e):
        lv = self.place(e['a'])
        b = self.rval(e['b'])
        old = self.read(lv)
        if isinstance(old, (IT, PV)):
            v = B.ptr_arith(self, e['op'], old, b)
        else:
            v = self.arith(e['op'], old, b, e.get('ct', e['t']))
        if kind_of(e.get('ct', e['t']))[0] == 'real':
            v = self.conv(v, e['a']['t'], 'double')
        self.write(lv, v)
        return lv

    def x_cond(self, e):
        c = self.cond(e['c'])
        if c is T.TT:
            return self.expr(e['a'])
        if c is T.FF:
            return self.expr(e['b'])
        s0 = self.st
        n = len(self.pend)
        self.st = s0.copy()
        save = self.assume_path(c)
        a = self.expr(e['a'])
        m = len(self.pend)
        sa = self.st
        self.st = s0.copy()
        self.lits = save
        self.assume_path(T.b_not(c))
        b = self.expr(e['b'])
        self.lits = save
        for i in range(n, len(self.pend)):
            g, s, x = self.pend[i]
            self.pend[i] = (T.b_and(c if i < m else T.b_not(c), g), s, x)
        sb = self.st
        pa, pb = self.gated_place(a), self.gated_place(b)
        if not (pa and pb and self.lives(a, sb) and self.lives(b, sa)):
            self.st = sa
            a = self.read(a) if pa else a
            self.st = sb
            b = self.read(b) if pb else b
        self.st = smerge(c, sa, sb, self)
        if isinstance(a, T.T) and isinstance(b, T.T) and kind_of(e['t'])[0] == 'bool':
            a, b = self.truth(a), self.truth(b)
        return merge(c, a, b)

    def lives(self, lv, st):
        if isinstance(lv, GV):
            return self.lives(lv.a, st) and self.lives(lv.b, st)
        return lv.root[0] != 'v' or lv.root[1] in st.vars

    def x_cast(self, e):
        ck = e['ck']
        v = self.rval(e['e'])
        if ck in ('FloatingToIntegral',):
            return self.toint(B.scalar(self, v), e['t'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.truth(v)
        if ck in ('IntegralToFloating', 'FloatingCast', 'IntegralCast'):
            v = B.scalar(self, v)
            st = e['e'].get('t', '')
            if ck == 'IntegralToFloating' or (ck == 'IntegralCast' and strip_cv(st) == 'unsigned int' and 'long' in e['t']):
                v = self.unsigned(v, st)
            return T.as_num(v) if isbool(v) else v
        return v

    def conv(self, v, t, src=None):
        """value converted to a declared type"""
        k = kind_of(t)
        if k[0] == 'atomic':
            return self.conv(v, k[1], src)
        if isinstance(v, T.T):
            if k[0] == 'bool' and not isbool(v):
                return self.truth(v)
            if k[0] in ('int', 'real') and isbool(v):
                return T.as_num(v)
            if k[0] == 'int' and src and kind_of(src)[0] == 'real':
                return self.toint(v, t)
        if isinstance(v, MV) and len(v.e) == 1 and k[0] in ('real', 'int'):
            return v.e[0]
        if isinstance(v, MV) and k[0] == 'mat' and len(v.e) == k[1] * k[2]:
            return MV(k[1], k[2], v.e)
        return v

    def x_opcall(self, e):
        return self.call(e)

    x_mcall = x_opcall
    x_call = x_opcall

    def x_ctor(self, e):
        t = strip_cv(e['t'])
        k = kind_of(t)
        if e.get('copy') or e.get('move'):
            v = self.rval(e['a'][0])
            if e.get('move') and k[0] in ('ptr', 'vec', 'str') and e['a'][0]['k'] not in ('ctor',):
                pass
            return self.conv(v, t)
        if B.is_nop(t):
            for a in e['a']:
                if a['k'] not in ('ref', 'member'):
                    self.expr(a)
            return NOP(t)
        if k[0] == 'rec' and not self.is_opaque(t):
            f = self.p.funcs.get(e['f'])
            if f is not None:
                return self.construct(t, e['f'], e['a'])
            if not e['a']:
                return self.default(t, True)
        return B.construct(self, e, t, k)

    def construct(self, t, fid, args):
        """runs a constructor of a repository class on a fresh object"""
        f = self.p.funcs[fid]
        g = self.replaced(f['q'], len(args))
        if g is not None:
            return self.inline(g, None, self.bind_args(g, args))
        vals = self.bind_args(f, args)
        lv = self.temp(SV(t, {}))
        self.init_object(lv, t, f, vals)
        v = self.read(lv)
        del self.st.vars[lv.root[1]]
        return v

    def init_object(self, lv, t, f, vals):
        key = lv.root[1]
        fr = self.enter(f, lv)
        self.bind(f, vals)
        flds = {x['name']: x for x in self.fields(t)}
        cur = dict(self.st.vars[key].f)
        for x in flds.values():
            cur.setdefault(x['name'], None)
        self.st.vars[key] = SV(t, {n: v if v is not None else self.placeholder(flds[n]['t']) for n, v in cur.items()})
        done = set()
        for i in f.get('inits', ()):
            if 'delegate' in i:
                v = self.rval(i['e'])
                self.st.vars[key] = v
                done = set(flds)
            elif 'base' in i:
                bt = strip_cv(i['base'])
                if not self.is_opaque(bt) and self.rec(bt):
                    bv = self.rval(i['e'])
                    if isinstance(bv, SV):
                        for n, v in bv.f.items():
                            self.write(lv / ('f', n), v)
                            done.add(n)
            else:
                n = i['field']
                v = self.rval(i['e']) if i.get('e') else self.default(flds[n]['t'])
                if i.get('e') and i['e']['k'] == 'ctor' and not i['e']['a'] and not i['written'] and kind_of(flds[n]['t'])[0] == 'mat':
                    v = self.default(flds[n]['t'])
                self.write(lv / ('f', n), self.conv(v, flds[n]['t']))
                done.add(n)
        for n, x in flds.items():
            if n not in done:
                v = self.rval(x['init']) if x.get('init') else self.default(x['t'])
                self.write(lv / ('f', n), self.conv(v, x['t']))
        self.run_body(f)
        self.leave(fr)

    def placeholder(self, t):
        return self.default(t, True) if kind_of(t)[0] in ('vec', 'arr', 'map', 'mat') else T.ZERO

    def x_new(self, e):
        t = strip_cv(e['at'])
        if e.get('n') is not None or 'n' in e:
            n = self.num(e['n'])
            return PV(self.temp(AV(t, n, self.undef_el(t))) / ('i', T.ZERO))
        v = self.rval(e['init']) if e.get('init') else self.default(t)
        return self.allocate(t, v)

    def x_delete(self, e):
        self.rval(e['e'])
        return T.ZERO

    def x_initlist(self, e):
        t = strip_cv(e['t'])
        k = kind_of(t)
        if k[0] == 'rec' and self.rec(t) is not None:
            fl = self.fields(t)
            f = {}
            for i, x in enumerate(fl):
                if i < len(e['a']):
                    f[x['name']] = self.conv(self.rval(e['a'][i]), x['t'])
                else:
                    f[x['name']] = self.conv(self.rval(x['init']), x['t']) if x.get('init') else self.default(x['t'], True)
            return SV(t, f)
        vals = [self.rval(a) for a in e['a']]
        if k[0] in ('arr', 'vec') or k[0] == 'rec':
            et = k[1] if k[0] in ('arr', 'vec') else (e['a'][0]['t'] if e['a'] else 'double')
            if k[0] == 'arr' and len(vals) == 1 and isinstance(vals[0], AV) and self.tdepth(et) < vals[0].d + 1 and depth(vals[0]) == self.tdepth(t):
                return vals[0]
            n = int(k[2]) if k[0] == 'arr' else len(vals)
            d = self.tdepth(et)
            el = self.default(et, True)
            for i in range(len(vals) - 1, -1, -1):
                el = merge(T.eq(T.atom_num(KI[d]), T.num(i)), self.conv(vals[i], et), el)
            return AV(et, T.num(n), el)
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return self.default(t, True)
        raise Undecided('initialiser at ' + e['l'])

    def x_lambda(self, e):
        fr = Frame({'f': e['f'], 'ret': '?'}, self.fr.this)
        for c in e['caps']:
            if c.get('this'):
                continue
            src = self.fr.refs.get(c['id']) or LV(('v', (self.fr.no, c['id'])))
            if c['byref']:
                fr.refs[c['id']] = src
            else:
                fr.refs[c['id']] = self.temp(self.rval(c['init']) if c.get('init') else self.read(src))
        fr.lam = self.fr
        return FN(e, fr)

    def x_throw(self, e):
        if e.get('e'):
            self.rval(e['e'])
        self.pend.append((T.TT, self.st.copy(), T.string('thrown')))
        return T.ZERO

    def x_unknown(self, e):
        raise Undecided('%s at %s' % (e.get('what'), e['l']))

    # ------------------------------------------------------------ calls
    def enter(self, f, this):
        if len(self.stack) > self.max_depth or sum(1 for x in self.stack if x is f) >= 4:
            raise Undecided('recursion in ' + f['f'])
        old = self.fr
        self.stack.append(f)
        self.fr = Frame(f, this)
        if f.get('l', '').startswith(REPO):
            self.visited[f['f']] = f['l']
        return old

    def leave(self, old):
        no = self.fr.no
        for k in [k for k in self.st.vars if k[0] == no]:
            del self.st.vars[k]
        self.stack.pop()
        self.fr = old

    def bind_args(self, f, args):
        """evaluates arguments (expressions or values) for the parameters of f"""
        out = []
        for i, p in enumerate(f['params']):
            if i < len(args):
                a = args[i]
            elif p.get('def'):
                a = p['def']
            else:
                raise Undecided('missing argument')
            if not isinstance(a, dict):
                out.append(a)
            elif p['ref']:
                out.append(self.place(a))
            elif kind_of(p['t'])[0] == 'ptr' and kind_of(strip_cv(a.get('t', '?')))[0] == 'arr' and a['k'] != 'str':
                out.append(PV(self.elem(self.place(a), T.ZERO)))
            else:
                out.append(self.conv(self.rval(a), p['t']))
        return out

    def bind(self, f, vals):
        for p, v in zip(f['params'], vals):
            if p['ref']:
                if not isinstance(v, (LV, GV, NOP)):
                    v = self.temp(v)
                if isinstance(v, NOP):
                    v = self.temp(v)
                self.fr.refs[p['id']] = v
            else:
                self.st.vars[(self.fr.no, p['id'])] = v

    def run_body(self, f):
        """executes the body of the current frame's function: returns its value"""
        sub_pend, self.pend = self.pend, []
        o = self.exec(f['body'])
        inner, self.pend = self.pend, sub_pend
        ret = None
        n, r = o.get('n'), o.get('ret')
        if 'thr' in o:
            g, s, v = o['thr']
            self.pend.append((g, s, v))
        if n is None and r is None:
            # always throws (or never ends)
            return T.ZERO
        if n is not None and r is not None:
            self.st = smerge(r[0], r[1], n[1], self)
            ret = r[2]
        elif r is not None:
            self.st = r[1]
            ret = r[2]
        else:
            self.st = n[1]
        return ret

    def inline(self, f, this, vals):
        old = self.enter(f, this)
        try:
            self.bind(f, vals)
            v = self.run_body(f)
            if isinstance(v, LV) and v.root[0] == 'v' and v.root[1][0] == self.fr.no:
                v = self.read(v)
            elif isinstance(v, GV) and not f['ret'].strip().endswith(('&', '*')):
                pass
        finally:
            self.leave(old) if self.fr is not old else None
        return v if v is not None else T.ZERO

    def call_fn(self, fn, vals):
        """calls a function value"""
        if isinstance(fn, GV):
            raise Undecided('gated function')
        if isinstance(fn, FN) and fn.node['k'] == 'lambda':
            e = fn.node
            f = {'f': e['f'], 'params': e['params'], 'body': e['body'], 'ret': '?', 'l': e['l']}
            old = self.fr
            self.stack.append(f)
            fr = Frame(f, fn.fr.this)
            fr.refs.update(fn.fr.refs)
            outer = getattr(fn.fr, 'lam', None)
            self.fr = fr
            try:
                self.bind(f, vals)
                v = self.run_body(f)
                if isinstance(v, LV) and v.root[0] == 'v' and v.root[1][0] == self.fr.no:
                    v = self.read(v)
            finally:
                self.leave(old)
            return v if v is not None else T.ZERO
        if isinstance(fn, FN) and fn.node['k'] == 'ref':
            f = self.p.funcs.get(fn.node['f'])
            if f is not None:
                return self.inline(f, None, vals)
            return B.std_call(self, fn.node['q'], fn.node['name'], vals, {'t': 'double', 'l': self.loc, 'a': []})
        raise Undecided('call of unknown function at ' + self.loc)

    def resolve(self, e, obj):
        """the function definition a call reaches, or None"""
        f = self.p.funcs.get(e.get('f'))
        if e['k'] == 'mcall' and e.get('virtual') and not e.get('nonvirt') and isinstance(obj, LV):
            cls = None
            if obj.root[0] == 'h' and not obj.path:
                q = obj.root[2]
                if q.k == 'at' and q.a[0] == 'new':
                    cls = obj.root[1]
                else:
                    return None
            else:
                v = self.read(obj)
                cls = v.t if isinstance(v, SV) else None
            if cls:
                g = self.override(cls, e['f'])
                if g:
                    return g
        return f

    def override(self, cls, fid):
        r = self.rec(cls)
        if r is None:
            return None
        for m in r['methods']:
            if m['f'] == fid or fid in m['overrides']:
                return self.p.funcs.get(m['f'])
        for b in r['bases']:
            g = self.override(strip_cv(b), fid)
            if g:
                return g
        return None

    def inlinable(self, f, e):
        if f is None:
            return False
        if f['l'].startswith((REPO + '/', VERIF + '/specs')):
            c = f.get('cls')
            return not (c and (split_targs(c)[0] in self.opaque or c in self.opaque)) and f['q'] not in self.opaque and f['f'] not in self.opaque
        return False

    def replaced(self, q, n):
        """the function of the specification that stands for a function in this analysis"""
        r = self.replace.get('%s/%d' % (q, n)) or self.replace.get(q)
        if r is None and '<' in q:
            while '<' in q:
                p = re.sub(r'<[^<>]*>', '', q)
                if p == q:
                    break
                q = p
            r = self.replace.get('%s/%d' % (q, n)) or self.replace.get(q)
        if r is None:
            return None
        g = self.p.find('spec::' + r)
        if not g:
            raise Undecided('no model ' + r)
        return g[0]

    def call(self, e):
        k = e['k']
        loc = e['l']
        if k == 'call' and e.get('c') is not None and 'q' not in e:
            fn = self.rval(e['c']) if e['c']['t'] else None
            return self.call_fn(fn, [self.rval(a) for a in e['a']])
        q = e.get('q', '')
        name = e.get('name') or q.split('::')[-1]
        if k == 'opcall':
            f = self.p.funcs.get(e.get('f'))
            if self.inlinable(f, e):
                if f.get('cls') and not f.get('static'):
                    obj = self.place(e['a'][0])
                    return self.inline(f, obj, self.bind_args(f, e['a'][1:]))
                return self.inline(f, None, self.bind_args(f, e['a']))
            return B.operator(self, e)
        if k == 'mcall':
            if e.get('o') is None:
                raise Undecided('member pointer call at ' + loc)
            o = e['o']
            if e.get('arrow'):
                obj = self.pointee(self.rval(o), pointee_type(o['t']))
            else:
                obj = self.place(o)
            if self.replace:
                g = self.replaced(q, len(e['a']))
                if g is not None:
                    return self.gated_call(obj, g, e) if isinstance(obj, GV) else self.inline(g, None, [obj] + self.bind_args(dict(g, params=g['params'][1:]), e['a']))
            f = self.resolve(e, obj)
            if isinstance(obj, GV) and f is not None and self.inlinable(f, e):
                return self.gated_call(obj, f, e)
            if self.inlinable(f, e):
                return self.inline(f, obj, self.bind_args(f, e['a']))
            return B.method(self, e, obj, name)
        f = self.p.funcs.get(e.get('f'))
        if self.replace and k == 'call':
            g = self.replaced(q, len(e['a']))
            if g is not None:
                return self.inline(g, None, self.bind_args(g, e['a']))
        if self.inlinable(f, e):
            return self.inline(f, None, self.bind_args(f, e['a']))
        return B.function(self, e, q, name)

    def gated_call(self, obj, f, e):
        model = f['q'].startswith('spec::')
        vals = self.bind_args(dict(f, params=f['params'][1:]) if model else f, e['a'])

        def go(o):
            if not isinstance(o, GV):
                return self.inline(f, None, [o] + vals) if model else self.inline(f, o, vals)
            s0 = self.st
            self.st = s0.copy()
            a = go(o.a)
            sa = self.st
            self.st = s0.copy()
            b = go(o.b)
            self.st = smerge(o.c, sa, self.st, self)
            return merge(o.c, a, b)
        return go(obj)

    # ------------------------------------------------------------ statements
    # exec returns {kind: (guard, state, value)} with guards that partition the paths
    def seq(self, stmts):
        save, n = self.lits, len(self.assumes)
        try:
            return self.seq_(stmts)
        finally:
            self.lits = save + tuple(self.assumes[n:])

    def seq_(self, stmts):
        acc = {}
        g = T.TT
        for s in stmts:
            o = self.exec(s)
            for kd in OUT[1:]:
                if kd in o:
                    gk, sk, vk = o[kd]
                    gk = T.b_and(g, gk)
                    if kd in acc:
                        ga, sa, va = acc[kd]
                        acc[kd] = (T.b_or(ga, gk), smerge(ga, sa, sk, self), self.vmerge(ga, va, vk))
                    else:
                        acc[kd] = (gk, sk, vk)
            if 'n' not in o or o['n'][0] is T.FF:
                return acc
            gn, sn, _ = o['n']
            g = T.b_and(g, gn)
            self.st = sn
            if g is T.FF:
                return acc
            if gn is not T.TT:
                self.assume_path(gn)
        acc['n'] = (g, self.st, None)
        return acc

    def vmerge(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return merge(c, a, b)

    def exec(self, s):
        self.loc = s['l']
        base, self.pend = self.pend, []
        o = getattr(self, 's_' + s['k'], self.s_unknown)(s)
        mine, self.pend = self.pend, base
        if mine:
            # throws from the expressions of this statement
            thr, ok = None, T.TT
            for g, st, v in mine:
                gg = T.b_and(ok, g)
                if thr is None:
                    thr = (gg, st, v)
                else:
                    thr = (T.b_or(thr[0], gg), smerge(thr[0], thr[1], st, self), self.vmerge(thr[0], thr[2], v))
                ok = T.b_and(ok, T.b_not(g))
            o2 = {}
            for kd, (g, st, v) in o.items():
                g = T.b_and(ok, g)
                if g is not T.FF:
                    o2[kd] = (g, st, v)
            if 'thr' in o2:
                g, st, v = o2['thr']
                o2['thr'] = (T.b_or(thr[0], g), smerge(thr[0], thr[1], st, self), self.vmerge(thr[0], thr[2], v))
            elif thr[0] is not T.FF:
                o2['thr'] = thr
            o = o2
        return o

    def s_unknown(self, s):
        raise Undecided('statement %s at %s' % (s['k'] + str(s.get('what', '')), s['l']))

    def done(self):
        return {'n': (T.TT, self.st, None)}

    def s_block(self, s):
        return self.seq(s['s'])

    def s_nop(self, s):
        return self.done()

    def s_expr(self, s):
        self.expr(s['e'])
        return self.done()

    def s_decl(self, s):
        for v in s['v']:
            self.declare(v)
        return self.done()

    def declare(self, v):
        t = v['t']
        fr = self.fr
        key = (fr.no, v['id'])
        if v.get('static'):
            gk = ('static', fr.fn['f'], v['name'])
            if gk not in self.st.vars:
                self.st.vars[gk] = self.symbolic(t, 'static ' + v['name'])
            fr.refs[v['id']] = LV(('v', gk))
            return
        if v['ref']:
            lv = self.place(v['init'])
            fr.refs[v['id']] = lv
        else:
            fr.refs.pop(v['id'], None)
            if v.get('init') is None:
                x = self.default(t)
            elif v['init']['k'] == 'ctor' and not v['init']['a'] and kind_of(t)[0] in ('mat',):
                x = self.default(t)
            else:
                x = self.conv(self.rval(v['init']), t)
            self.st.vars[key] = x
            lv = LV(('v', key))
        if v.get('bindings'):
            val = self.read(lv)
            if isinstance(val, SV):
                for b, n in zip(v['bindings'], val.f):
                    fr.refs[b['id']] = self.field(lv, n)
            elif isinstance(val, AV):
                for i, b in enumerate(v['bindings']):
                    fr.refs[b['id']] = self.elem(lv, T.num(i))

    def s_if(self, s):
        if s.get('init'):
            self.exec_plain(s['init'])
        if s.get('var'):
            self.declare(s['var'])
        c = self.cond(s['c'])
        if c is T.TT:
            return self.exec(s['a'])
        if c is T.FF:
            return self.exec(s['b']) if s['b'] else self.done()
        s0 = self.st
        refs = dict(self.fr.refs)
        self.st = s0.copy()
        save = self.assume_path(c)
        a = self.exec(s['a'])
        self.fr.refs = dict(refs)
        self.st = s0
        self.lits = save
        self.assume_path(T.b_not(c))
        b = self.exec(s['b']) if s['b'] else {'n': (T.TT, s0, None)}
        self.fr.refs = refs
        self.lits = save
        return self.join(c, a, b)

    def exec_plain(self, st):
        o = self.exec(st)
        if set(o) != {'n'}:
            raise Undecided('control flow at ' + st['l'])
        self.st = o['n'][1]

    def join(self, c, a, b):
        out = {}
        for kd in OUT:
            x, y = a.get(kd), b.get(kd)
            if x is not None and y is not None:
                out[kd] = (T.ite(c, x[0], y[0]), smerge(c, x[1], y[1], self), self.vmerge(c, x[2], y[2]))
            elif x is not None:
                out[kd] = (T.b_and(c, x[0]), x[1], x[2])
            elif y is not None:
                out[kd] = (T.b_and(T.b_not(c), y[0]), y[1], y[2])
        return {k: v for k, v in out.items() if v[0] is not T.FF}

    def s_return(self, s):
        v = None
        if s.get('e'):
            ret = self.stack[-1].get('ret', '') if self.stack else ''
            if ret.strip().endswith('&') :
                v = self.expr(s['e'])
            else:
                v = self.rval(s['e'])
                if ret not in ('', '?'):
                    v = self.conv(v, ret)
        return {'ret': (T.TT, self.st, v)}

    def s_break(self, s):
        return {'brk': (T.TT, self.st, None)}

    def s_continue(self, s):
        return {'cont': (T.TT, self.st, None)}

    def s_try(self, s):
        o = self.exec(s['body'])
        if 'thr' not in o or not s['h']:
            return o
        g, st, v = o.pop('thr')
        self.st = st
        h = self.exec(s['h'][0]['body'])
        out = {}
        for kd in OUT:
            x, y = h.get(kd), o.get(kd)
            if x is not None:
                x = (T.b_and(g, x[0]), x[1], x[2])
            if x is not None and y is not None:
                out[kd] = (T.b_or(x[0], y[0]), smerge(g, x[1], y[1], self), self.vmerge(g, x[2], y[2]))
            elif x is not None or y is not None:
                out[kd] = x or y
        return {k: v for k, v in out.items() if v[0] is not T.FF}

    def s_switch(self, s):
        v = self.rval(s['c'])
        body = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        # flatten case labels
        flat = []
        for b in body:
            labels = []
            while b['k'] in ('case', 'default'):
                labels.append(b['c'] if b['k'] == 'case' else None)
                b = b['s']
            flat.append((labels, b))
        conds, rest = [], T.TT
        for labels, b in flat:
            c = T.FF
            for l in labels:
                if l is not None:
                    c = T.b_or(c, T.eq(v, self.rval(l)))
            conds.append(c)
            rest = T.b_and(rest, T.b_not(c))
        s0 = self.st
        result = None
        taken = T.FF
        for i, (labels, b) in enumerate(flat):
            if not labels:
                continue
            c = conds[i]
            if None in labels:
                c = T.b_or(c, rest)
            self.st = s0.copy()
            o = self.seq([x for _, x in flat[i:]])
            result = o if result is None else self.join(c, o, result)
            taken = T.b_or(taken, c)
        if result is None:
            return self.done()
        result = self.join(taken, result, {'n': (T.TT, s0, None)}) if taken is not T.TT else result
        if 'brk' in result:
            g, st, _ = result.pop('brk')
            if 'n' in result:
                gn, sn, _ = result['n']
                result['n'] = (T.b_or(g, gn), smerge(g, st, sn, self), None)
            else:
                result['n'] = (g, st, None)
        return result

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get('init'):
            self.exec_plain(s['init'])
        return self.loop(s, s.get('c'), s['body'], s.get('inc'))

    def s_while(self, s):
        return self.loop(s, s['c'], s['body'], None)

    def s_do(self, s):
        # body once, then a while loop
        o = self.exec(s['body'])
        o = self.fold_cont(o)
        out = {k: v for k, v in o.items() if k not in ('n', 'brk')}
        res = []
        if 'n' in o:
            self.st = o['n'][1]
            w = self.loop(s, s['c'], s['body'], None)
            for kd, (g, st, v) in w.items():
                g = T.b_and(o['n'][0], g)
                if kd in out:
                    ga, sa, va = out[kd]
                    out[kd] = (T.b_or(ga, g), smerge(ga, sa, st, self), self.vmerge(ga, va, v))
                else:
                    out[kd] = (g, st, v)
        if 'brk' in o:
            g, st, _ = o['brk']
            if 'n' in out:
                out['n'] = (T.b_or(g, out['n'][0]), smerge(g, st, out['n'][1], self), None)
            else:
                out['n'] = (g, st, None)
        return out

    def fold_cont(self, o):
        if 'cont' in o:
            g, st, _ = o.pop('cont')
            if 'n' in o:
                gn, sn, _ = o['n']
                o['n'] = (T.b_or(g, gn), smerge(g, st, sn, self), None)
            else:
                o['n'] = (g, st, None)
        return o

    def s_rangefor(self, s):
        r = self.place(s['range'])
        v = self.read(r)
        if isinstance(v, T.T) or isinstance(v, NOP) or (isinstance(v, AV) and v.et == 'map'):
            raise Undecided('iteration over %s at %s' % (type(v).__name__, s['l']))
        if isinstance(v, MV):
            n = T.num(len(v.e))
        else:
            n = v.n
        # hidden index
        self.tmp += 1
        key = (self.fr.no, 'ri%d' % self.tmp)
        self.st.vars[key] = T.ZERO
        ref = s['var']['ref']

        def cond():
            return T.lt(self.st.vars[key], n)

        def enter():
            lv = self.elem(r, self.st.vars[key])
            if ref:
                self.fr.refs[s['var']['id']] = lv
            else:
                self.fr.refs.pop(s['var']['id'], None)
                self.st.vars[(self.fr.no, s['var']['id'])] = self.read(lv)
            if s['var'].get('bindings'):
                val = self.read(lv)
                if isinstance(val, SV):
                    for b, nme in zip(s['var']['bindings'], val.f):
                        self.fr.refs[b['id']] = self.field(lv, nme)

        def inc():
            self.st.vars[key] = T.add(self.st.vars[key], T.ONE)
        o = self.loop(s, cond, s['body'], inc, enter)
        return o

    def loop(self, s, c, body, inc, enter=None):
        cond = c if callable(c) else (lambda: self.cond(c)) if c is not None else (lambda: T.TT)
        step = inc if callable(inc) else (lambda: self.expr(inc)) if inc is not None else (lambda: None)
        literal = (not callable(c)) and (c is None or c['k'] in ('bool', 'int'))
        refs = dict(self.fr.refs)

        def iteration():
            """one iteration of a loop that continues: outcomes"""
            self.fr.refs = dict(refs)
            if enter:
                enter()
            o = self.fold_cont(self.exec(body))
            if 'n' in o:
                self.st = o['n'][1]
                step()
                o['n'] = (o['n'][0], self.st, None)
            return o
        if not literal:
            r = self.unroll(cond, iteration)
            if r is not None:
                self.fr.refs = refs
                return r
        try:
            return self.symbolic_loop(s, cond, iteration)
        finally:
            self.fr.refs = refs

    def unroll(self, cond, iteration):
        s0 = self.st
        save = self.st.copy()
        acc, g, n = {}, T.TT, 0
        fin = None
        while True:
            pn = len(self.pend)
            c = cond()
            if len(self.pend) != pn:
                del self.pend[pn:]
                self.st = save
                return None
            if c is T.FF:
                fin = (g, self.st)
                break
            if c is not T.TT or n >= 64:
                self.st = save
                return None
            n += 1
            o = iteration()
            for kd in ('ret', 'thr', 'brk'):
                if kd in o:
                    gk, sk, vk = o[kd]
                    gk = T.b_and(g, gk)
                    if kd in acc:
                        ga, sa, va = acc[kd]
                        acc[kd] = (T.b_or(ga, gk), smerge(ga, sa, sk, self), self.vmerge(ga, va, vk))
                    else:
                        acc[kd] = (gk, sk, vk)
            if 'n' not in o:
                g = T.FF
                break
            g = T.b_and(g, o['n'][0])
            self.st = o['n'][1]
            if g is T.FF:
                break
        if fin is not None:
            acc['n'] = (fin[0], fin[1], None)
        if 'brk' in acc:
            gb, sb, _ = acc.pop('brk')
            if 'n' in acc:
                acc['n'] = (T.b_or(gb, acc['n'][0]), smerge(gb, sb, acc['n'][1], self), None)
            else:
                acc['n'] = (gb, sb, None)
        return acc

    def symbolic_loop(self, s, cond, iteration):
        from .loops import Loop
        return Loop(self, s, cond, iteration).run()


def pointee_type(t):
    k = kind_of(t)
    if k[0] == 'ptr':
        return strip_cv(k[1])
    return strip_cv(t)
