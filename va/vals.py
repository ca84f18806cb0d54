"""Structured abstract values over terms, program states, heaps; merging and traversal."""
from . import terms as T
from .prog import kind_of, strip_cv

KI = [T.atom('fresh_i', 'k%d' % i) for i in range(6)]      # canonical element index symbols by nesting depth
for _k in KI:
    T.INT_FRESH.add(_k)
_hp = {}


def HP(cls):
    return T.atom('hp', cls)


class V:
    __slots__ = ()


class SV(V):
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f


class MV(V):
    __slots__ = ('r', 'c', 'e', 'iso')

    def __init__(self, r, c, e, iso=False):
        self.r, self.c, self.e, self.iso = r, c, tuple(e), iso

    def at(self, i, j=0):
        return self.e[i * self.c + j]


class AV(V):
    """n elements; element at index symbol KI[depth]"""
    __slots__ = ('et', 'n', 'e', 'd')

    def __init__(self, et, n, e):
        self.et, self.n, self.e = et, n, e
        self.d = depth(e)

    @property
    def k(self):
        return KI[self.d]


class IT(V):
    __slots__ = ('lv', 'i')

    def __init__(self, lv, i):
        self.lv, self.i = lv, i


class LV(V):
    """a place: root ('v', key) | ('h', cls, pointer) and access path"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def __eq__(self, o):
        return isinstance(o, LV) and self.root == o.root and self.path == o.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __truediv__(self, x):
        return LV(self.root, self.path + (x,))


class PV(V):
    """pointer to a place that is not a heap object"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class GV(V):
    """gated places or pointers"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FN(V):
    __slots__ = ('node', 'fr', 'bound')

    def __init__(self, node, fr, bound=None):
        self.node, self.fr, self.bound = node, fr, bound


class NOP(V):
    """object without any relevant state (locks, streams, loggers)"""
    __slots__ = ('t',)

    def __init__(self, t=''):
        self.t = t


class Undecided(Exception):
    pass


def depth(v):
    if isinstance(v, AV):
        return v.d + 1
    if isinstance(v, SV):
        return max([depth(x) for x in v.f.values()], default=0)
    return 0


def vmap(f, v):
    """applies f to all leaf terms"""
    if isinstance(v, T.T):
        return f(v)
    if isinstance(v, SV):
        return SV(v.t, {k: vmap(f, x) for k, x in v.f.items()})
    if isinstance(v, MV):
        return MV(v.r, v.c, [f(x) for x in v.e], v.iso)
    if isinstance(v, AV):
        return AV(v.et, f(v.n), vmap(f, v.e))
    if isinstance(v, IT):
        return IT(vmap(f, v.lv), f(v.i))
    if isinstance(v, LV):
        r = v.root
        if r[0] == 'h':
            r = ('h', r[1], f(r[2]))
        return LV(r, tuple((p[0],) + tuple(f(x) if isinstance(x, T.T) else x for x in p[1:]) for p in v.path))
    if isinstance(v, PV):
        return PV(vmap(f, v.lv))
    if isinstance(v, GV):
        return GV(f(v.c), vmap(f, v.a), vmap(f, v.b))
    return v


def vsubst(v, m):
    return vmap(lambda t: T.subst(t, m), v)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, SV):
        return a.f.keys() == b.f.keys() and all(same(x, b.f[k]) for k, x in a.f.items())
    if isinstance(a, MV):
        return a.e == b.e
    if isinstance(a, AV):
        return a.n is b.n and same(a.e, b.e)
    if isinstance(a, IT):
        return a.i is b.i and same(a.lv, b.lv)
    if isinstance(a, LV):
        return a == b
    if isinstance(a, PV):
        return same(a.lv, b.lv)
    if isinstance(a, GV):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, FN):
        return a.node is b.node and a.fr is b.fr
    return isinstance(a, NOP)


def merge(c, a, b):
    """a if c else b"""
    if a is b or c is T.TT:
        return a
    if c is T.FF:
        return b
    if isinstance(a, NOP) or isinstance(b, NOP):
        return a if isinstance(a, NOP) else b
    if isinstance(a, T.T) and isinstance(b, T.T):
        ka, kb = _isbool(a), _isbool(b)
        if ka != kb:
            a, b = T.as_num(a) if ka else a, T.as_num(b) if kb else b
        return T.ite(c, a, b)
    if type(a) is type(b):
        if isinstance(a, SV) and a.f.keys() == b.f.keys():
            return SV(a.t, {k: merge(c, x, b.f[k]) for k, x in a.f.items()})
        if isinstance(a, MV) and len(a.e) == len(b.e):
            return MV(a.r, a.c, [T.ite(c, x, y) for x, y in zip(a.e, b.e)], a.iso)
        if isinstance(a, AV):
            if depth(a.e) == depth(b.e):
                return AV(a.et, T.ite(c, a.n, b.n), merge(c, a.e, b.e))
        if isinstance(a, IT) and same(a.lv, b.lv):
            return IT(a.lv, T.ite(c, a.i, b.i))
        if same(a, b):
            return a
    if isinstance(a, (LV, GV, IT, PV)) or isinstance(b, (LV, GV, IT, PV)):
        return GV(c, a, b)
    if isinstance(a, FN) or isinstance(b, FN):
        return GV(c, a, b)
    raise Undecided('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))


_boolm = {}


def _isbool(t):
    r = _boolm.get(t)
    if r is None:
        r = _boolm[t] = t is T.TT or t is T.FF or (t.k == 'ite' and _isbool(t.a[1]) and _isbool(t.a[2]))
    return r


isbool = _isbool


def gate_at(c, sym, at, new, old):
    """new if c (sym == at) else old, where parts that equal the old value at that place stay as they are"""
    if isinstance(new, T.T) and isinstance(old, T.T):
        if new is old or T.subst(old, {sym: at}) is new:
            return old
        return merge(c, new, old)
    if type(new) is type(old):
        if isinstance(new, SV) and new.f.keys() == old.f.keys():
            return SV(new.t, {k: gate_at(c, sym, at, x, old.f[k]) for k, x in new.f.items()})
        if isinstance(new, MV) and len(new.e) == len(old.e):
            return MV(new.r, new.c, [gate_at(c, sym, at, x, y) for x, y in zip(new.e, old.e)], new.iso)
        if isinstance(new, AV) and depth(new.e) == depth(old.e):
            return AV(new.et, gate_at(c, sym, at, new.n, old.n), gate_at(c, sym, at, new.e, old.e))
    return merge(c, new, old)


def leaves(v, path=(), idx=()):
    """(path, index symbols in scope, term)"""
    if isinstance(v, T.T):
        yield path, idx, v
    elif isinstance(v, SV):
        for k, x in v.f.items():
            yield from leaves(x, path + (k,), idx)
    elif isinstance(v, MV):
        for i, x in enumerate(v.e):
            yield path + (i,), idx, x
    elif isinstance(v, AV):
        yield path + ('#',), idx, v.n
        yield from leaves(v.e, path + ('[]',), idx + (v.k,))
    elif isinstance(v, IT):
        yield path + ('@',), idx, v.i


def setleaf(v, path, t):
    if not path:
        return t
    p, rest = path[0], path[1:]
    if isinstance(v, SV):
        f = dict(v.f)
        f[p] = setleaf(f[p], rest, t)
        return SV(v.t, f)
    if isinstance(v, MV):
        e = list(v.e)
        e[p] = t
        return MV(v.r, v.c, e, v.iso)
    if isinstance(v, AV):
        return AV(v.et, t, v.e) if p == '#' else AV(v.et, v.n, setleaf(v.e, rest, t))
    if isinstance(v, IT):
        return IT(v.lv, t)
    raise Undecided('leaf')


def getleaf(v, path):
    for p in path:
        if isinstance(v, SV):
            v = v.f[p]
        elif isinstance(v, MV):
            v = v.e[p]
        elif isinstance(v, AV):
            v = v.n if p == '#' else v.e
        elif isinstance(v, IT):
            v = v.i
        else:
            raise Undecided('leaf')
    return v


# ---------------------------------------------------------------- heap
class Heap:
    """objects of one class: template over HP(cls), newest overlay entries first"""
    __slots__ = ('cls', 'tmpl', 'over')

    def __init__(self, cls, tmpl, over=()):
        self.cls, self.tmpl, self.over = cls, tmpl, over

    def read(self, q):
        if q.k == 'ite':
            return merge(T._mk('ite', (q.a[0], T.TT, T.FF)), self.read(q.a[1]), self.read(q.a[2]))
        conds = []
        base = None
        for p, v in self.over:
            c = T.eq(p, q)
            if c is T.TT:
                base = v
                break
            if c is not T.FF:
                conds.append((c, v))
        if base is None:
            base = vsubst(self.tmpl, {HP(self.cls): q})
        for c, v in reversed(conds):
            base = merge(c, v, base)
        return base

    def write(self, q, v):
        if q.k == 'ite':
            c = T._mk('ite', (q.a[0], T.TT, T.FF))
            a, b = self.write(q.a[1], v), self.write(q.a[2], v)
            return hmerge(c, a, b)
        over = self.over
        if over and over[0][0] is q:
            over = over[1:]
        elif any(p is q for p, _ in over) and all(T.eq(p, q) in (T.FF, T.TT) for p, _ in over):
            over = tuple((p, v if p is q else w) for p, w in over)
            return Heap(self.cls, self.tmpl, over)
        return Heap(self.cls, self.tmpl, ((q, v),) + over)

    def flat(self):
        hp = HP(self.cls)
        t = self.tmpl
        for p, v in reversed(self.over):
            t = gate_at(T.eq(hp, p), hp, p, v, t)
        return t


def hmerge(c, a, b):
    if a is b:
        return a
    if a.tmpl is not b.tmpl and not same(a.tmpl, b.tmpl):
        return Heap(a.cls, merge(c, a.flat(), b.flat()))
    pre = 0
    while pre < len(a.over) and pre < len(b.over) and a.over[-1 - pre][0] is b.over[-1 - pre][0] \
            and same(a.over[-1 - pre][1], b.over[-1 - pre][1]):
        pre += 1
    keys = []
    for o in (a, b):
        for p, _ in (o.over[:len(o.over) - pre] if pre else o.over):
            if p not in keys:
                keys.append(p)
    tail = a.over[len(a.over) - pre:] if pre else ()
    return Heap(a.cls, a.tmpl, tuple((p, merge(c, a.read(p), b.read(p))) for p in keys) + tail)


class St:
    __slots__ = ('vars', 'heap', 'alloc')

    def __init__(self):
        self.vars, self.heap, self.alloc = {}, {}, T.ZERO

    def copy(self):
        s = St()
        s.vars, s.heap, s.alloc = dict(self.vars), dict(self.heap), self.alloc
        return s

    def become(self, o):
        self.vars, self.heap, self.alloc = o.vars, o.heap, o.alloc


def smerge(c, a, b, ev):
    if a is b or c is T.TT:
        return a
    if c is T.FF:
        return b
    s = St()
    for k, x in a.vars.items():
        if k in b.vars:
            s.vars[k] = merge(c, x, b.vars[k])
    for k in set(a.heap) | set(b.heap):
        x, y = a.heap.get(k), b.heap.get(k)
        if x is None:
            x = ev.new_heap(k)
        if y is None:
            y = ev.new_heap(k)
        s.heap[k] = hmerge(c, x, y)
    s.alloc = T.ite(c, a.alloc, b.alloc)
    return s
