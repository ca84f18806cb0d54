"""Meaning of the standard library, Eigen and ROS operations that the repository uses; everything else is an
uninterpreted function of its arguments and of the state of the object it is called on."""
from fractions import Fraction as Fr
from . import terms as T
from .vals import (AV, FN, GV, HP, IT, KI, LV, MV, NOP, PV, SV, Undecided, V, depth, gate_at, isbool, leaves, merge, same, vmap, vsubst)
from .prog import REPO, VERIF, kind_of, split_targs, strip_cv

PI_D = Fr('3.14159265358979323846264338327950288')
MAPEND = T.atom('mapend')
MAYTHROW = {'lookupTransform', 'transform'}

NOPS = ('std::mutex', 'std::recursive_mutex', 'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::random_device',
        'std::mersenne_twister_engine', 'std::basic_ostream', 'std::thread', 'rclcpp::Logger', 'std::chrono::duration',
        'std::chrono::time_point', 'std::allocator', 'std::shared_mutex', 'std::shared_lock', 'std::condition_variable',
        'std::_Placeholder', 'std::defer_lock_t')


def is_nop(t):
    return split_targs(strip_cv(t))[0] in NOPS


def is_plain_record(name):
    """data-only stand-ins: messages"""
    return '::msg::' in name or '::srv::' in name


class Comma(V):
    __slots__ = ('lv', 'i')

    def __init__(self, lv, i):
        self.lv, self.i = lv, i


def constant(v):
    for q in (Fr(1), Fr(2), Fr(1, 2), Fr(1, 4), Fr(3, 2), Fr(-1)):
        if abs(v - q * PI_D) < Fr(1, 10**9):
            return T.mul(T.num(q), T.PIN)
    if v > Fr(10)**300:
        return T.atom_num(T.atom('DBLMAX'))
    return T.num(v)


T.SIGN[T.atom('DBLMAX')] = 'pos'
T.SIGN[T.atom('DBLMIN')] = 'pos'
T.SIGN[T.atom('INF')] = 'pos'
T.SIGN[T.atom('EPS')] = 'pos'


def scalar(ev, v):
    if isinstance(v, (LV, GV)):
        v = ev.read(v)
    if isinstance(v, MV) and len(v.e) == 1:
        v = v.e[0]
    if isinstance(v, T.T):
        return v
    raise Undecided('scalar expected at ' + ev.loc + ' ' + type(v).__name__)


def isptr(t):
    if t.k == 'ite':
        return isptr(t.a[1]) or isptr(t.a[2])
    return t.k == 'at' and (t.a[0] in ('new', 'null') or t.a[-1] == 'ptr')


def equal(ev, a, b):
    if isinstance(a, GV):
        return T.ite(a.c, equal(ev, a.a, b), equal(ev, a.b, b))
    if isinstance(b, GV):
        return equal(ev, b, a)
    if isinstance(a, IT) and isinstance(b, IT):
        if b.i is MAPEND and a.i is MAPEND:
            return T.TT
        if b.i is MAPEND:
            return T.b_not(haskey(ev, a))
        if a.i is MAPEND:
            return T.b_not(haskey(ev, b))
        return T.eq(a.i, b.i)
    if isinstance(a, PV) and isinstance(b, PV):
        return T.TT if same(a, b) else T.FF
    if isinstance(a, PV) or isinstance(b, PV):
        o = b if isinstance(a, PV) else a
        p = a if isinstance(a, PV) else b
        if isinstance(o, T.T) and isinstance(p.lv, LV) and p.lv.root[0] == 'h' and not p.lv.path:
            return T.eq(o, p.lv.root[2])
        return T.FF
    if isinstance(a, MV) and isinstance(b, MV) and len(a.e) == len(b.e):
        r = T.TT
        for x, y in zip(a.e, b.e):
            r = T.b_and(r, T.eq(x, y))
        return r
    if isinstance(a, T.T) and isinstance(b, T.T):
        if isbool(a) and isbool(b):
            return T.ite(a, b, T.b_not(b))
        return T.eq(a, b)
    if isinstance(a, SV) and isinstance(b, SV) and a.f.keys() == b.f.keys():
        r = T.TT
        for k in a.f:
            r = T.b_and(r, equal(ev, a.f[k], b.f[k]))
        return r
    raise Undecided('comparison at ' + ev.loc)


def haskey(ev, it):
    return ev.read(it.lv / ('i', it.i) / ('f', 'has', 'bool'))


def advance(ev, v, d):
    if isinstance(v, IT):
        return IT(v.lv, T.add(v.i, d))
    if isinstance(v, PV):
        return PV(ev.offset(v.lv, d))
    if isinstance(v, GV):
        return GV(v.c, advance(ev, v.a, d), advance(ev, v.b, d))
    return T.add(T.as_num(v) if isbool(v) else v, d)


def ptr_arith(ev, op, a, b):
    if isinstance(a, PV) and isinstance(a.lv, LV) and a.lv.path and a.lv.path[-1][0] == 'i':
        ia = IT(LV(a.lv.root, a.lv.path[:-1]), a.lv.path[-1][1])
        r = ptr_arith(ev, op, ia, IT(LV(b.lv.root, b.lv.path[:-1]), b.lv.path[-1][1]) if isinstance(b, PV) else b)
        return PV(r.lv / ('i', r.i)) if isinstance(r, IT) else r
    if isinstance(a, IT) and isinstance(b, IT):
        d = T.sub(a.i, b.i)
        if op == '-':
            return d
        if op in ('<', '>', '<=', '>='):
            return {'<': T.lt(a.i, b.i), '>': T.lt(b.i, a.i), '<=': T.le(a.i, b.i), '>=': T.le(b.i, a.i)}[op]
    if isinstance(a, IT) and isinstance(b, T.T):
        if op == '+':
            return IT(a.lv, T.add(a.i, b))
        if op == '-':
            return IT(a.lv, T.sub(a.i, b))
    if isinstance(b, IT) and op == '+':
        return IT(b.lv, T.add(b.i, a))
    raise Undecided('pointer arithmetic at ' + ev.loc)


# ---------------------------------------------------------------- matrices
def mm(a, b):
    d = a.r - 1
    if a.iso and not b.iso and b.r == d and b.c == 1:
        return MV(d, 1, [T.add(dot([a.at(i, j) for j in range(d)], list(b.e)), a.at(i, d)) for i in range(d)])
    if a.c != b.r:
        raise Undecided('matrix product')
    return MV(a.r, b.c, [dot([a.at(i, k) for k in range(a.c)], [b.at(k, j) for k in range(a.c)]) for i in range(a.r) for j in range(b.c)],
              a.iso and b.iso)


def dot(a, b):
    r = T.ZERO
    for x, y in zip(a, b):
        r = T.add(r, T.mul(x, y))
    return r


def det(m):
    if m.r == 1:
        return m.e[0]
    if m.r == 2:
        return T.sub(T.mul(m.at(0, 0), m.at(1, 1)), T.mul(m.at(0, 1), m.at(1, 0)))
    r = T.ZERO
    for j in range(m.c):
        x = T.mul(m.at(0, j), det(minor(m, 0, j)))
        r = T.add(r, x) if j % 2 == 0 else T.sub(r, x)
    return r


def minor(m, i, j):
    return MV(m.r - 1, m.c - 1, [m.at(a, b) for a in range(m.r) if a != i for b in range(m.c) if b != j])


def inverse(m):
    if m.iso:
        n = m.r - 1
        rt = [[m.at(j, i) for j in range(n)] for i in range(n)]
        t = [m.at(i, n) for i in range(n)]
        rows = []
        for i in range(n):
            rows += rt[i] + [T.neg(dot(rt[i], t))]
        return MV(n + 1, n + 1, rows + [T.ZERO] * n + [T.ONE], True)
    d = det(m)
    if m.r == 2:
        return MV(2, 2, [T.div(m.at(1, 1), d), T.div(T.neg(m.at(0, 1)), d), T.div(T.neg(m.at(1, 0)), d), T.div(m.at(0, 0), d)])
    out = []
    for i in range(m.r):
        for j in range(m.c):
            x = T.div(det(minor(m, j, i)), d)
            out.append(x if (i + j) % 2 == 0 else T.neg(x))
    return MV(m.r, m.c, out)


def transpose(m):
    return MV(m.c, m.r, [m.at(j, i) for i in range(m.c) for j in range(m.r)])


def ew(f, a, b):
    if len(a.e) != len(b.e):
        raise Undecided('matrix sizes')
    return MV(a.r, a.c, [f(x, y) for x, y in zip(a.e, b.e)])


def eye(n, iso=False):
    return MV(n, n, [T.ONE if i == j else T.ZERO for i in range(n) for j in range(n)], iso)


def chol_upper(m):
    """U with U^T U = m"""
    n = m.r
    u = [[T.ZERO] * n for _ in range(n)]
    for i in range(n):
        s = m.at(i, i)
        for k in range(i):
            s = T.sub(s, T.mul(u[k][i], u[k][i]))
        u[i][i] = T.sqrt(s)
        for j in range(i + 1, n):
            s = m.at(i, j) if j >= i else m.at(j, i)
            s = m.at(j, i)
            for k in range(i):
                s = T.sub(s, T.mul(u[k][i], u[k][j]))
            u[i][j] = T.div(s, u[i][i])
    return MV(n, n, [u[i][j] for i in range(n) for j in range(n)])


def iso_of(r, t):
    rows, n = [], r.r
    for i in range(n):
        rows += [r.at(i, j) for j in range(n)] + [t[i]]
    return MV(n + 1, n + 1, rows + [T.ZERO] * n + [T.ONE], True)


def angle_axis(angle, axis):
    x, y, z = axis.e
    c, s = T.cos(angle), T.sin(angle)
    v = T.sub(T.ONE, c)

    def m(a, b, w):
        return T.add(T.mul(T.mul(a, b), v), w)
    return MV(3, 3, [m(x, x, c), m(x, y, T.neg(T.mul(z, s))), m(x, z, T.mul(y, s)),
                     m(x, y, T.mul(z, s)), m(y, y, c), m(y, z, T.neg(T.mul(x, s))),
                     m(x, z, T.neg(T.mul(y, s))), m(y, z, T.mul(x, s)), m(z, z, c)])


def matop(ev, op, a, b):
    if isinstance(a, SV) and a.t == 'translation':
        n = a.f['v'].r
        if isinstance(b, MV) and b.iso:
            return mm(iso_of(eye(n), a.f['v'].e), b)
        if isinstance(b, MV) and b.r == n and b.c == n:
            return iso_of(b, a.f['v'].e)
        if isinstance(b, SV) and b.t == 'translation':
            return SV('translation', {'v': ew(T.add, a.f['v'], b.f['v'])})
        if isinstance(b, MV) and b.r == n:
            return ew(T.add, a.f['v'], b)
    if isinstance(b, SV) and b.t == 'translation' and isinstance(a, MV):
        if a.iso:
            return mm(a, iso_of(eye(a.r - 1), b.f['v'].e))
        return iso_of(a, mm(a, b.f['v']).e)
    am, bm = isinstance(a, MV), isinstance(b, MV)
    if am and bm:
        if op == '*':
            if len(a.e) == 1 and a.c != b.r:
                return matop(ev, op, a.e[0], b)
            if len(b.e) == 1 and a.c != b.r:
                return matop(ev, op, a, b.e[0])
            if a.iso and not b.iso and b.r == a.r - 1 and b.c == b.r:
                return mm(a, iso_of(b, [T.ZERO] * b.r))
            if b.iso and not a.iso and a.r == b.r - 1 and a.c == a.r:
                return mm(iso_of(a, [T.ZERO] * a.r), b)
            return mm(a, b)
        if op in '+-':
            return ew(T.add if op == '+' else T.sub, a, b)
    if am and isinstance(b, T.T):
        if op == '*':
            return MV(a.r, a.c, [T.mul(x, b) for x in a.e])
        if op == '/':
            return MV(a.r, a.c, [T.div(x, b) for x in a.e])
        if len(a.e) == 1:
            return {'+': T.add, '-': T.sub}[op](a.e[0], b)
    if bm and isinstance(a, T.T):
        if op == '*':
            return MV(b.r, b.c, [T.mul(a, x) for x in b.e])
        if len(b.e) == 1:
            return {'+': T.add, '-': T.sub, '/': T.div}[op](a, b.e[0])
    raise Undecided('matrix operation %s at %s' % (op, ev.loc))


# ---------------------------------------------------------------- uninterpreted calls
def to_term(ev, v, t='?', d=3):
    if isinstance(v, T.T):
        if isptr(v) and d > 0:
            k = kind_of(t)
            cls = strip_cv(k[1]) if k[0] == 'ptr' else None
            if cls and ev.rec(cls) is not None and not ev.is_opaque(cls):
                return to_term(ev, ev.read(ev.pointee(v, cls)), cls, d - 1)
            if v.k == 'at' and v.a[0] == 'new':
                return to_term(ev, ev.read(ev.pointee(v, v.a[1])), v.a[1], d - 1)
        return v
    if isinstance(v, SV):
        ft = {x['name']: x['t'] for x in ev.fields(v.t)} if ev.rec(v.t) else {}
        return T.tup(*[to_term(ev, x, ft.get(n, '?'), d) for n, x in v.f.items() if not isinstance(x, NOP)])
    if isinstance(v, MV):
        return T.tup(*v.e)
    if isinstance(v, AV):
        e = to_term(ev, v.e, v.et, d)
        return T.atom('arr', v.n, T.lam([v.k], T.ite(T.lt(T.atom_num(v.k), v.n), e, T.ZERO) if e.k in ('num', 'ite') else e))
    if isinstance(v, IT):
        c = ev.read(v.lv)
        return T.tup(to_term(ev, c, '?', d), v.i)
    if isinstance(v, PV):
        return T.tup(T.string('&'), addr(v.lv))
    if isinstance(v, GV):
        return T.ite(v.c, to_term(ev, v.a, t, d), to_term(ev, v.b, t, d))
    if isinstance(v, LV):
        return to_term(ev, ev.read(v), t, d)
    if isinstance(v, NOP):
        return T.string('')
    if isinstance(v, FN):
        return T.string(v.node.get('q') or 'lambda')
    raise Undecided('argument')


def addr(lv):
    if isinstance(lv, GV):
        return T.ite(lv.c, addr(lv.a), addr(lv.b))
    r = lv.root
    parts = [r[2]] if r[0] == 'h' else [T.string('local')]
    for p in lv.path:
        parts.append(T.tup(*[x if isinstance(x, T.T) else T.string(str(x)) for x in p[:2 if p[0] == 'f' else None]]))
    return T.tup(*parts)


def arg_terms(ev, vals, types):
    out, i = [], 0
    while i < len(vals):
        a = vals[i]
        v = ev.read(a) if isinstance(a, (LV, GV)) else a
        if i + 1 < len(vals):
            b = vals[i + 1]
            w = ev.read(b) if isinstance(b, (LV, GV)) else b
            if isinstance(v, IT) and isinstance(w, IT) and same(v.lv, w.lv):
                out.append(to_term(ev, range_av(ev, v, w)))
                i += 2
                continue
        if isinstance(v, PV) and not isinstance(a, T.T):
            w = None
            try:
                w = ev.read(v.lv)
            except Undecided:
                pass
            out.append(to_term(ev, v) if w is None or isinstance(w, T.T) else to_term(ev, w))
        else:
            out.append(to_term(ev, v, types[i] if i < len(types) else '?'))
        i += 1
    return out


def range_av(ev, a, b):
    c = ev.read(a.lv)
    return AV(c.et, T.sub(b.i, a.i), vsubst(c.e, {c.k: T.add(T.atom_num(c.k), a.i)}))


def uninterpreted(ev, name, obj, e, args, const=True):
    """result of an unknown call; obj is its place or None"""
    vals, types = [], []
    for a in args:
        types.append(a['t'])
        v = ev.expr(a)
        vals.append(v)
    at = arg_terms(ev, vals, types)
    ev.callq.setdefault(name, set()).add(e.get('q') or '')
    ov = None
    if obj is not None:
        ov = ev.read(obj)
    ot = to_term(ev, ov, strip_cv(e.get('ot', '?'))) if ov is not None and not isinstance(ov, NOP) else T.string('')
    root = T.atom('call', name, ot, tuple(at), '')
    if name in MAYTHROW:
        c = T.ite(T.atom('throws', root), T.TT, T.FF)
        ev.pend.append((c, ev.st.copy(), T.string('exception')))
    pm = e.get('pm') or []
    if split_targs(strip_cv(e.get('ot', '?')))[0] in ev.constargs:
        pm = []
    for i, m in enumerate(pm):
        if i >= len(vals):
            break
        tgt, tt = None, None
        if m == 1 and isinstance(vals[i], (LV, GV)):
            tgt, tt = vals[i], types[i]
        elif m == 2:
            pt = kind_of(types[i])
            v = ev.read(vals[i]) if isinstance(vals[i], (LV, GV)) else vals[i]
            if pt[0] == 'ptr' and not pt[1].strip().startswith('const') and not (isinstance(v, T.T) and v is T.NULL) and not isinstance(v, FN):
                if isinstance(v, PV) and isinstance(kind_of(pt[1]), tuple) and kind_of(pt[1])[0] == 'real':
                    continue      # address kept by the callee
                if isinstance(v, T.T) and not isptr(v):
                    continue
                tgt, tt = ev.pointee(v, pt[1]), strip_cv(pt[1])
        if tgt is not None:
            cur = ev.read(tgt)
            if isinstance(cur, NOP):
                continue
            new = ev.symbolic(tt, T.atom('out', name, ot, tuple(at), i, ''))
            if isinstance(cur, SV) and (not isinstance(new, SV) or cur.f.keys() != new.f.keys()):
                new = ev.symbolic(cur.t, T.atom('out', name, ot, tuple(at), i, ''))
            ev.write(tgt, new)
    if obj is not None and not const and not isinstance(ov, NOP):
        if isinstance(ov, T.T):
            ev.write(obj, T.atom('st', name, ot, tuple(at)))
        elif isinstance(ov, SV) and not is_plain_record(ov.t):
            ev.write(obj, ev.symbolic(ov.t, T.atom('st', name, ot, tuple(at))))
    t = e['t']
    if kind_of(t)[0] == 'void':
        return T.ZERO
    return ev.symbolic(t, root)


def opaque_field(ev, v, name, t):
    x = v
    while x.k == 'at' and x.a[0] == 'setf':
        if x.a[2] == name:
            return x.a[3]
        x = x.a[1]
    return ev.symbolic(t, v, '.' + name)


def opaque_set(ev, v, name, x):
    return T.atom('setf', v, name, to_term(ev, x))


# ---------------------------------------------------------------- constructors
def ctor_for(ev, cls, nargs, argts=()):
    r = ev.rec(cls)
    best = None
    if r is not None:
        for m in r['methods']:
            f = ev.p.funcs.get(m['f'])
            if f is None or not f.get('ctor'):
                continue
            need = sum(1 for p in f['params'] if not p.get('def'))
            if need <= nargs <= len(f['params']):
                if nargs == 1 and strip_cv(f['params'][0]['t']) == cls:
                    continue
                score = sum(1 for p, a in zip(f['params'], argts) if kind_of(p['t'])[0] == kind_of(a)[0])
                if best is None or score > best[0]:
                    best = (score, f)
    return best[1] if best else None


def make_object(ev, cls, args):
    k = kind_of(cls)
    if k[0] == 'rec' and not ev.is_opaque(cls) and not is_nop(cls):
        if len(args) == 1 and strip_cv(args[0]['t']) == cls:
            return ev.rval(args[0])
        f = ctor_for(ev, cls, len(args), [a['t'] for a in args])
        if f is not None:
            return ev.construct(cls, f['f'], args)
        if not args:
            return ev.default(cls, True)
        raise Undecided('constructor of ' + cls)
    return construct(ev, {'a': args, 't': cls, 'l': ev.loc, 'f': ''}, cls, k)


def construct(ev, e, t, k):
    a = e['a']
    if t == 'ceres::Problem':
        return ev.default(t)
    if k[0] == 'vec':
        if not a:
            return ev.default(t)
        v = [ev.rval(x) for x in a]
        if isinstance(v[0], AV):
            return v[0]
        if len(v) >= 2 and isinstance(v[0], IT) and isinstance(v[1], IT):
            return AV(k[1], T.sub(v[1].i, v[0].i), range_av(ev, v[0], v[1]).e)
        if isinstance(v[0], T.T):
            if len(v) >= 2 and not isinstance(v[1], NOP):
                return AV(k[1], v[0], v[1])
            return AV(k[1], v[0], ev.default(k[1], True))
        if isinstance(v[0], NOP):
            return ev.default(t)
        raise Undecided('vector constructor at ' + e['l'])
    if k[0] == 'ptr':
        if not a:
            return T.NULL
        return ev.rval(a[0])
    if k[0] == 'mat':
        v = [ev.rval(x) for x in a]
        if not v:
            return ev.default(t)
        if len(v) == 1:
            if isinstance(v[0], MV):
                return MV(k[1], k[2], v[0].e) if len(v[0].e) == k[1] * k[2] else v[0]
            if isinstance(v[0], SV) and v[0].t == 'diag':
                d = v[0].f['v'].e
                n = len(d)
                return MV(n, n, [d[i] if i == j else T.ZERO for i in range(n) for j in range(n)])
            if isinstance(v[0], PV) or isinstance(v[0], AV):
                src = v[0]
                out = []
                for i in range(k[1] * k[2]):
                    out.append(ev.read(ev.offset(src.lv, T.num(i))) if isinstance(src, PV) else ev.sub(src, ('i', T.num(i))))
                return MV(k[1], k[2], out)
        if len(v) == k[1] * k[2] and all(isinstance(x, T.T) for x in v):
            return MV(k[1], k[2], v)
        raise Undecided('matrix constructor at ' + e['l'])
    if k[0] == 'iso':
        if not a:
            return ev.default(t)
        v = ev.rval(a[0])
        if isinstance(v, SV) and v.t == 'translation':
            return iso_of(eye(k[1]), v.f['v'].e)
        if isinstance(v, MV):
            if v.iso:
                return v
            if v.r == k[1] and v.c == k[1]:
                return iso_of(v, [T.ZERO] * k[1])
        raise Undecided('transform at ' + e['l'])
    if k[0] == 'str':
        return ev.rval(a[0]) if a and not (a[0]['k'] == 'null') else T.string('')
    if k[0] in ('real', 'int', 'bool'):
        return ev.conv(ev.rval(a[0]), t) if a else ev.zero(t)
    if k[0] == 'atomic':
        return ev.conv(ev.rval(a[0]), k[1]) if a else ev.default(k[1], True)
    if k[0] == 'pair':
        v = [ev.rval(x) for x in a]
        if len(v) == 2:
            return SV('pair', {'first': v[0], 'second': v[1]})
        if len(v) == 1 and isinstance(v[0], SV):
            return v[0]
        return ev.default(t)
    if k[0] == 'map' and not a:
        return ev.default(t)
    if k[0] == 'arr':
        return ev.default(t, True)
    b, targs = split_targs(t)
    if b == 'Eigen::Translation':
        v = [ev.rval(x) for x in a]
        if len(v) == 1 and isinstance(v[0], MV):
            return SV('translation', {'v': v[0]})
        return SV('translation', {'v': MV(len(v), 1, [scalar(ev, x) for x in v])})
    if b == 'Eigen::Rotation2D' and len(a) == 1:
        v = ev.rval(a[0])
        if isinstance(v, MV):
            return v
        v = T.as_num(v) if isbool(v) else v
        return MV(2, 2, [T.cos(v), T.neg(T.sin(v)), T.sin(v), T.cos(v)])
    if b == 'Eigen::AngleAxis':
        v = [ev.rval(x) for x in a]
        return angle_axis(scalar(ev, v[0]), v[1])
    if b == 'Eigen::EigenSolver' or b == 'Eigen::SelfAdjointEigenSolver':
        return SV('eigen', {'m': ev.rval(a[0]), 's': T.TT if b.startswith('Eigen::Self') else T.FF})
    if b in ('Eigen::LLT',):
        return SV('llt', {'m': ev.rval(a[0])})
    if b == 'Eigen::Map':
        p = ev.rval(a[0])
        kk = kind_of(strip_cv(targs[0]))
        return SV('map', {'p': p, 'r': T.num(kk[1]), 'c': T.num(kk[2])})
    if b == 'std::normal_distribution':
        v = [ev.rval(x) for x in a]
        return SV('normal', {'mean': v[0] if v else T.ZERO, 'sigma': v[1] if len(v) > 1 else T.ONE, 'n': T.ZERO, 'd': T.num(ev.loopdepth)})
    if b in ('std::uniform_real_distribution', 'std::uniform_int_distribution'):
        v = [ev.rval(x) for x in a]
        return SV('uniform', {'mean': v[0] if v else T.ZERO, 'sigma': v[1] if len(v) > 1 else T.ONE, 'n': T.ZERO})
    if b == 'std::discrete_distribution':
        v = [ev.rval(x) for x in a]
        if len(v) == 2 and isinstance(v[0], IT):
            return SV('discrete', {'w': to_term(ev, range_av(ev, v[0], v[1])), 'm': T.sub(v[1].i, v[0].i), 'n': T.ZERO})
    if b == '__gnu_cxx::__normal_iterator' or 'iterator' in b:
        return ev.rval(a[0])
    if b == 'std::function' or 'lambda' in b:
        return ev.rval(a[0])
    if b == 'std::initializer_list':
        return ev.rval(a[0])
    if b.startswith('Eigen::'):
        v = [ev.rval(x) for x in a]
        if len(v) == 1 and isinstance(v[0], (MV, SV)):
            return v[0]
    if b.startswith('std::allocator') or b.startswith('std::default_delete'):
        return NOP(t)
    if ev.is_opaque(t):
        if not a:
            return T.atom('obj0', t)
        vals = [ev.expr(x) for x in a]
        if len(vals) == 1:
            v = ev.read(vals[0]) if isinstance(vals[0], (LV, GV)) else vals[0]
            if strip_cv(a[0]['t']) == t and isinstance(v, T.T):
                return v
        at = arg_terms(ev, vals, [x['t'] for x in a])
        return T.atom('call', 'new ' + t, T.string(''), tuple(at), '')
    raise Undecided('constructor of %s at %s' % (t, e['l']))


# ---------------------------------------------------------------- operators
def deref_map(ev, v):
    if isinstance(v, SV) and v.t == 'map' and 'p' in v.f:
        n = int(T.const(v.f['r'])) * int(T.const(v.f['c']))
        return MV(int(T.const(v.f['r'])), int(T.const(v.f['c'])), [ev.read(ev.offset(v.f['p'].lv, T.num(i))) for i in range(n)])
    return v


def set_map(ev, v, x, path=()):
    m = deref_map(ev, v)
    m = ev.upd(m, path, x) if path else x
    for i, y in enumerate(m.e):
        ev.write(ev.offset(v.f['p'].lv, T.num(i)), y)


def val(ev, a):
    return deref_map(ev, ev.rval(a))


def operator(ev, e):
    op, a = e['op'], e['a']
    if op == '=':
        x = val(ev, a[1])
        lv = ev.place(a[0])
        cur = None
        if isinstance(lv, LV):
            try:
                cur = ev.read(lv)
            except Undecided:
                cur = None
        if isinstance(cur, SV) and cur.t == 'map' and 'p' in cur.f:
            set_map(ev, cur, x)
            return lv
        if isinstance(cur, SV) and cur.t == 'blkref':
            write_blk(ev, cur, x)
            return lv
        if isinstance(x, SV) and x.t == 'diag':
            x = construct(ev, {'a': [], 'l': e['l']}, '', ('none',)) if False else diag(x)
        ev.write(lv, ev.conv(x, a[0]['t']) if not isinstance(cur, MV) else ev.shape(x, cur))
        return lv
    if op in ('+=', '-=', '*=', '/='):
        lv = ev.place(a[0])
        cur = ev.read(lv)
        y = val(ev, a[1])
        if isinstance(cur, SV) and cur.t == 'map' and 'p' in cur.f:
            set_map(ev, cur, binary(ev, op[0], deref_map(ev, cur), y, e))
            return lv
        if isinstance(cur, SV) and cur.t == 'blkref':
            write_blk(ev, cur, binary(ev, op[0], read_blk(ev, cur), y, e))
            return lv
        ev.write(lv, binary(ev, op[0], cur, y, e))
        return lv
    if op == '[]':
        b = ev.place(a[0])
        v = ev.read(b)
        if isinstance(v, SV) and v.t == 'map' and 'p' in v.f:
            return ev.offset(v.f['p'].lv, ev.num(a[1]))
        if isinstance(v, AV) and v.et == 'map':
            key = ev.num(a[1])
            el = b / ('i', key)
            has = ev.read(el / ('f', 'has', 'bool'))
            kt = kind_of(a[0]['t'])
            old = ev.read(el / ('f', 'second', ''))
            ev.write(el / ('f', 'second', ''), merge(has, old, ev.default(kt[2], True)))
            ev.write(el / ('f', 'has', 'bool'), T.TT)
            return el / ('f', 'second', '')
        if isinstance(v, IT):
            return ev.elem(v.lv, T.add(v.i, ev.num(a[1])))
        if isinstance(v, PV):
            return ev.offset(v.lv, ev.num(a[1]))
        if isinstance(v, AV):
            return ev.elem(b, ev.num(a[1]))
        if isinstance(v, MV):
            return b / ('m', ev.num(a[1]), T.ZERO) if v.c == 1 else b / ('m', T.ZERO, ev.num(a[1]))
        if isinstance(v, T.T) and kind_of(a[0]['t'])[0] == 'ptr':     # unique_ptr<T[]>
            return ev.elem(ev.pointee(v, kind_of(a[0]['t'])[1]), ev.num(a[1]))
        return uninterpreted(ev, 'operator[]', b, e, a[1:])
    if op == '()':
        b = ev.place(a[0])
        v = ev.read(b)
        if isinstance(v, SV) and v.t == 'map' and 'p' in v.f:
            i = ev.num(a[1])
            j = ev.num(a[2]) if len(a) > 2 else T.ZERO
            return ev.offset(v.f['p'].lv, T.add(T.mul(j, v.f['r']), i))
        if isinstance(v, MV):
            i = ev.num(a[1])
            if len(a) > 2:
                return b / ('m', i, ev.num(a[2]))
            return b / ('m', i, T.ZERO) if v.c == 1 else b / ('m', T.ZERO, i)
        if isinstance(v, SV) and v.t in ('normal', 'uniform', 'discrete'):
            n = v.f['n']
            if 'd' in v.f and v.f['d'] is not T.ZERO:
                raise Undecided('distribution constructed in a loop, used at ' + e['l'])
            f = dict(v.f)
            f['n'] = T.add(n, T.ONE)
            ev.write(b, SV(v.t, f))
            if v.t == 'discrete':
                return T.lift(lambda m: T.atom_num(T.atom('pick', v.f['w'], v.f['m'], m)), n)
            return T.lift(lambda x, y, m: T.atom_num(T.atom('draw', v.t, T.as_num(x), T.as_num(y), m)), v.f['mean'], v.f['sigma'], n)
        if isinstance(v, (FN,)):
            return ev.call_fn(v, [ev.expr(x) for x in a[1:]])
        return uninterpreted(ev, 'operator()', b, e, a[1:], e.get('mconst', True))
    if op == '*' and len(a) == 1:
        v = ev.rval(a[0])
        return ev.pointee(v, kind_of(a[0]['t'])[1] if kind_of(a[0]['t'])[0] == 'ptr' else e['t'])
    if op == '->':
        v = ev.rval(a[0])
        if isinstance(v, IT):
            return PV(ev.elem(v.lv, v.i))
        return v
    if op in ('++', '--'):
        lv = ev.place(a[0])
        old = ev.read(lv)
        ev.write(lv, advance(ev, old, T.ONE if op == '++' else T.num(-1)))
        return old if len(a) > 1 else lv
    if op == '!':
        return T.b_not(ev.cond(a[0]))
    if op == '-' and len(a) == 1:
        v = val(ev, a[0])
        return MV(v.r, v.c, [T.neg(x) for x in v.e]) if isinstance(v, MV) else T.neg(v)
    if op == '<<':
        b = ev.expr(a[0])
        v = ev.read(b) if isinstance(b, (LV, GV)) else b
        if isinstance(v, NOP):
            for x in a[1:]:
                if x['k'] not in ('ref', 'str'):
                    ev.expr(x)
            return v
        if isinstance(v, MV):
            c = Comma(b, 0)
            return comma(ev, c, ev.rval(a[1]))
    if op == ',':
        c = ev.expr(a[0])
        if isinstance(c, Comma):
            return comma(ev, c, ev.rval(a[1]))
    x, y = val(ev, a[0]), val(ev, a[1])
    return binary(ev, op, x, y, e)


def diag(x):
    d = x.f['v'].e
    n = len(d)
    return MV(n, n, [d[i] if i == j else T.ZERO for i in range(n) for j in range(n)])


def comma(ev, c, x):
    cur = ev.read(c.lv)
    e = list(cur.e)
    xs = x.e if isinstance(x, MV) else [x]
    for y in xs:
        e[c.i] = y
        c.i += 1
    ev.write(c.lv, MV(cur.r, cur.c, e, cur.iso))
    return c


def binary(ev, op, x, y, e):
    if op in ('==', '!='):
        r = equal(ev, x, y)
        return r if op == '==' else T.b_not(r)
    if isinstance(x, SV) and x.t == 'diag':
        x = diag(x)
    if isinstance(y, SV) and y.t == 'diag':
        y = diag(y)
    if isinstance(x, (MV,)) or isinstance(y, MV) or (isinstance(x, SV) and x.t == 'translation'):
        return matop(ev, op, x, y)
    if isinstance(x, (IT, PV)) or isinstance(y, (IT, PV)):
        return ptr_arith(ev, op, x, y)
    if isinstance(x, T.T) and isinstance(y, T.T):
        if kind_of(e['t'])[0] == 'str':
            if x.k == 'str' and y.k == 'str':
                return T.string(x.a[0] + y.a[0])
            return T.lift(lambda p, q: T.atom('concat', p, q), x, y)
        if kind_of(e['t'])[0] in ('real', 'int', 'bool') and x.k in ('num', 'ite') and y.k in ('num', 'ite'):
            return ev.arith(op, x, y, e['t'])
        if kind_of(e['t'])[0] == 'bool':
            return T.lift(lambda p, q: T.ite(T.atom('b', op, p, q), T.TT, T.FF), x, y)
    tx, ty = to_term(ev, x), to_term(ev, y)
    return ev.symbolic(e['t'], T.atom('call', 'operator' + op, T.string(''), (tx, ty), ''))


# ---------------------------------------------------------------- methods
def method(ev, e, obj, name):
    a = e['a']
    ot = strip_cv(e.get('ot', '?'))
    v = ev.read(obj) if isinstance(obj, (LV, GV)) else obj
    okind = kind_of(ot)
    if isinstance(obj, GV) and isinstance(v, GV):
        raise Undecided('gated object at ' + e['l'])
    if name == 'operator=' and len(a) == 1 and okind[0] != 'atomic' and isinstance(obj, (LV, GV)) and e.get('o') is not None and not e.get('arrow'):
        return operator(ev, {'op': '=', 'a': [e['o'], a[0]], 'l': e['l'], 't': e['t']})
    if okind[0] == 'ptr' and not e.get('arrow'):
        # methods of smart pointers themselves
        if name == 'get':
            return v
        if name == 'reset':
            ev.write(obj, ev.rval(a[0]) if a else T.NULL)
            return T.ZERO
        if e.get('conv') or name == 'operator bool':
            return ev.truth(v)
        if name == 'release':
            ev.write(obj, T.NULL)
            return v
        if name == 'lock':
            return v
        if name == 'swap':
            o = ev.place(a[0])
            w = ev.read(o)
            ev.write(o, v)
            ev.write(obj, w)
            return T.ZERO
        if name in ('use_count', 'unique'):
            return uninterpreted(ev, name, None, e, a)
    if okind[0] == 'atomic' or (isinstance(v, T.T) and e.get('cls', '').startswith('std::atomic')):
        if name == 'load' or e.get('conv'):
            return v
        if name == 'store':
            ev.write(obj, ev.conv(ev.rval(a[0]), okind[1] if okind[0] == 'atomic' else 'double'))
            return T.ZERO
        if name == 'exchange':
            ev.write(obj, ev.conv(ev.rval(a[0]), okind[1]))
            return v
        if name == 'operator=':
            x = ev.conv(ev.rval(a[0]), okind[1] if okind[0] == 'atomic' else 'double')
            ev.write(obj, x)
            return x
        if name in ('fetch_add', 'fetch_sub'):
            x = ev.num(a[0])
            ev.write(obj, T.add(v, x) if name == 'fetch_add' else T.sub(v, x))
            return v
        if name in ('compare_exchange_strong', 'compare_exchange_weak'):
            ex = ev.place(a[0])
            exp = ev.read(ex)
            des = ev.conv(ev.rval(a[1]), okind[1])
            c = equal(ev, v, exp)
            ev.write(obj, merge(c, des, v))
            ev.write(ex, merge(c, exp, v))
            return c
    if isinstance(v, NOP):
        if name in ('owns_lock', 'try_lock', 'joinable'):
            return T.TT
        for x in a:
            ev.expr(x)
        return T.ZERO if kind_of(e['t'])[0] == 'void' else (NOP(e['t']) if is_nop(e['t']) or kind_of(e['t'])[0] == 'rec' else uninterpreted(ev, name, None, e, a))
    if isinstance(v, AV):
        return vec_method(ev, e, obj, v, name, a)
    if isinstance(v, SV) and v.t == 'map' and 'p' in v.f:
        m = deref_map(ev, v)
        if name in ('head', 'tail', 'block', 'segment'):
            return blkref(ev, obj, v, name, e)
        return mat_method(ev, e, ev.temp(m), m, name, a)
    if isinstance(v, MV):
        return mat_method(ev, e, obj, v, name, a)
    if isinstance(v, SV):
        if v.t == 'ceres::Problem':
            return ceres_method(ev, e, obj, v, name, a)
        if v.t == 'eigen':
            return eigen_method(ev, v, name)
        if v.t == 'eigenvalues' and name == 'real':
            return v.f['v']
        if v.t == 'llt':
            if name in ('matrixU',):
                return chol_upper(v.f['m'])
            if name in ('matrixL',):
                return transpose(chol_upper(v.f['m']))
        if v.t == 'diag' and name in ('toDenseMatrix',):
            return diag(v)
        if v.t == 'translation' and name in ('x', 'y', 'z'):
            return v.f['v'].e['xyz'.index(name)]
        if v.t == 'blkref':
            m = read_blk(ev, v)
            return mat_method(ev, e, ev.temp(m), m, name, a)
        if v.t in ('normal', 'uniform', 'discrete') and name == 'reset':
            return T.ZERO
    if isinstance(v, IT) and name == 'base':
        return v
    if kind_of(ot)[0] == 'str' or (isinstance(v, T.T) and v.k == 'str'):
        if name == 'empty':
            return T.eq(v, T.string(''))
        if name in ('c_str', 'data', 'str'):
            return v
        if name == 'clear':
            ev.write(obj, T.string(''))
            return T.ZERO
        if name == 'compare' and len(a) == 1:
            return T.ite(T.eq(v, ev.rval(a[0])), T.ZERO, T.ONE)
        if name in ('size', 'length'):
            return T.lift(lambda s: T.num(len(s.a[0])) if s.k == 'str' else T.atom_num(T.atom('in', s, 'strlen', (), 'size')), v)
    if e.get('conv'):
        if kind_of(e['t'])[0] == 'bool':
            return ev.truth(v)
        if isinstance(v, T.T) and kind_of(e['t'])[0] in ('real', 'int'):
            return ev.symbolic(e['t'], T.atom('call', 'conv', v, (), ''))
    if name == 'declare_parameter':
        return uninterpreted_at(ev, 'parameter', e, a)
    if name in ('now', 'get_clock', 'get_logger'):
        return ev.symbolic(e['t'], T.atom('call', name, T.string(''), (), ''))
    if name in MAYTHROW:
        return tf_call(ev, e, name, a)
    return uninterpreted(ev, name, obj, e, a, e.get('mconst', True) or e.get('q') in ev.pure or e.get('f') in ev.pure)


def tf_call(ev, e, name, a):
    return uninterpreted(ev, name, None, e, a, True)


def uninterpreted_at(ev, name, e, a):
    vals = [ev.expr(x) for x in a]
    at = arg_terms(ev, vals, [x['t'] for x in a])
    return ev.symbolic(e['t'], T.atom('call', name, T.string(''), tuple(at[:1]), ''))


def blkref(ev, obj, v, name, e):
    targs = e.get('targs') or []
    n = int(targs[0]) if targs else None
    a = e['a']
    if n is None:
        n = int(T.const(ev.num(a[-1])))
    rows = int(T.const(v.f['r']))
    if name == 'head':
        off = 0
    elif name == 'tail':
        off = rows - n
    else:
        off = int(T.const(ev.num(a[0])))
    return ev.temp(SV('blkref', {'m': v, 'o': T.num(off), 'n': T.num(n)}))


def read_blk(ev, b):
    o, n = int(T.const(b.f['o'])), int(T.const(b.f['n']))
    return MV(n, 1, deref_map(ev, b.f['m']).e[o:o + n])


def write_blk(ev, b, x):
    o = int(T.const(b.f['o']))
    for i, y in enumerate(x.e):
        ev.write(ev.offset(b.f['m'].f['p'].lv, T.num(o + i)), y)


def eigen_method(ev, v, name):
    m = v.f['m']
    if name == 'eigenvalues':
        a, b, c, d = m.e
        tr, dt = T.add(a, d), T.sub(T.mul(a, d), T.mul(b, c))
        disc = T.sqrt(T.sub(T.div(T.mul(tr, tr), T.num(4)), dt))
        h = T.div(tr, T.num(2))
        # the order of the two is that of the solver: unspecified unless self adjoint
        lo, hi = T.sub(h, disc), T.add(h, disc)
        if v.f['s'] is T.FF:
            sw = T.ite(T.atom('in', T.tup(*m.e), 'eigen order', (), 'bool'), T.TT, T.FF)
            lo, hi = T.ite(sw, hi, lo), T.ite(sw, lo, hi)
        r = MV(2, 1, [lo, hi])
        return r if v.f['s'] is T.TT else SV('eigenvalues', {'v': r})
    raise Undecided('eigen solver ' + name)


def mat_method(ev, e, obj, v, name, a):
    t = e.get('targs') or []
    if name in ('transpose', 'adjoint'):
        return transpose(v)
    if name == 'inverse':
        return inverse(v)
    if name == 'determinant':
        return det(v)
    if name in ('x', 'y', 'z', 'w') and not v.iso:
        i = 'xyzw'.index(name)
        return obj / ('m', T.num(i), T.ZERO) if v.c == 1 else obj / ('m', T.ZERO, T.num(i))
    if name in ('eval', 'derived', 'matrix', 'array', 'cast', 'real', 'noalias', 'toRotationMatrix', 'conjugate', 'matrixU', 'matrixL', 'const_cast_derived', 'selfadjointView'):
        return obj if name in ('noalias', 'array', 'matrix', 'derived') and isinstance(obj, LV) else v
    if name == 'dot':
        return dot(v.e, val(ev, a[0]).e)
    if name == 'squaredNorm':
        return dot(v.e, v.e)
    if name == 'norm':
        return T.sqrt(dot(v.e, v.e))
    if name == 'sum':
        r = T.ZERO
        for x in v.e:
            r = T.add(r, x)
        return r
    if name == 'trace':
        r = T.ZERO
        for i in range(v.r):
            r = T.add(r, v.at(i, i))
        return r
    if name in ('minCoeff', 'maxCoeff') and not a:
        r = v.e[0]
        for x in v.e[1:]:
            r = T.mn(r, x) if name == 'minCoeff' else T.mx(r, x)
        return r
    if name == 'asDiagonal':
        return SV('diag', {'v': v})
    if name in ('setZero', 'setIdentity', 'fill', 'setConstant'):
        if name == 'setZero':
            n = MV(v.r, v.c, [T.ZERO] * len(v.e))
        elif name == 'setIdentity':
            n = eye(v.r, v.iso)
        else:
            x = ev.num(a[0])
            n = MV(v.r, v.c, [x] * len(v.e))
        ev.write(obj, n)
        return obj
    if name in ('operator()', 'coeff', 'coeffRef'):
        i = ev.num(a[0])
        if len(a) > 1:
            return obj / ('m', i, ev.num(a[1]))
        return obj / ('m', i, T.ZERO) if v.c == 1 else obj / ('m', T.ZERO, i)
    if name == 'llt':
        return SV('llt', {'m': v})
    if name in ('eigenvalues',):
        return eigen_method(ev, SV('eigen', {'m': v, 's': T.FF}), name)
    if name in ('translation', 'linear', 'rotation') and v.iso:
        n = v.r - 1
        if name == 'translation':
            return obj / ('blk', 0, n, n, 1)
        return obj / ('blk', 0, 0, n, n)
    if name in ('translate', 'pretranslate', 'rotate', 'prerotate') and v.iso and isinstance(obj, LV):
        x = ev.rval(a[0])
        n = v.r - 1
        if isinstance(x, T.T) and n == 2 and name.endswith('rotate'):
            x = MV(2, 2, [T.cos(x), T.neg(T.sin(x)), T.sin(x), T.cos(x)])
        if isinstance(x, MV) and not x.iso and x.r == n and x.c == (1 if name.endswith('translate') else n):
            m = iso_of(eye(n), x.e) if name.endswith('translate') else iso_of(x, [T.ZERO] * n)
            ev.write(obj, mm(m, v) if name.startswith('pre') else mm(v, m))
            return obj
    if name in ('stableNorm', 'blueNorm', 'hypotNorm'):
        return T.sqrt(dot(v.e, v.e))
    if name in ('normalized', 'normalize') and not v.iso:
        n = T.sqrt(dot(v.e, v.e))
        m = MV(v.r, v.c, [T.div(x, n) for x in v.e])          # of a zero vector nothing is said
        if name == 'normalized':
            return m
        ev.write(obj, m)
        return obj
    if name in ('cwiseProduct', 'cwiseQuotient', 'cwiseMin', 'cwiseMax'):
        x = val(ev, a[0])
        if isinstance(x, MV):
            return ew({'cwiseProduct': T.mul, 'cwiseQuotient': T.div, 'cwiseMin': T.mn, 'cwiseMax': T.mx}[name], v, x)
    if name in ('cwiseAbs', 'cwiseAbs2', 'cwiseSqrt', 'cwiseInverse'):
        f = {'cwiseAbs': T.absv, 'cwiseAbs2': lambda y: T.mul(y, y), 'cwiseSqrt': T.sqrt, 'cwiseInverse': lambda y: T.div(T.ONE, y)}[name]
        return MV(v.r, v.c, [f(x) for x in v.e])
    if name in ('mean', 'prod') and v.e:
        r = T.ZERO if name == 'mean' else T.ONE
        for x in v.e:
            r = T.add(r, x) if name == 'mean' else T.mul(r, x)
        return T.div(r, T.num(len(v.e))) if name == 'mean' else r
    if name == 'setOnes':
        ev.write(obj, MV(v.r, v.c, [T.ONE] * len(v.e)))
        return obj
    if name == 'cross' and len(v.e) == 3:
        x = val(ev, a[0])
        p, q = v.e, x.e
        return MV(v.r, v.c, [T.sub(T.mul(p[(i + 1) % 3], q[(i + 2) % 3]), T.mul(p[(i + 2) % 3], q[(i + 1) % 3])) for i in range(3)])
    if name in ('head', 'tail', 'block', 'segment', 'topLeftCorner', 'row', 'col', 'diagonal'):
        if name == 'row':
            return obj / ('blk', int(T.const(ev.num(a[0]))), 0, 1, v.c)
        if name == 'col':
            return obj / ('blk', 0, int(T.const(ev.num(a[0]))), v.r, 1)
        if name == 'diagonal':
            return MV(v.r, 1, [v.at(i, i) for i in range(v.r)])
        ca = [T.const(ev.num(x)) for x in a]
        if any(x is None for x in ca):
            raise Undecided('block at ' + e['l'])
        ca = [int(x) for x in ca]
        ti = [int(x) for x in t if x.lstrip('-').isdigit()]
        if name in ('head', 'tail'):
            n = ti[0] if ti else ca[0]
            off = 0 if name == 'head' else len(v.e) - n
            return obj / (('blk', off, 0, n, 1) if v.c == 1 else ('blk', 0, off, 1, n))
        if name == 'segment':
            n = ti[0] if ti else ca[1]
            return obj / ('blk', ca[0], 0, n, 1)
        if name == 'topLeftCorner':
            r, c = ti[:2] if ti else ca[:2]
            return obj / ('blk', 0, 0, r, c)
        r, c = ti[:2] if ti else ca[2:4]
        return obj / ('blk', ca[0], ca[1], r, c)
    if name in ('rows', 'cols', 'size'):
        return T.num(v.r if name == 'rows' else v.c if name == 'cols' else len(v.e))
    if name == 'data':
        return PV(obj / ('m', T.ZERO, T.ZERO))
    if name == 'isZero':
        r = T.TT
        for x in v.e:
            r = T.b_and(r, T.eq(x, T.ZERO))
        return r
    if name in ('allFinite',):
        return T.ite(T.atom('b', 'finite', T.tup(*v.e)), T.TT, T.FF)
    if e.get('conv') or name.startswith('operator'):
        if len(v.e) == 1:
            return v.e[0]
    raise Undecided('matrix method %s at %s' % (name, e['l']))


def vec_method(ev, e, obj, v, name, a):
    k = v.k
    kn = T.atom_num(k)
    if v.et == 'map':
        return map_method(ev, e, obj, v, name, a)
    if name == 'size' or name == 'max_size':
        return v.n
    if name == 'empty':
        return T.eq(v.n, T.ZERO)
    if name in ('reserve', 'shrink_to_fit'):
        for x in a:
            ev.rval(x)
        return T.ZERO
    if name == 'capacity':
        return ev.undef('unsigned long', 'capacity')
    if name in ('begin', 'cbegin'):
        return IT(obj, T.ZERO)
    if name in ('end', 'cend'):
        return IT(obj, v.n)
    if name in ('rbegin', 'rend', 'crbegin', 'crend'):
        raise Undecided('reverse iterator at ' + e['l'])
    if name in ('at', 'operator[]'):
        return ev.elem(obj, ev.num(a[0]))
    if name == 'front':
        return ev.elem(obj, T.ZERO)
    if name == 'back':
        return ev.elem(obj, T.sub(v.n, T.ONE))
    if name == 'data':
        return PV(ev.elem(obj, T.ZERO))
    if name in ('push_back', 'emplace_back'):
        if name == 'push_back':
            x = ev.conv(ev.rval(a[0]), v.et)
        else:
            x = make_object(ev, strip_cv(v.et), a) if kind_of(v.et)[0] in ('rec', 'mat', 'pair') else ev.conv(ev.rval(a[0]), v.et) if a else ev.default(v.et, True)
        v = ev.read(obj)
        ev.write(obj, AV(v.et, T.add(v.n, T.ONE), merge(T.eq(kn, v.n), x, v.e)))
        if name == 'emplace_back':
            return ev.elem(obj, v.n)
        return T.ZERO
    if name == 'pop_back':
        ev.write(obj, AV(v.et, T.sub(v.n, T.ONE), v.e))
        return T.ZERO
    if name == 'clear':
        ev.write(obj, AV(v.et, T.ZERO, v.e))
        return T.ZERO
    if name == 'resize':
        n = ev.num(a[0])
        x = ev.conv(ev.rval(a[1]), v.et) if len(a) > 1 and not is_default(a[1]) else ev.default(v.et, True)
        ev.write(obj, AV(v.et, n, merge(T.lt(kn, v.n), v.e, x)))
        return T.ZERO
    if name in ('assign', 'fill'):
        x = [ev.rval(y) for y in a]
        if name == 'fill':
            ev.write(obj, AV(v.et, v.n, ev.conv(x[0], v.et)))
        elif isinstance(x[0], IT):
            r = range_av(ev, x[0], x[1])
            ev.write(obj, AV(v.et, r.n, r.e))
        elif isinstance(x[0], AV):
            ev.write(obj, x[0])
        else:
            ev.write(obj, AV(v.et, x[0], ev.conv(x[1], v.et)))
        return T.ZERO
    if name == 'insert':
        p = ev.rval(a[0])
        x = [ev.rval(y) for y in a[1:]]
        v = ev.read(obj)
        if len(x) == 2 and isinstance(x[0], IT):
            r = range_av(ev, x[0], x[1])
            m, src = r.n, vsubst(r.e, {r.k: T.sub(kn, p.i)})
        elif len(x) == 1:
            m, src = T.ONE, x[0]
        else:
            m, src = x[0], x[1]
        after = vsubst(v.e, {k: T.sub(kn, m)})
        ev.write(obj, AV(v.et, T.add(v.n, m), merge(T.lt(kn, p.i), v.e, merge(T.lt(kn, T.add(p.i, m)), src, after))))
        return p
    if name == 'erase':
        p = ev.rval(a[0])
        q = ev.rval(a[1]) if len(a) > 1 else IT(p.lv, T.add(p.i, T.ONE))
        m = T.sub(q.i, p.i)
        ev.write(obj, AV(v.et, T.sub(v.n, m), merge(T.lt(kn, p.i), v.e, vsubst(v.e, {k: T.add(kn, m)}))))
        return p
    if name == 'swap':
        o = ev.place(a[0])
        w = ev.read(o)
        ev.write(o, v)
        ev.write(obj, w)
        return T.ZERO
    raise Undecided('vector method %s at %s' % (name, e['l']))


def is_default(x):
    return False


def map_method(ev, e, obj, v, name, a):
    if name in ('find', 'count', 'contains'):
        key = ev.num(a[0])
        if name == 'find':
            return IT(obj, key)
        has = ev.read(obj / ('i', key) / ('f', 'has', 'bool'))
        return T.as_num(has) if name == 'count' else has
    if name in ('end', 'cend'):
        return IT(obj, MAPEND)
    if name in ('clear',):
        ev.write(obj, AV('map', v.n, SV('pair', {**v.e.f, 'has': T.FF})))
        return T.ZERO
    if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        if name == 'insert':
            p = ev.rval(a[0])
            key, x = p.f['first'], p.f['second']
        else:
            key = ev.num(a[0])
            kt = kind_of(strip_cv(e.get('ot', '?')))
            x = ev.rval(a[1]) if len(a) == 2 else make_object(ev, strip_cv(kt[2]), a[1:])
        v = ev.read(obj)
        el = obj / ('i', key)
        has = ev.read(el / ('f', 'has', 'bool'))
        old = ev.read(el / ('f', 'second', ''))
        x = ev.shape(x, old)
        ev.write(el / ('f', 'second', ''), x if name == 'insert_or_assign' else merge(has, old, x))
        ev.write(el / ('f', 'has', 'bool'), T.TT)
        return SV('pair', {'first': IT(obj, key), 'second': T.b_not(has)})
    if name == 'at':
        return obj / ('i', ev.num(a[0])) / ('f', 'second', '')
    if name == 'erase':
        key = ev.rval(a[0])
        key = key.i if isinstance(key, IT) else key
        ev.write(obj / ('i', key) / ('f', 'has', 'bool'), T.FF)
        return T.ONE
    raise Undecided('map method %s at %s' % (name, e['l']))


# ---------------------------------------------------------------- functions
MATH1 = {'cos': T.cos, 'sin': T.sin, 'sqrt': T.sqrt, 'exp': T.exp, 'floor': T.floor, 'trunc': T.trunc, 'round': T.rnd, 'ceil': T.ceil,
         'fabs': T.absv, 'abs': T.absv, 'lround': T.rnd, 'lrint': T.rnd, 'cosf': T.cos, 'sinf': T.sin, 'sqrtf': T.sqrt}

# functions only evaluated, never rewritten
MATHF = ('log', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'cbrt', 'log2', 'log10', 'log1p', 'exp2', 'expm1', 'erf', 'erfc', 'tgamma', 'lgamma')


def function(ev, e, q, name):
    a = e['a']
    t = e['t']
    if q.startswith('spec::'):
        return spec_call(ev, e, name, a)
    if q in ('std::make_shared', 'std::make_unique', 'std::allocate_shared'):
        cls = strip_cv(kind_of(t)[1])
        if cls.endswith('[]'):
            et = cls[:-2].strip()
            n = ev.num(a[0])
            return ev.allocate(cls, AV(et, n, ev.default(et, True)))
        if is_nop(cls):
            for x in a:
                ev.expr(x)
            return NOP(cls)
        return ev.allocate(cls, make_object(ev, cls, a))
    if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const'):
        return ev.expr(a[0])
    if q in ('std::swap',):
        x, y = ev.place(a[0]), ev.place(a[1])
        u, w = ev.read(x), ev.read(y)
        ev.write(x, w)
        ev.write(y, u)
        return T.ZERO
    if q.startswith(('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast')):
        return ev.rval(a[0])
    if q.startswith('rclcpp::') and name == 'ok':
        return ev.symbolic('bool', T.atom('call', 'ok', T.string(''), (), ''))
    if 'sleep' in name and 'this_thread' in q:
        return T.ZERO
    if q.startswith('std::numeric_limits') or (not a and name in ('max', 'min', 'lowest', 'infinity', 'epsilon', 'quiet_NaN')):
        if kind_of(t)[0] == 'int':
            hi = {'int': 2**31 - 1, 'unsigned int': 2**32 - 1, 'unsigned long': 2**64 - 1, 'long': 2**63 - 1}.get(strip_cv(t), 2**31 - 1)
            lo = 0 if 'unsigned' in t else -hi - 1
            return T.num(hi if name == 'max' else lo)
        c = {'max': ('DBLMAX', 1), 'lowest': ('DBLMAX', -1), 'min': ('DBLMIN', 1), 'infinity': ('INF', 1), 'epsilon': ('EPS', 1), 'quiet_NaN': ('NAN', 1)}.get(name)
        if c:
            return T.mul(T.num(c[1]), T.atom_num(T.atom(c[0])))
    vals = None
    if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data') and q.startswith('std::') and len(a) == 1:
        obj = ev.place(a[0])
        return vec_method(ev, e, obj, ev.read(obj), name, [])
    if q.startswith('std::') and name in ('accumulate', 'for_each', 'transform', 'fill', 'fill_n', 'copy', 'min_element', 'max_element', 'iota', 'any_of', 'all_of',
                                          'none_of', 'find_if', 'count_if', 'sort', 'copy_if', 'inner_product', 'reverse', 'generate', 'minmax', 'clamp', 'copy_n', 'remove_if',
                                          'back_inserter', 'lower_bound', 'upper_bound', 'generate_n', 'equal', 'find', 'find_if_not', 'count', 'reduce',
                                          'minmax_element', 'rotate', 'unique', 'partition', 'nth_element', 'stable_sort', 'transform_reduce', 'replace',
                                          'swap_ranges', 'mismatch', 'adjacent_difference', 'partial_sum', 'remove', 'copy_backward', 'max_element'):
        return algorithm(ev, e, name)
    if q in ('std::get',):
        obj = ev.place(a[0])
        v = ev.read(obj)
        i = (e.get('targs') or ['0'])[0]
        if isinstance(v, SV) and i.isdigit():
            return ev.field(obj, list(v.f)[int(i)])
        if isinstance(v, AV) and i.isdigit():
            return ev.elem(obj, T.num(int(i)))
    if q == 'std::bind':
        return FN({'k': 'bind', 'q': 'bind'}, None)
    if is_logging(name, q):
        return T.ZERO
    return std_call(ev, q, name, None, e)


def input_equation(c):
    """an assumed equation that determines one input"""
    if c.k != 'ite' or c.a[0].a[0] != 'eq0' or c.a[1] is not T.TT or c.a[2] is not T.FF:
        return None
    p = c.a[0].a[1]
    for mono, k in sorted(p.a, key=lambda x: str(x[0])):
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].a[0] == 'in' and k in (1, -1):
            x = mono[0][0]
            rest = T.psub(p, T._poly({mono: k}))
            if not T.has(rest, (x,)):
                return {x: T.pscale(rest, -1 / k)}
    return None


def spec_call(ev, e, name, a):
    """statements of reference models: what has to be equal, under which assumptions"""
    if name in ('same', 'holds'):
        label = ev.rval(a[0])
        x = ev.rval(a[1])
        y = ev.rval(a[2]) if name == 'same' else T.TT
        if name == 'holds':
            x = ev.truth(x)
        ev.outs.append((label.a[0] if isinstance(label, T.T) and label.k == 'str' else '?', x, y, ev.guard(), e['l'], ev.st.copy()))
        return T.ZERO
    if name == 'snapshot':
        return ev.temp(ev.rval(a[0]))
    if name == 'no_throw':
        ev.nothrow.append((ev.rval(a[0]).a[0], e['l']))
        return T.ZERO
    if name == 'assume':
        c = ev.known(ev.truth(ev.rval(a[0])))
        ev.assumed = T.b_and(ev.assumed, c)
        m = input_equation(c)
        if m is not None:
            from .loops import vstate
            memo = {}
            ev.st = vstate(ev.st, lambda t: T.subst(t, m, None, memo))
            ev.assumed = T.subst(ev.assumed, m)
            return T.ZERO
        n = len(ev.lits)
        ev.assume_path(c)
        ev.assumes.extend(ev.lits[n:])
        return T.ZERO
    if name in ('positive', 'nonneg'):
        v = ev.rval(a[0])
        if v.k == 'num' and len(v.a) == 1 and len(v.a[0][0]) == 1:
            T.SIGN[v.a[0][0][0][0]] = 'pos' if name == 'positive' else 'nonneg'
            return T.ZERO
        raise Undecided('sign declaration at ' + e['l'])
    if name.startswith('any_'):
        # an arbitrary value: any_T("name", indices...)
        at = arg_terms(ev, [ev.expr(x) for x in a], [x['t'] for x in a])
        return ev.symbolic(e['t'], T.atom('call', 'any', T.string(''), tuple(at), ''))
    at = arg_terms(ev, [ev.expr(x) for x in a], [x['t'] for x in a])
    return ev.symbolic(e['t'], T.atom('call', name, T.string(''), tuple(at), ''))


def is_logging(name, q):
    return name.startswith('rcl_log') or name in ('log_', 'log') and 'rcl' in q or q.startswith('rcutils') or name == 'stub_log'


def std_call(ev, q, name, vals, e):
    a = e['a']

    def get(i):
        if vals is not None:
            v = vals[i]
            return ev.read(v) if isinstance(v, (LV, GV)) else v
        return deref_map(ev, ev.rval(a[i]))
    n = len(vals) if vals is not None else len(a)
    std = q.startswith(('std::', 'ceres::', '__gnu', 'angles::', 'tf2::', 'Eigen::')) or '::' not in q
    if std and n == 1 and name in MATH1:
        x = get(0)
        if isinstance(x, T.T):
            r = MATH1[name](T.as_num(x) if isbool(x) else x)
            return r
    if std and n == 1 and (name in MATHF or name[:-1] in MATHF):
        nm = name if name in MATHF else name[:-1]
        if nm in MATHF:
            x = get(0)
            if isinstance(x, T.T):
                return T.fn(nm, T.as_num(x) if isbool(x) else x)
    if std and n == 3 and name in ('fma', 'fmaf'):
        x, y, z = (scalar(ev, get(i)) for i in range(3))
        return T.add(T.mul(x, y), z)
    if std and n == 3 and name == 'hypot':
        x, y, z = (scalar(ev, get(i)) for i in range(3))
        return T.sqrt(T.add(T.add(T.mul(x, x), T.mul(y, y)), T.mul(z, z)))
    if std and n == 3 and name == 'lerp':
        x, y, z = (scalar(ev, get(i)) for i in range(3))
        return T.add(x, T.mul(z, T.sub(y, x)))
    if std and n == 2:
        if name in ('min', 'max', 'fmin', 'fmax'):
            x, y = scalar(ev, get(0)), scalar(ev, get(1))
            if name in ('min', 'max') and T.NAN_MODE[0]:
                return T.ite(T.lt(y, x), y, x) if name == 'min' else T.ite(T.lt(x, y), y, x)
            return ev.known(T.mn(x, y) if name in ('min', 'fmin') else T.mx(x, y))
        if name == 'atan2':
            return T.atan2(scalar(ev, get(0)), scalar(ev, get(1)))
        if name == 'hypot':
            x, y = scalar(ev, get(0)), scalar(ev, get(1))
            return T.sqrt(T.add(T.mul(x, x), T.mul(y, y)))
        if name == 'pow':
            x, y = scalar(ev, get(0)), scalar(ev, get(1))
            c = T.const(y) if y.k == 'num' else None
            if c is not None and c.denominator == 1 and abs(c) <= 6:
                return T.lift(lambda p: T.ppow(p, int(c)), x)
            if c == Fr(1, 2):
                return T.sqrt(x)
            return T.fn('pow', x, y)
        if name == 'fmod':
            x, y = scalar(ev, get(0)), scalar(ev, get(1))
            return T.sub(x, T.mul(y, T.trunc(T.div(x, y))))
        if name == 'copysign':
            x, y = scalar(ev, get(0)), scalar(ev, get(1))
            return T.ite(T.lt(y, T.ZERO), T.neg(T.absv(x)), T.absv(x))
    if name in ('isfinite', 'isnan', 'isinf', 'signbit') and n == 1:
        x = scalar(ev, get(0))
        if name == 'signbit':
            return T.lt(x, T.ZERO)
        return T.lift(lambda p: fincond(name, T.as_num(p)), x)
    if q == 'angles::shortest_angular_distance':
        return T.nang(T.sub(scalar(ev, get(1)), scalar(ev, get(0))))
    if q == 'angles::normalize_angle':
        return T.nang(scalar(ev, get(0)))
    if q == 'angles::normalize_angle_positive':
        return T.fn('nangp', scalar(ev, get(0)))
    if q in ('angles::from_degrees',):
        return T.div(T.mul(scalar(ev, get(0)), T.PIN), T.num(180))
    if q == 'tf2::getYaw':
        v = get(0)
        if isinstance(v, SV) and {'x', 'y', 'z', 'w'} <= set(v.f):
            x, y, z, w = (v.f[c] for c in 'xyzw')
            return T.fn('yaw', x, y, z, w)
    if name == 'eigenToTransform' or q == 'tf2::eigenToTransform':
        v = get(0)
        s = ev.default('geometry_msgs::msg::TransformStamped', True)
        tr = s.f['transform']
        tl = SV(tr.f['translation'].t, dict(zip('xyz', [v.at(0, 3), v.at(1, 3), v.at(2, 3)])))
        rt = [v.at(i, j) for i in range(3) for j in range(3)]
        ro = SV(tr.f['rotation'].t, {c: T.fn('quat' + c, *rt) for c in 'xyzw'})
        f = dict(s.f)
        f['transform'] = SV(tr.t, {'translation': tl, 'rotation': ro})
        return SV(s.t, f)
    if q.startswith('Eigen::') or (e.get('cls', '') or '').startswith('Eigen::'):
        kd = kind_of(strip_cv(t_of(e)))
        if name in ('Zero', 'Identity', 'Ones', 'UnitX', 'UnitY', 'UnitZ', 'Constant', 'Random'):
            dims = mat_dims(e)
            r, c = dims
            if name == 'Zero':
                return MV(r, c, [T.ZERO] * (r * c))
            if name == 'Ones':
                return MV(r, c, [T.ONE] * (r * c))
            if name == 'Identity':
                return eye(r, iso='Transform' in q)
            if name == 'Constant':
                return MV(r, c, [scalar(ev, get(0))] * (r * c))
            if name.startswith('Unit'):
                i = 'XYZ'.index(name[-1])
                return MV(r, c, [T.ONE if j == i else T.ZERO for j in range(r * c)])
    if name == 'make_pair' and n == 2:
        return SV('pair', {'first': get(0), 'second': get(1)})
    if q.startswith('std::') and name == 'advance' and vals is None:
        lv = ev.place(a[0])
        ev.write(lv, advance(ev, ev.read(lv), get(1)))
        return T.ZERO
    if q.startswith('std::') and name in ('next', 'prev'):
        d = get(1) if n > 1 else T.ONE
        return advance(ev, get(0), d if name == 'next' else T.neg(d))
    if q.startswith('std::') and name == 'distance':
        return ptr_arith(ev, '-', get(1), get(0))
    if q == 'ceres::Solve':
        return ceres_solve(ev, e)
    if q.startswith('std::') and name in ('to_string',):
        x = get(0)
        return T.lift(lambda p: T.atom('tostr', p), x)
    if name == 'uf_real' or name == 'uf_bool' or name == 'uf_int':
        pass
    if vals is not None:
        at = arg_terms(ev, vals, [])
        ev.callq.setdefault(name, set()).add(q)
        return ev.symbolic(e['t'], T.atom('call', name, T.string(''), tuple(at), ''))
    # const char* / string_view helpers, durations and the like
    return uninterpreted(ev, name, None, e, a)


def fincond(name, p):
    c = T.const(p)
    if c is not None:
        return T.TT if name == 'isfinite' else T.FF
    fin = T.ite(T.atom('isfinite', p), T.TT, T.FF)
    nan = T.ite(T.atom('isnan', p), T.TT, T.FF)
    if name == 'isfinite':
        return T.b_and(fin, T.b_not(nan))
    if name == 'isnan':
        return T.b_and(T.b_not(fin), nan)
    return T.b_and(T.b_not(fin), T.b_not(nan))


def t_of(e):
    return e.get('t', '?')


def mat_dims(e):
    """dimensions of a nullary expression from its type"""
    import re
    m = re.search(r'Eigen::Matrix<\w+, (\d+), (\d+)', e.get('f', '') + ' ' + e['t'])
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r'Eigen::Transform<\w+, (\d+)', e.get('f', '') + ' ' + e['t'])
    if m:
        return int(m.group(1)) + 1, int(m.group(1)) + 1
    if 'Eigen::Transform' in e.get('f', '') + e['t']:
        return 4, 4
    raise Undecided('matrix size at ' + e['l'])


def ceres_address(lv):
    if isinstance(lv, GV):
        return T.ite(lv.c, ceres_address(lv.a), ceres_address(lv.b))
    return T.tup(T.string(str(lv.root[1])), *([lv.root[2]] if lv.root[0] == 'h' else []), addr(LV(('v', ''), lv.path)))


def ceres_method(ev, e, obj, v, name, a):
    """the problem is the list of its residual blocks; known and constant parameters are flags of their addresses"""
    known, fixed = ev.heap('ceres.known'), ev.heap('ceres.fixed')
    vals = [ev.expr(x) for x in a]

    def pointer(x):
        x = ev.read(x) if isinstance(x, (LV, GV)) else x
        if isinstance(x, GV) or not isinstance(x, PV):
            raise Undecided('parameter block at ' + e['l'])
        return ceres_address(x.lv)
    if name == 'AddResidualBlock':
        ps = [pointer(x) for x in vals[2:]]
        for p in ps:
            known = known.write(p, T.TT)
        ev.st.heap['ceres.known'] = known
        loss = ev.read(vals[1]) if isinstance(vals[1], (LV, GV)) else vals[1]
        cost = to_term(ev, ev.read(vals[0]) if isinstance(vals[0], (LV, GV)) else vals[0], a[0]['t'])
        blk = T.tup(cost, T.string('no loss') if loss is T.NULL or loss is T.ZERO else to_term(ev, loss), *ps)
        bl = v.f['blocks']
        ev.write(obj, SV(v.t, {'blocks': AV(bl.et, T.add(bl.n, T.ONE), gate_at(T.eq(T.atom_num(bl.k), bl.n), bl.k, bl.n, blk, bl.e))}))
        return T.atom('call', 'block', T.string(''), (bl.n,), '')
    if name == 'AddParameterBlock':
        ev.st.heap['ceres.known'] = known.write(pointer(vals[0]), T.TT)
        return T.ZERO
    if name in ('SetParameterBlockConstant', 'SetParameterBlockVariable'):
        p = pointer(vals[0])
        c = known.read(p)
        if c is not T.TT:
            ev.pend.append((T.b_not(c), ev.st.copy(), T.string('aborts: unknown parameter block at ' + e['l'])))
        ev.st.heap['ceres.fixed'] = fixed.write(p, T.TT if name.endswith('Constant') else T.FF)
        return T.ZERO
    if name == 'HasParameterBlock':
        return known.read(pointer(vals[0]))
    if name == 'IsParameterBlockConstant':
        return fixed.read(pointer(vals[0]))
    if name == 'NumResidualBlocks':
        return v.f['blocks'].n
    if name.startswith('Set') or name.startswith('Remove'):
        raise Undecided('ceres::Problem::%s at %s' % (name, e['l']))
    return ev.symbolic(e['t'], T.atom('call', name, to_term(ev, v), tuple(arg_terms(ev, vals, [x['t'] for x in a])), ''))


def ceres_solve(ev, e):
    """the solver changes every number whose address the problem holds, unless constant: the node storage of the solver class"""
    a = e['a']
    prob = ev.rval(a[1])
    pt = to_term(ev, ev.read(ev.pointee(prob, 'ceres::Problem')))
    opt = to_term(ev, ev.rval(a[0]))
    state = T.atom('solve', pt, opt)
    summ = ev.rval(a[2])
    this = ev.fr.this
    fixed = ev.heap('ceres.fixed')
    log = ('g', 'spec::started')

    def solved(v, lv):
        if isinstance(v, AV) and v.et == 'map':
            cur = v.e.f['second']
            cells = []
            if isinstance(cur, MV):
                k = T.atom_num(v.k)
                if log in ev.st.vars:
                    ev.st.vars[log] = v
                at = ev.elem(lv, k) / ('f', 'second')
                for i in range(len(cur.e)):
                    x = T.atom_num(T.atom('uf', 'solved', (state, k, cur.e[i], T.num(i)), 'real'))
                    c = fixed.read(ceres_address(at / ('m', T.num(i), T.ZERO)))
                    cells.append(T.ite(c, cur.e[i], x))
                return AV('map', v.n, SV('pair', {**v.e.f, 'second': MV(cur.r, cur.c, cells)}))
            return v
        if isinstance(v, SV):
            return SV(v.t, {k: solved(x, lv / ('f', k)) for k, x in v.f.items()})
        return v
    if this is not None:
        ev.write(this, solved(ev.read(this), this))
    if isinstance(summ, PV):
        sm = T.atom('call', 'summary', state, (), '')
        ev.write(summ.lv, sm)
        if ('g', 'spec::usable') in ev.st.vars:
            ev.st.vars[('g', 'spec::usable')] = ev.symbolic('bool', T.atom('call', 'IsSolutionUsable', sm, (), ''))
    return T.ZERO


# ---------------------------------------------------------------- algorithms
def algorithm(ev, e, name):
    from .loops import Loop
    a = e['a']
    if name == 'clamp':
        x, lo, hi = (scalar(ev, ev.rval(y)) for y in a)
        return T.mn(T.mx(x, lo), hi)
    if name == 'back_inserter':
        return SV('inserter', {'lv': PV(ev.place(a[0]))})
    vals = [ev.rval(x) for x in a]
    if name == 'transform_reduce' and len(vals) != 4 or name == 'accumulate' and len(vals) < 3:
        raise Undecided('algorithm %s at %s' % (name, e['l']))
    vals = [array_it(ev, x) for x in vals]
    b = vals[0]
    counted = name in ('fill_n', 'copy_n', 'generate_n')
    if not isinstance(b, IT) or not (isinstance(vals[1], T.T) if counted else isinstance(vals[1], IT)):
        raise Undecided('algorithm %s at %s' % (name, e['l']))
    if counted:
        n = vals[1]
        name = {'fill_n': 'fill', 'copy_n': 'copy', 'generate_n': 'generate'}[name]
    else:
        n = T.sub(vals[1].i, b.i)
    if name == 'reduce' and len(vals) > 2:
        name = 'accumulate'
    c = b.lv
    acc = ev.temp(T.ZERO)
    idx = ev.temp(T.ZERO)
    key = idx.root[1]

    def at(it):
        return ev.elem(it.lv, T.add(it.i, ev.st.vars[key]))

    def run(body, brk=None):
        def cond():
            return T.lt(ev.st.vars[key], n)

        def iteration():
            body()
            ev.st.vars[key] = T.add(ev.st.vars[key], T.ONE)
            return {'n': (T.TT, ev.st, None)}
        s = {'l': e['l'], 'k': 'algorithm'}
        o = ev.unroll(cond, iteration)
        if o is None:
            o = Loop(ev, s, cond, iteration).run()
        ev.st = o['n'][1]
    if name == 'reverse':
        v = ev.read(c)
        if not isinstance(v, AV):
            raise Undecided('algorithm %s at %s' % (name, e['l']))
        last = T.sub(vals[1].i, T.ONE)
        k = T.atom_num(v.k)
        other = vsubst(v.e, {v.k: T.sub(T.add(b.i, last), k)})
        ev.write(c, AV(v.et, v.n, merge(T.b_and(T.le(b.i, k), T.le(k, last)), other, v.e)))
        return T.ZERO
    if name in ('replace', 'replace_if'):
        def body():
            x = ev.read(at(b))
            p = equal(ev, x, vals[2]) if name == 'replace' else ev.truth(rd(ev, ev.call_fn(vals[2], [at(b)])))
            ev.write(at(b), merge(p, vals[3], x))
        run(body)
        return T.ZERO
    if name in ('min_element', 'max_element'):
        best = ev.temp(T.ZERO)

        def body():
            i = ev.read(best)
            x, y = at(b), ev.elem(b.lv, T.add(b.i, i))
            if name == 'max_element':
                x, y = y, x
            if len(vals) > 2:
                p = ev.truth(rd(ev, ev.call_fn(vals[2], [x, y])))
            else:
                p = T.lt(ev.read(x), ev.read(y))
            ev.write(best, T.ite(p, ev.st.vars[key], i))
        run(body)
        return IT(b.lv, T.add(b.i, ev.read(best)))
    if name == 'accumulate':
        ev.write(acc, vals[2])

        def body():
            x = at(b)
            cur = ev.read(acc)
            if len(vals) > 3:
                r = ev.call_fn(vals[3], [cur, x])
                r = ev.read(r) if isinstance(r, (LV, GV)) else r
            else:
                r = binary(ev, '+', cur, ev.read(x), {'t': 'double', 'l': e['l']})
            ev.write(acc, r)
        run(body)
        return ev.read(acc)
    if name == 'inner_product':
        ev.write(acc, vals[3])
        run(lambda: ev.write(acc, T.add(ev.read(acc), T.mul(ev.read(at(b)), ev.read(at(vals[2]))))))
        return ev.read(acc)
    if name == 'for_each':
        run(lambda: ev.call_fn(vals[2], [at(b)]))
        return vals[2]
    if name == 'fill':
        run(lambda: ev.write(at(b), vals[2]))
        return T.ZERO
    if name == 'generate':
        run(lambda: ev.write(at(b), rd(ev, ev.call_fn(vals[2], []))))
        return T.ZERO
    if name in ('copy', 'transform'):
        out = vals[2] if len(vals) < (3 if name == 'copy' else 5) or name == 'copy' else vals[3]
        two = name == 'transform' and len(vals) == 5
        fnv = vals[-1]

        def body():
            x = at(b)
            if name == 'transform':
                x = ev.call_fn(fnv, [x, at(vals[2])] if two else [x])
            x = rd(ev, x)
            if isinstance(out, SV) and out.t == 'inserter':
                lv = out.f['lv'].lv
                v = ev.read(lv)
                ev.write(lv, AV(v.et, T.add(v.n, T.ONE), merge(T.eq(T.atom_num(v.k), v.n), x, v.e)))
            else:
                ev.write(at(out), x)
        run(body)
        return T.ZERO
    if name == 'copy_if':
        def body():
            x = at(b)
            p = ev.truth(rd(ev, ev.call_fn(vals[3], [x])))
            x = rd(ev, x)
            lv = vals[2].f['lv'].lv
            v = ev.read(lv)
            nv = AV(v.et, T.add(v.n, T.ONE), merge(T.eq(T.atom_num(v.k), v.n), x, v.e))
            ev.write(lv, merge(p, nv, v))
        run(body)
        return T.ZERO
    if name == 'equal':
        ev.write(acc, T.ZERO)

        def differ():
            x, y = at(b), at(vals[2])
            if len(vals) == 4 and not isinstance(vals[3], IT):
                r = ev.truth(rd(ev, ev.call_fn(vals[3], [x, y])))
            elif len(vals) == 3:
                r = equal(ev, ev.read(x), ev.read(y))
            else:
                raise Undecided('algorithm equal at %s' % e['l'])
            ev.write(acc, T.add(ev.read(acc), T.ite(r, T.ZERO, T.ONE)))
        run(differ)
        return T.eq(ev.read(acc), T.ZERO)
    if name == 'iota':
        ev.write(acc, vals[2])

        def count():
            ev.write(at(b), ev.read(acc))
            ev.write(acc, T.add(ev.read(acc), T.ONE))
        run(count)
        return T.ZERO
    if name == 'count':
        ev.write(acc, T.ZERO)
        run(lambda: ev.write(acc, T.add(ev.read(acc), T.ite(equal(ev, ev.read(at(b)), vals[2]), T.ONE, T.ZERO))))
        return ev.read(acc)
    if name in ('any_of', 'all_of', 'none_of', 'count_if'):
        ev.write(acc, T.ZERO)
        run(lambda: ev.write(acc, T.add(ev.read(acc), T.ite(ev.truth(rd(ev, ev.call_fn(vals[2], [at(b)]))), T.ONE, T.ZERO))))
        r = ev.read(acc)
        if name == 'count_if':
            return r
        if name == 'any_of':
            return T.lt(T.ZERO, r)
        if name == 'none_of':
            return T.eq(r, T.ZERO)
        return T.eq(r, n)
    raise Undecided('algorithm %s at %s' % (name, e['l']))


def array_it(ev, v):
    """pointers into arrays are iterators"""
    if isinstance(v, PV) and isinstance(v.lv, LV) and v.lv.path and v.lv.path[-1][0] == 'i':
        return IT(LV(v.lv.root, v.lv.path[:-1]), v.lv.path[-1][1])
    return v


def rd(ev, x):
    return ev.read(x) if isinstance(x, (LV, GV)) else x
