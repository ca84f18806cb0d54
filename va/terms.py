"""Value numbering domain: hash-consed terms in algebraic normal form.

 num   Laurent polynomials with rational coefficients over atoms; 1/(sum) is an 'inv' atom
 ite   gated values (multi-terminal BDD): inner nodes test condition atoms in a global order
 at    atoms: symbols, uninterpreted operations, sums and folds of loops, condition atoms
 lam   functions of bound variables, alpha-normalised
Two program values that get the same term are equal for every input (real arithmetic).
"""
from fractions import Fraction as Fr
import math, sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ('k', 'a', 'uid', 'bv', 'size', 'memo', 'kids', 'fv')

    def __repr__(self):
        return show(self)


_tab = {}
NAN_MODE = [False]


VARS = {'muid', 'fresh_i', 'fresh', 'fs', 'bv', 'tmpbv', 'hp'}
_EMPTY = frozenset()
_fvtab = {_EMPTY: _EMPTY}


def _mk(k, a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t.uid = k, a, len(_tab)
        d, s = 0, 1
        fv = None
        kids = t.kids = tuple(_flat(a))
        for x in kids:
            if x.bv > d:
                d = x.bv
            s += x.size
            f = x.fv
            if f:
                if fv is None:
                    fv = f
                elif fv is not f and not f <= fv:
                    fv = fv | f
        if fv is None:
            fv = _EMPTY
        if k == 'lam':
            d = max(d, a[0])
            f2 = frozenset(x for x in fv if not (x.a[0] == 'bv' and x.a[1] == a[0]))
            if len(f2) != len(fv):
                fv = f2
        elif k == 'at' and a[0] in VARS:
            fv = fv | {t}
        t.fv = _fvtab.setdefault(fv, fv)
        t.bv, t.size, t.memo = d, min(s, 10**9), None
        _tab[key] = t
    return t


def _flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _flat(x)


def _kids(t):
    return t.kids


TT = _mk('tt', ())
FF = _mk('ff', ())


def atom(op, *args):
    return _mk('at', (op,) + args)


def string(s):
    return _mk('str', (s,))


def tup(*xs):
    return _mk('tup', tuple(xs))


# ---------------------------------------------------------------- integers and signs
INT_OPS = {'newidx', 'alen', 'trips', 'nth', 'pick', 'isym', 'floor', 'trunc', 'round', 'size', 'bv', 'idiv', 'imod', 'bit'}
SIGN = {}          # atom -> 'pos' | 'nonneg' (declared)


def is_int_atom(x):
    if x.k != 'at':
        return False
    op = x.a[0]
    if op in INT_OPS:
        return True
    if op in ('in', 'call', 'mu', 'fold', 'afold', 'sel', 'fs', 'out', 'uf'):
        return x.a[-1] in ('int', 'size')
    if op == 'sum':
        return is_int(x.a[2].a[1]) if x.a[2].k == 'lam' else False
    return False


def is_int(t):
    if t.k == 'ite':
        return is_int(t.a[1]) and is_int(t.a[2])
    if t.k != 'num':
        return False
    for m, c in t.a:
        if c.denominator != 1:
            return False
        for x, e in m:
            if e < 0 or not is_int_atom(x):
                return False
    return True


def nonneg_atom(x):
    op = x.a[0]
    return SIGN.get(x) in ('pos', 'nonneg') or op in ('sqrt', 'exp', 'size', 'abs', 'fresh_i', 'trips', 'nth', 'pick', 'pi') or \
        x.a[-1] == 'size' or (op in ('floor', 'trunc') and _nonneg(x.a[1])) or (op == 'inv' and _nonneg(x.a[1])) or \
        (op == 'sum' and all(l.k == 'num' and _nonneg(l) for l in _leaves(x.a[2].a[1])))


def pos_atom(x):
    return SIGN.get(x) == 'pos' or x.a[0] in ('exp', 'pi') or (x.a[0] == 'inv' and _positive(x.a[1]))


# ---------------------------------------------------------------- polynomials
def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: tuple((x.uid, e) for x, e in mc[0]))
    return _mk('num', tuple(items))


def num(c):
    if isinstance(c, float):
        c = Fr(c)
    return _poly({(): Fr(c)}) if c != 0 else ZERO


ZERO = _mk('num', ())
ONE = num(1)


def atom_num(x, e=1):
    return _poly({((x, e),): Fr(1)})


def sym(name, kind='real'):
    return atom_num(atom('isym' if kind == 'int' else 'sym', name))


PI = atom('pi')
PIN = atom_num(PI)


def const(t):
    if t.k == 'num':
        if not t.a:
            return Fr(0)
        if len(t.a) == 1 and t.a[0][0] == ():
            return t.a[0][1]
    return None


def lead(p):
    return p.a[-1][1] if p.a else Fr(0)


def _mono_mul(m1, m2):
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    extra = None
    for x in list(d):
        e = d[x]
        if e == 0:
            del d[x]
            continue
        op = x.a[0]
        if op == 'sqrt' and abs(e) >= 2:
            q = e // 2 if e > 0 else -((-e) // 2)
            d[x] = e - 2 * q
            if d[x] == 0:
                del d[x]
            f = ppow(x.a[1], q)
            extra = f if extra is None else pmul(extra, f)
        elif op == 'sin' and e >= 2:
            q = e // 2
            d[x] = e - 2 * q
            if d[x] == 0:
                del d[x]
            f = ppow(psub(ONE, ppow(atom_num(atom('cos', x.a[1])), 2)), q)
            extra = f if extra is None else pmul(extra, f)
        elif op == 'inv' and e < 0:
            del d[x]
            f = ppow(x.a[1], -e)
            extra = f if extra is None else pmul(extra, f)
    m = tuple(sorted(d.items(), key=lambda xe: xe[0].uid))
    return m, extra


def padd(p, q):
    if not p.a:
        return q
    if not q.a:
        return p
    d = dict(p.a)
    for m, c in q.a:
        d[m] = d.get(m, 0) + c
    return _poly(d)


def pscale(p, c):
    if c == 1:
        return p
    return _mk('num', tuple((m, x * c) for m, x in p.a)) if c != 0 else ZERO


def psub(p, q):
    return padd(p, pscale(q, Fr(-1)))


def pmul(p, q):
    if not p.a or not q.a:
        return ZERO
    c = const(p)
    if c is not None:
        return pscale(q, c)
    c = const(q)
    if c is not None:
        return pscale(p, c)
    # cancel inv(p) * p
    r = _cancel(p, q)
    if r is not None:
        return r
    d = {}
    extras = []
    for m1, c1 in p.a:
        for m2, c2 in q.a:
            m, ex = _mono_mul(m1, m2)
            if ex is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                extras.append(pmul(_poly({m: c1 * c2}), ex))
    r = _poly(d)
    for x in extras:
        r = padd(r, x)
    return r


def _content(p):
    """p = c * primitive with leading coefficient positive; returns (c, primitive)."""
    g = Fr(0)
    for _, c in p.a:
        n = math.gcd(g.numerator * c.denominator, c.numerator * g.denominator)
        g = Fr(n, g.denominator * c.denominator)
    if lead(p) < 0:
        g = -g
    return g, pscale(p, 1 / g)


def _cancel(p, q):
    for a, b in ((p, q), (q, p)):
        if len(a.a) == 1 and len(b.a) > 1:
            m, c = a.a[0]
            for x, e in m:
                if x.a[0] == 'inv':
                    g, prim = _content(b)
                    if prim is x.a[1]:
                        rest = tuple((y, (f - 1 if y is x else f)) for y, f in m)
                        rest = tuple((y, f) for y, f in rest if f)
                        return _poly({rest: c * g})
                    if e > 0:
                        q = _divide(b, x.a[1])
                        if q is not None:
                            rest = tuple((y, (f - 1 if y is x else f)) for y, f in m)
                            rest = tuple((y, f) for y, f in rest if f)
                            return pmul(_poly({rest: c}), q)
    return None


def _divide(b, p):
    """exact quotient b / p or None (multivariate division, graded order)"""
    if len(b.a) > 40 or len(b.a) < len(p.a):
        return None
    need = {x for m, _ in p.a for x, _ in m}
    have = {x for m, _ in b.a for x, _ in m}
    if not need <= have or any(e < 0 for m, _ in b.a + p.a for x, e in m):
        return None

    def key(m):
        return (sum(e for _, e in m), tuple(sorted(((x.uid, e) for x, e in m), reverse=True)))

    def order(m):
        allv = sorted({x.uid for q in (b, p) for mm, _ in q.a for x, _ in mm})
        d = {x.uid: e for x, e in m}
        return (sum(d.values()), tuple(d.get(u, 0) for u in allv))
    lm, lc = max(p.a, key=lambda mc: order(mc[0]))
    lmd = dict(lm)
    q, r = {}, b
    for _ in range(60):
        if not r.a:
            return _poly(q)
        m, c = max(r.a, key=lambda mc: order(mc[0]))
        d = dict(m)
        for x, e in lmd.items():
            d[x] = d.get(x, 0) - e
            if d[x] < 0:
                return None
            if d[x] == 0:
                del d[x]
        t = tuple(sorted(d.items(), key=lambda xe: xe[0].uid))
        q[t] = q.get(t, 0) + c / lc
        neg_, pos_ = {}, {}
        prod = {}
        for m2, c2 in p.a:
            mm, ex = _mono_mul(t, m2)
            if ex is not None:
                return None
            prod[mm] = prod.get(mm, 0) + c2 * c / lc
        r = psub(r, _poly(prod))
    return None


def ratio(p, q):
    """monomial m with p = q * m, or None"""
    if not p.a or len(p.a) != len(q.a):
        return None
    m0, c0 = p.a[0]
    for m1, c1 in q.a:
        r = pmul(_poly({m0: c0}), _poly({tuple((x, -e) for x, e in m1): 1 / c1}))
        if pmul(q, r) is p:
            return r
    return None


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def pinv(p):
    if not p.a:
        return atom_num(atom('divzero'))
    if len(p.a) == 1:
        m, c = p.a[0]
        if not any(x.a[0] == 'inv' for x, e in m):
            return _poly({tuple((x, -e) for x, e in m): 1 / c})
        r = _poly({tuple((x, -e) for x, e in m if x.a[0] != 'inv'): 1 / c})
        for x, e in m:
            if x.a[0] == 'inv':
                r = pmul(r, ppow(x.a[1], e))
        return r
    g, prim = _content(p)
    # factor common monomial out
    com = dict(prim.a[0][0])
    for m, _ in prim.a[1:]:
        dm = dict(m)
        com = {x: min(e, dm[x]) for x, e in com.items() if x in dm and (e > 0) == (dm[x] > 0)} if com else {}
    if com:
        mono = _poly({tuple(sorted(((x, -e) for x, e in com.items()), key=lambda xe: xe[0].uid)): Fr(1)})
        return pmul(mono, pinv(pscale(pmul(prim, mono), g)))
    return pscale(atom_num(atom('inv', prim)), 1 / g)


def is_zero(p, depth=0):
    """Decides p == 0 for rational functions by clearing denominators."""
    if not p.a:
        return True
    if depth > 6:
        return False
    invs = {}
    for m, _ in p.a:
        for x, e in m:
            if x.a[0] == 'inv' and e > 0:
                invs[x] = max(invs.get(x, 0), e)
    if not invs:
        return False
    x = max(invs, key=lambda y: y.size)
    n = invs[x]
    r = ZERO
    for m, c in p.a:
        e = dict(m).get(x, 0)
        rest = tuple((y, f) for y, f in m if y is not x)
        r = padd(r, pmul(_poly({rest: c}), ppow(x.a[1], n - e)))
    return is_zero(r, depth + 1)


# ---------------------------------------------------------------- gated values
def top(t):
    return t.a[0].uid if t.k == 'ite' else 1 << 60


def cof(t, v):
    return (t.a[1], t.a[2]) if t.k == 'ite' and t.a[0] is v else (t, t)


def _node(v, hi, lo):
    if hi is lo:
        return hi
    if v.a[0] == 'lt0' and hi.k == 'num' and lo.k == 'num' and not NAN_MODE[0]:
        d = v.a[1]
        if lead(d) < 0:
            df = psub(hi, lo)
            if df.a and lead(d) != 0 and len(df.a) == len(d.a) and pscale(df, lead(d) / lead(df)) is d:
                return ite(lt0(pscale(d, Fr(-1))), lo, hi)
    return _mk('ite', (v, hi, lo))


_ite_memo = {}


def ite(c, x, y):
    if c is TT:
        return x
    if c is FF:
        return y
    if x is y:
        return x
    if c.k == 'at':
        c = _mk('ite', (c, TT, FF))
    key = (c, x, y)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    v = min((c, x, y), key=top).a[0]
    c1, c0 = cof(c, v)
    x1, x0 = cof(x, v)
    y1, y0 = cof(y, v)
    hi, lo = ite(c1, x1, y1), ite(c0, x0, y0)
    if top(hi) <= v.uid or top(lo) <= v.uid:
        r = _reorder(v, hi, lo)
    else:
        r = _node(v, hi, lo)
    _ite_memo[key] = r
    return r


def _reorder(v, hi, lo):
    # a leaf rule introduced an earlier condition below v
    if hi is lo:
        return hi
    m = min((hi, lo), key=top)
    if m.k != 'ite' or m.a[0].uid > v.uid:
        return _node(v, hi, lo)
    w = m.a[0]
    if w is v:
        return _reorder(v, cof(hi, v)[0], cof(lo, v)[1])
    h1, h0 = cof(hi, w)
    l1, l0 = cof(lo, w)
    a, b = _reorder(v, h1, l1), _reorder(v, h0, l0)
    return a if a is b else _mk('ite', (w, a, b))


def b_not(c):
    return ite(c, FF, TT)


def b_and(a, b):
    return ite(a, b, FF)


def b_or(a, b):
    return ite(a, TT, b)


def lift(f, *args):
    """Applies f to all combinations of leaves of gated arguments."""
    memo = {}

    def go(xs):
        r = memo.get(xs)
        if r is not None:
            return r
        v = None
        for x in xs:
            if x.k == 'ite' and (v is None or x.a[0].uid < v.uid):
                v = x.a[0]
        if v is None:
            r = f(*xs)
        else:
            hi = go(tuple(cof(x, v)[0] for x in xs))
            lo = go(tuple(cof(x, v)[1] for x in xs))
            r = ite(_mk('ite', (v, TT, FF)), hi, lo)
        memo[xs] = r
        if len(memo) > 20000:
            raise Blowup('gated value too large')
        return r
    return go(args)


class Blowup(Exception):
    pass


def as_num(t):
    if t.k in ('num', 'ite'):
        return t
    if t is TT:
        return ONE
    if t is FF:
        return ZERO
    if t.k == 'at':
        return atom_num(t)
    return atom_num(atom('numof', t))


def _n(f):
    return lambda *xs: lift(lambda *ys: f(*[as_num(y) for y in ys]), *xs)


add = _n(padd)
sub = _n(psub)
mul = _n(pmul)


@_n
def neg(p):
    return pscale(p, Fr(-1))


@_n
def div(p, q):
    return pmul(p, pinv(q))


def _sgn_norm(p):
    """scale by positive constant, strip positive factors"""
    if not p.a:
        return p
    g, prim = _content(p)
    r = prim if g > 0 else pscale(prim, Fr(-1))
    # strip monomials of positive atoms
    com = None
    for m, _ in r.a:
        dm = {x: e for x, e in m if pos_atom(x) or (x.a[0] == 'inv' and _positive(x.a[1]))}
        if com is None:
            com = dm
        else:
            ks = set(com) | set(dm)
            com = {x: min(com.get(x, 0), dm.get(x, 0)) for x in ks}
            com = {x: e for x, e in com.items() if e}
    if com:
        for x, e in com.items():
            if x.a[0] == 'inv':
                r = pmul(r, ppow(x.a[1], e)) if e > 0 else r
            else:
                r = pmul(r, atom_num(x, -e))
        g, prim = _content(r)
        r = prim if g > 0 else pscale(prim, Fr(-1))
    return r


def _positive(p):
    ok = False
    for m, c in p.a:
        if c < 0 or any(not (nonneg_atom(x) or (e % 2 == 0)) for x, e in m):
            return False
        if all(pos_atom(x) for x, e in m):
            ok = True
    return ok


def _nonneg(p):
    for m, c in p.a:
        if c < 0 or any(not (nonneg_atom(x) or e % 2 == 0) for x, e in m):
            return _psd(p)
    return True


_PSD = {}


def _psd(p):
    """is the polynomial a quadratic form (completed by a constant) without negative values"""
    r = _PSD.get(p.uid)
    if r is None:
        r = _PSD[p.uid] = _psd_(p)
    return r


def _psd_(p):
    vs, g = [], {}
    for m, c in p.a:
        d = 0
        for x, e in m:
            if e not in (1, 2):
                return False
            d += e
            if x not in vs:
                vs.append(x)
        if d > 2:
            return False
    if not 2 <= len(vs) <= 12:
        return False
    ix = {x: i for i, x in enumerate(vs)}
    n = len(vs)
    q = [[Fr(0)] * (n + 1) for _ in range(n + 1)]
    for m, c in p.a:
        k = [ix[x] for x, e in m for _ in range(e)]
        i, j = (k + [n, n])[:2]
        q[i][j] += c / 2
        q[j][i] += c / 2
    for i in range(n + 1):
        if q[i][i] < 0:
            return False
        if q[i][i] == 0:
            if any(q[i][j] for j in range(i + 1, n + 1)):
                return False
            continue
        for j in range(i + 1, n + 1):
            f = q[j][i] / q[i][i]
            if f:
                for k in range(i, n + 1):
                    q[j][k] -= f * q[i][k]
    return True


_DBLMAX = [atom('DBLMAX')]


def _huge(p):
    """sign of a value that adds the largest double to ordinary ones (assumed smaller in magnitude)"""
    d = _DBLMAX[0]
    r = 0
    for m, c in p.a:
        if m == ((d, 1),):
            r = 1 if c > 0 else -1
        elif any(has(x, (d,)) for x, _ in m):
            return 0
    return r


def lt0(p):
    """condition p < 0 of a leaf"""
    c = const(p)
    if c is not None:
        return TT if c < 0 else FF
    if NAN_MODE[0]:
        p = _sgn_norm(p)
        return ite(atom('lt0', p), TT, FF)
    if _nonneg(p):
        return FF
    if _positive(pscale(p, Fr(-1))):
        return TT
    s = _huge(p)
    if s:
        return TT if s < 0 else FF
    if len(p.a) <= 8:
        for m, c in p.a:
            if c in (1, -1) and len(m) == 1 and m[0][1] == 1 and m[0][0].a[0] == 'floor':
                r = psub(p, _poly({m: c}))
                if is_int(r):
                    x = m[0][0].a[1]
                    if c == 1:
                        return lt0(padd(x, r))
                    return b_not(lt0(psub(psub(x, r), ONE)))
    p = _sgn_norm(p)
    if is_int(p):
        # x < 5  ==  not (-x < -4): leading coefficient positive; constants tightened
        cst = dict(p.a).get((), Fr(0))
        g = 0
        for m, c in p.a:
            if m != ():
                g = math.gcd(g, int(c))
        if g > 1:
            # g*q + cst < 0  <=>  q < -cst/g  <=> q + floor-ish < 0
            q = {m: c / g for m, c in p.a if m != ()}
            q[()] = Fr(math.floor(cst / g)) if False else -Fr(math.ceil(-cst / g))
            p = _poly(q)
        if lead(p) < 0:
            q = padd(pscale(p, Fr(-1)), num(-1))
            return ite(atom('lt0', q), FF, TT)
    return ite(atom('lt0', p), TT, FF)


def eq0(p):
    c = const(p)
    if c is not None:
        return TT if c == 0 else FF
    if is_zero(p):
        return TT
    if _positive(p) or _positive(pscale(p, Fr(-1))):
        return FF
    if _huge(p):
        return FF
    p = _sgn_norm(p)
    if lead(p) < 0:
        p = pscale(p, Fr(-1))
    if is_int(p):
        g = 0
        for m, c in p.a:
            if m != ():
                g = math.gcd(g, int(c))
        if dict(p.a).get((), Fr(0)) % g:
            return FF
        if _nonneg(p):
            return lt0(psub(p, ONE))
    return ite(atom('eq0', p), TT, FF)


@_n
def _lt(a, b):
    return lt0(psub(a, b))


def lt(a, b):
    return _lt(a, b)


def le(a, b):
    if NAN_MODE[0]:
        def f(x, y):
            d = psub(x, y)
            c = const(d)
            if c is not None:
                return TT if c <= 0 else FF
            return ite(atom('le0', _sgn_norm(d)), TT, FF)
        return _n(f)(a, b)
    return b_not(_lt(b, a))


def eq(a, b):
    def f(x, y):
        if x is y:
            return TT
        if x.k == 'num' or y.k == 'num':
            return eq0(psub(as_num(x), as_num(y)))
        if x in (TT, FF) and y in (TT, FF):
            return FF
        if x.k == 'str' and y.k == 'str':
            return FF
        r = _eqnew(x, y)
        if r is None:
            r = _eqnew(y, x)
        if r is not None:
            return r
        if x.k == 'at' and y.k == 'at' and x.a[0] == 'tup' == y.a[0]:
            if len(x.a) != len(y.a):
                return FF
            c = TT
            for p, q in zip(x.a[1:], y.a[1:]):
                c = b_and(c, eq(p, q))
            return c
        if x.uid > y.uid:
            x, y = y, x
        return ite(atom('eqp', x, y), TT, FF)
    return lift(f, a, b)


NULL = atom('null')


def _eqnew(x, y):
    """x == y where x is an object allocated here"""
    if x.k != 'at':
        return None
    if x.a[0] == 'null':
        return FF if y.k == 'at' and y.a[0] == 'new' else None
    if x.a[0] != 'new':
        return None
    if y.k == 'at' and y.a[0] == 'new':
        return eq0(psub(x.a[2], y.a[2])) if y.a[1] == x.a[1] else FF
    c = isnew(y, x.a[1])
    if c is FF:
        return FF
    return ite(c, eq0(psub(newidx(y), x.a[2])), FF)


def isnew(y, cls):
    if y.k == 'at' and y.a[0] == 'new':
        return TT if y.a[1] == cls else FF
    if y.k == 'at' and y.a[0] in ('null', 'in', 'sym'):
        return FF
    return ite(atom('isnew', y, cls), TT, FF)


def newidx(y):
    if y.k == 'at' and y.a[0] == 'new':
        return y.a[2]
    return atom_num(atom('newidx', y))


def new(cls, count):
    return lift(lambda c: atom('new', cls, c), count)


def mn(a, b):
    if lt(a, b) is FF:
        return b
    return ite(lt(b, a), b, a)


def mx(a, b):
    if lt(b, a) is FF:
        return b
    return ite(lt(a, b), b, a)


def absv(a):
    return ite(lt(a, ZERO), neg(a), a)


def cnd(op, *args):
    return ite(atom('b', op, *args), TT, FF)


# ---------------------------------------------------------------- functions
def _fn1(name):
    def f(p):
        p = as_num(p)
        return _apply1(name, p)
    return lambda x: lift(f, x)


def _split_angle(p):
    """p = sum c*m: list of (sign, base) with integer multiples of pi removed: returns (k_pi, terms)"""
    terms = []
    k = 0
    for m, c in p.a:
        if m == ((PI, 1),) and (2 * c).denominator == 1:
            k = int(2 * c)
            continue
        terms.append((m, c))
    return k, terms


def cos_sin(p):
    """(cos p, sin p) as polynomials over cos/sin of single terms"""
    halfpi, terms = _split_angle(p)
    c, s = ONE, ZERO
    for m, co in terms:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].a[0] == 'nang' and co.denominator == 1:
            c1, s1 = cos_sin(m[0][0].a[1])
            if co < 0:
                s1 = pscale(s1, Fr(-1))
            n = abs(int(co))
        else:
            n = 1
            if co.denominator == 1 and abs(co) <= 3:
                n = abs(int(co))
                b = _poly({m: Fr(1)})
            else:
                b = _poly({m: abs(co)})
            c1, s1 = atom_num(atom('cos', b)), atom_num(atom('sin', b))
            if len(m) == 1 and m[0][0].a[0] == 'atan2' and m[0][1] == 1 and n and b.a[0][1] == 1:
                y, x = m[0][0].a[1], m[0][0].a[2]
                r = pinv(_sqrt(padd(pmul(x, x), pmul(y, y))))
                c1, s1 = pmul(x, r), pmul(y, r)
            if co < 0:
                s1 = pscale(s1, Fr(-1))
        for _ in range(n):
            c, s = psub(pmul(c, c1), pmul(s, s1)), padd(pmul(s, c1), pmul(c, s1))
    h = halfpi % 4
    for _ in range(h):
        c, s = pscale(s, Fr(-1)), c
    return c, s


def _sqrt(p):
    c = const(p)
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fr(n, d))
    return atom_num(atom('sqrt', p))


def _apply1(name, p):
    c = const(p)
    if name == 'cos':
        return cos_sin(p)[0]
    if name == 'sin':
        return cos_sin(p)[1]
    if name == 'nang':
        # drop multiples of 2 pi, flatten nested, odd
        d = {}
        inner = ZERO
        for m, co in p.a:
            if m == ((PI, 1),):
                co = co - 2 * Fr(math.floor((co + 1) / 2)) if (co + 1) % 2 else Fr(1)
            if len(m) == 1 and m[0][1] == 1 and m[0][0].a[0] == 'nang' and co.denominator == 1:
                inner = padd(inner, pscale(m[0][0].a[1], co))
                continue
            d[m] = co
        q = padd(_poly(d), inner)
        if inner.a:
            return _apply1('nang', q)
        c = const(q)
        if c is not None and abs(c) < 3:
            return q
        if len(q.a) == 1 and q.a[0][0] == ((PI, 1),) and -1 < q.a[0][1] <= 1:
            return q
        if len(q.a) == 1 and q.a[0][1] in (1, -1) and len(q.a[0][0]) == 1 and q.a[0][0][0][0].a[0] == 'atan2' and q.a[0][0][0][1] == 1:
            return q
        if lead(q) < 0:
            return pscale(_apply1('nang', pscale(q, Fr(-1))), Fr(-1))
        return atom_num(atom('nang', q))
    if name == 'sqrt':
        return _sqrt(p)
    if name in ('floor', 'trunc', 'round'):
        if c is not None:
            f = {'floor': math.floor, 'trunc': math.trunc}.get(name)
            if name == 'round':
                return num(math.floor(abs(c) + Fr(1, 2)) * (1 if c >= 0 else -1))
            return num(f(c))
        if is_int(p):
            return p
        if name == 'floor':
            ip = {m: co for m, co in p.a if is_int(_poly({m: co}))}
            if ip:
                ip = _poly(ip)
                return padd(ip, _apply1('floor', psub(p, ip)))
        if name in ('trunc', 'round') and lead(p) < 0:
            return pscale(_apply1(name, pscale(p, Fr(-1))), Fr(-1))
        if name == 'trunc' and _nonneg(p):
            return _apply1('floor', p)
        return atom_num(atom(name, p))
    if name == 'exp' and c == 0:
        return ONE
    return atom_num(atom(name, p))


cos = _fn1('cos')
sin = _fn1('sin')
sqrt = _fn1('sqrt')
exp = _fn1('exp')
floor = _fn1('floor')
trunc = _fn1('trunc')
rnd = _fn1('round')
nang = _fn1('nang')


def ceil(x):
    return neg(floor(neg(x)))


def fn(name, *args):
    """uninterpreted numeric function of gated numbers"""
    return lift(lambda *xs: atom_num(atom(name, *[as_num(x) for x in xs])), *args)


def atan2(y, x):
    def f(a, b):
        if not a.a and const(b) is not None and const(b) > 0:
            return ZERO
        # positive common factors do not matter
        return atom_num(atom('atan2', a, b))
    return _n(f)(y, x)


# ---------------------------------------------------------------- binding
def lam(vars_, body):
    """function of the given symbol atoms"""
    d = body.bv + 1
    sub_ = {v: atom('bv', d, i) for i, v in enumerate(vars_)}
    return _mk('lam', (d, subst(body, sub_), len(vars_)))


def app(f, *args):
    """apply lam to values"""
    assert f.k == 'lam', f
    d = f.a[0]
    return subst(f.a[1], {atom('bv', d, i): x for i, x in enumerate(args)})


def contains(t, pred, seen=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        st.extend(_kids(x))
    return False


_has_memo = {}


def has(t, atoms):
    fv = t.fv
    rest = None
    for x in atoms:
        if x.k == 'at' and x.a[0] in VARS:
            if x in fv:
                return True
        else:
            rest = True
    if rest is None:
        return False
    atoms = frozenset(atoms)
    key = (t, atoms)
    r = _has_memo.get(key)
    if r is None:
        r = contains(t, lambda x: x in atoms)
        _has_memo[key] = r
    return r


def atoms_of(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == 'at':
            out.append(x)
        st.extend(_kids(x))
    return out


REBUILD = {}


def subst(t, m, hook=None, memo=None):
    """capture-free: bound variables of lams are never in m's domain unless applied;
    hook = (marker, f): 'mu' atoms of the marker are replaced by f(number, arguments)"""
    if not m and hook is None:
        return t
    keys = frozenset(m) if hook is None else frozenset(m) | {hook[0]}
    memo = {} if memo is None else memo

    def hooked(x):
        """value of a mu atom of the hook or None"""
        if hook is not None and x.k == 'at' and x.a[0] == 'mu' and x.a[1] is hook[0]:
            return hook[1](x.a[2], [rec(y) for y in x.a[3]])
        return None

    def num_of(x, p):
        return p

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not has(x, keys):
            r = x
        elif x.k == 'num':
            r = ZERO
            for mono, c in x.a:
                term = num(c)
                for y, e in mono:
                    z = as_num(go_atom(y))
                    if e < 0:
                        z = lift(lambda p, e=e: ppow(pinv(p), -e), z)
                    elif e > 1:
                        z = lift(lambda p, e=e: ppow(p, e), z)
                    term = mul(term, z)
                r = add(r, term)
        elif x.k == 'ite':
            r = ite(go_cond(x.a[0]), go(x.a[1]), go(x.a[2]))
        elif x.k == 'lam':
            nb = go(x.a[1])
            d = x.a[0]
            if nb.bv + 1 != d and not (nb.bv < d and False):
                # renumber the binder so that it stays normal
                old = [atom('bv', d, i) for i in range(x.a[2])]
                tmp = [atom('tmpbv', d, i, x.uid) for i in range(x.a[2])]
                # inner lams may now have the same depth as this binder: rename apart
                body = subst2(x.a[1], dict(zip(old, tmp)))
                body = subst(body, m, hook)
                r = lam(tmp, body)
            else:
                r = _mk('lam', (d, nb, x.a[2]))
        elif x.k == 'at':
            r = go_atom(x)
        elif x.k == 'tup':
            r = _mk('tup', tuple(go(y) for y in x.a))
        else:
            r = x
        memo[x] = r
        return r

    def go_cond(c):
        if c in m:
            v = m[c]
            return v if v.k in ('ite', 'tt', 'ff') else ite(v, TT, FF)
        if not has(c, keys):
            return ite(c, TT, FF)
        h = hooked(c)
        if h is not None:
            return h if h.k in ('ite', 'tt', 'ff') else ite(h, TT, FF)
        op = c.a[0]
        if op == 'lt0':
            return lift(lambda p: lt0(as_num(p)), go(c.a[1]))
        if op == 'le0':
            return le(go(c.a[1]), ZERO)
        if op == 'eq0':
            return lift(lambda p: eq0(as_num(p)), go(c.a[1]))
        if op == 'eqp':
            return eq(go(c.a[1]), go(c.a[2]))
        args = [rec(y) for y in c.a[1:]]
        if op == 'isnew':
            return lift(lambda p: isnew(p, args[1]), args[0])
        return lift_atom('cond', op, args)

    def rec(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(rec(z) for z in y)
        return y

    def go_atom(x):
        if x in m:
            return m[x]
        if not has(x, keys):
            return x
        r = memo.get(('a', x))
        if r is not None:
            return r
        r = hooked(x)
        if r is None:
            op = x.a[0]
            args = [rec(y) for y in x.a[1:]]
            r = lift_atom('at', op, args)
        memo[('a', x)] = r
        return r
    return go(t)


def subst2(t, m):
    return subst(t, m)


def lift_atom(kind, op, args):
    """rebuilds an atom, lifting gated direct arguments"""
    idx = [i for i, y in enumerate(args) if isinstance(y, T) and y.k == 'ite' and op not in NOLIFT]

    def build(*leaves):
        ys = list(args)
        for i, l in zip(idx, leaves):
            ys[i] = l
        if kind == 'cond':
            return ite(atom(op, *ys), TT, FF)
        f = REBUILD.get(op)
        if f:
            return f(*ys)
        return atom(op, *ys)
    if idx:
        return lift(build, *[args[i] for i in idx])
    return build()


NOLIFT = {'sum', 'fold', 'afold', 'sel', 'while', 'min', 'max', 'bag', 'trips', 'nth', 'arr', 'uf', 'call', 'st', 'out', 'res', 'draw', 'pick'}
for _nme in ('cos', 'sin', 'sqrt', 'exp', 'floor', 'trunc', 'round', 'nang'):
    REBUILD[_nme] = (lambda nme: lambda p: _apply1(nme, as_num(p)))(_nme)
REBUILD['inv'] = lambda p: pinv(as_num(p))
REBUILD['atan2'] = lambda y, x: atan2(as_num(y), as_num(x))


# ---------------------------------------------------------------- sums
def bsum(n, body_fn, name=None):
    """sum over k in [0, n) of body(k)"""
    k = atom('fresh', 'k', len(_tab))
    INT_FRESH.add(k)
    return sum_over(n, k, body_fn(atom_num(k)))


INT_FRESH = set()
_old_int = is_int_atom


def is_int_atom(x):  # noqa: F811
    return x in INT_FRESH or (x.k == 'at' and x.a[0] in ('fresh_i', 'tmpbv')) or _old_int(x)


_kn = [0]


def fresh_index():
    _kn[0] += 1
    k = atom('fresh_i', _kn[0])
    return k


def sum_over(n, k, body):
    """sum_{k<n} body with k a symbol atom; linear normal form"""
    body = as_num(body)
    if n.k == 'ite':
        v = n.a[0]
        return ite(_mk('ite', (v, TT, FF)), sum_over(n.a[1], k, _restrict(body, v, True)), sum_over(n.a[2], k, _restrict(body, v, False)))
    cn = const(n)
    if cn is not None and 0 <= cn <= 4:
        r = ZERO
        for i in range(int(cn)):
            r = add(r, subst(body, {k: num(i)}))
        return r
    body = as_num(_below(body, k, n))
    if n.k == 'num' and counts_down(body, k):
        rev = as_num(_below(subst(body, {k: psub(psub(n, ONE), atom_num(k))}), k, n))
        if node_count(rev) < node_count(body):
            body = rev
    # conditions that do not depend on k go outside
    if body.k == 'ite':
        v = _indep_cond(body, k)
        if v is not None:
            hi, lo = _restrict(body, v, True), _restrict(body, v, False)
            return ite(_mk('ite', (v, TT, FF)), sum_over(n, k, hi), sum_over(n, k, lo))
        return _sum_gated(n, k, body)
    r = ZERO
    if body.k != 'num':
        body = as_num(body)
    for m, c in body.a:
        inside, outside = [], []
        for x, e in m:
            (inside if has(x, (k,)) else outside).append((x, e))
        o = _poly({tuple(outside): c})
        if not inside:
            r = padd(r, pmul(o, n))
        elif inside == [(k, 1)]:
            r = padd(r, pscale(pmul(o, pmul(n, psub(n, ONE))), Fr(1, 2)))
        else:
            r = padd(r, pmul(o, _sum_atom(n, k, _poly({tuple(inside): Fr(1)}))))
    return r


def counts_down(t, k):
    """does an index of the form n - k occur"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen or not has(x, (k,)):
            continue
        seen.add(x)
        if x.k == 'num' and any(c < 0 and m == ((k, 1),) for m, c in x.a):
            return True
        st += _kids(x)
    return False


def node_count(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += _kids(x)
    return sum(len(x.a) if x.k == 'num' else 1 for x in seen)


def _below(body, k, n):
    """body for k < n"""
    c = lt(atom_num(k), n)
    if c.k == 'ite' and c.a[1] in (TT, FF) and c.a[2] in (TT, FF) and has(body, (c.a[0],)):
        return subst(body, {c.a[0]: c.a[1]})
    return body


def _indep_cond(t, k):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.k != 'ite' or x in seen:
            continue
        seen.add(x)
        if not has(x.a[0], (k,)):
            return x.a[0]
        st += [x.a[1], x.a[2]]
    return None


def _restrict_lam(f, v, val):
    """restricts the gates of a function by a condition from outside it"""
    if f.k == 'ite':
        return _restrict(f, v, val)
    if f.k == 'tup':
        return _mk('tup', tuple(_restrict_lam(x, v, val) for x in f.a))
    if f.k == 'lam':
        b = _restrict_lam(f.a[1], v, val)
        if b is f.a[1]:
            return f
        d = b.bv + 1
        if d == f.a[0]:
            return _mk('lam', (d, b, f.a[2]))
        tmp = [atom('tmpbv', f.a[0], i, f.uid) for i in range(f.a[2])]
        return lam(tmp, subst(b, {atom('bv', f.a[0], i): asval_like(x, f) for i, x in enumerate(tmp)}))
    return f


def asval_like(x, f):
    return x


def split_conj(C):
    """conjunction of literals and the remaining condition"""
    lits = []
    while C.k == 'ite':
        if C.a[2] is FF:
            lits.append((C.a[0], True))
            C = C.a[1]
        elif C.a[1] is FF:
            lits.append((C.a[0], False))
            C = C.a[2]
        else:
            break
    return lits, C


def literals(C):
    return split_conj(C)[0]


def _restrict(t, v, val):
    memo = {}

    def go(x):
        if x.k != 'ite' or x.a[0].uid > v.uid:
            return x
        if x.a[0] is v:
            return x.a[1] if val else x.a[2]
        r = memo.get(x)
        if r is None:
            r = ite(_mk('ite', (x.a[0], TT, FF)), go(x.a[1]), go(x.a[2]))
            memo[x] = r
        return r
    return go(t)


def _leaves(t, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t in seen:
        return out
    seen.add(t)
    if t.k == 'ite':
        _leaves(t.a[1], out, seen)
        _leaves(t.a[2], out, seen)
    else:
        out.append(t)
    return out


def _sum_gated(n, k, body):
    # pull out factors common to all leaves that do not depend on k
    com = None
    for l in _leaves(body):
        for m, c in l.a:
            dm = {x: e for x, e in m if not has(x, (k,))}
            if com is None:
                com = dm
            else:
                com = {x: e for x, e in com.items() if dm.get(x) == e}
    c0 = None
    for l in sorted((l for l in _leaves(body) if l.a), key=lambda q: q.uid):
        c0 = l.a[-1][1]
        break
    if c0 is None:
        return ZERO
    f = num(c0)
    if com:
        f = pmul(f, _poly({tuple(sorted(com.items(), key=lambda xe: xe[0].uid)): Fr(1)}))
    if f is not ONE:
        inv = pinv(f)
        return pmul(f, _sum_atom(n, k, lift(lambda p: pmul(p, inv), body)))
    return _sum_atom(n, k, body)


def _sum_atom(n, k, body):
    b = lam([k], body)
    return atom_num(atom('sum', n, b))


def _re_sum(n, b):
    k = fresh_index()
    return sum_over(n, k, app(b, atom_num(k)))


REBUILD['sum'] = _re_sum
INFTY = atom('infty')


def mkfold(i, n, inits, step, kind):
    """component i of the state after n steps"""
    if n.k == 'ite':
        v = n.a[0]
        return ite(_mk('ite', (v, TT, FF)), mkfold(i, n.a[1], tuple(_restrict(x, v, True) for x in inits), _restrict_lam(step, v, True), kind),
                   mkfold(i, n.a[2], tuple(_restrict(x, v, False) for x in inits), _restrict_lam(step, v, False), kind))
    c = const(n)
    if c is not None and c <= 3:
        cur = list(inits)
        for j in range(max(0, int(c))):
            r = app(step, num(j), *cur)
            cur = list(r.a)
        return cur[i]
    d = step.a[0]
    b = _below(step.a[1], atom('bv', d, 0), n) if step.k == 'lam' and not has(n, (atom('bv', d, 0),)) else step.a[1]
    if b is not step.a[1]:
        ks = [fresh_index()] + [atom('tmpbv', d, j, step.uid) for j in range(1, step.a[2])]
        step = lam(ks, subst(b, {atom('bv', d, j): x for j, x in enumerate(ks)}))
    return _asval(atom('fold', i, n, tuple(inits), step, kind), kind)


def mkafold(i, n, inits, step, idx, kind):
    """element idx of component i; the initial values of array components are functions"""
    if n.k == 'ite':
        v = n.a[0]
        return ite(_mk('ite', (v, TT, FF)), mkafold(i, n.a[1], tuple(_restrict_lam(x, v, True) for x in inits), _restrict_lam(step, v, True), idx, kind),
                   mkafold(i, n.a[2], tuple(_restrict_lam(x, v, False) for x in inits), _restrict_lam(step, v, False), idx, kind))
    if const(n) is not None and const(n) <= 0:
        return app(inits[i], *idx) if inits[i].k == 'lam' else inits[i]
    return _asval(atom('afold', i, n, tuple(inits), step, tuple(idx), kind), kind)


def mksel(f, idx, kind):
    if f.k == 'lam':
        return app(f, *idx)
    return _asval(atom('sel', f, tuple(idx), kind), kind)


def _asval(a, kind):
    if kind == 'bool':
        return ite(a, TT, FF)
    return a if kind in ('ptr', 'obj', 'str') else atom_num(a)


def mktrips(n, f):
    """number of leading k < n for which f(k) holds"""
    if n.k == 'ite':
        v = n.a[0]
        return ite(_mk('ite', (v, TT, FF)), mktrips(n.a[1], _restrict_lam(f, v, True)), mktrips(n.a[2], _restrict_lam(f, v, False)))
    if n is ZERO:
        return ZERO
    if f.a[1] is TT and n is not INFTY:
        return n
    if f.a[1] is FF:
        return ZERO
    return atom_num(atom('trips', n, f))


REBUILD['fold'] = mkfold
REBUILD['afold'] = mkafold
REBUILD['sel'] = mksel
REBUILD['trips'] = mktrips
REBUILD['newidx'] = newidx
REBUILD['new'] = lambda cls, c: new(cls, c)


def is_int_sum(x):
    return is_int(x.a[2].a[1])


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return '..'
    if t is TT:
        return 'true'
    if t is FF:
        return 'false'
    if t.k == 'str':
        return '"%s"' % t.a[0]
    if t.k == 'num':
        if not t.a:
            return '0'
        parts = []
        for m, c in t.a:
            s = '*'.join((show(x, depth + 1) + ('' if e == 1 else '^%d' % e)) for x, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%s*%s' % (c, s)
            parts.append(s)
        return '(' + ' + '.join(parts) + ')' if len(parts) > 1 else parts[0]
    if t.k == 'ite':
        return '[%s ? %s : %s]' % (show(t.a[0], depth + 1), show(t.a[1], depth + 1), show(t.a[2], depth + 1))
    if t.k == 'lam':
        return '\\%d.%s' % (t.a[0], show(t.a[1], depth + 1))
    if t.k == 'tup':
        return '<' + ', '.join(show(x, depth + 1) for x in t.a) + '>'
    op = t.a[0]
    if op in ('sym', 'isym'):
        return str(t.a[1])
    if op == 'bv':
        return '#%s.%s' % (t.a[1], t.a[2])

    def sh(x):
        if isinstance(x, T):
            return show(x, depth + 1)
        if isinstance(x, tuple):
            return '(' + ', '.join(sh(y) for y in x) + ')'
        return str(x)
    if op == 'lt0':
        return sh(t.a[1]) + '<0'
    if op == 'eq0':
        return sh(t.a[1]) + '==0'
    return op + '(' + ', '.join(sh(x) for x in t.a[1:]) + ')'
