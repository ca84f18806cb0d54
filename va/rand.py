"""Identity filter for value-graph terms (random interpretation): decides that two different normal forms
really denote different functions before a difference is reported. Terms are interpreted over random rational
valuations of their input atoms; uninterpreted functions get consistent pseudo-random values. Two terms are
'separated' when valuations satisfying the assumption give them different values. Program code is never run."""
import hashlib, math, random
from fractions import Fraction as Fr
from . import terms as T

TOL = 1e-7
NAN = float('nan')


LIBM = {n: getattr(math, n) for n in ('log', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'log2', 'log10', 'log1p', 'expm1', 'erf', 'erfc', 'lgamma')}
LIBM['tgamma'] = math.gamma
LIBM['cbrt'] = lambda v: math.copysign(abs(v) ** (1.0 / 3), v)
LIBM['exp2'] = lambda v: 2.0 ** v


class Skip(Exception):
    """valuation not usable (outside the budget, on a rounding boundary, ...)"""


class DivZero(Exception):
    pass


class Unsupported(Exception):
    pass


class Clo:
    __slots__ = ('t', 'env', 'memo')

    def __init__(self, t, env):
        self.t, self.env, self.memo = t, env, {}


def q6(x):
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return str(x)
        if x == 0 or abs(x) < 1e-9:
            return '0'
        s = '%.6g' % x
        return s if float(s) != int(float(s)) or abs(float(s)) > 1e15 else str(int(float(s)))
    if isinstance(x, Fr):
        return q6(float(x)) if x.denominator != 1 else str(x.numerator) if abs(x) < 10**6 else q6(float(x))
    if isinstance(x, bool):
        return 'T' if x else 'F'
    if isinstance(x, tuple):
        return '(' + ','.join(q6(y) for y in x) + ')'
    return str(x)


class Val:
    """one valuation"""

    def __init__(self, seed, consts=(), small=(), budget=60000):
        self.seed = seed
        self.r = random.Random(seed)
        self.mode = self.r.choice(['int', 'int', 'half', 'half', 'wide', 'mix'])
        self.maxn = self.r.choice([1, 2, 3, 3, 4, 5, 6, 8, 12])
        self.consts = list(consts)
        self.memo = {}
        self.budget = budget
        self.log = {}
        self.force, self.keys = {}, {}
        self.bools = self.r.choice([0.5, 0.5, 0.8, 0.2])
        self.finite = self.r.choice([1.0, 1.0, 0.7])
        self.nan = self.r.choice([0.0, 0.2])
        self.nullp = self.r.choice([0.0, 0.3])
        self.small = small
        self.near = bool(small) and self.r.random() < 0.2

    def h(self, *key):
        s = '%s|%s' % (self.seed, '|'.join(q6(k) if not isinstance(k, str) else k for k in key))
        return random.Random(int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), 'big'))

    def sample(self, kind, key, positive=False, nonneg=False):
        r = self.h(*key)
        if kind == 'bool':
            return r.random() < self.bools
        if kind in ('size', 'isize'):
            if self.consts and r.random() < 0.1:
                c = r.choice(self.consts) + r.choice([-1, 0, 1])
                if c.denominator == 1 and 0 <= c <= 40:
                    return Fr(c)
            return Fr(r.randint(1 if positive else 0, self.maxn))
        if kind == 'int':
            if self.consts and r.random() < 0.1:
                c = r.choice(self.consts) + r.choice([-1, 0, 1])
                if c.denominator == 1 and abs(c) <= 40:
                    return Fr(c)
            return Fr(r.randint(1 if positive else 0 if nonneg else -2, self.maxn))
        if kind == 'real':
            m = self.mode if self.mode != 'mix' else r.choice(['int', 'half', 'wide', 'fine'])
            if self.near and r.random() < 0.8:
                x = r.choice([0, 0, r.choice(self.small) * Fr(r.randint(1, 24), 12) * r.choice([1, -1])])
                x = Fr(x)
            elif self.consts and r.random() < 0.12:
                x = Fr(r.choice(self.consts)) + r.choice([0, 0, Fr(1, 1000), Fr(-1, 1000)])
            elif m == 'int':
                x = Fr(r.randint(-3, 3))
            elif m == 'half':
                x = Fr(r.randint(-12, 12), 4)
            elif m == 'fine':
                x = Fr(r.randint(-1000, 1000), 997)
            else:
                x = Fr(r.randint(-100, 100), r.choice([1, 3, 7, 10]))
            if T.NAN_MODE[0] and not positive and r.random() < self.nan:
                return NAN
            if positive:
                x = abs(x) or Fr(1, 2)
            if nonneg:
                x = abs(x)
            return x
        if kind == 'ptr':
            return ('p', q6(tuple(key)))
        return ('o', hashlib.blake2b(q6(tuple(key)).encode(), digest_size=8).hexdigest())

    # ------------------------------------------------------------
    def ev(self, t, env=None):
        env = env or {}
        k = t.k
        if k == 'tt':
            return True
        if k == 'ff':
            return False
        if k == 'str':
            return ('s', t.a[0])
        fb = [x for x in t.fv if x.a[0] == 'bv']
        key = t if not fb else (t,) + tuple(_kk(env.get(x)) for x in sorted(fb, key=lambda y: y.uid))
        if key in self.memo:
            return self.memo[key]
        self.budget -= 1
        if self.budget < 0:
            raise Skip('budget')
        if k == 'num':
            r = self.num(t, env)
        elif k == 'ite':
            x = t
            while x.k == 'ite':
                x = x.a[1] if self.truth(x.a[0], env) else x.a[2]
            r = self.ev(x, env)
        elif k == 'lam':
            r = Clo(t, dict(env))
        elif k == 'tup':
            r = tuple(self.ev(x, env) for x in t.a)
        else:
            r = self.at(t, env)
        self.memo[key] = r
        return r

    def truth(self, v, env):
        r = self.ev(v, env)
        if isinstance(r, bool):
            return r
        if isinstance(r, (Fr, float, int)):
            return r != 0
        return self.h('truth', q6(r)).random() < 0.5

    def asnum(self, x):
        if isinstance(x, bool):
            return Fr(1 if x else 0)
        if isinstance(x, (Fr, float)):
            return x
        if isinstance(x, int):
            return Fr(x)
        raise Unsupported('number expected: %r' % (x,))

    def num(self, t, env):
        tot, mag, fl = Fr(0), 0.0, False
        for m, c in t.a:
            x = c
            zero = False
            for y, e in m:
                v = self.asnum(self.ev(y, env))
                if v != v:
                    return NAN
                if v == 0:
                    if e < 0:
                        raise (Skip('singular') if y.a[0] in ('sqrt',) else DivZero())
                    zero = True
                    continue
                try:
                    x = x * v ** e
                except OverflowError:
                    raise Skip('overflow')
            if zero:
                continue
            if isinstance(x, float):
                fl = True
                if x != x and T.NAN_MODE[0]:
                    return NAN
                if x != x or abs(x) == math.inf:
                    raise Skip('overflow')
                mag = max(mag, abs(x))
            else:
                if x.denominator > 10**60 or abs(x.numerator) > 10**400:
                    raise Skip('size')
                try:
                    mag = max(mag, abs(float(x)))
                except OverflowError:
                    mag = 1e300
            try:
                tot = tot + x
            except OverflowError:
                raise Skip('overflow')
        if fl or isinstance(tot, float):
            tot = float(tot)
            if abs(tot) < 1e-11 * mag:
                tot = 0.0
        return tot

    def sign0(self, p, env):
        """sign of a polynomial; a float on the boundary is not usable"""
        v = self.ev(p, env)
        v = self.asnum(v)
        if isinstance(v, float):
            if abs(v) < 1e-9:
                raise Skip('boundary')
        return v        # all comparisons with NaN are false

    def call(self, f, *args):
        """applies a function value"""
        if isinstance(f, Clo):
            d = f.t.a[0]
            env = dict(f.env)
            for i, a in enumerate(args):
                env[T.atom('bv', d, i)] = a
            return self.ev(f.t.a[1], env)
        if callable(f):
            return f(*args)
        raise Unsupported('function expected')

    def count(self, x, cap=512):
        x = self.asnum(x)
        if isinstance(x, float):
            raise Skip('count')
        n = int(x)
        if n > cap:
            raise Skip('count')
        return n

    def at(self, t, env):
        op = t.a[0]
        f = getattr(self, 'o_' + op, None)
        if f is not None:
            return f(t, env)
        return self.generic(t, env)

    def key(self, x, env):
        if isinstance(x, T.T):
            return self.canon(self.ev(x, env))
        if isinstance(x, tuple):
            return tuple(self.key(y, env) for y in x)
        return str(x)

    def canon(self, v):
        if isinstance(v, Clo):
            # an unbounded function: compare by its first values
            n = v.t.a[2]
            if n != 1:
                raise Unsupported('function argument')
            out = []
            for i in range(3):
                try:
                    out.append(self.canon(self.call(v, Fr(i))))
                except DivZero:
                    out.append('div0')
            return tuple(out)
        if isinstance(v, tuple):
            return tuple(self.canon(y) for y in v)
        return v

    def generic(self, t, env):
        op = t.a[0]
        kind = t.a[-1] if isinstance(t.a[-1], str) and t.a[-1] in ('real', 'int', 'size', 'bool', 'ptr', 'obj', 'str') else None
        if kind is None:
            kind = {'isym': 'int', 'newidx': 'size', 'strlen': 'size', 'b': 'bool', 'throws': 'bool', 'isnew': 'bool', 'pick': 'size', 'draw': 'real',
                    'pow': 'real'}.get(op)
        if kind is None and op in T.INT_OPS:
            kind = 'size'
        if kind is None:
            kind = 'obj' if op in ('call', 'st', 'out', 'obj0', 'setf', 'tostr', 'concat', 'mapend', 'solve', 'null', 'new', 'sym') else 'real'
        key = (op,) + tuple(self.key(x, env) for x in t.a[1:])
        s = T.SIGN.get(t)
        if s is None and op == 'in':
            s = T.SIGN.get(t)
        if op == 'in' and kind == 'ptr' and self.nullp and key not in self.force and self.h('null', *key).random() < self.nullp and t in self.nullable:
            return ('p', 'null')
        if key in self.force:
            r = self.force[key]
        else:
            r = self.sample(kind, key, s == 'pos', s == 'nonneg')
        self.keys[t] = (key, kind, s)
        if op == 'in' and len(self.log) < 400:
            self.log[t] = (key, r)
        return r

    nullable = frozenset()

    # ------------------------------------------------------------ interpreted operations
    def o_bv(self, t, env):
        if t not in env:
            raise Unsupported('unbound variable')
        return env[t]

    free = {}

    def o_fresh_i(self, t, env):
        if t in self.free:
            return self.free[t]
        raise Unsupported('free index')

    def o_null(self, t, env):
        return ('p', 'null')

    def o_pi(self, t, env):
        return math.pi

    def o_DBLMAX(self, t, env):
        return Fr(10) ** 250

    def o_DBLMIN(self, t, env):
        return Fr(1, 10 ** 30)

    def o_EPS(self, t, env):
        return Fr(1, 2 ** 52)

    def o_INF(self, t, env):
        return Fr(10) ** 280

    def o_NAN(self, t, env):
        raise Skip('nan')

    def o_lt0(self, t, env):
        return self.sign0(t.a[1], env) < 0

    def o_le0(self, t, env):
        return self.sign0(t.a[1], env) <= 0

    def o_eq0(self, t, env):
        return self.sign0(t.a[1], env) == 0

    def o_eqp(self, t, env):
        return q6(self.key(t.a[1], env)) == q6(self.key(t.a[2], env))

    def o_isnew(self, t, env):
        v = self.ev(t.a[1], env)
        return isinstance(v, tuple) and len(v) == 3 and v[0] == 'new' and v[1] == t.a[2]

    def o_new(self, t, env):
        return ('new', t.a[1], self.ev(t.a[2], env))

    def o_newidx(self, t, env):
        v = self.ev(t.a[1], env)
        if isinstance(v, tuple) and v[0] == 'new':
            return v[2]
        return Fr(-1)

    def o_isfinite(self, t, env):
        v = self.ev(t.a[1], env)
        k = ('isfinite', q6(v))
        if k in self.force:
            return self.force[k]
        return self.h('finite', v).random() < self.finite

    def o_isnan(self, t, env):
        v = self.ev(t.a[1], env)
        k = ('isnan', q6(v))
        if k in self.force:
            return self.force[k]
        return self.h('nan', v).random() < 0.5

    def o_divzero(self, t, env):
        raise DivZero()

    def o_inv(self, t, env):
        v = self.asnum(self.ev(t.a[1], env))
        if v == 0:
            if isinstance(v, float):
                raise Skip('singular')
            raise DivZero()
        return 1 / v

    def f1(self, t, env):
        return self.asnum(self.ev(t.a[1], env))

    def o_cos(self, t, env):
        v = self.f1(t, env)
        return Fr(1) if v == 0 and isinstance(v, Fr) else math.cos(v)

    def o_sin(self, t, env):
        v = self.f1(t, env)
        return Fr(0) if v == 0 and isinstance(v, Fr) else math.sin(v)

    def o_sqrt(self, t, env):
        v = self.f1(t, env)
        if v < 0:
            if isinstance(v, float) and v > -1e-9:
                return 0.0
            raise Skip('sqrt')
        if isinstance(v, Fr):
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return Fr(n, d)
        return math.sqrt(v)

    def o_exp(self, t, env):
        v = self.f1(t, env)
        try:
            return Fr(1) if v == 0 and isinstance(v, Fr) else math.exp(v)
        except OverflowError:
            raise Skip('exp')

    def library(self, t, env):
        v = self.f1(t, env)
        f = LIBM[t.a[0]]
        try:
            r = f(float(v))
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Skip(t.a[0])
        return Fr(0) if r == 0 else r

    def __getattr__(self, n):
        if n[:2] == 'o_' and n[2:] in LIBM:
            return self.library
        raise AttributeError(n)

    def o_pow(self, t, env):
        x, y = self.asnum(self.ev(t.a[1], env)), self.asnum(self.ev(t.a[2], env))
        try:
            r = float(x) ** float(y)
        except (OverflowError, ZeroDivisionError):
            raise Skip('pow')
        if isinstance(r, complex):
            raise Skip('pow')
        return r

    def rounding(self, v, f):
        if v != v:
            return Fr(0)
        if isinstance(v, float):
            if abs(v - round(v)) < 1e-7 or abs(2 * v - round(2 * v)) < 1e-7:
                raise Skip('boundary')
        return Fr(f(v))

    def o_floor(self, t, env):
        return self.rounding(self.f1(t, env), math.floor)

    def o_trunc(self, t, env):
        return self.rounding(self.f1(t, env), math.trunc)

    def o_round(self, t, env):
        v = self.f1(t, env)
        return self.rounding(v, lambda x: math.floor(abs(x) + Fr(1, 2)) * (1 if x >= 0 else -1))

    def o_nang(self, t, env):
        v = self.f1(t, env)
        if -3 < v < 3:
            return v
        r = math.remainder(float(v), 2 * math.pi)
        if abs(abs(r) - math.pi) < 1e-9:
            raise Skip('boundary')
        return r

    def o_nangp(self, t, env):
        v = self.f1(t, env)
        if 0 <= v < 6:
            return v
        return float(v) % (2 * math.pi)

    def o_atan2(self, t, env):
        y, x = self.asnum(self.ev(t.a[1], env)), self.asnum(self.ev(t.a[2], env))
        if y == 0 and x == 0:
            return Fr(0)
        if y == 0 and x > 0:
            return Fr(0)
        if abs(y) < 1e-9 and x < 0:
            raise Skip('boundary')
        return math.atan2(y, x)

    def o_yaw(self, t, env):
        x, y, z, w = (self.asnum(self.ev(a, env)) for a in t.a[1:5])
        return math.atan2(2 * (w * z + x * y), w * w + x * x - y * y - z * z)

    def o_idiv(self, t, env):
        x, y = self.asnum(self.ev(t.a[1], env)), self.asnum(self.ev(t.a[2], env))
        if y == 0:
            raise Skip('idiv')
        return Fr(math.trunc(x / y))

    def o_imod(self, t, env):
        x, y = self.asnum(self.ev(t.a[1], env)), self.asnum(self.ev(t.a[2], env))
        if y == 0:
            raise Skip('imod')
        return x - y * math.trunc(x / y)

    def o_sum(self, t, env):
        n = self.count(self.ev(t.a[1], env))
        f = self.ev(t.a[2], env)
        r = Fr(0)
        for i in range(n):
            r = r + self.asnum(self.call(f, Fr(i)))
        return r

    def o_trips(self, t, env):
        n = t.a[1]
        cap = 200 if n is T.INFTY else self.count(self.ev(n, env), 200)
        f = self.ev(t.a[2], env)
        for i in range(cap):
            if not self.call(f, Fr(i)):
                return Fr(i)
        if n is T.INFTY:
            raise Skip('trips')
        return Fr(cap)

    def o_nth(self, t, env):
        f = self.ev(t.a[1], env)
        pos = self.count(self.ev(t.a[2], env))
        if pos < 0:
            return Fr(0)
        for i in range(200):
            if self.call(f, Fr(i)):
                if pos == 0:
                    return Fr(i)
                pos -= 1
        raise Skip('nth')

    def o_arr(self, t, env):
        n = self.count(self.ev(t.a[1], env))
        f = self.ev(t.a[2], env)
        return tuple(self.call(f, Fr(i)) for i in range(n))

    def o_fold(self, t, env):
        i, n, inits, step = t.a[1:5]
        n = self.count(self.ev(n, env), 128)
        cur = [self.ev(x, env) for x in inits]
        f = self.ev(step, env)
        for j in range(n):
            cur = list(self.call(f, Fr(j), *cur))
        return cur[i]

    def o_afold(self, t, env):
        i, n, inits, step, idx = t.a[1:6]
        n = self.count(self.ev(n, env), 128)
        cur = [self.ev(x, env) for x in inits]
        f = self.ev(step, env)
        for j in range(n):
            cur = list(self.call(f, Fr(j), *cur))
        c = cur[i]
        if isinstance(c, Clo):
            return self.apply_memo(c, [self.ev(x, env) for x in idx])
        return c

    def apply_memo(self, c, args):
        k = tuple(_kk(a) for a in args)
        if k not in c.memo:
            c.memo[k] = self.call(c, *args)
        return c.memo[k]

    def o_sel(self, t, env):
        f = self.ev(t.a[1], env)
        args = [self.ev(x, env) for x in t.a[2]]
        if isinstance(f, Clo):
            return self.apply_memo(f, args)
        return self.call(f, *args)

    def o_setf(self, t, env):
        return self.generic(t, env)

    def o_st(self, t, env):
        return ('o', q6(('st',) + tuple(self.key(x, env) for x in t.a[1:])))


def _kk(v):
    if isinstance(v, Clo):
        return ('clo', id(v))
    if isinstance(v, bool):
        return ('b', v)
    return v


def differ(a, b):
    if isinstance(a, Clo) or isinstance(b, Clo):
        raise Unsupported('function value')
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    na, nb = isinstance(a, (Fr, float, int)), isinstance(b, (Fr, float, int))
    if na and nb:
        if isinstance(a, Fr) and isinstance(b, Fr):
            return a != b
        a, b = float(a), float(b)
        if a != a or b != b:
            return (a != a) != (b != b)
        return abs(a - b) > TOL * (1 + max(abs(a), abs(b)))
    if na != nb:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return True
        return any(differ(x, y) for x, y in zip(a, b))
    return q6(a) != q6(b)


def constants(ts):
    """numeric constants compared with something"""
    out, near = set(), set()
    seen = set()
    st = list(ts)
    nullable = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.k == 'at' and x.a[0] in ('lt0', 'eq0', 'le0'):
            for m, c in x.a[1].a:
                if m == () and abs(c) < 10**6:
                    out.add(-c)
                    out.add(c)
                    for m2, c2 in x.a[1].a:
                        if m2 != ():
                            near.add(abs(c / c2))
        if x.k == 'at' and x.a[0] == 'eqp' and T.NULL in x.a[1:]:
            nullable.update(y for y in x.a[1:] if y.k == 'at')
        st.extend(x.kids)
        if len(seen) > 200000:
            break
    return sorted(out)[:40], frozenset(nullable), thresholds(near)


def thresholds(near):
    """values around which comparisons change, also those of squares"""
    small = {c for c in near if 0 < c < 1000 and c.denominator < 10**9}
    for c in sorted(small):
        x = Fr(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if x * x == c:
            small.add(x)
    return sorted(small)[:40]


# ---------------------------------------------------------------- guided valuations
def steer(v, goal, steps=80):
    """changes the values of inputs until the condition holds; local repair of one literal at a time"""
    r = random.Random('steer%s' % v.seed)
    for n in range(steps):
        path, x = [], goal
        while x.k == 'ite':
            c = v.truth(x.a[0], {})
            path.append((x, c))
            x = x.a[1] if c else x.a[2]
        if x is T.TT:
            return True
        if x is not T.FF:
            return False
        # literals whose other branch is open, the latest first
        cand = [(y, c) for y, c in reversed(path) if (y.a[2] if c else y.a[1]) is not T.FF]
        if not cand:
            return False
        k = 0
        while k + 1 < len(cand) and r.random() < 0.25:
            k += 1
        y, c = cand[k]
        if not repair(v, y.a[0], not c, r):
            y, c = r.choice(cand)
            repair(v, y.a[0], not c, r)
        v.memo = {}
    return False


def repair(v, w, want, r):
    """makes the literal w of the wanted truth"""
    op = w.a[0]
    if op in ('lt0', 'le0', 'eq0'):
        p = w.a[1]
        val = v.asnum(v.ev(p))
        if val != val:
            return False
        ms = [(m[0][0], c) for m, c in p.a if len(m) == 1 and m[0][1] == 1]
        out = []
        for x, c in ms:
            v.ev(x)
            k = v.keys.get(x)
            if k is not None and k[1] in ('size', 'int', 'real', 'isize') and sum(1 for m, _ in p.a if any(y is x for y, _ in m)) == 1:
                out.append((x, c, k))
        r.shuffle(out)
        for x, c, (key, kind, sign) in out:
            old = v.asnum(v.ev(x))
            m = Fr(r.choice([1, 1, 2, 3])) if kind != 'real' else Fr(r.choice([1, 4, 7, 12]), 4)
            if op == 'eq0':
                target = Fr(0) if want else m * r.choice([1, -1])
            elif (op == 'lt0' or op == 'le0') == want:
                target = -m if want else m
            else:
                target = m if not want else -m
            if op == 'lt0' and not want:
                target = r.choice([Fr(0), m])
            if op == 'le0' and want:
                target = r.choice([Fr(0), -m])
            new = old + (target - val) / c
            if kind != 'real':
                if isinstance(new, float):
                    new = Fr(round(new))
                if new.denominator != 1:
                    up = (c > 0) == (target > 0)
                    new = Fr(math.ceil(new) if up else math.floor(new))
                if kind in ('size', 'isize') and new < (1 if sign == 'pos' else 0):
                    continue
                if new > 400:
                    continue
            if sign == 'pos' and new <= 0 or sign == 'nonneg' and new < 0:
                continue
            v.force[key] = new
            return True
        return False
    if op == 'eqp':
        for x, o in ((w.a[1], w.a[2]), (w.a[2], w.a[1])):
            v.ev(x)
            k = v.keys.get(x)
            if k is not None:
                v.force[k[0]] = v.ev(o) if want else (v.sample(k[1], k[0] + ('other', r.random())))
                if not want and k[1] not in ('ptr', 'obj', 'str'):
                    return False
                return True
        return False
    if op in ('isfinite', 'isnan'):
        v.force[(op, q6(v.ev(w.a[1])))] = want
        return True
    v.ev(w)
    k = v.keys.get(w)
    if k is not None and k[1] == 'bool':
        v.force[k[0]] = want
        return True
    return False


def separate(a, b, assume, seed=1, want=2, tries=600, free=(), secs=20):
    """free: (index atom, bound term) pairs: element indices of compared arrays.
    Returns (list of separating valuations, number of valuations compared, first unsupported reason)"""
    import time
    consts, nullable, small = constants([a, b, assume])
    t0 = time.process_time()
    wit, used, why = [], 0, None
    goal = None
    try:
        goal = T.b_and(assume, T.lift(lambda x, y: T.FF if x is y else T.TT, a, b))
    except (T.Blowup, RecursionError):
        pass
    if goal is T.FF:
        goal = None
    for i in range(tries):
        if time.process_time() - t0 > secs:
            break
        v = Val('%s.%d' % (seed, i), consts, small)
        v.nullable = nullable
        try:
            m = v.free = {}
            bad = False
            if i % 2 or assume is not T.TT:
                steer(v, goal if i % 2 and goal is not None and not free else assume)
                v.budget = 60000
            for k, n in free:
                c = v.count(v.ev(n), 100000)
                if c <= 0:
                    bad = True
                    break
                m[k] = Fr(v.h('free', str(k.uid), c).randint(0, c - 1))
            if bad:
                continue
            if v.ev(assume) is not True:
                continue
            ra = rb = None
            try:
                ra = v.ev(a)
            except DivZero:
                ra = ('div0',)
            try:
                rb = v.ev(b)
            except DivZero:
                rb = ('div0',)
            if ra == ('div0',) and rb == ('div0',):
                continue
            used += 1
            if differ(ra, rb):
                wit.append((i, ra, rb, dict(v.log), m))
                if len(wit) >= want:
                    break
        except (Skip, DivZero, ZeroDivisionError, OverflowError):
            continue
        except RecursionError:
            why = why or 'recursion'
            continue
        except Unsupported as e:
            why = why or str(e)
            continue
    return wit, used, why
