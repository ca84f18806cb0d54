"""Closed forms of loops: induction variables, sums, last values, flags, element-wise stores, appends, filtered
appends; everything else becomes a fold whose state components are in a canonical order."""
from fractions import Fraction as Fr
from . import terms as T
from .vals import (AV, FN, GV, HP, IT, KI, LV, MV, NOP, PV, SV, St, Heap, Undecided, getleaf, isbool, leaves, merge, same, setleaf,
                   smerge, vmap, vsubst)


def kmap(v, f):
    return vmap(f, v)


class Leaf:
    __slots__ = ('where', 'path', 'idx', 'kind', 'no', 'init', 'mu', 'step', 'val', 'deps')


class Loop:
    def __init__(self, ev, s, cond, iteration):
        self.ev, self.s, self.cond, self.iter = ev, s, cond, iteration
        self.loc = s['l']

    # -------------------------------------------------------------- havoc
    def get(self, st, where):
        if where == 'alloc':
            return st.alloc
        if where[0] == 'v':
            return st.vars.get(where[1])
        h = st.heap.get(where[1])
        if h is None:
            h = self.ev.new_heap(where[1])
        return h.read(where[2]) if where[0] == 'o' else h.flat()

    def put(self, st, where, v):
        if where == 'alloc':
            st.alloc = v
        elif where[0] == 'v':
            st.vars[where[1]] = v
        elif where[0] == 'o':
            h = st.heap.get(where[1])
            st.heap[where[1]] = (h if h is not None else self.ev.new_heap(where[1])).write(where[2], v)
        else:
            st.heap[where[1]] = Heap(where[1], v)

    def wheres(self, st, st0):
        for k in st.vars:
            yield ('v', k)
        for c, h in st.heap.items():
            h0 = st0.heap.get(c)
            if h0 is h:
                continue
            if c not in self.whole and self.apart(c, h0 if h0 is not None else self.ev.new_heap(c), h):
                for p, v in h.over:
                    yield ('o', c, p)
            else:
                if c not in self.whole:
                    self.whole.add(c)
                    for key in [key for key in self.mods if key[0][:2] == ('o', c)]:
                        del self.mods[key]
                yield ('h', c)
        yield 'alloc'

    def apart(self, c, h0, h):
        """only objects at addresses the loop does not change are written"""
        if h.tmpl is not h0.tmpl or len(h.over) > 8:
            return False
        for p, v in h.over:
            if p.k != 'at' or any(x.a[0] == 'mu' and x.a[1] is self.marker for x in T.atoms_of(p)):
                return False
            if p.a[0] == 'new' and not any(q is p for q, _ in h0.over):
                return False
        return True

    def run(self):
        ev = self.ev
        ev.loops += 1
        if ev.loops > 20000:
            raise Undecided('too many loops')
        ev.muids += 1
        self.marker = T.atom('muid', ev.muids)
        s0 = ev.st.copy()
        self.s0 = s0
        refs0 = dict(ev.fr.refs)
        self.mods = {}
        self.nos = 0
        self.whole = set()
        # what an earlier evaluation of the same loop (an enclosing loop's trial) changed
        ckey = (self.loc, id(ev.fr))
        for w, p, extra, kind in ev.loopmods.get(ckey, ()):
            try:
                init = getleaf(self.get(s0, w), p)
                idx = tuple(i for q, i, t in leaves(self.get(s0, w)) if q == p)
            except (KeyError, AttributeError, TypeError, IndexError):
                continue
            if len(idx) != 1:
                continue
            if w[0] == 'h':
                self.whole.add(w[1])
            l = Leaf()
            l.where, l.path, l.no = w, p, self.nos
            self.nos += 1
            l.idx = extra + tuple(T.atom_num(x) for x in idx[0])
            l.init, l.kind = init, kind
            l.mu = self.mkmu(l)
            self.mods[(w, p)] = l
        for trial in range(12):
            st = self.havoc()
            ev.fr.refs = dict(refs0)
            ev.st = st.copy()
            ev.loopdepth += 1
            pn, on, an = len(ev.pend), len(ev.outs), ev.assumed
            c = self.cond()
            if len(ev.pend) != pn:
                del ev.pend[pn:]
                raise Undecided('exception in loop condition at ' + self.loc)
            sc = ev.st
            ev.st = sc.copy()
            if c is T.FF:
                o = {}
            else:
                save = ev.assume_path(c)
                o = self.iter()
                ev.lits = save
            del ev.outs[on:]
            ev.assumed = an
            ev.loopdepth -= 1
            if not self.learn(st, sc, o):
                break
        else:
            raise Undecided('loop state does not stabilise at ' + self.loc)
        ev.fr.refs = refs0
        ev.loopmods[ckey] = [(l.where, l.path, l.idx[:1] if l.where != 'alloc' and l.where[0] == 'h' else (), l.kind)
                             for l in self.mods.values()]
        return self.solve(st, sc, c, o)

    def havoc(self):
        st = self.s0.copy()
        byw = {}
        for l in self.mods.values():
            byw.setdefault(l.where, []).append(l)
        for w, ls in byw.items():
            v = self.get(self.s0, w)
            for l in ls:
                v = setleaf(v, l.path, l.mu)
            self.put(st, w, v)
        return st

    def mkmu(self, l):
        a = T.atom('mu', self.marker, l.no, tuple(l.idx), l.kind)
        if l.kind == 'bool':
            return T.ite(a, T.TT, T.FF)
        if l.kind in ('ptr', 'obj'):
            return a
        return T.atom_num(a)

    def learn(self, st, sc, o):
        """adds leaves that an iteration changes; demotes kinds; True when something changed"""
        changed = False
        outs = [o['n'][1]] if 'n' in o else []
        for s1 in [sc] + outs:
            for w in list(self.wheres(s1, st)):
                if w != 'alloc' and w[0] == 'v' and w[1] not in self.s0.vars:
                    if w[1][0] in ('g', 'static'):
                        # global read for the first time inside the loop
                        self.s0.vars[w[1]] = s1.vars[w[1]]
                        changed = True
                    continue
                if w != 'alloc' and w[0] == 'h':
                    h0 = st.heap.get(w[1])
                    h1 = s1.heap[w[1]]
                    if h0 is h1 or (h0 is None and not h1.over and h1.tmpl is self.ev.new_heap(w[1]).tmpl):
                        continue
                a, b = self.get(st, w), self.get(s1, w)
                if a is b:
                    continue
                init = self.get(self.s0, w)
                extra = (HP(w[1]),) if w != 'alloc' and w[0] == 'h' else ()
                la, lb = dict((p, (i, t)) for p, i, t in leaves(a)), dict((p, (i, t)) for p, i, t in leaves(b))
                if la.keys() != lb.keys():
                    if same(a, b):
                        continue
                    raise Undecided('value changes shape in the loop at ' + self.loc)
                if not la and not same(a, b):
                    raise Undecided('pointer changes in the loop at ' + self.loc)
                for p in la:
                    ia, ta = la[p]
                    tb = lb[p][1]
                    key = (w, p)
                    if key in self.mods:
                        l = self.mods[key]
                        k = self.narrow(l.kind, tb)
                        if k != l.kind:
                            l.kind = k
                            l.mu = self.mkmu(l)
                            changed = True
                        continue
                    if ta is tb:
                        continue
                    l = Leaf()
                    l.where, l.path, l.no = w, p, self.nos
                    self.nos += 1
                    l.idx = extra + tuple(T.atom_num(x) for x in ia)
                    l.init = getleaf(init, p)
                    l.kind = self.kind(l.init, tb)
                    l.mu = self.mkmu(l)
                    self.mods[key] = l
                    changed = True
        return changed

    def kind(self, init, step):
        if isbool(init) and isbool(step):
            return 'bool'
        if isbool(init) != isbool(step) and (init.k == 'at' or step.k == 'at'):
            return 'obj'
        k = None
        for l in T._leaves(init) + T._leaves(step):
            if l.k == 'num':
                k = k or 'num'
            elif l.k == 'at' and (l.a[0] in ('new', 'null') or l.a[-1] == 'ptr'):
                k = 'ptr'
            elif l.k in ('tt', 'ff'):
                pass
            else:
                k = 'obj' if k != 'ptr' else k
        if k in ('ptr', 'obj'):
            return k
        return self.narrow('size', init)

    def narrow(self, k, t):
        if k == 'bool' and not isbool(t):
            return 'real' if any(l.k == 'num' for l in T._leaves(t)) else 'obj'
        if k == 'obj' and any(l.k == 'at' and (l.a[0] in ('new', 'null') or l.a[-1] == 'ptr') for l in T._leaves(t)):
            return 'ptr'
        if k in ('size', 'int', 'real') and any(l.k not in ('num', 'tt', 'ff') for l in T._leaves(t)):
            return 'obj'
        if k == 'size' and not (T.is_int(t) and all(T._nonneg(l) for l in T._leaves(t) if l.k == 'num')):
            k = 'int'
        if k == 'int' and not T.is_int(t):
            k = 'real'
        return k

    # -------------------------------------------------------------- closed forms
    def solve(self, st, sc, c, o):
        ev = self.ev
        gn = o['n'][0] if 'n' in o else T.FF
        self.C = C = T.b_and(c, gn)
        self.kat = T.fresh_index()
        self.k = T.atom_num(self.kat)
        self.atmemo, self.instmemo, finmemo = {}, {}, {}
        L = list(self.mods.values())
        for l in L:
            l.val = None
            t = getleaf(self.get(o['n'][1], l.where), l.path) if 'n' in o else l.mu
            for v, b in literals(C):
                t = restrict(t, v, b)
            l.step = t
            l.deps = self.mudeps(t)
        unsolved = list(L)
        progress = True
        while progress and unsolved:
            progress = False
            for l in list(unsolved):
                if all(self.mods_by_no(d).val is not None for d in l.deps if d != l.no):
                    v = self.closed(l)
                    if v is not None:
                        l.val = v
                        self.atmemo = {}
                        unsolved.remove(l)
                        progress = True
        if unsolved:
            self.folds(unsolved)
        self.atmemo = {}
        # number of iterations
        Ck = self.at(C, self.k)
        N, bounded, rest = self.trips(Ck)
        hook = (self.marker, lambda no, args: self.inst(no, args, N))

        def fin(t):
            return T.subst(t, {}, hook, finmemo)
        out = {}
        exits = {kd: x for kd, x in o.items() if kd != 'n'}
        send = vstate(sc, fin)
        if not exits:
            for w in list(send.vars):
                if w not in self.s0.vars:
                    del send.vars[w]
            return {'n': (T.TT, send, None)}
        cl, crest = split(self.at(c, self.k))
        gl, grest = split(self.at(gn, self.k))
        if c is T.FF:
            found = T.FF
        elif c is T.TT:
            found = T.TT
        elif bounded is not None and rest is not None and crest is T.TT and all(self.bound(v, b) is not None for v, b in cl) \
                and all(self.bound(v, b) is None for v, b in gl):
            j = T.fresh_index()
            found = T.lt(T.ZERO, T.sum_over(bounded, j, T.ite(T.subst(rest, {self.kat: T.atom_num(j)}), T.ZERO, T.ONE)))
        else:
            found = fin(c)
        end = {'n': (T.b_not(found), send, None)}
        many = len(exits) > 1
        for kd, (g, s, v) in exits.items():
            g = fin(T.b_and(c, g)) if many else T.TT
            end_kd = (T.b_and(found, g), vstate(s, fin), kmap(v, fin) if v is not None else None)
            if kd == 'brk':
                gn_, sn_, _ = end.get('n')
                end['n'] = (T.b_or(gn_, end_kd[0]), smerge(end_kd[0], end_kd[1], sn_, ev), None)
            else:
                end[kd] = end_kd
        for kd, (g, s, v) in end.items():
            for w in list(s.vars):
                if w not in self.s0.vars:
                    del s.vars[w]
        return {kd: x for kd, x in end.items() if x[0] is not T.FF}

    def mods_by_no(self, no):
        for l in self.mods.values():
            if l.no == no:
                return l

    def mudeps(self, t):
        return {x.a[2] for x in T.atoms_of(t) if x.a[0] == 'mu' and x.a[1] is self.marker}

    def inst(self, no, args, k):
        l = self.mods_by_no(no)
        if l.val is None:
            raise Undecided('unsolved loop state at ' + self.loc)
        m = {self.kat: k}
        for s, a in zip(l.idx, args):
            m[symkey(s)] = a
        return T.subst(l.val, m, None, self.instmemo.setdefault(tuple(m.items()), {}))

    def at(self, t, k):
        """term with the state of iteration k; unsolved leaves stay"""
        def f(no, args):
            l = self.mods_by_no(no)
            if l.val is None:
                a = T.atom('mu', self.marker, no, tuple(args), l.kind)
                return T.ite(a, T.TT, T.FF) if l.kind == 'bool' else a if l.kind in ('ptr', 'obj') else T.atom_num(a)
            return self.inst(no, args, k)
        return T.subst(t, {}, (self.marker, f), self.atmemo if k is self.k else None)

    def unify(self, l, S):
        """reads at the index that is being written are reads of the own element"""
        if not l.idx:
            return S
        for i, s in enumerate(l.idx):
            sy = symkey(s)
            for v in condvars(S):
                t = None
                if v.a[0] == 'eq0' and T.has(v, (sy,)):
                    p = v.a[1]
                    a = dict(p.a).get(((sy, 1),))
                    if a in (1, -1):
                        rest = T.psub(p, T._poly({((sy, 1),): a}))
                        if not T.has(rest, (sy,)):
                            t = T.pscale(rest, -1 / a)
                elif v.a[0] == 'eqp' and sy in v.a[1:]:
                    t = v.a[2] if v.a[1] is sy else v.a[1]
                if t is None:
                    continue

                def f(no, args):
                    l2 = self.mods_by_no(no)
                    args = tuple(s if j == i and x is t else x for j, x in enumerate(args))
                    return asval(T.atom('mu', self.marker, no, args, l2.kind), l2.kind)
                hi = T._restrict(S, v, True)
                new = T.subst(hi, {}, (self.marker, f))
                if new is not hi:
                    S = T.ite(T._mk('ite', (v, T.TT, T.FF)), new, S)
        return S

    def closed(self, l):
        """V(k) as a term over self.kat and the index symbols of the leaf, or None"""
        own = T.atom('mu', self.marker, l.no, tuple(l.idx), l.kind)
        S = self.unify(l, self.at(l.step, self.k))
        l.step = S
        return self.closed_step(l, S, own)

    def closed_step(self, l, S, own, depth=0):
        m = l.mu
        occ = [x for x in T.atoms_of(S) if x.a[0] == 'mu' and x.a[1] is self.marker and x.a[2] == l.no]
        if any(x is not own for x in occ):
            return None
        k, init = self.k, l.init
        if not occ:
            return T.ite(T.eq(k, T.ZERO), init, T.subst(S, {self.kat: T.sub(k, T.ONE)}))
        if S is m:
            return init
        # element-wise store or append
        if l.idx:
            r = self.store(l, S, own, m)
            if r is not None:
                return r
        if l.kind in ('real', 'int', 'size'):
            d = T.sub(S, m)
            if not T.has(d, (own,)):
                j = T.fresh_index()
                return T.add(init, T.sum_over(k, j, T.subst(d, {self.kat: T.atom_num(j)})))
        # set once to a constant
        v = self.setonce(S, own, m, init)
        if v is not None:
            return v
        # cases that are the same in all iterations
        if S.k == 'ite' and depth < 6:
            for v in condvars(S):
                if not T.has(v, (self.kat, self.marker)):
                    a = self.closed_step(l, T._restrict(S, v, True), own, depth + 1)
                    if a is None:
                        return None
                    b = self.closed_step(l, T._restrict(S, v, False), own, depth + 1)
                    if b is None:
                        return None
                    return T.ite(T._mk('ite', (v, T.TT, T.FF)), a, b)
        return None

    def setonce(self, S, own, m, init):
        """S = c_k ? K : m with K independent of k"""
        vals = [x for x in T._leaves(S) if x is not m] if not isbool(S) else None
        if isbool(S):
            hi, lo = T.subst(S, {own: T.TT}), T.subst(S, {own: T.FF})
            # S = (m and hi) or (not m and lo); monotone in one direction
            if hi is T.TT:
                c, K = lo, T.TT
            elif lo is T.FF:
                c, K = T.b_not(hi), T.FF
            else:
                return None
        else:
            vs = set(vals)
            if len(vs) != 1:
                return None
            K = vs.pop()
            if T.has(K, (self.kat, own)):
                return None
            c = mapleaves(S, lambda x: T.TT if x is K else T.FF)
            if T.has(c, (own,)):
                return None
        j = T.fresh_index()
        n = T.sum_over(self.k, j, T.ite(T.subst(c, {self.kat: T.atom_num(j)}), T.ONE, T.ZERO))
        return T.ite(T.lt(T.ZERO, n), K, init)

    def store(self, l, S, own, m):
        syms = [symkey(s) for s in l.idx]
        for v in condvars(S):
            if v.a[0] != 'eq0' or not T.has(v, syms):
                continue
            if not T.has(v, (self.kat,)):
                continue
            if T._restrict(S, v, False) is not m:
                continue
            S1 = T._restrict(S, v, True)
            p = v.a[1]
            a, rest = T.ZERO, T.ZERO
            lin = True
            for mono, c in p.a:
                if mono == ((self.kat, 1),):
                    a = T.padd(a, T.num(c))
                elif any(T.has(x, (self.kat,)) for x, _ in mono):
                    lin = False
                else:
                    rest = T.padd(rest, T._poly({mono: c}))
            ca = T.const(a)
            if lin and ca in (1, -1):
                j = T.pscale(rest, -1 / ca)
                val = T.subst(S1, {self.kat: j, own: l.init})
                return T.ite(T.b_and(T.le(T.ZERO, j), T.lt(j, self.k)), val, l.init)
            if not lin:
                r = self.append(l, S1, own, m, p, v)
                if r is not None:
                    return r
        return None

    def append(self, l, S1, own, m, p, v):
        """element stored at position n0 + (number of earlier accepted iterations)"""
        cnt, rest, sgn = None, T.ZERO, None
        for mono, c in p.a:
            if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].a[0] == 'sum' and T.has(mono[0][0], (self.kat,)):
                if cnt is not None or c not in (1, -1):
                    return None
                cnt, sgn = mono[0][0], c
            elif any(T.has(x, (self.kat,)) for x, _ in mono):
                return None
            else:
                rest = T.padd(rest, T._poly({mono: c}))
        if cnt is None or cnt.a[1] is not self.k or T.has(cnt.a[2], (self.kat,)):
            return None
        pos = T.pscale(rest, -sgn)
        body = T.app(cnt.a[2], self.k)
        if any(T.const(x) not in (0, 1) for x in T._leaves(body)):
            return None
        c = mapleaves(body, lambda x: T.TT if T.const(x) == 1 else T.FF)
        if T.ite(c, S1, m) is not S1:
            return None
        x = S1
        for w, b in literals(c):
            x = restrict(x, w, b)
        if T.has(x, (own,)):
            return None
        x = self.inrange(x)
        j = T.fresh_index()
        nth = T.atom_num(T.atom('nth', T.lam([j], T.subst(c, {self.kat: T.atom_num(j)})), pos))
        val = T.subst(x, {self.kat: nth})
        return T.ite(T.b_and(T.le(T.ZERO, pos), T.lt(pos, T.atom_num(cnt))), val, l.init)

    def inrange(self, x):
        """a value of iteration k, which the loop reaches"""
        Ck = self.at(self.C, self.k)
        if x.k != 'ite' or Ck.k != 'ite':
            return x
        lits = list(literals(Ck)) or [(w, b) for w in condvars(Ck) for b in (True, False) if self.leading(Ck, w, b) is not None]
        for v, b in lits:
            for w in condvars(x):
                d = follows(v, b, w)
                if d is not None:
                    x = T._restrict(x, w, d)
                if x.k != 'ite':
                    return x
        return x

    # -------------------------------------------------------------- folds
    def folds(self, un):
        """generic recurrences of leaves; array leaves must be element-wise or become array-valued states"""
        ev = self.ev
        nos = {l.no for l in un}
        S = {l.no: self.at(l.step, self.k) for l in un}
        deps = {n: self.mudeps(t) & nos for n, t in S.items()}
        byno = {l.no: l for l in un}
        # transitive closure
        clo = {}
        for n in nos:
            seen, stack = set(), [n]
            while stack:
                x = stack.pop()
                if x not in seen:
                    seen.add(x)
                    stack += deps[x]
            clo[n] = seen
        for l in un:
            comps = [byno[n] for n in clo[l.no]]
            v = self.fold(l, comps, S)
            l.val = None
            l.deps = v
        for l in un:
            l.val, l.deps = l.deps, set()

    def fold(self, l, comps, S):
        # element-wise: every array component is only read at the indices of l
        def same_idx(x):
            c = next(y for y in comps if y.no == x.a[2])
            return x.a[3] == tuple(c.idx)
        arr = [c for c in comps if c.idx]
        elementwise = True
        for c in comps:
            for x in T.atoms_of(S[c.no]):
                if x.a[0] == 'mu' and x.a[1] is self.marker and any(y.no == x.a[2] for y in comps):
                    if not same_idx(x):
                        elementwise = False
        if any(c.idx != arr[0].idx for c in arr):
            elementwise = False
        if not elementwise:
            return self.array_fold(l, comps, S)
        ms = {c.no: T.atom('fs', c.no, l.kind if False else c.kind) for c in comps}

        def f(no, args):
            if no in ms:
                return asval(ms[no], next(c.kind for c in comps if c.no == no))
            return None
        steps = {c.no: T.subst(S[c.no], {}, (self.marker, f)) for c in comps}
        order = canon(comps, steps, ms)
        return T.mkfold(order.index(l), self.k, tuple(c.init for c in order),
                        T.lam([self.kat] + [ms[c.no] for c in order], T.tup(*[steps[c.no] for c in order])), l.kind)

    def array_fold(self, l, comps, S):
        """array valued components: bound function symbols, read by 'sel'"""
        ms = {c.no: T.atom('fs', c.no, c.kind) for c in comps}
        kinds = {c.no: c.kind for c in comps}

        def f(no, args):
            if no in ms:
                c = next(c for c in comps if c.no == no)
                return asval(T.atom('sel', ms[no], tuple(args), c.kind) if c.idx else ms[no], c.kind)
            return None
        steps, inits = {}, {}
        for c in comps:
            t = T.subst(S[c.no], {}, (self.marker, f))
            i = c.init
            if c.idx:
                sy = [symkey(s) for s in c.idx]
                t, i = T.lam(sy, t), T.lam(sy, i)
            steps[c.no], inits[c.no] = t, i
        order = canon(comps, steps, ms, inits)
        idx = tuple(l.idx)
        return T.mkafold(order.index(l), self.k, tuple(inits[c.no] for c in order),
                         T.lam([self.kat] + [ms[c.no] for c in order], T.tup(*[steps[c.no] for c in order])), idx, l.kind)

    # -------------------------------------------------------------- trip counts
    def trips(self, C):
        """(N, bound of the loop condition or None, remaining condition over k or None)"""
        if C is T.FF:
            return T.ZERO, T.ZERO, None
        if C is T.TT:
            raise Undecided('endless loop at ' + self.loc)
        if C.k == 'ite':
            n = self.first_fails(C)
            if n is not None:
                return n, n, None
        lits, rest = split(C)
        bound = None
        for v, b in lits:
            n = self.bound(v, b)
            if n is None:
                x = T._mk('ite', (v, T.TT, T.FF))
                rest = T.b_and(rest, x if b else T.b_not(x))
            else:
                bound = n if bound is None else T.mn(bound, n)
        if bound is None and rest.k == 'ite':
            bound = self.case_bound(rest)
            if bound is not None:
                return bound, bound, None
        if rest is T.TT:
            return bound, bound, None
        if not T.has(rest, (self.kat,)):
            if bound is None:
                raise Undecided('endless loop at ' + self.loc)
            return T.ite(rest, bound, T.ZERO), bound, rest
        if bound is None and T.has(rest, (self.marker,)):
            raise Undecided('loop condition at ' + self.loc)
        f = T.lam([self.kat], rest)
        return T.mktrips(bound if bound is not None else T.INFTY, f), bound, rest

    def first_fails(self, C):
        """bound of a condition that holds as long as one of its literals and then fails, whatever holds later (wrapped counters)"""
        vs, st = [], [C]
        while st and len(vs) < 8:
            x = st.pop()
            if x.k == 'ite':
                if x.a[0] not in vs:
                    vs.append(x.a[0])
                st += [x.a[1], x.a[2]]
        if len(vs) < 2:
            return None
        for v in vs:
            for b in (True, False):
                n = self.leading(C, v, b)
                if n is not None:
                    return n
        return None

    def leading(self, C, v, b):
        n = self.bound(v, b)
        if n is None or n is T.INFTY:
            return None
        t = T._restrict(C, v, b)
        for w in condvars(t):
            if t.k == 'ite':
                d = follows(v, b, w)
                if d is not None:
                    t = T._restrict(t, w, d)
        if t is T.TT and T.app(T.lam([self.kat], C), n) is T.FF:
            return n
        return None

    def case_bound(self, t):
        """bound of a condition whose cases do not depend on k: c ? C1 : C2"""
        if t.k == 'ite' and not T.has(t.a[0], (self.kat,)):
            out = []
            for x in (t.a[1], t.a[2]):
                if x is T.FF:
                    out.append(T.ZERO)
                    continue
                if x is T.TT:
                    return None
                lits, rest = split(x)
                n = None
                for v, b in lits:
                    m = self.bound(v, b)
                    if m is None:
                        return None
                    n = m if n is None else T.mn(n, m)
                if rest is not T.TT:
                    m = self.case_bound(rest)
                    if m is None:
                        return None
                    n = m if n is None else T.mn(n, m)
                out.append(n)
            return T.ite(T._mk('ite', (t.a[0], T.TT, T.FF)), out[0], out[1])
        return None

    def bound(self, v, b):
        """number of leading k for which the literal holds"""
        if v.a[0] not in ('lt0', 'eq0', 'le0'):
            return None
        p = v.a[1]
        a, r = T.ZERO, T.ZERO
        for mono, c in p.a:
            ks = [e for x, e in mono if x is self.kat]
            if ks == [1]:
                a = T.padd(a, T._poly({tuple((x, e) for x, e in mono if x is not self.kat): c}))
            elif any(T.has(x, (self.kat,)) for x, _ in mono):
                return None
            else:
                r = T.padd(r, T._poly({mono: c}))
        if not a.a or T.has(a, (self.kat, self.marker)) or T.has(r, (self.kat, self.marker)):
            return None
        if v.a[0] == 'eq0':
            if b:
                return None
            n = T.div(T.neg(r), a)
            if T.is_int(n) and n.k == 'num' and T._nonneg(n):
                return n
            return None
        pos = T._positive(a) or (T.const(a) or 0) > 0
        na = T.pscale(a, Fr(-1))
        negv = T._positive(na) or (T.const(a) or 0) < 0
        strict = v.a[0] == 'lt0'
        if b and pos:                 # r + a k < 0  (or <= 0)
            q = T.div(T.neg(r), a)
            n = T.ceil(q) if strict else T.add(T.floor(q), T.ONE)
        elif not b and negv:          # r - |a| k >= 0 (or > 0)
            q = T.div(r, na)
            n = T.add(T.floor(q), T.ONE) if strict else T.ceil(q)
        else:
            return None
        return T.mx(T.ZERO, n)


def follows(v, b, w):
    """truth of condition w when condition v has the value b"""
    if v.a[0] != 'lt0' or w.a[0] != 'lt0':
        return None
    p, q = v.a[1], w.a[1]
    if b:
        c = T.const(T.psub(q, p))                # p < 0 (p <= -1)
        if c is not None and c <= 0:
            return True
        c = T.const(T.padd(q, p))                # q = c - p
        if c is not None and c >= (-1 if T.is_int(p) else 0):
            return False
    else:
        c = T.const(T.psub(q, p))                # p >= 0
        if c is not None and c >= 0:
            return False
        c = T.const(T.padd(q, p))
        if c is not None and c < 0:
            return True
    return None


def symkey(s):
    return s if s.k == 'at' else s.a[0][0][0][0]


def asval(a, kind):
    if kind == 'bool':
        return T.ite(a, T.TT, T.FF)
    return a if kind in ('ptr', 'obj') else T.atom_num(a)


def canon(comps, steps, ms, inits=None):
    """components in an order that does not depend on names"""
    col = {c.no: (0,) for c in comps}
    for _ in range(3):
        rank = {x: i for i, x in enumerate(sorted(set(col.values())))}
        m = {ms[c.no]: T.atom('fs', ('col', rank[col[c.no]]), c.kind) for c in comps}
        nxt = {}
        for c in comps:
            mm = dict(m)
            mm[ms[c.no]] = T.atom('fs', 'self', c.kind)
            mm = {a: asval(b, c2.kind) if not c2.idx else b for (a, b), c2 in zip(mm.items(), comps)}
            nxt[c.no] = (rank[col[c.no]], T.subst(steps[c.no], mm).uid, (inits[c.no] if inits else c.init).uid)
        col = nxt
    return sorted(comps, key=lambda c: col[c.no])


split, literals = T.split_conj, T.literals


def restrict(t, v, b):
    if t.k != 'ite':
        return t
    return T._restrict(t, v, b)


def condvars(t):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.k != 'ite' or x in seen:
            continue
        seen.add(x)
        if x.a[0] not in out:
            out.append(x.a[0])
        st += [x.a[1], x.a[2]]
    return out


def mapleaves(t, f):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.k == 'ite':
                r = T.ite(T._mk('ite', (x.a[0], T.TT, T.FF)), go(x.a[1]), go(x.a[2]))
            else:
                r = f(x)
            memo[x] = r
        return r
    return go(t)


def vstate(s, f):
    n = St()
    for k, v in s.vars.items():
        n.vars[k] = vmap(f, v)
    for c, h in s.heap.items():
        n.heap[c] = Heap(c, vmap(f, h.tmpl), tuple((f(p), vmap(f, v)) for p, v in h.over))
    n.alloc = f(s.alloc)
    return n
