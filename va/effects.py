"""Interprocedural effect and lock analysis over the type-checked syntax tree.

An abstract interpreter walks a function and everything it calls in the repository. It knows, for every pointer, smart
pointer, reference and iterator, which storage it may designate (points-to sets over access paths), and at every point which
mutexes are certainly and which are possibly held. It records every access to storage that is not private to the walk.

A storage region is an access path: ('M', 'graph_', '*', 'scans', '[]', '*', 'pose_'): root, fields, '*' for what a pointer
points to, '[]' for the elements of a container. Objects created during the walk are private until they are stored in a region
that is not; from then on they are what that region designates."""
from .prog import rel, split_targs, strip_cv

ELEM = {'at', 'front', 'back', 'operator[]', 'top', 'emplace_back'}
ITER = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'data', 'find', 'lower_bound', 'upper_bound'}
READ = {'size', 'empty', 'count', 'capacity', 'max_size', 'length', 'rows', 'cols', 'get', 'x', 'y', 'z', 'w', 'value', 'has_value', 'c_str',
        'coeffRef', 'block', 'row', 'col', 'segment', 'head', 'tail', 'topLeftCorner', 'array', 'matrix', 'noalias', 'diagonal', 'use_count',
        'base', 'joinable', 'native_handle', 'get_id', 'translation', 'linear', 'rotation', 'owns_lock', 'mutex'}
ADDS = {'push_back', 'emplace_back', 'insert', 'emplace', 'push_front', 'push', 'assign', 'try_emplace', 'insert_or_assign', 'emplace_front'}
SMART = {'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::weak_ptr', 'std::__shared_ptr_access'}
CONT = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::queue',
        'std::multimap', 'std::stack'}
GUARDS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'}
SAFE = ('rclcpp::', 'tf2_ros::', 'pluginlib::', 'std::mutex', 'std::recursive_mutex', 'std::thread', 'std::chrono', 'std::condition_variable',
        'rclcpp_components::')
MAXP = 14


def tbase(t):
    return split_targs(strip_cv(t or '?'))[0]


def is_ptr_type(t):
    t = strip_cv(t or '?')
    return t.endswith('*') or tbase(t) in SMART or 'iterator' in tbase(t)


class Acc:
    __slots__ = ('thread', 'region', 'rw', 'must', 'sects', 'atomic', 'loc', 'fn', 'val', 'started', 'joined', 'phase')

    def key(self):
        return (self.thread, self.region, self.rw, self.must, self.sects, self.atomic, self.loc, self.val, self.started, self.joined, self.phase)


class State:
    __slots__ = ('must', 'may', 'guards', 'raw', 'pts', 'refs', 'copyof', 'esc', 'sect', 'dirty', 'flagsect', 'pend', 'joined', 'started', 'rel', 'dead')

    def __init__(self):
        self.must = frozenset()
        self.may = frozenset()
        self.guards = {}
        self.raw = frozenset()
        self.pts, self.refs, self.copyof, self.esc = {}, {}, {}, {}
        self.sect = {}
        self.dirty = frozenset()         # changes not announced yet
        self.flagsect = frozenset()      # critical sections that contain an announcement
        self.pend = frozenset()          # announcements taken but not acted upon
        self.joined = frozenset()        # threads that have certainly ended
        self.started = frozenset()       # threads that may have been started
        self.rel = frozenset()           # pointers that have certainly been given up

    def copy(self):
        s = State()
        for a in ('must', 'may', 'raw', 'dirty', 'flagsect', 'pend', 'joined', 'started', 'rel'):
            setattr(s, a, getattr(self, a))
        for a in ('guards', 'pts', 'refs', 'copyof', 'esc', 'sect'):
            setattr(s, a, dict(getattr(self, a)))
        return s

    def sig(self):
        return (self.must, self.may, frozenset(self.guards.items()), self.raw, frozenset(self.pts.items()), frozenset(self.refs.items()),
                frozenset(self.copyof.items()), frozenset(self.esc.items()), frozenset(self.sect.items()), self.dirty, self.flagsect, self.pend,
                self.joined, self.started, self.rel)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    s = State()
    s.must = a.must & b.must
    s.may = a.may | b.may
    s.raw = a.raw | b.raw
    s.dirty = a.dirty | b.dirty
    s.pend = a.pend | b.pend
    s.flagsect = a.flagsect & b.flagsect
    s.joined = a.joined & b.joined
    s.started = a.started | b.started
    s.rel = a.rel & b.rel
    for n in ('pts', 'refs', 'copyof', 'esc', 'sect'):
        x, y = getattr(a, n), getattr(b, n)
        m = dict(x)
        for k, v in y.items():
            m[k] = m[k] | v if k in m else v
        if n in ('pts', 'copyof'):
            # a region without an entry designates itself; a one-sided entry keeps that possibility
            for k in set(x) ^ set(y):
                if k[0] != '%':
                    m[k] = m[k] | frozenset([k + ('*',)]) if n == 'pts' else m[k]
        setattr(s, n, m)
    for k in set(a.guards) | set(b.guards):
        x, y = a.guards.get(k), b.guards.get(k)
        if x is None or y is None:
            s.guards[k] = x or y
        else:
            s.guards[k] = (x[0] | y[0], x[1] if x[1] == y[1] else 'maybe')
    return s


class Walk:
    def __init__(self, prog, cls, thread, hooks=None):
        self.prog, self.cls, self.thread = prog, cls, thread
        self.acc = {}
        self.order = {}                 # (held, acquired) -> where
        self.again = {}                 # acquired while certainly or possibly held
        self.under = []                 # (what, mutexes, loc): sleeping, publishing or joining under a lock
        self.rawexit = {}               # raw lock held where control may leave
        self.leftovers = {}             # dirty or pending at the end of a round
        self.stack = []
        self.visited = {}
        self.alias = {}
        self.threadof = {}
        self.created = []               # (root function, loc)
        self.detached = []
        self.loops = []
        self.flag = set()               # announcement flags
        self.watch = ()                 # predicates on regions: changes that have to be announced
        self.reads_for_pend = None
        self.phase = ''
        self.scope = []
        self.calls = []
        self.handlers = []              # types caught by the enclosing try blocks
        self.transforms = {}            # where a transform is looked up -> types caught there
        self.retvals = []
        self.tookvar = {}
        for k, v in (hooks or {}).items():
            setattr(self, k, v)

    # -------------------------------------------------------------- regions
    def canon(self, r, st):
        """regions that r designates now, after private objects have escaped"""
        if r[0] in ('%new', '%var') and st is not None:
            for i in range(len(r), 0, -1):
                e = st.esc.get(r[:i])
                if e:
                    out = set()
                    for x in e:
                        out |= self.canon(x + r[i:], st)
                    return out
        for i in range(len(r), 1, -1):
            a = self.alias.get(r[:i])
            if a:
                return self.canon(a + r[i:], st)
        if len(r) > MAXP:
            r = r[:MAXP]
        return {r}

    def unify(self, a, b):
        a, b = next(iter(self.canon(a, None))), next(iter(self.canon(b, None)))
        if a == b or len(a) < 2 or len(b) < 2 or a[:len(b)] == b or b[:len(a)] == a:
            return
        if len(b) < len(a) or (len(a) == len(b) and b < a):
            a, b = b, a
        self.alias[b] = a

    def private(self, r):
        return r[0].startswith('%')

    def points(self, regs, st):
        """what the pointers stored in these regions point to"""
        out = set()
        memo = {}
        for r0 in regs:
            if r0[0].startswith('#'):
                continue
            for r in self.canon(r0, st):
                out |= self.points1(r, st, memo)
        return frozenset(out)

    def points1(self, r, st, memo, depth=0):
        o = memo.get((r, depth))
        if o is None:
            memo[r, depth] = o = self.points2(r, st, memo, depth)
        return o

    def points2(self, r, st, memo, depth):
        p = st.pts.get(r)
        if p is not None:
            return set(p)
        if depth < 6:
            for i in range(len(r), 0, -1):
                c = st.copyof.get(r[:i])
                if c:
                    out = set()
                    for s in c:
                        if s == r[:i] or s[0].startswith('#'):
                            continue
                        for x in self.canon(s + r[i:], st):
                            out |= self.points1(x, st, memo, depth + 1)
                    if out:
                        return out
        return {r + ('*',)}

    def access(self, regs, rw, st, loc, atomic=False, val=None):
        for r0 in regs:
            if r0[0].startswith('#'):
                continue
            for r in self.canon(r0, st):
                self.access1(r, rw, st, loc, atomic, val)

    def access1(self, r, rw, st, loc, atomic, val):
        if self.private(r):
            return
        a = Acc()
        a.thread, a.region, a.rw, a.must, a.atomic, a.val = self.thread, r, rw, st.must, atomic, val
        a.sects = frozenset((m, s) for m in st.must for s in st.sect.get(m, ()))
        a.loc, a.fn = loc, self.stack[-1] if self.stack else '?'
        a.started, a.joined, a.phase = st.started, st.joined, self.phase
        self.acc.setdefault(a.key(), a)
        if atomic and r in self.flag and rw == 'w':
            if val is not False:
                st.dirty = frozenset()
                st.flagsect = st.flagsect | frozenset(s for m in st.must for s in st.sect.get(m, ()))
            if val is not True:
                st.pend = self.pend_all(loc)
        elif rw == 'w' and any(w(r) for w in self.watch):
            cur = frozenset(s for m in st.must for s in st.sect.get(m, ()))
            if not (cur & st.flagsect):
                st.dirty = st.dirty | {(r, loc, any('::optimize(' in f for f in self.stack))}
        if rw == 'r' and st.pend and any(w(r) for w in self.watch):
            st.pend = frozenset(('read',) + p[1:] if p[0] == 'taken' else p for p in st.pend)

    def pend_all(self, loc):
        return frozenset({('taken', 'map_pub_', loc), ('taken', 'graph_pub_', loc)})

    # -------------------------------------------------------------- locks
    def acquire(self, ms, st, loc, simultaneous=False):
        sid = loc + '<' + '<'.join(self.calls[-6:])
        for m in ms:
            if m in st.may:
                self.again.setdefault((m, m in st.must), loc)
            for h in st.may:
                if h != m and not (simultaneous and h in ms):
                    self.order.setdefault((h, m), loc)
        for m in ms:
            st.may = st.may | {m}
            if len(ms) == 1 or simultaneous:
                st.must = st.must | {m}
            st.sect[m] = frozenset([sid])

    def release(self, ms, st, weak=False):
        for m in ms:
            st.must = st.must - {m}
            if not weak:
                st.may = st.may - {m}
                st.flagsect = st.flagsect - st.sect.get(m, frozenset())
                st.sect.pop(m, None)

    def mutexes(self, regs, st):
        out = set()
        for r in regs:
            out |= self.canon(r, st)
        return frozenset(out)

    def make_guard(self, e, st):
        """constructs a guard: returns (mutexes, state)"""
        args = e.get('a', [])
        how, ms = 'held', []
        for a in args:
            t = tbase(a.get('t'))
            if t in ('std::defer_lock_t',):
                how = 'free'
            elif t in ('std::adopt_lock_t',):
                how = 'adopt'
            elif t in ('std::try_to_lock_t',):
                how = 'maybe'
            elif 'chrono' in t:
                how = 'maybe'
                self.rv(a, st)
            elif t in GUARDS:
                v = self.rv(a, st)          # moved
                g = [x for x in v if x[0] == '#guard']
                return frozenset(m for x in g for m in x[1]), (g[0][2] if len(g) == 1 else 'maybe') if g else 'free'
            else:
                ms.append(self.mutexes(self.lv(a, st), st))
        if not ms:
            return frozenset(), 'free'
        allm = frozenset(x for m in ms for x in m)
        if how == 'held':
            if all(len(m) == 1 for m in ms) and len(ms) > 1:
                self.acquire(allm, st, e['l'], simultaneous=True)
            else:
                for m in ms:
                    self.acquire(m, st, e['l'])
            if any(len(m) > 1 for m in ms):
                how = 'maybe'
        elif how == 'maybe':
            st.may = st.may | allm
        elif how == 'adopt':
            st.raw = st.raw - allm
            how = 'held'
        return allm, how

    def drop_guard(self, gid, st):
        g = st.guards.pop(gid, None)
        if g:
            if g[1] != 'free':
                self.release(g[0], st)
            return
        r = ('%var', gid)
        st.pts.pop(r, None)
        st.copyof.pop(r, None)
        if gid.isdigit():
            st.refs.pop(int(gid), None)
            st.refs.pop(gid, None)

    # -------------------------------------------------------------- expressions
    def lv(self, e, st):
        """regions that an lvalue designates"""
        k = e['k']
        if k == 'ref':
            if e.get('dk') in ('local', 'param'):
                return st.refs.get(e['id'], frozenset([('%var', str(e['id']))]))
            if e.get('dk') == 'binding':
                r = st.refs.get(e['id'])
                if r:
                    return r
                return self.lv(e['b'], st) if e.get('b') else frozenset()
            if e.get('dk') == 'global':
                if 'v' in e or 'fv' in e:
                    return frozenset()
                return frozenset([('G', e.get('q', e['name']))])
            return frozenset()
        if k == 'this':
            return st.refs.get('this', frozenset())
        if k == 'member':
            if not e.get('isf'):
                return self.rv(e['b'], st) if e.get('b') else frozenset()
            b = self.rv(e['b'], st) if e.get('arrow') else self.lv(e['b'], st)
            return frozenset(r + (e['name'],) for r in b if not r[0].startswith('#'))
        if k == 'un' and e['op'] == '*':
            return self.rv(e['e'], st)
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            r = self.lv(e['e'], st)
            self.access(r, 'r', st, e['l'])
            self.access(r, 'w', st, e['l'])
            return r
        if k == 'index':
            b = self.lv(e['b'], st)
            self.rv(e['i'], st)
            if is_ptr_type(e['b'].get('t')):
                return self.points(b, st)
            return frozenset(r + ('[]',) for r in b if not r[0].startswith('#'))
        if k in ('assign', 'cassign'):
            return self.assign(e, st)
        if k == 'cond':
            self.rv(e['c'], st)
            s2 = st.copy()
            a = self.lv(e['a'], st)
            b = self.lv(e['b'], s2)
            self.merge_into(st, s2)
            return a | b
        if k == 'bin' and e['op'] == ',':
            self.rv(e['a'], st)
            return self.lv(e['b'], st)
        if k in ('opcall', 'mcall', 'call'):
            kind, v = self.call(e, st)
            if kind == 'lv':
                return v
            return self.temp(e, v, st)
        if k in ('cast', 'decay'):
            return self.lv(e['e'], st)
        return self.temp(e, self.rv(e, st), st)

    def temp(self, e, v, st):
        r = ('%var', 't' + e.get('l', '?') + e['k'])
        self.setval(r, v, e.get('t'), st)
        if self.scope:
            self.scope[-1].add(r[1])
        return frozenset([r])

    def setval(self, r, v, t, st):
        """initialises the private region r"""
        for d in (st.pts, st.copyof, st.esc):
            for k in [k for k in d if k[:len(r)] == r]:
                del d[k]
        if is_ptr_type(t):
            st.pts[r] = frozenset(v)
        elif v:
            st.copyof[r] = frozenset(v)

    def merge_into(self, st, other):
        j = join(st, other)
        for a in State.__slots__:
            if a != 'dead':
                setattr(st, a, getattr(j, a))

    def rv(self, e, st):
        """value: what it may point to (pointers), or which regions its content was copied from"""
        if e is None:
            return frozenset()
        k = e['k']
        if k in ('int', 'float', 'bool', 'str', 'null', 'zero'):
            return frozenset()
        if k == 'ref' and e.get('dk') == 'func':
            return frozenset([('#fn', e['f'])])
        if k == 'this':
            return st.refs.get('this', frozenset())
        if k in ('ref', 'member', 'index') or (k == 'un' and e['op'] == '*'):
            r = self.lv(e, st)
            self.access(r, 'r', st, e['l'], atomic=tbase(e.get('t')) == 'std::atomic')
            return self.value(r, e.get('t'), st)
        if k == 'un':
            if e['op'] == '&':
                x = e['e']
                if x['k'] == 'ref' and x.get('dk') == 'func':
                    return frozenset([('#fn', x['f'])])
                return self.lv(x, st)
            if e['op'] in ('++', '--'):
                r = self.lv(e['e'], st)
                self.access(r, 'r', st, e['l'])
                self.access(r, 'w', st, e['l'])
                return self.value(r, e.get('t'), st)
            self.rv(e['e'], st)
            return frozenset()
        if k == 'bin':
            a = self.rv(e['a'], st)
            if e['op'] in ('&&', '||'):
                s2 = st.copy()
                self.rv(e['b'], s2)
                self.merge_into(st, s2)
                return frozenset()
            b = self.rv(e['b'], st)
            return a | b if is_ptr_type(e.get('t')) or e['op'] == ',' else frozenset()
        if k == 'cond':
            self.rv(e['c'], st)
            s2 = st.copy()
            a = self.rv(e['a'], st)
            b = self.rv(e['b'], s2)
            self.merge_into(st, s2)
            return a | b
        if k in ('assign', 'cassign'):
            return self.value(self.assign(e, st), e.get('t'), st)
        if k in ('cast', 'decay'):
            if k == 'decay':
                return frozenset(r + ('[]',) for r in self.lv(e['e'], st) if not r[0].startswith('#'))
            return self.rv(e['e'], st)
        if k in ('call', 'mcall', 'opcall'):
            kind, v = self.call(e, st)
            if kind == 'lv':
                self.access(v, 'r', st, e['l'])
                return self.value(v, e.get('t'), st)
            return v
        if k == 'ctor':
            return self.construct(e, st)
        if k == 'new':
            v = self.rv(e['init'], st) if e.get('init') else frozenset()
            return self.fresh(e, v, e.get('at'), st)
        if k == 'delete':
            r = self.rv(e['e'], st)
            self.access(r, 'w', st, e['l'])
            return frozenset()
        if k == 'lambda':
            lid = e.get('f', e['l'])
            self.lams[lid] = e
            for c in e.get('caps', []):
                if c.get('init'):
                    if c.get('byref'):
                        self.lv(c['init'], st)
                    else:
                        self.rv(c['init'], st)
            return frozenset([('#lam', lid)]) | frozenset(st.refs.get('this', ()))
        if k == 'initlist':
            out = frozenset()
            for a in e.get('a', []):
                out |= self.rv(a, st)
            return out
        if k == 'throw':
            self.rv(e['e'], st)
            return frozenset()
        out = frozenset()
        for a in e.get('a', []) if isinstance(e.get('a'), list) else []:
            out |= self.rv(a, st)
        return out

    lams = {}

    def value(self, regs, t, st):
        if is_ptr_type(t):
            return self.points(regs, st)
        out = set()
        for r in regs:
            c = st.copyof.get(r) if r[0] == '%var' else None
            if c is not None:
                out |= c
                if any(len(p) > len(r) and p[:len(r)] == r for p in st.pts):
                    out.add(r)
            elif r[0] != '%var' or len(r) > 2 or any(p[:2] == r for p in st.pts) or r in self.threadof:
                out.add(r)
        return frozenset(out)

    def fresh(self, e, v, t, st):
        r = ('%new', e['l'])
        for d in (st.pts, st.copyof, st.esc):
            for kk in [kk for kk in d if kk[:2] == r]:
                del d[kk]
        if v:
            st.copyof[r] = frozenset(v)
        return frozenset([r])

    def construct(self, e, st):
        q = e['q']
        if q in GUARDS:
            ms, how = self.make_guard(e, st)
            return frozenset([('#guard', ms, how)])
        if q == 'std::thread':
            return self.new_thread(e, st)
        args = e.get('a', [])
        if e.get('copy') or e.get('move') or len(args) == 1 and tbase(args[0].get('t')) == q:
            v = self.rv(args[0], st) if args else frozenset()
            if e.get('move') and args and tbase(args[0].get('t')) in SMART:
                pass
            return v
        if q in CONT and len(args) >= 2:
            out = frozenset()
            for a in args:
                v = self.rv(a, st)
                # a container made from iterators holds copies of the elements
                out |= frozenset(x[:-1] if x[-1] == '[]' else x for x in v)
                self.access(v, 'r', st, e['l'])
            return out
        fn = self.prog.funcs.get(e['f'])
        if fn and self.prog.in_repo(fn) and fn.get('body') is not None and not q.startswith('lambda'):
            obj = ('%var', 'c' + e['l'] + q)
            for d in (st.pts, st.copyof, st.esc):
                for kk in [kk for kk in d if kk[:2] == obj]:
                    del d[kk]
            self.inline(fn, args, frozenset([obj]), st, e['l'])
            return frozenset([obj])
        return self.ext_args(e, st)

    def new_thread(self, e, st):
        args = e.get('a', [])
        v = frozenset()
        if len(args) == 1 and tbase(args[0].get('t')) == 'std::thread':
            return self.rv(args[0], st)
        for a in args:
            v |= self.rv(a, st)
        roots = frozenset(x for x in v if x[0] in ('#fn', '#lam'))
        if args:
            for r in roots:
                self.created.append((r, e['l']))
            st.started = st.started | roots
            st.joined = st.joined - roots
            self.threadof.setdefault(('%new', e['l']), set()).update(roots)
        return frozenset([('#thread', roots)])

    def assign(self, e, st):
        v = self.rv(e['b'], st)
        r = self.lv(e['a'], st)
        if e['k'] == 'cassign':
            self.access(r, 'r', st, e['l'])
        self.store(r, v, e['a'].get('t'), st, e['l'], strong=True, val=const_bool(e['b']))
        return r

    def store(self, regs, v, t, st, loc, strong=False, val=None, atomic=False):
        self.access(regs, 'w', st, loc, atomic=atomic, val=val)
        ptr = is_ptr_type(t)
        for r0 in regs:
            if r0[0].startswith('#'):
                continue
            for r in self.canon(r0, st):
                th = [x for x in v if x[0] == '#thread']
                for x in th:
                    self.threadof.setdefault(r, set()).update(x[1])
                if self.private(r):
                    if len(regs) == 1 and strong:
                        self.setval(r, v, t, st)
                    elif ptr:
                        st.pts[r] = st.pts.get(r, frozenset()) | v
                    else:
                        st.copyof[r] = st.copyof.get(r, frozenset()) | v
                elif ptr:
                    self.into(r + ('*',), v, st)
                    if not v:
                        st.rel = st.rel | {r}
                    else:
                        st.rel = st.rel - {r}
                else:
                    # content that may hold pointers to private objects
                    self.content(r, v, st)

    def into(self, target, v, st):
        """the values v become what `target` is"""
        for x in v:
            if x[0].startswith('#'):
                continue
            for c in self.canon(x, st):
                if c[0] == '%new' and len(c) == 2:
                    if c in self.threadof:
                        self.threadof.setdefault(target, set()).update(self.threadof[c])
                    st.esc[c] = st.esc.get(c, frozenset()) | {target}
                    # what the object points to escapes with it
                    self.content(target, frozenset([c]), st)
                elif not self.private(c):
                    self.unify(target, c)

    def content(self, target, v, st, depth=0):
        """a copy of the private content v is stored in shared storage: pointers in it now point from there"""
        if depth > 4:
            return
        for x in v:
            if x[0].startswith('#'):
                continue
            for p in [p for p in list(st.pts) if p[:len(x)] == x]:
                self.into(target + p[len(x):] + ('*',), st.pts[p], st)
            c = st.copyof.get(x)
            if c and self.private(x):
                self.content(target, c, st, depth + 1)

    def ext_args(self, e, st):
        """arguments of a function outside the repository"""
        out = frozenset()
        pm = e.get('pm') or []
        for i, a in enumerate(e.get('a', [])):
            m = pm[i] if i < len(pm) else 0
            if m == 1 and a['k'] not in ('lambda',):
                r = self.lv(a, st)
                out |= self.value(r, a.get('t'), st)
                if tbase(a.get('t')) in GUARDS or self.safe_type(a.get('t')):
                    continue
                if tbase(a.get('t')) in SMART or e.get('q') in ('std::move', 'std::forward'):
                    continue
                self.access(r, 'r', st, a['l'])
                if e.get('name') not in ('move', 'forward', 'begin', 'end', 'rbegin', 'rend', 'get', 'addressof', 'ref'):
                    self.access(r, 'w', st, a['l'])
            else:
                v = self.rv(a, st)
                if m == 2 and v:
                    self.access(v, 'r', st, a['l'])
                    if not (strip_cv(a.get('t', '')).startswith('const')):
                        self.access(frozenset(x for x in v if not x[0].startswith('#')), 'w', st, a['l'])
                out |= v
        for x in list(out):
            if x[0] == '#lam' and e.get('q') not in ('std::bind', 'std::make_unique', 'std::make_shared') and not self.reg_call(e):
                self.call_lambda(x[1], None, out, st, e['l'])
            elif x[0] == '#fn' and e.get('q') in ('std::call_once', 'std::invoke', 'std::for_each', 'std::async', 'std::transform'):
                fn = self.prog.funcs.get(x[1])
                if fn and self.prog.in_repo(fn):
                    self.inline(fn, [], frozenset(y for y in out if not y[0].startswith('#')), st, e['l'])
        return out

    def reg_call(self, e):
        return (e.get('name') or '').startswith(('create_', 'add_on_', 'register_')) or e.get('q') in ('std::thread',)

    def safe_type(self, t):
        b = strip_cv(t or '')
        if tbase(b) in SMART:
            b = split_targs(b)[1][0]
        return b.startswith(SAFE)

    # -------------------------------------------------------------- calls
    def call(self, e, st):
        """('lv', regions) or ('rv', value)"""
        k = e['k']
        q = e.get('q') or ''
        name = e.get('name') or q.split('::')[-1]
        loc = e['l']
        # guards
        if k == 'mcall' and e.get('cls') in GUARDS:
            return self.guard_call(e, name, st)
        if k == 'opcall' and e.get('cls') in GUARDS and e['op'] == '=':
            dst = self.lv(e['a'][0], st)
            src = self.rv(e['a'][1], st)
            for r in dst:
                self.drop_guard(r[-1], st)
                for g in src:
                    if g[0] == '#guard':
                        st.guards[r[-1]] = (g[1], g[2])
            return 'lv', dst
        if k == 'mcall' and e.get('cls') in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::__mutex_base'):
            ms = self.mutexes(self.obj(e, st), st)
            if name in ('lock', 'lock_shared'):
                self.acquire(ms, st, loc)
                st.raw = st.raw | ms
            elif name in ('unlock', 'unlock_shared'):
                self.release(ms, st)
                st.raw = st.raw - ms
            elif name.startswith('try_lock'):
                st.may = st.may | ms
                st.raw = st.raw | ms
            return 'rv', frozenset()
        if q == 'std::lock':
            ms = frozenset(m for a in e['a'] for m in self.mutexes(self.lv(a, st), st) if tbase(a.get('t')) not in GUARDS)
            gs = [r for a in e['a'] if tbase(a.get('t')) in GUARDS for r in self.lv(a, st)]
            for r in gs:
                g = st.guards.get(r[-1])
                if g:
                    ms |= g[0]
                    st.guards[r[-1]] = (g[0], 'held')
            self.acquire(ms, st, loc, simultaneous=True)
            if not gs:
                st.raw = st.raw | ms
            return 'rv', frozenset()
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref') and e['a']:
            if tbase(e['a'][0].get('t')) in GUARDS:
                out = set()
                for r in self.lv(e['a'][0], st):
                    g = st.guards.get(r[-1])
                    if g:
                        st.guards[r[-1]] = (g[0], 'free')
                        out.add(('#guard', g[0], g[1]))
                return 'rv', frozenset(out)
            return 'lv', self.lv(e['a'][0], st)
        if q in ('std::make_unique', 'std::make_shared', 'std::allocate_shared'):
            t = (e.get('targs') or ['?'])[0]
            if strip_cv(t) == 'std::thread':
                v = self.new_thread({'a': e['a'], 'l': loc}, st)
                return 'rv', self.fresh(e, frozenset(), t, st) | v
            v = frozenset(x for a in e['a'] for x in self.rv(a, st))
            fn = self.ctor_of(t, len(e['a']))
            r = self.fresh(e, frozenset(), t, st)
            if fn:
                self.inline(fn, e['a'], r, st, loc)
            else:
                st.copyof[next(iter(r))] = frozenset(x for x in v if not x[0].startswith('#'))
            return 'rv', r
        if k == 'mcall' and e.get('cls') == 'std::thread':
            o = self.obj(e, st)
            ths = set()
            for r in self.mutexes(o, st) | o:
                ths |= self.threadof.get(r, set())
            if name == 'join':
                if st.may:
                    self.under.append(('waits for a thread', st.may, loc, self.stack[-1] if self.stack else '?'))
                st.joined = st.joined | frozenset(ths)
            elif name == 'detach':
                self.detached.append((frozenset(ths), loc))
            return 'rv', frozenset()
        fn = self.prog.funcs.get(e.get('f'))
        inrepo = fn is not None and self.prog.in_repo(fn) and fn.get('body') is not None
        # sleeping and publishing
        if not inrepo:
            if q.startswith('std::this_thread::sleep') or name == 'sleep' or (name in ('wait', 'wait_for', 'get') and 'future' in (e.get('cls') or '')):
                if st.may:
                    self.under.append(('sleeps', st.may, loc, self.stack[-1] if self.stack else '?'))
            elif name in ('publish', 'sendTransform'):
                if st.may:
                    self.under.append(('publishes', st.may, loc, self.stack[-1] if self.stack else '?'))
                if st.pend and name == 'publish':
                    o = self.obj(e, st)
                    names = {x for r in o for x in r}
                    st.pend = frozenset(p for p in st.pend if not (p[0] == 'read' and p[1] in names))
        # operators of smart pointers, iterators, containers
        if k == 'opcall':
            r = self.operator(e, st, fn, inrepo)
            if r is not None:
                return r
        if inrepo:
            if k == 'mcall':
                o = self.obj(e, st)
                v = None
                targets = [fn]
                if e.get('virtual') and not e.get('nonvirt'):
                    targets = [fn] + self.overriders(fn['f'])
                s0 = st.copy()
                first = True
                for t in targets:
                    if first:
                        v = self.inline(t, e['a'], o, st, loc)
                        first = False
                    else:
                        s2 = s0.copy()
                        x = self.inline(t, e['a'], o, s2, loc)
                        v = (v[0], v[1] | x[1])
                        self.merge_into(st, s2)
                return v
            if k == 'opcall' and fn.get('cls') and not fn.get('static'):
                return self.inline(fn, e['a'][1:], self.lv(e['a'][0], st), st, loc)
            return self.inline(fn, e['a'], frozenset(), st, loc)
        if k == 'mcall' and e.get('virtual') and self.overriders(e.get('f')):
            # operation of an interface: its implementations in the repository, and - as other plugins may implement it -
            # access to the object as its signature allows
            o = self.obj(e, st)
            self.access(o, 'r', st, loc)
            if not e.get('mconst'):
                self.access(o, 'w', st, loc)
            out = frozenset()
            s0 = st.copy()
            for t in self.overriders(e.get('f')):
                s2 = s0.copy()
                x = self.inline(t, e['a'], o, s2, loc)
                out |= x[1]
                self.merge_into(st, s2)
            return 'rv', out
        if st.raw and not self.handlers:
            for m in st.raw:
                if name not in ('lock', 'unlock', 'move') and not q.startswith('std::atomic'):
                    self.rawexit.setdefault(m, loc)
        if k == 'mcall':
            return self.method(e, name, st)
        if k == 'call' and not e.get('q') and e.get('c'):
            v = self.rv(e['c'], st)
            out = self.ext_args(e, st)
            return 'rv', out
        return 'rv', self.ext_args(e, st)

    def obj(self, e, st):
        o = e.get('o')
        if o is None:
            return frozenset()
        if e.get('arrow'):
            return self.rv(o, st)
        return self.lv(o, st)

    def ctor_of(self, t, n):
        t = strip_cv(t)
        c = [f for f in self.prog.funcs.values() if f.get('ctor') and f.get('cls') == t and self.prog.in_repo(f) and
             len([p for p in f['params'] if p.get('def') is None]) <= n <= len(f['params'])]
        return c[0] if len(c) == 1 else None

    def overriders(self, f):
        if f is None:
            return []
        o = getattr(self.prog, '_over', None)
        if o is None:
            o = self.prog._over = {}
            for x in self.prog.funcs.values():
                if x.get('body') is not None:
                    for b in x.get('overrides') or []:
                        o.setdefault(b, []).append(x)
        out = []
        for x in o.get(f, []):
            if self.prog.in_repo(x):
                out.append(x)
            out += self.overriders(x['f'])
        return out

    def operator(self, e, st, fn, inrepo):
        op, a = e['op'], e['a']
        t0 = tbase(a[0].get('t')) if a else ''
        if a and a[0]['k'] == 'ref' and '#lam' in str(self.peek(a[0], st)) and op == '()' or (op == '()' and (e.get('f') or '').startswith('lambda@')):
            vs = self.rv(a[0], st)
            return self.call_lambdas(vs, a[1:], st, e['l'])
        if inrepo:
            return None
        if op in ('*', '->') and (t0 in SMART or 'iterator' in t0):
            v = self.rv(a[0], st)
            if op == '->':
                return 'rv', v
            return 'lv', v
        if op == '[]' and (t0 in CONT or 'basic_string' in t0):
            b = self.lv(a[0], st)
            self.rv(a[1], st)
            self.access(b, 'r', st, e['l'])
            if t0 in ('std::map', 'std::unordered_map') and not e.get('mconst'):
                self.access(b, 'w', st, e['l'])
            suffix = ('[]', 'second') if 'map' in t0 else ('[]',)
            return 'lv', frozenset(r + suffix for r in b if not r[0].startswith('#'))
        if op == '[]' and (t0 in SMART or 'iterator' in t0):
            v = self.rv(a[0], st)
            self.rv(a[1], st)
            return 'lv', v
        if op in ('()', '[]') and t0.startswith('Eigen::'):
            for x in a[1:]:
                self.rv(x, st)
            return 'lv', self.lv(a[0], st)
        if op == '=' and len(a) == 2:
            if t0 == 'std::atomic' or t0.startswith('std::__atomic'):
                self.rv(a[1], st)
                r = self.lv(a[0], st)
                self.access(r, 'w', st, e['l'], atomic=True, val=const_bool(a[1]))
                return 'lv', r
            v = self.rv(a[1], st)
            r = self.lv(a[0], st)
            self.store(r, v, a[0].get('t'), st, e['l'], strong=True)
            return 'lv', r
        if op in ('++', '--', '+=', '-=', '*=', '/=', '<<', '&=', '|=') and a:
            for x in a[1:]:
                self.rv(x, st)
            r = self.lv(a[0], st)
            at = t0 == 'std::atomic' or t0.startswith('std::__atomic')
            self.access(r, 'r', st, e['l'], atomic=at)
            if op != '<<' or 'Eigen' in t0:
                self.access(r, 'w', st, e['l'], atomic=at)
            return 'lv', r
        if op in ('+', '-') and 'iterator' in t0:
            v = self.rv(a[0], st)
            for x in a[1:]:
                self.rv(x, st)
            return 'rv', v
        if op == '()':
            v = self.rv(a[0], st)
            if any(x[0] == '#lam' for x in v):
                return self.call_lambdas(v, a[1:], st, e['l'])
            for x in a[1:]:
                self.rv(x, st)
            return 'rv', frozenset()
        out = frozenset()
        for x in a:
            out |= self.rv(x, st)
        return 'rv', out if is_ptr_type(e.get('t')) else frozenset()

    def peek(self, e, st):
        r = st.refs.get(e.get('id'), frozenset([('%var', str(e.get('id')))]))
        return frozenset(x for y in r for x in (st.copyof.get(y, frozenset()) | st.pts.get(y, frozenset())))

    def call_lambdas(self, vs, args, st, loc):
        """the lambdas among vs are called"""
        kind, out = 'rv', frozenset()
        s0 = st.copy()
        first = True
        fs = set()
        for x in vs:
            if x[0] == '#lam':
                fs.add(x[1])
            elif x in st.copyof:
                fs |= {y[1] for y in st.copyof[x] if y[0] == '#lam'}
        for f in sorted(fs):
            if first:
                kind, out = self.call_lambda(f, args, frozenset(), st, loc)
                first = False
            else:
                s2 = s0.copy()
                k2, v2 = self.call_lambda(f, args, frozenset(), s2, loc)
                out |= v2
                self.merge_into(st, s2)
        if first:
            for a in args:
                self.rv(a, st)
        return kind, out

    def call_lambda(self, lid, args, pool, st, loc):
        e = self.lams.get(lid)
        if e is None or lid in self.stack:
            return 'rv', frozenset()
        fn = {'f': lid, 'q': lid.split('#')[0], 'params': e['params'], 'body': e['body'], 'ret': '?', 'l': e['l'], 'keepthis': True}
        if args is None:
            for p in e['params']:
                regs = frozenset(x for x in pool if not x[0].startswith('#'))
                if p['ref']:
                    st.refs[p['id']] = regs
                else:
                    st.refs.pop(p['id'], None)
                    self.setval(('%var', str(p['id'])), self.value(regs, p['t'], st) if not is_ptr_type(p['t']) else self.points(regs, st), p['t'], st)
            return self.body(fn, st, None, loc)
        return self.inline(fn, args, None, st, loc)

    def guard_call(self, e, name, st):
        for r in self.obj(e, st):
            gid = r[-1]
            g = st.guards.get(gid)
            if not g:
                continue
            if name == 'lock':
                if g[1] == 'held':
                    for m in g[0]:
                        self.again.setdefault((m, True), e['l'])
                else:
                    self.acquire(g[0], st, e['l'])
                st.guards[gid] = (g[0], 'held')
            elif name == 'unlock':
                self.release(g[0], st)
                st.guards[gid] = (g[0], 'free')
            elif name.startswith('try_lock'):
                st.may = st.may | g[0]
                st.guards[gid] = (g[0], 'maybe')
            elif name == 'release':
                st.raw = st.raw | g[0]
                st.guards[gid] = (g[0], 'free')
        return 'rv', frozenset()

    def method(self, e, name, st):
        """member function of a class outside the repository"""
        o = self.obj(e, st)
        cls = e.get('cls') or ''
        loc = e['l']
        if cls.startswith('std::atomic') or cls.startswith('std::__atomic'):
            args = [self.rv(a, st) for a in e['a']]
            val = const_bool(e['a'][0]) if e['a'] else None
            if name in ('store', 'operator=', 'exchange', 'fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'compare_exchange_strong',
                        'compare_exchange_weak', 'fetch_or', 'fetch_and'):
                if name.startswith('compare'):
                    val = const_bool(e['a'][1]) if len(e['a']) > 1 else None
                self.access(o, 'w', st, loc, atomic=True, val=val)
            if name not in ('store', 'operator='):
                self.access(o, 'r', st, loc, atomic=True)
            return 'rv', frozenset()
        if cls.startswith(SAFE):
            if cls.startswith('tf2_ros::Buffer') and name in ('lookupTransform', 'transform'):
                self.transforms.setdefault(loc, set()).add(frozenset(t for h in self.handlers for t in h))
            v = self.ext_args(e, st)
            if cls.startswith('pluginlib::') and is_ptr_type(e.get('t')):
                return 'rv', self.fresh(e, frozenset(), e.get('t'), st)
            return 'rv', v if is_ptr_type(e.get('t')) else frozenset()
        if cls in SMART:
            # o is the smart pointer itself
            if name in ('reset', 'swap', 'release'):
                v = self.ext_args(e, st)
                if name == 'reset':
                    self.store(o, v, 'std::shared_ptr<x>', st, loc, strong=True)
                else:
                    self.access(o, 'w', st, loc)
                return 'rv', frozenset()
            self.access(o, 'r', st, loc)
            return 'rv', self.points(o, st)
        v = self.ext_args(e, st)
        real = frozenset(r for r in o if not r[0].startswith('#'))
        if name in ELEM and name != 'emplace_back' and (tbase(cls) in CONT or cls.startswith('std::')):
            self.access(real, 'r', st, loc)
            return 'lv', frozenset(r + (('[]', 'second') if 'map' in cls else ('[]',)) for r in real)
        if name in ITER and cls.startswith('std::') and 'string' not in cls:
            self.access(real, 'r', st, loc)
            return 'rv', frozenset(r + ('[]',) for r in real)
        self.access(real, 'r', st, loc)
        if not e.get('mconst') and name not in READ and name not in ELEM and not e.get('conv'):
            self.access(real, 'w', st, loc)
        if name in ADDS:
            for a in e['a']:
                pass
            self.access(real, 'w', st, loc)
            ts = [a.get('t') for a in e['a']]
            for r in real:
                for c in self.canon(r, st):
                    tgt = c + ('[]',)
                    th = [x for x in v if x[0] == '#thread']
                    for x in th:
                        self.threadof.setdefault(tgt, set()).update(x[1])
                    if self.tname(e) == 'std::thread':
                        roots = frozenset(x for x in v if x[0] in ('#fn', '#lam'))
                        if roots:
                            self.created += [(x, loc) for x in roots]
                            st.started = st.started | roots
                            self.threadof.setdefault(tgt, set()).update(roots)
                    if any(is_ptr_type(t) and 'iterator' not in tbase(t) for t in ts):
                        if self.private(c):
                            st.pts[tgt] = st.pts.get(tgt, frozenset()) | frozenset(x for x in v if not x[0].startswith('#'))
                        else:
                            self.into(tgt + ('*',), v, st)
                    elif any('iterator' in tbase(t) for t in ts):
                        for x in v:
                            if x[-1:] == ('[]',):
                                p = self.points([x], st)
                                if self.private(c):
                                    st.pts[tgt] = st.pts.get(tgt, frozenset()) | p
                                else:
                                    self.into(tgt + ('*',), p, st)
                    elif self.private(c):
                        st.copyof[tgt] = st.copyof.get(tgt, frozenset()) | frozenset(x for x in v if x != tgt)
                    else:
                        self.content(tgt, v, st)
        if name in ('array', 'matrix', 'block', 'row', 'col', 'segment', 'head', 'tail', 'coeffRef', 'x', 'y', 'z', 'noalias', 'diagonal', 'translation',
                    'linear', 'value') and not e.get('mconst'):
            return 'lv', real
        if is_ptr_type(e.get('t')):
            return 'rv', frozenset(r + ('*',) for r in real) | v
        return 'rv', frozenset()

    def tname(self, e):
        t = strip_cv(e.get('ot') or '')
        a = split_targs(t)[1]
        return strip_cv(a[0]) if a else ''

    def inline(self, fn, args, this, st, loc):
        """walks the body of a repository function; this: regions of the object"""
        if st.raw and not self.handlers:
            for m in st.raw:
                self.rawexit.setdefault(m, loc)
        vals = []
        for i, p in enumerate(fn['params']):
            a = args[i] if i < len(args) else p.get('def')
            if a is None:
                vals.append(frozenset())
            elif p['ref']:
                vals.append(self.lv(a, st))
            else:
                vals.append(self.rv(a, st))
        if fn['f'] in self.stack or len(self.stack) > 40:
            return 'rv', frozenset()
        keep = st.refs.get('this')
        for p, v in zip(fn['params'], vals):
            if p['ref']:
                st.refs[p['id']] = v
            else:
                st.refs.pop(p['id'], None)
                if tbase(p['t']) in GUARDS:
                    for g in v:
                        if g[0] == '#guard':
                            st.guards[str(p['id'])] = (g[1], g[2])
                self.setval(('%var', str(p['id'])), v, p['t'], st)
        if this is not None:
            st.refs['this'] = frozenset(r for r in this if not r[0].startswith('#'))
        self.visited.setdefault(fn['f'], fn['l'])
        out = self.body(fn, st, this, loc)
        for p in fn['params']:
            self.drop_guard(str(p['id']), st)
        if keep is None:
            st.refs.pop('this', None)
        else:
            st.refs['this'] = keep
        return out

    def body(self, fn, st, this, loc):
        self.stack.append(fn['f'])
        self.calls.append(loc)
        self.scope.append(set())
        self.retvals.append([frozenset(), strip_ref(fn.get('ret'))])
        for i in fn.get('inits') or []:
            if i.get('e') is None:
                continue
            if i.get('field'):
                v = self.rv(i['e'], st)
                r = frozenset(x + (i['field'],) for x in st.refs.get('this', ()))
                self.store(r, v, i['e'].get('t'), st, i['e']['l'], strong=True)
            else:
                e = i['e']
                f2 = self.prog.funcs.get(e.get('f')) if e['k'] == 'ctor' else None
                if f2 and self.prog.in_repo(f2) and f2.get('body') is not None:
                    self.inline(f2, e.get('a', []), st.refs.get('this', frozenset()), st, e['l'])
                else:
                    self.rv(e, st)
        r = self.run(fn['body'], st)
        end = None
        for x in ('next', 'return'):
            end = join(end, r.get(x))
        if end is None:
            # never returns
            end = st.copy()
            self.never = True
        for a in State.__slots__:
            if a != 'dead':
                setattr(st, a, getattr(end, a))
        for g in self.scope.pop():
            self.drop_guard(g, st)
        rv, ret = self.retvals.pop()
        self.calls.pop()
        self.stack.pop()
        if ret and ret[1]:
            return 'lv', rv
        return 'rv', rv

    # -------------------------------------------------------------- statements
    def run(self, s, st):
        """effects of a statement; returns the states by way of leaving it"""
        if s is None:
            return {'next': st}
        k = s['k']
        if k == 'block':
            self.scope.append(set())
            out = {}
            cur = st
            for x in s['s']:
                r = self.run(x, cur)
                for w in ('return', 'break', 'continue', 'throw'):
                    if w in r:
                        out[w] = join(out.get(w), r[w])
                cur = r.get('next')
                if cur is None:
                    break
            mine = self.scope.pop()
            if cur is not None:
                out['next'] = cur
            for o in out.values():
                for g in mine:
                    self.drop_guard(g, o)
            return out
        if k == 'expr':
            v = self.rv(s['e'], st) if s['e'] is not None else frozenset()
            for g in v:                     # a guard that nobody holds on to
                if g[0] == '#guard' and g[2] != 'free':
                    self.release(g[1], st)
            if s['e'] is not None and s['e']['k'] == 'throw':
                return {'throw': st}
            return {'next': st}
        if k == 'decl':
            for v in s['v']:
                self.declare(v, st)
            return {'next': st}
        if k == 'nop':
            return {'next': st}
        if k == 'if':
            self.scope.append(set())
            if s.get('init'):
                self.run(s['init'], st)
            if s.get('var'):
                self.declare(s['var'], st)
            cond = s['c']
            if cond is not None:
                self.rv(cond, st)
            c = self.decided(cond, st)
            a, b = st.copy(), st
            r = {}
            ct, cf = self.not_taken(cond)
            a.pend = frozenset(p for p in a.pend if p[2] not in ct)
            b.pend = frozenset(p for p in b.pend if p[2] not in cf)
            ra = self.run(s['a'], a) if c is not False else {}
            rb = self.run(s['b'], b) if c is not True else {}
            own = self.owned(cond)
            if own is not None and 'next' in ra and 'next' in rb:
                pass
            th = self.mentioned(cond, st)
            if th and 'next' in ra and 'next' in rb:
                # `if (t.joinable()) t.join()`: either way the thread has ended
                gain = (ra['next'].joined | rb['next'].joined) & th
                r['next'] = join(ra['next'], rb['next'])
                r['next'].joined = r['next'].joined | gain
            for x in (ra, rb):
                for w, o in x.items():
                    if w == 'next' and th and 'next' in r:
                        continue
                    r[w] = join(r.get(w), o)
            for g in self.scope.pop():
                for o in r.values():
                    self.drop_guard(g, o)
            return r
        if k in ('while', 'for', 'do', 'rangefor'):
            return self.loop(s, st)
        if k == 'return':
            if s.get('e') is not None:
                rv, ret = self.retvals[-1]
                e = s['e']
                g0 = e
                while (g0['k'] == 'cast' and g0.get('e')) or (g0['k'] == 'ctor' and len(g0.get('a') or []) == 1) or \
                        (g0['k'] == 'call' and g0.get('q') == 'std::move'):
                    g0 = g0['e'] if g0['k'] == 'cast' else g0['a'][0]
                if g0['k'] == 'ref' and tbase(g0.get('t')) in GUARDS:
                    v = set()
                    for r in self.lv(g0, st):
                        g = st.guards.pop(r[-1], None)
                        if g:
                            v.add(('#guard', g[0], g[1]))
                    v = frozenset(v)
                elif ret and ret[1]:
                    v = self.lv(e, st)
                else:
                    v = self.rv(e, st)
                self.retvals[-1][0] = rv | v
            return {'return': st}
        if k == 'break':
            return {'break': st}
        if k == 'continue':
            return {'continue': st}
        if k == 'switch':
            if s.get('init'):
                self.run(s['init'], st)
            self.rv(s['c'], st)
            out = {}
            cur = None
            body = s['body']
            items = body['s'] if body and body['k'] == 'block' else [body]
            entry = st
            deflt = False
            for x in items:
                while x and x['k'] in ('case', 'default'):
                    cur = join(cur, entry.copy())
                    deflt = deflt or x['k'] == 'default'
                    x = x['s']
                if cur is None or x is None:
                    continue
                r = self.run(x, cur)
                for w in ('return', 'continue', 'throw'):
                    if w in r:
                        out[w] = join(out.get(w), r[w])
                if 'break' in r:
                    out['next'] = join(out.get('next'), r['break'])
                cur = r.get('next')
            if cur is not None:
                out['next'] = join(out.get('next'), cur)
            if not deflt:
                out['next'] = join(out.get('next'), entry)
            return out
        if k == 'try':
            catchall = True
            s0 = st.copy()
            self.handlers.append([tbase(h['t'].replace('&', '')) for h in s['h']])
            r = self.run(s['body'], st)
            self.handlers.pop()
            # a handler starts from any point of the body, after the guards of the body are gone
            ent = s0
            for o in r.values():
                o2 = o.copy()
                o2.must = o2.must & s0.must
                o2.may = (o2.may & s0.may) | s0.may
                o2.guards = {g: x for g, x in o2.guards.items() if g in s0.guards}
                ent = join(ent, o2)
            for h in s['h']:
                x = self.run(h['body'], ent.copy())
                for w, o in x.items():
                    r[w] = join(r.get(w), o)
            if 'throw' in r:
                del r['throw']
            return r
        if k in ('case', 'default'):
            return self.run(s['s'], st)
        return {'next': st}

    def owned(self, c):
        return None

    def not_taken(self, c):
        """(sites, sites): where an announcement was certainly not taken if the condition is true, false"""
        no = frozenset()
        if c is None:
            return no, no
        while c['k'] in ('cast', 'paren') and c.get('e'):
            c = c['e']
        k = c['k']
        if k == 'mcall' and c.get('name') in ('exchange', 'compare_exchange_strong', 'compare_exchange_weak') and \
                (c.get('cls') or '').startswith(('std::atomic', 'std::__atomic')):
            return no, frozenset([c['l']])
        if k == 'ref' and c.get('id') in self.tookvar:
            return no, frozenset([self.tookvar[c['id']]])
        if k == 'un' and c['op'] == '!':
            t, f = self.not_taken(c['e'])
            return f, t
        if k == 'bin' and c['op'] in ('&&', '||'):
            t1, f1 = self.not_taken(c['a'])
            t2, f2 = self.not_taken(c['b'])
            return (t1 | t2, f1 & f2) if c['op'] == '&&' else (t1 & t2, f1 | f2)
        return no, no

    def mentioned(self, c, st):
        out = set()
        if c is None:
            return out
        for x in walk(c):
            if x['k'] in ('member', 'ref') and x.get('isf', True):
                try:
                    regs = self.lv(x, st.copy())
                except Exception:
                    continue
                for r in regs:
                    for y in (r, r + ('*',)):
                        out |= self.threadof.get(y, set())
        return out

    def decided(self, c, st):
        if c is not None and c['k'] == 'bool':
            return c['v']
        return None

    def declare(self, v, st):
        vid = str(v['id'])
        t = v['t']
        init = v.get('init')
        if v.get('ref'):
            if init is not None:
                st.refs[v['id']] = self.lv(init, st)
            if self.scope:
                self.scope[-1].add(vid)
            self.bind(v, st)
            return
        if v.get('static'):
            if init is not None:
                self.rv(init, st)
            st.refs[v['id']] = frozenset([('G', 'static ' + v['name'] + '@' + v['l'])])
            return
        st.refs.pop(v['id'], None)
        if self.scope:
            self.scope[-1].add(vid)
        self.tookvar.pop(v['id'], None)
        if init is not None and tbase(t) == 'bool':
            f = self.not_taken(init)[1]
            if len(f) == 1:
                self.tookvar[v['id']] = next(iter(f))
        if tbase(t) in GUARDS:
            if init is None:
                st.guards[vid] = (frozenset(), 'free')
            else:
                val = self.rv(init, st)
                gs = [x for x in val if x[0] == '#guard']
                ms = frozenset(m for x in gs for m in x[1])
                st.guards[vid] = (ms, gs[0][2] if len(gs) == 1 else 'maybe' if gs else 'free')
            return
        val = self.rv(init, st) if init is not None else frozenset()
        r = ('%var', vid)
        for x in val:
            if x[0] == '#thread':
                self.threadof.setdefault(r, set()).update(x[1])
            if x in self.threadof and x[0] == '%new':
                pass
        self.setval(r, val, t, st)
        self.bind(v, st)

    def bind(self, v, st):
        if not v.get('bindings'):
            return
        base = st.refs.get(v['id'], frozenset([('%var', str(v['id']))]))
        t = tbase(v['t'])
        names = ['first', 'second'] if t == 'std::pair' else None
        for i, b in enumerate(v['bindings']):
            f = names[i] if names and i < 2 else 'get%d' % i
            st.refs[b['id']] = frozenset(r + (f,) for r in base)

    def loop(self, s, st):
        k = s['k']
        self.scope.append(set())
        if k == 'for' and s.get('init'):
            self.run(s['init'], st)
        rng = None
        if k == 'rangefor':
            rng = self.lv(s['range'], st)
            self.access(rng, 'r', st, s['l'])
        out = {}
        head = st
        exit_st = None
        prev = None
        for it in range(6):
            sig = head.sig()
            if sig == prev:
                break
            prev = sig
            cur = head.copy()
            if k == 'rangefor':
                elem = frozenset(r + ('[]',) for r in rng if not r[0].startswith('#'))
                v = s['var']
                if v.get('ref'):
                    cur.refs[v['id']] = elem
                else:
                    self.access(elem, 'r', cur, s['l'])
                    cur.refs.pop(v['id'], None)
                    self.setval(('%var', str(v['id'])), self.value(elem, v['t'], cur), v['t'], cur)
                self.bind(v, cur)
            elif k != 'do':
                if s.get('var'):
                    self.declare(s['var'], cur)
                if s.get('c') is not None:
                    self.rv(s['c'], cur)
                    e0 = cur.copy()
                    ct, cf = self.not_taken(s['c'])
                    cur.pend = frozenset(p for p in cur.pend if p[2] not in ct)
                    e0.pend = frozenset(p for p in e0.pend if p[2] not in cf)
                    if not (s['c']['k'] == 'bool' and s['c']['v'] is True):
                        exit_st = join(exit_st, e0)
            if k == 'rangefor':
                exit_st = join(exit_st, head.copy())
            r = self.run(s['body'], cur)
            nxt = join(r.get('next'), r.get('continue'))
            if 'break' in r:
                exit_st = join(exit_st, r['break'])
            for w in ('return', 'throw'):
                if w in r:
                    out[w] = join(out.get(w), r[w])
            if nxt is not None:
                if k == 'do':
                    self.rv(s['c'], nxt)
                    exit_st = join(exit_st, nxt.copy())
                if k == 'for' and s.get('inc') is not None:
                    self.rv(s['inc'], nxt)
                if len(self.stack) == 1 and self.rounds and k in ('while', 'for', 'do') and self.depth == 0:
                    self.end_round(nxt, s['l'])
                last = nxt
                head = join(head, nxt)
            else:
                break
        if k == 'rangefor' and exit_st is not None:
            # waiting for all threads of a container
            th = set()
            for r in rng:
                th |= self.threadof.get(r + ('[]',), set())
            if th and nxt is not None:
                exit_st.joined = exit_st.joined | (nxt.joined & frozenset(th))
        if exit_st is not None:
            out['next'] = exit_st
        mine = self.scope.pop()
        for o in out.values():
            for g in mine:
                self.drop_guard(g, o)
        return out

    rounds = False
    depth = 0
    never = False

    def end_round(self, st, loc):
        for x in st.dirty:
            self.leftovers.setdefault(('dirty', x), loc)
        for x in st.pend:
            self.leftovers.setdefault(('pend', x), loc)
        st.dirty = frozenset()
        st.pend = frozenset()

    # -------------------------------------------------------------- entry
    def enter(self, fn, st=None, this=('M',)):
        st = st or State()
        self.lams = self.lams if self.lams else {}
        st.refs['this'] = frozenset([this])
        for p in fn['params']:
            r = ('P', p['name'])
            if p['ref']:
                st.refs[p['id']] = frozenset([r])
            else:
                st.refs.pop(p['id'], None)
                if is_ptr_type(p['t']):
                    st.pts[('%var', str(p['id']))] = frozenset([r + ('*',)])
                else:
                    st.copyof[('%var', str(p['id']))] = frozenset([r])
        self.visited.setdefault(fn['f'], fn['l'])
        self.body(fn, st, None, fn['l'])
        self.end_round(st, fn['l'])
        for m in st.raw & st.may:
            self.rawexit.setdefault(m, fn['l'])
        return st


def strip_ref(t):
    t = (t or '').strip()
    return (t, t.endswith('&'))


def const_bool(e):
    while e is not None and e['k'] in ('cast', 'ctor') and (e.get('e') or len(e.get('a') or []) == 1):
        e = e.get('e') or e['a'][0]
    if e is not None and e['k'] == 'bool':
        return bool(e['v'])
    return None


def walk(e):
    """all expression and statement nodes below"""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(x)


def overlap(a, b):
    """can an access to a touch the storage of b?"""
    if len(a) > len(b):
        a, b = b, a
    return b[:len(a)] == a and '*' not in b[len(a):]
