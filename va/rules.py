"""Structural rules: what the effect and lock analysis (effects.py) finds in the node, and queries over the type-checked
program and the files that go with it. Every rule returns (items, visited): one item per obligation."""
import ast, os, re
import xml.etree.ElementTree as ET
from . import effects as E
from .prog import REPO, rel, split_targs, strip_cv

LOADED = ('G',)


def name_of(r):
    return '/'.join(r[1:]) if r[0] == 'M' else '/'.join(r)


def item(name, ok, at='', why=''):
    i = {'name': name, 'status': 'holds' if ok else 'differs', 'loc': at}
    if not ok:
        i['at'] = [rel(at)] if at else []
        i['why'] = why
    return i


# ---------------------------------------------------------------- the threads of the node
class Node:
    """one walk per thread of the class that starts threads"""

    def __init__(self, prog):
        self.prog = prog
        self.cls = self.find_class()
        rec = prog.records.get(self.cls)
        self.fields = {f['name']: f for f in (rec or {}).get('fields', [])}
        self.order = [f['name'] for f in (rec or {}).get('fields', [])]
        self.methods = [f for f in prog.funcs.values() if f.get('cls') == self.cls and f.get('body') is not None]
        self.ctors = [f for f in self.methods if f.get('ctor') and not f['name'].startswith('~') and prog.in_repo(f) and f['params'] and
                      f['body'].get('s')]
        self.dtors = [f for f in self.methods if f.get('dtor')]
        E.Walk.lams = {}
        self.walks = []
        self.thread_roots, self.spin_roots = {}, {}
        self.flags = set()
        self.pubs = []
        self.ctor_walks = []
        self.reentrant = None
        self.discover()
        self.run()

    def find_class(self):
        out = []
        for f in self.prog.repo_funcs():
            if not f.get('cls') or f.get('body') is None:
                continue
            for x in E.walk(f['body']):
                if starts_thread(x):
                    out.append(f['cls'])
                    break
        c = [x for x in out if x in self.prog.records]
        if 'ndt_2d::Mapper' in self.prog.records:
            return 'ndt_2d::Mapper'
        return c[0] if c else 'ndt_2d::Mapper'

    def discover(self):
        """the functions that run in threads of their own, and those called by the executor"""
        for f in self.prog.repo_funcs():
            if f.get('body') is None:
                continue
            for x in list(E.walk(f['body'])) + [n for i in f.get('inits') or [] for n in E.walk(i.get('e') or {})]:
                if starts_thread(x):
                    for r in targets(x):
                        self.thread_roots.setdefault(r, x['l'])
                elif x['k'] in ('call', 'mcall') and (x.get('name') or '').startswith(('create_subscription', 'create_service', 'create_wall_timer', 'create_timer')):
                    for r in targets(x):
                        self.spin_roots.setdefault(r, x['l'])
                if x['k'] in ('call', 'mcall') and x.get('name') == 'create_callback_group' or \
                        x['k'] in ('ctor', 'call') and 'MultiThreadedExecutor' in (x.get('q') or '') + str(x.get('targs') or ''):
                    self.reentrant = x['l']

    def fn(self, r):
        return self.prog.funcs.get(r[1]) if r[0] == '#fn' else E.Walk.lams.get(r[1])

    def walk(self, thread, r, hooks=None):
        h = dict(hooks or {})
        w = E.Walk(self.prog, self.cls, thread, h)
        w.rootname = short(r[1])
        if r[0] == '#fn':
            f = self.prog.funcs.get(r[1])
            if f is None or f.get('body') is None:
                return None
            w.enter(f)
        else:
            e = r[2] if len(r) > 2 else None
            if e is None:
                return None
            w.enter({'f': r[1], 'q': r[1], 'params': e['params'], 'body': e['body'], 'ret': '?', 'l': e['l']})
        return w

    def run(self):
        atom = {('M', n) for n, f in self.fields.items() if E.tbase(f['t']) == 'std::atomic'}
        self.atomics = atom
        flags = {('M', n) for n, f in self.fields.items() if E.strip_cv(f['t']) in ('bool', 'std::atomic<bool>')}
        # the announcement flag: a flag that a thread of the node takes back before it publishes
        pubs = {}
        for r in self.thread_roots:
            w = self.walk('scout', r)
            if w is None:
                continue
            taken = {a.region for a in w.acc.values() if a.rw == 'w' and a.val is False and a.region in flags}
            p = published(self.prog, w)
            if p:
                pubs[r] = p
                self.flags |= taken
        watch = (lambda g: lambda q: is_graph_change(q, g))(self.graph_field())
        base = {'watch': (watch,), 'flag': self.flags}
        for r, l in sorted(self.thread_roots.items(), key=str):
            h = dict(base, rounds=True)
            if r in pubs:
                names = sorted(pubs[r])
                h['pend_all'] = (lambda names: lambda loc: frozenset(('taken', n, loc) for n in names))(names)
            else:
                h['pend_all'] = lambda loc: frozenset()
            w = self.walk('thread ' + short(r[1]), r, h)
            if w:
                w.pubs = pubs.get(r)
                self.walks.append(w)
        for r, l in sorted(self.spin_roots.items(), key=str):
            h = dict(base, pend_all=lambda loc: frozenset())
            w = self.walk('spin', r, h)
            if w:
                w.pubs = None
                self.walks.append(w)
        for f in self.ctors + self.dtors:
            w = E.Walk(self.prog, self.cls, 'spin', {'phase': 'dtor' if f.get('dtor') else 'ctor', 'pend_all': lambda loc: frozenset()})
            w.rootname = short(f['f'])
            st = E.State()
            w.threadof = {}
            if f.get('dtor') and self.ctor_walks:
                w.threadof = self.ctor_walks[0].threadof
                w.alias = dict(self.ctor_walks[0].alias)
            w.final = w.enter(f, st)
            w.fdecl = f
            self.ctor_walks.append(w)

    def graph_field(self):
        out = set()
        for n, f in self.fields.items():
            t = f['t']
            if E.tbase(t) in E.SMART and 'ndt_2d::Graph' in t:
                out.add(n)
        return out

    def visited(self):
        v = {}
        for w in self.walks + self.ctor_walks:
            v.update({k: rel(l) for k, l in w.visited.items()})
        return v


def is_graph_change(r, graph):
    if len(r) < 2 or r[0] != 'M' or r[1] not in graph:
        return False
    if len(r) == 2:
        return True
    t = r[2:]
    if t[:2] == ('*', 'scans'):
        return len(t) <= 3 or t[3:4] == ('*',) and (len(t) == 4 or t[4] in ('pose_', 'points_'))
    return t[:2] == ('*', 'constraints') and len(t) <= 3 or t == ('*',)


def short(f):
    f = f.split('(')[0]
    return f.split('::')[-1] if '::' in f else rel(f)


def starts_thread(x):
    if x['k'] == 'ctor' and x.get('q') == 'std::thread' and not x.get('move') and not x.get('copy'):
        return bool(x.get('a'))
    if x['k'] == 'call' and x.get('q') in ('std::make_unique', 'std::make_shared') and (x.get('targs') or [''])[0].strip() == 'std::thread':
        return bool(x.get('a'))
    if x['k'] == 'call' and x.get('q') == 'std::async':
        return True
    if x['k'] == 'mcall' and x.get('name') in ('emplace_back', 'emplace', 'push_back') and 'std::thread' in (x.get('ot') or '') and x.get('a'):
        return E.tbase(x['a'][0].get('t')) != 'std::thread'
    return False


def targets(x):
    """functions handed over in a call"""
    out = []
    lam = [n for n in E.walk({'k': '', 'a': x.get('a')}) if n['k'] == 'lambda']
    inner = set()
    for n in lam:
        for m in E.walk(n['body']):
            inner.add(id(m))
    for n in E.walk({'k': '', 'a': x.get('a')}):
        if id(n) in inner:
            continue
        if n['k'] == 'lambda':
            lid = n.get('f', n['l'])
            E.Walk.lams[lid] = n
            out.append(Lam(('#lam', lid, n)))
        elif n['k'] == 'un' and n['op'] == '&' and n['e']['k'] in ('ref', 'member') and n['e'].get('f'):
            out.append(('#fn', n['e']['f']))
        elif n['k'] == 'ref' and n.get('dk') == 'func' and not (n.get('q') or '').startswith('std::'):
            out.append(('#fn', n['f']))
    return list(dict.fromkeys(out))


class Lam(tuple):
    def __hash__(self):
        return hash(self[:2])

    def __eq__(self, o):
        return tuple(self[:2]) == tuple(o[:2])


def published(prog, w):
    """names of the publishers used during the walk"""
    out = set()
    fs = [prog.funcs[f] for f in w.visited if f in prog.funcs]
    for f in fs:
        for x in E.walk(f['body'] or {}):
            if x['k'] == 'mcall' and x.get('name') == 'publish':
                for y in E.walk(x.get('o') or {}):
                    if y['k'] == 'member' and y.get('isf'):
                        out.add(y['name'])
    return out


_nodes = {}


def node(prog):
    n = _nodes.get(id(prog))
    if n is None:
        n = _nodes[id(prog)] = Node(prog)
    return n


# ---------------------------------------------------------------- C25
def concurrent(n, a, b):
    if a.thread == b.thread and not (a.thread == 'spin' and n.reentrant and a.phase == '' and b.phase == ''):
        return False
    for x, y in ((a, b), (b, a)):
        if x.phase in ('ctor', 'dtor'):
            roots = {short(r[1]): r for r in n.thread_roots}
            t = y.thread.replace('thread ', '')
            r = roots.get(t)
            if r is None:
                return False
            if x.phase == 'ctor' and not any(s[:2] == r[:2] for s in x.started):
                return False
            if x.phase == 'dtor' and any(s[:2] == r[:2] for s in x.joined):
                return False
    return True


def races(n, phases):
    accs = [a for w in n.walks + (n.ctor_walks if phases else []) for a in w.acc.values() if a.region[0] in ('M', 'G')]
    groups = {}
    for a in accs:
        groups.setdefault(a.region[:2], []).append(a)
    out, seen = [], {}
    for g, xs in sorted(groups.items()):
        ths = sorted({a.thread for a in xs if not a.phase})
        if len({a.thread for a in xs}) < 2 and not n.reentrant:
            continue
        atomic = g in n.atomics
        ws = [a for a in xs if a.rw == 'w']
        for w in ws:
            for o in xs:
                if bool(w.phase or o.phase) != phases:
                    continue
                if not E.overlap(w.region, o.region) or not concurrent(n, w, o):
                    continue
                if w.must & o.must or (atomic and len(w.region) == 2) or (w.atomic and o.atomic):
                    continue
                k = (w.region, o.region) if len(w.region) < len(o.region) else (o.region, w.region)
                if k not in seen:
                    seen[k] = (w, o)
        out.append((g, ths, len(ws)))
    return out, seen


def c25(prog, tier):
    """A lockset analysis: for every piece of storage reachable from the node or from globals that more than one thread touches, every
    write and every concurrent access hold a common mutex or the storage is atomic. The threads are found in the source (functions handed
    to std::thread, callbacks handed to subscriptions and services); held mutexes, aliases through smart pointers, references, iterators
    and containers, and objects still private to one thread are tracked through all calls."""
    n = node(prog)
    groups, bad = races(n, False)
    items = []
    byg = {}
    for (a, b), (w, o) in bad.items():
        byg.setdefault(w.region[:2], []).append((w, o))
    for g, ths, nw in groups:
        if g in byg:
            for w, o in byg[g][:3]:
                items.append(item('%s is not written while others use it' % name_of(w.region), False, w.loc,
                                  'written by %s in %s (%s) holding {%s}; %s by %s in %s (%s) holding {%s}' % (
                                      w.thread, short(w.fn), rel(w.loc), locks(w.must), 'written' if o.rw == 'w' else 'read', o.thread, short(o.fn),
                                      rel(o.loc), locks(o.must))))
        else:
            items.append(item('%s: %d writes, threads %s' % (name_of(g), nw, ', '.join(ths)), True))
    return items, n.visited()


def locks(ms):
    return ', '.join(sorted(name_of(m) for m in ms))


# ---------------------------------------------------------------- C27
def c27(prog, tier):
    """Lock typestate over all paths of all threads: no mutex is acquired by a thread that may hold it, the order in which mutexes are
    acquired while others are held has no cycle over all threads, no thread sleeps, publishes or waits for a thread while it holds the graph
    or pose lock, and no lock outlives the code that took it (locks without a guard are checked at every call that may throw)."""
    n = node(prog)
    items = []
    order = {}
    quiet = quiet_locks(n)
    for w in n.walks + n.ctor_walks:
        who = '%s %s' % (w.thread, w.rootname) if w.thread == 'spin' else w.thread
        again = {m: l for (m, must), l in w.again.items()}
        items.append(item('%s: no mutex is taken twice' % who, not again, next(iter(again.values()), ''),
                          'acquires %s, which it may already hold' % ', '.join(name_of(m) for m in again)))
        bad = [(what, ms, l, f) for what, ms, l, f in w.under if what == 'waits for a thread' or ms & quiet]
        items.append(item('%s: does not sleep, publish or wait under a lock' % who, not bad, bad[0][2] if bad else '',
                          '%s in %s while holding %s' % (bad[0][0], short(bad[0][3]), locks(bad[0][1])) if bad else ''))
        raw = w.rawexit
        items.append(item('%s: every lock is released on every way out' % who, not raw, next(iter(raw.values()), ''),
                          '%s is held without a guard where control may leave' % ', '.join(name_of(m) for m in raw)))
        for (a, b), l in w.order.items():
            order.setdefault(a, {}).setdefault(b, (l, who))
    # cycles
    cyc = None
    for a in order:
        st, seen = [(a, [a])], set()
        while st and not cyc:
            x, path = st.pop()
            for y in order.get(x, {}):
                if y == a and x != a:
                    cyc = path + [y]
                elif y not in seen:
                    seen.add(y)
                    st.append((y, path + [y]))
    if cyc:
        l, who = order[cyc[0]][cyc[1]]
        items.append(item('one order of locks', False, l, 'locks are taken in a cycle: ' + '; '.join(
            '%s then %s by %s at %s' % (name_of(x), name_of(y), order[x][y][1], rel(order[x][y][0])) for x, y in zip(cyc, cyc[1:]))))
    for a in sorted(order):
        for b in sorted(order[a]):
            if not cyc:
                items.append(item('%s before %s' % (name_of(a), name_of(b)), True))
    return items, n.visited()


def quiet_locks(n):
    """the graph and the pose lock: mutexes under which the publishing threads read what they publish"""
    named = {('M', x) for x in ('graph_mutex_', 'prev_pose_mutex_') if x in n.fields}
    if len(named) == 2:
        return named
    return named | {m for w in n.walks if w.pubs for a in w.acc.values() for m in a.must}


# ---------------------------------------------------------------- C26: the two poses belong together
def c26(prog, tier):
    """The two poses that the transform is computed from are one unit: the publishing thread reads both within a single critical section,
    and every critical section of another thread that writes one of them writes the other."""
    n = node(prog)
    pair = [('M', x) for x in ('prev_odom_pose_', 'prev_robot_pose_') if x in n.fields]
    items = []
    if len(pair) != 2:
        items.append(item('the poses are kept in one object', True))
        return items, n.visited()
    for w in n.walks:
        r = [[a for a in w.acc.values() if a.rw == 'r' and a.region[:2] == p] for p in pair]
        if w.thread != 'spin' and r[0] and r[1]:
            s = [frozenset(x for a in q for x in a.sects) for q in r]
            allin = all(a.sects for q in r for a in q)
            common = None
            for a in r[0] + r[1]:
                common = a.sects if common is None else common & a.sects
            ok = allin and bool(common)
            b = next((a for a in r[0] + r[1] if not a.sects), (r[0] + r[1])[0])
            items.append(item('%s reads both poses in one critical section' % w.thread, ok, b.loc,
                              'the poses are read in different critical sections, another thread may write in between'))
        ws = [[a for a in w.acc.values() if a.rw == 'w' and a.region[:2] == p] for p in pair]
        if ws[0] or ws[1]:
            ss = [frozenset(x for a in q for x in a.sects) for q in ws]
            odd = ss[0] ^ ss[1]
            loc = next((a.loc for q in ws for a in q if a.sects & odd), '')
            items.append(item('%s writes both poses in one critical section' % w.rootname, not odd, loc,
                              'one of the poses is written in a critical section that does not write the other'))
    return items, n.visited()


# ---------------------------------------------------------------- C29: order of change and announcement
def c29(prog, tier):
    """Every change of the graph is followed, on every path to the end of the callback or of the round of the thread, by setting the flag that
    announces it (or the flag is set earlier in the same critical section); after the publishing thread takes the flag back, it reads the
    graph and publishes each of its messages before the round ends."""
    n = node(prog)
    items = []
    if not n.flags:
        return [dict(item('announcement flag', True), status='undecided', why='no flag that a thread takes back before publishing')], n.visited()
    for w in n.walks:
        d = sorted({(name_of(x[1][0]), x[1][1]) for x in w.leftovers if x[0] == 'dirty'})
        chg = [a for a in w.acc.values() if a.rw == 'w' and any(p(a.region) for p in w.watch)]
        if chg:
            items.append(item('%s announces its %d changes of the graph' % (w.rootname, len(chg)), not d, d[0][1] if d else '',
                              'the change of %s is not announced on some path' % d[0][0] if d else ''))
        if w.pubs:
            p = sorted({x[1] for x in w.leftovers if x[0] == 'pend'})
            rel_p = [x for x in p if x[1] in ('map_pub_', 'graph_pub_') or True]
            items.append(item('%s publishes what was announced' % w.rootname, not rel_p, rel_p[0][2] if rel_p else '',
                              'after the announcement is taken, %s may be left without a message from the graph as it is then' % ', '.join(x[1] for x in rel_p)))
    return items, n.visited()


def c40(prog, tier):
    """Every change of the graph made by an optimization is announced, on every path to the end of the round of the thread."""
    n = node(prog)
    items = []
    for w in n.walks:
        if n.flags and any('::optimize(' in f for f in w.visited):
            d = sorted({(name_of(x[1][0]), x[1][1]) for x in w.leftovers if x[0] == 'dirty' and x[1][2]})
            items.append(item('%s announces what an optimization changes' % w.rootname, not d, d[0][1] if d else '',
                              'the change of %s by an optimization is not announced on some path' % d[0][0] if d else ''))
    return items, n.visited()


# ---------------------------------------------------------------- C32
EVERY_TF = ({'...'}, {'tf2::TransformException'}, {'std::exception'}, {'std::runtime_error'},
            {'tf2::LookupException', 'tf2::ConnectivityException', 'tf2::ExtrapolationException', 'tf2::InvalidArgumentException'})


def c32(prog, tier):
    """Every transform is looked up inside a try block whose handlers catch every exception that a missing transform causes, in the function
    itself or in each function of the call chain that leads there from a callback or thread."""
    n = node(prog)
    items = []
    calls = {}
    for w in n.walks + n.ctor_walks:
        for loc, hs in w.transforms.items():
            calls.setdefault(loc, []).extend((w, h) for h in hs)
    for loc, hs in sorted(calls.items()):
        bad = [(w, h) for w, h in hs if not any(x <= h for x in EVERY_TF)]
        items.append(item('transform %s' % rel(loc), not bad, loc, 'an exception of the lookup leaves %s; caught are only {%s}' % (
            bad[0][0].rootname, ', '.join(sorted(bad[0][1]))) if bad else ''))
    return items, n.visited()


# ---------------------------------------------------------------- C43
def c43(prog, tier):
    """Life cycle of the threads: state that they use is only written before they are started or under a common lock; the destructor has
    waited for each of them on every path, before it writes anything they use; none is detached; each ends soon after rclcpp::ok() turns
    false (every unbounded loop stops then, and sleeps are short); plugin instances are given up before their loader is destroyed."""
    n = node(prog)
    items = []
    groups, bad = races(n, True)
    for ph, what in (('ctor', 'is set up before the threads that use it start'), ('dtor', 'is used by the threads until they have ended')):
        b = [(w, o) for w, o in bad.values() if ph in (w.phase, o.phase)]
        for w, o in b[:3]:
            x, y = (w, o) if w.phase == ph else (o, w)
            items.append(item('%s %s' % (name_of(x.region), what), False, x.loc, '%s in the %s at %s, but %s by %s (%s)' % (
                'written' if x.rw == 'w' else 'read', 'constructor' if ph == 'ctor' else 'destructor', rel(x.loc),
                'written' if y.rw == 'w' else 'read', y.thread, rel(y.loc))))
        if not b:
            items.append(item('all state %s' % what, True))
    for w in n.walks + n.ctor_walks:
        for ths, l in w.detached:
            items.append(item('threads are waited for', False, l, 'a thread is detached'))
    dt = [w for w in n.ctor_walks if w.fdecl.get('dtor')]
    for r, l in sorted(n.thread_roots.items(), key=str):
        ok = False
        at = l
        if dt and n.prog.in_repo(dt[0].fdecl):
            ok = any(s[:2] == r[:2] for s in dt[0].final.joined)
            at = dt[0].fdecl['l']
        if not ok and any('jthread' in f['t'] for f in n.fields.values()):
            ok = True
        items.append(item('%s has ended when the destructor returns' % short(r[1]), ok, at, 'the destructor does not wait for the thread on every path'))
        f = prog.funcs.get(r[1]) if r[0] == '#fn' else {'body': r[2]['body'], 'l': r[2]['l']}
        if f is None:
            continue
        lp = unbounded(prog, f['body'])
        for l2, good, why in lp:
            items.append(item('%s: the loop at %s ends with the shutdown' % (short(r[1]), rel(l2)), good, l2, why))
        for x in reachable(prog, f['body']):
            if x['k'] == 'call' and (x.get('q') or '') == 'std::this_thread::sleep_for':
                s = seconds(x['a'][0])
                if s is not None:
                    items.append(item('%s: sleeps %g s at a time' % (short(r[1]), s), s <= 10, x['l'], 'sleeps for %g s, shutdown waits for that' % s))
    # plugins
    loaders = [f for f, d in n.fields.items() if 'pluginlib::ClassLoader' in d['t']]
    for ld in loaders:
        base = split_targs(strip_cv(n.fields[ld]['t']))[1]
        if not base:
            continue
        for f, d in n.fields.items():
            if E.tbase(d['t']) in E.SMART and base[0] == split_targs(strip_cv(d['t']))[1][0]:
                before = n.order.index(ld) < n.order.index(f)
                freed = bool(dt) and ('M', f) in dt[0].final.rel
                items.append(item('%s is given up before its loader' % f, before or freed, d['l'], '%s outlives %s, which holds its code' % (f, ld)))
    return items, n.visited()


def reachable(prog, body):
    seen, todo = set(), [body]
    while todo:
        b = todo.pop()
        for x in E.walk(b):
            yield x
            f = prog.funcs.get(x.get('f')) if x['k'] in ('call', 'mcall', 'opcall') else None
            if f and prog.in_repo(f) and f['f'] not in seen and f.get('body'):
                seen.add(f['f'])
                todo.append(f['body'])


def seconds(e):
    """length of a duration written with constants"""
    f = 1.0
    unit = {'nano': 1e-9, 'micro': 1e-6, 'milli': 1e-3}
    t = e.get('t') or ''
    m = re.search(r'ratio<(\d+)[A-Za-z]*, *(\d+)', t)
    sc = int(m.group(1)) / int(m.group(2)) if m else 1.0
    for x in E.walk(e):
        if x['k'] in ('int', 'float') and x is not e:
            pass
    # the innermost duration that is built from a number
    best = None
    for x in E.walk(e):
        if x['k'] == 'ctor' and 'std::chrono::duration' in (x.get('q') or '') and len(x.get('a') or []) >= 1:
            a = x['a'][0]
            while a['k'] == 'cast':
                a = a['e']
            v = None
            if a['k'] in ('int',):
                v = float(a['v'])
            elif a['k'] == 'float':
                v = float(a['v'])
            if v is not None:
                m = re.search(r'ratio<(\d+)[A-Za-z]*, *(\d+)', x.get('t') or '')
                best = v * (int(m.group(1)) / int(m.group(2)) if m else 1.0)
    return best


def unbounded(prog, body):
    """loops of a thread that do not obviously end: (where, ends with rclcpp::ok() false, why)"""
    out = []
    for x in E.walk(body):
        if x['k'] not in ('while', 'for', 'do'):
            continue
        c = x.get('c')
        sleeps = any(y['k'] in ('call', 'mcall') and 'sleep' in (y.get('name') or y.get('q') or '') for y in reachable(prog, x.get('body')))
        always = c is None or truth(prog, c, {}) is True
        if not always and not sleeps:
            continue
        if c is not None and truth(prog, c, {'ok': False}, x.get('body')) is False:
            out.append((x['l'], True, ''))
            continue
        # an exit in the body
        ex = False
        for y in E.walk(x.get('body')):
            if y['k'] == 'if' and y.get('c') is not None:
                t = truth(prog, y['c'], {'ok': False}, x.get('body'))
                br = y.get('a') if t is True else y.get('b') if t is False else None
                if br and any(z['k'] in ('break', 'return') for z in E.walk(br)):
                    ex = True
        out.append((x['l'], ex, 'the loop does not end when rclcpp::ok() turns false'))
    return out


def truth(prog, c, given, body=None, depth=0):
    """three valued truth of a condition; given['ok']: value of rclcpp::ok()"""
    if c is None or depth > 8:
        return None
    k = c['k']
    if k == 'bool':
        return c['v']
    if k == 'int':
        return c['v'] not in ('0', 0)
    if k in ('cast',):
        return truth(prog, c['e'], given, body, depth)
    if k == 'un' and c['op'] == '!':
        v = truth(prog, c['e'], given, body, depth)
        return None if v is None else not v
    if k == 'bin' and c['op'] in ('&&', '||'):
        a, b = truth(prog, c['a'], given, body, depth), truth(prog, c['b'], given, body, depth)
        if c['op'] == '&&':
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    if k in ('bin', 'opcall') and c.get('op') in ('==', '!='):
        x, y = (c['a'], c['b']) if k == 'bin' else c['a'][:2]
        a, b = truth(prog, x, given, body, depth), truth(prog, y, given, body, depth)
        if a is None or b is None:
            return None
        return (a == b) == (c['op'] == '==')
    if k == 'call' and c.get('q') == 'rclcpp::ok':
        return given.get('ok')
    if k in ('call', 'mcall') and c.get('f'):
        f = prog.funcs.get(c['f'])
        if f and prog.in_repo(f) and f.get('body'):
            rs = [y for y in E.walk(f['body']) if y['k'] == 'return']
            vs = {truth(prog, y.get('e'), given, f['body'], depth + 1) for y in rs}
            if len(vs) == 1:
                return vs.pop()
        return None
    if k == 'ref' and c.get('dk') == 'local' and body is not None:
        vs = set()
        for y in E.walk(body):
            if y['k'] == 'assign' and y['a']['k'] == 'ref' and y['a'].get('id') == c['id']:
                vs.add(truth(prog, y['b'], given, body, depth + 1))
            if y['k'] == 'decl':
                for v in y['v']:
                    if v['id'] == c['id'] and v.get('init'):
                        vs.add(truth(prog, v['init'], given, body, depth + 1))
        if len(vs) == 1:
            return vs.pop()
    return None


# ---------------------------------------------------------------- C13
UNSTABLE = {'std::vector', 'std::deque', 'std::basic_string'}


def c13(prog, tier):
    """Ownership of what the optimizer is given: the addresses handed to a problem that outlives the call are those of elements of
    containers that never move them (or of separately allocated objects), and the problem is owned, so that it is released with the solver."""
    items, vis = [], {}
    for q, rec in sorted(prog.records.items()):
        if not any('ceres::Problem' in f['t'] for f in rec['fields']) or not rec['l'].startswith(REPO):
            continue
        fields = {f['name']: f for f in rec['fields']}
        for n, f in fields.items():
            if 'ceres::Problem' not in f['t']:
                continue
            t = strip_cv(f['t'])
            owned = not t.endswith('*')
            if not owned:
                d = [x for x in prog.repo_funcs() if x.get('cls') == q and x.get('dtor') and x.get('body')]
                owned = any(y['k'] == 'delete' and any(z.get('name') == n for z in E.walk(y['e'])) for x in d for y in E.walk(x['body']))
            items.append(item('%s::%s is released with its owner' % (q, n), owned, f['l'], 'nothing releases it'))
        for fn in prog.repo_funcs():
            if fn.get('cls') != q or not fn.get('body'):
                continue
            defs = {}
            for x in E.walk(fn['body']):
                if x['k'] == 'decl':
                    for v in x['v']:
                        defs[v['id']] = v
            for x in E.walk(fn['body']):
                if x['k'] not in ('mcall', 'call') or x.get('name') not in ('AddResidualBlock', 'AddParameterBlock'):
                    continue
                if not any(y['k'] == 'member' and y.get('name') in fields for y in E.walk(x.get('o') or {})):
                    continue        # a problem that does not outlive the call
                vis[fn['f']] = rel(fn['l'])
                for i, a in enumerate(x['a']):
                    if not strip_cv(a.get('t') or '').endswith('double *') and 'vector<double *' not in (a.get('t') or ''):
                        continue
                    bad = unstable(prog, a, defs, fields, 0)
                    items.append(item('%s: argument %d of %s stays where it is' % (short(fn['f']), i, x['name']), not bad, a['l'],
                                      'it points into %s, which moves its elements when it grows' % bad))
    return items, vis


def unstable(prog, e, defs, fields, depth):
    """a container that may move what e points to"""
    if depth > 12 or e is None:
        return None
    for x in path_roots(e):
        if x['k'] == 'member' and x.get('name') in fields:
            t = strip_cv(fields[x['name']]['t'])
            b, a = split_targs(t)
            if b in UNSTABLE and not (a and (strip_cv(a[0]).endswith('*') or E.tbase(a[0]) in E.SMART)):
                return x['name']
        elif x['k'] == 'ref' and x.get('id') in defs:
            v = defs[x['id']]
            b, a = split_targs(strip_cv(v['t']))
            if not v.get('ref') and b in UNSTABLE and not (a and strip_cv(a[0]).endswith('*')):
                return v['name']
            if not v.get('ref') and not E.is_ptr_type(v['t']) and not E.tbase(v['t']).startswith('std::') and depth == 0:
                return 'the local ' + v['name']
            if v.get('init'):
                r = unstable(prog, v['init'], defs, fields, depth + 1)
                if r:
                    return r
    return None


def path_roots(e):
    """the variables and fields at the base of an access path"""
    k = e['k']
    if k in ('ref',):
        return [e]
    if k == 'member':
        out = [e]
        if e.get('b') and e['b']['k'] != 'this':
            out += path_roots(e['b'])
        return out
    if k == 'un':
        return path_roots(e['e'])
    if k in ('cast', 'decay'):
        return path_roots(e['e'])
    if k == 'index':
        return path_roots(e['b'])
    if k == 'opcall':
        return path_roots(e['a'][0])
    if k == 'mcall':
        return path_roots(e['o']) if e.get('o') else []
    if k == 'cond':
        return path_roots(e['a']) + path_roots(e['b'])
    if k == 'ctor':
        return [y for a in e.get('a', []) for y in path_roots(a)]
    if k == 'initlist':
        return [y for a in e.get('a', []) for y in path_roots(a)]
    return []


# ---------------------------------------------------------------- C46
def plain_source(path):
    s = open(path).read()
    return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)


def c46(prog, tier):
    """The matcher plugin: the export macro, the plugin description, the library of the build and the default of the matcher parameter name
    the same class and base; the class overrides every virtual function of the interface; the effect analysis shows that no scoring or
    matching operation writes the matcher's map, its settings or the given scans, points and poses."""
    items, vis = [], {}
    exports = {}
    for b, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                s = plain_source(os.path.join(b, f))
                for m in re.finditer(r'PLUGINLIB_EXPORT_CLASS\s*\(\s*([\w:]+)\s*,\s*([\w:]+)\s*\)', s):
                    exports[m.group(1)] = (m.group(2), 'src/' + f)
    desc = {}
    px = os.path.join(REPO, 'plugins.xml')
    lib = {}
    try:
        root = ET.parse(px).getroot()
        for l in root.iter('library'):
            for c in l.iter('class'):
                desc[c.get('type')] = (c.get('base_class_type'), c.get('name') or c.get('type'))
                lib[c.get('type')] = l.get('path')
    except (ET.ParseError, OSError) as ex:
        items.append(item('plugin description', False, px + ':1', 'plugins.xml cannot be read: %s' % ex))
    for c, (base, f) in sorted(exports.items()):
        items.append(item('%s is described as it is exported' % c, c in desc and desc[c][0] == base, os.path.join(REPO, f) + ':1',
                          'exported with base %s, described with %s' % (base, desc.get(c))))
    for c in sorted(desc):
        items.append(item('%s is exported' % c, c in exports, px + ':1', 'plugins.xml describes a class that no source exports'))
    # library
    cm = re.sub(r'#[^\n]*', '', open(os.path.join(REPO, 'CMakeLists.txt')).read())
    for c, (base, f) in sorted(exports.items()):
        libs = [m.group(1) for m in re.finditer(r'add_library\s*\(\s*(\w+)([^)]*)\)', cm) if f in m.group(2)]
        if c in lib and libs:
            p = os.path.basename(lib[c] or '')
            items.append(item('%s is in the library the description names' % c, p in libs or p.replace('lib', '', 1) in libs, px + ':1',
                              'described in %s, built into %s' % (lib[c], libs)))
    m = re.search(r'pluginlib_export_plugin_description_file\s*\(\s*(\w+)\s+(\S+?)\s*\)', cm)
    items.append(item('the description is installed', bool(m) and os.path.basename(m.group(2)) == 'plugins.xml', os.path.join(REPO, 'CMakeLists.txt') + ':1',
                      'pluginlib_export_plugin_description_file does not name plugins.xml'))
    # default of the parameter and base of the loader
    for f in prog.repo_funcs():
        for x in E.walk(f.get('body') or {}):
            if x['k'] == 'mcall' and x.get('name') == 'declare_parameter' and x.get('a') and lit(x['a'][0]) == 'scan_matcher_type':
                d = lit(x['a'][1]) if len(x['a']) > 1 else None
                items.append(item('the default matcher is a plugin', d in {n for b, n in desc.values()} and d in exports, x['l'], 'no plugin is called %s' % d))
                vis[f['f']] = rel(f['l'])
        for i in f.get('inits') or []:
            e = i.get('e') or {}
            if e.get('k') == 'ctor' and (e.get('q') or '').startswith('pluginlib::ClassLoader'):
                a = [lit(x) for x in e['a']]
                t = split_targs(strip_cv(e.get('t') or ''))[1]
                ok = len(a) >= 2 and a[1] in {b for b, n in desc.values()} and (not t or t[0] == a[1])
                items.append(item('the loader loads the interface that plugins have', ok, e['l'], 'the loader asks for %s' % a[1:2]))
    # interface
    bases = {b for b, f in exports.values()}
    for c, (b, f) in sorted(exports.items()):
        rb, rc = prog.records.get(b), prog.records.get(c)
        if not rb or not rc:
            items.append({'name': c, 'status': 'undecided', 'why': 'class not found'})
            continue
        items.append(item('%s has the base %s' % (c, b), b in [strip_cv(x) for x in rc['bases']], rc['l'], 'it does not derive from %s' % b))
        over = {o for m in rc['methods'] for o in m['overrides']}
        for m in rb['methods']:
            if m['virtual'] and not m['name'].startswith('~'):
                items.append(item('%s overrides %s' % (c, m['name']), m['f'] in over, rc['l'], '%s is not overridden' % m['f']))
        # effects
        for m in rc['methods']:
            fn = prog.funcs.get(m['f'])
            if not m['overrides'] or not fn or not fn.get('body') or m['name'].startswith('~'):
                continue
            bm = [x for x in rb['methods'] if x['f'] in m['overrides']]
            if not bm or not (bm[0]['const'] or m['name'].startswith(('match', 'score'))):
                continue
            E.Walk.lams = {}
            w = E.Walk(prog, c, 'op')
            w.enter(fn)
            vis.update({k: rel(l) for k, l in w.visited.items()})
            const = {p['name'] for p in fn['params'] if p['t'].startswith('const ') and p['ref']}
            bad = []
            for a in w.acc.values():
                if a.rw != 'w':
                    continue
                r = a.region
                if r[0] == 'M' and not is_mutable(prog, r, c):
                    bad.append(a)
                elif r[0] == 'P' and r[1] in const and not is_mutable(prog, r, None) and not lazily(prog, r):
                    bad.append(a)
                elif r[0] == 'G':
                    bad.append(a)
            items.append(item('%s::%s only writes its results' % (short(c), m['name']), not bad, bad[0].loc if bad else '',
                              '%s writes %s' % (short(bad[0].fn), name_of(bad[0].region)) if bad else ''))
    return items, vis


def is_mutable(prog, r, c):
    for x in r[1:]:
        for rec in prog.records.values():
            if any(f['name'] == x and f['mutable'] for f in rec['fields']) and rec['l'].startswith(REPO):
                return True
    return False


def lazily(prog, r):
    return False


def lit(e):
    while e is not None and e['k'] in ('ctor', 'cast') and (e.get('a') or e.get('e')):
        e = e['a'][0] if e['k'] == 'ctor' else e['e']
    return e['v'] if e is not None and e['k'] == 'str' else None


# ---------------------------------------------------------------- C42: definition and scripts
def c42(prog, tier):
    """The service definition gives every action a bit of its own, and every command line script sends exactly the action it is named after
    (with the file name given to it for actions on files)."""
    items = []
    p = os.path.join(REPO, 'srv', 'Configure.srv')
    consts = {}
    for ln in open(p):
        m = re.match(r'\s*\w+\s+([A-Z_]+)\s*=\s*(-?\d+)', ln.split('#')[0])
        if m:
            consts[m.group(1)] = int(m.group(2))
    for a, v in sorted(consts.items()):
        ok = v > 0 and v & (v - 1) == 0 and list(consts.values()).count(v) == 1
        items.append(item('%s has a bit of its own' % a, ok, p + ':1', 'its value is %d' % v))
    names = {'ENABLE_MAPPING', 'DISABLE_MAPPING', 'LOAD_FROM_FILE', 'SAVE_TO_FILE'}
    items.append(item('all actions are defined', names <= set(consts), p + ':1', 'missing: %s' % (names - set(consts))))
    want = {'enable_mapping.py': 'ENABLE_MAPPING', 'disable_mapping.py': 'DISABLE_MAPPING', 'load_map.py': 'LOAD_FROM_FILE', 'save_map.py': 'SAVE_TO_FILE'}
    vis = {}
    for s, act in sorted(want.items()):
        f = os.path.join(REPO, 'scripts', s)
        if not os.path.exists(f):
            items.append(item('scripts/%s exists' % s, False, f + ':1', 'missing'))
            continue
        try:
            t = ast.parse(open(f).read())
        except SyntaxError as ex:
            items.append(item('scripts/%s is a program' % s, False, '%s:%s' % (f, ex.lineno), 'syntax error'))
            continue
        vis['scripts/' + s] = 'scripts/' + s
        used = {n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute) and n.attr in names | set(consts)}
        used |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and n.id in names | set(consts)}
        acts = [n for n in ast.walk(t) if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == 'action' for x in n.targets)]
        kw = [k for n in ast.walk(t) if isinstance(n, ast.Call) for k in n.keywords if k.arg == 'action']
        line = (acts or kw)[0].value.lineno if acts or kw else 1
        num = {consts[act]} == {x.value for n in acts + kw for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, int)}
        items.append(item('scripts/%s sends %s' % (s, act), used == {act} or (not used and num), '%s:%d' % (f, line), 'it uses %s' % sorted(used)))
        if act in ('LOAD_FROM_FILE', 'SAVE_TO_FILE'):
            fn = [n for n in ast.walk(t) if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == 'filename' for x in n.targets)]
            fn += [k for n in ast.walk(t) if isinstance(n, ast.Call) for k in n.keywords if k.arg == 'filename']
            items.append(item('scripts/%s sends the file name' % s, bool(fn), f + ':1', 'request.filename is not set'))
        sent = [n for n in ast.walk(t) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('call', 'call_async')]
        items.append(item('scripts/%s calls the service' % s, bool(sent), f + ':1', 'the request is never sent'))
        cl = [n for n in ast.walk(t) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'create_client']
        nm = [a.value for n in cl for a in n.args if isinstance(a, ast.Constant)]
        nm += [a.value for n in cl for k in n.keywords for a in [k.value] if isinstance(a, ast.Constant)]
        # a name kept in a variable is looked up among the constants of the script
        nm = nm or [n.value.value for n in ast.walk(t) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value == 'configure'] or ['configure']
        items.append(item('scripts/%s calls configure' % s, 'configure' in nm, f + ':1', 'it calls %s' % nm))
    return items, vis


# ---------------------------------------------------------------- C41: documentation
def c41(prog, tier):
    """Every parameter that the documentation describes is declared under that name (the matcher's below the name of the matcher), once."""
    items, vis = [], {}
    doc = open(os.path.join(REPO, 'README.md')).read()
    sect = re.split(r'^## ', doc, flags=re.M)
    names = {}
    for s in sect:
        t = s.split('\n')[0]
        if 'Parameter' in t:
            for m in re.finditer(r'^ \* ``(\w+)``:', s, re.M):
                names[m.group(1)] = t
    decl = {}
    for f in prog.repo_funcs():
        for x in list(E.walk(f.get('body') or {})) + [y for i in f.get('inits') or [] for y in E.walk(i.get('e') or {})]:
            if x['k'] == 'mcall' and x.get('name') == 'declare_parameter' and x.get('a'):
                vis[f['f']] = rel(f['l'])
                s = lit(x['a'][0])
                if s is None:
                    ss = [y['v'] for y in E.walk(x['a'][0]) if y['k'] == 'str']
                    s = ss[-1] if ss else None
                if s is not None:
                    decl.setdefault(s.split('.')[-1], []).append(x['l'])
                else:
                    decl.setdefault(None, []).append(x['l'])
    for n, t in sorted(names.items()):
        ok = n in decl or None in decl
        items.append(item('%s is declared' % n, ok, os.path.join(REPO, 'README.md') + ':1', 'documented in "%s", but no parameter of that name is declared' % t))
    return items, vis
