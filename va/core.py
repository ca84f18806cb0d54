"""Decides the statements of a reference model: evaluates a driver function to value graphs and compares them."""
import multiprocessing, os, signal, sys, time, traceback
from . import terms as T, rand
from .prog import Program, REPO, rel
from .vals import AV, FN, GV, IT, LV, MV, NOP, PV, SV, St, Undecided, V, KI
from .builtin import isptr, to_term


class Item:
    """one compared pair of values"""

    def __init__(self, name, a, b, free):
        self.name, self.a, self.b, self.free = name, a, b, free


def pairs(ev, name, a, b, free=(), out=None, depth=0):
    """flattens two structured values into pairs of terms; element indices become free variables"""
    out = [] if out is None else out
    if isinstance(a, (LV, GV)):
        a = ev.read(a)
    if isinstance(b, (LV, GV)):
        b = ev.read(b)
    if isinstance(a, T.T) and isinstance(b, T.T):
        out.append(Item(name, a, b, free))
    elif isinstance(a, SV) and isinstance(b, SV):
        for k in b.f:
            if k not in a.f:
                raise Undecided('%s has no part %s' % (name, k))
            pairs(ev, '%s.%s' % (name, k), a.f[k], b.f[k], free, out, depth)
    elif isinstance(a, MV) and isinstance(b, MV):
        if (a.r, a.c) != (b.r, b.c):
            raise Undecided('%s: matrix sizes' % name)
        for i, (x, y) in enumerate(zip(a.e, b.e)):
            out.append(Item('%s(%d,%d)' % (name, i // a.c, i % a.c), x, y, free))
    elif isinstance(a, AV) and isinstance(b, AV):
        out.append(Item(name + ' size', a.n, b.n, free))
        if a.k is not b.k:
            raise Undecided('%s: element types' % name)
        # elements of an array beyond its size do not matter
        gate = T.lt(T.atom_num(a.k), b.n) if a.et != 'map' else T.TT
        sub = []
        fr = free + (((a.k, b.n),) if a.et != 'map' else ())
        pairs(ev, name + '[i]', a.e, b.e, fr, sub, depth)
        for it in sub:
            if gate is not T.TT:
                it.a = restrict_by(gate, it.a)
                it.b = restrict_by(gate, it.b)
            out.append(it)
    elif isinstance(a, NOP) or isinstance(b, NOP):
        pass
    else:
        ta, tb = to_term(ev, a), to_term(ev, b)
        out.append(Item(name, ta, tb, free))
    return out


def restrict_by(c, t):
    """t where c holds; a fixed value elsewhere"""
    if t.k in ('num', 'ite', 'tt', 'ff', 'at', 'str', 'tup'):
        z = T.ZERO if any(l.k == 'num' for l in T._leaves(t)) else T.FF if all(l.k in ('tt', 'ff') for l in T._leaves(t)) else T.NULL
        return T.ite(c, t, z)
    return t


def valuation(w):
    i, ra, rb, log, m = w
    ins = []
    for t, (key, v) in list(log.items())[:14]:
        try:
            ins.append('%s=%s' % (brief(t), fmt(v)))
        except Exception:
            pass
    return {'repo': fmt(ra), 'reference': fmt(rb), 'inputs': ins}


def fmt(v):
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, (int, float)) or hasattr(v, 'numerator'):
        try:
            return '%.6g' % float(v)
        except OverflowError:
            return 'huge'
    if isinstance(v, tuple):
        return '(' + ', '.join(fmt(x) for x in v[:6]) + ')'
    return str(v)


def brief(t):
    s = T.show(t)
    return s if len(s) < 70 else s[:67] + '...'


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(x.kids)
    return seen


def locate(ev, a, b):
    """source lines whose values occur in the repository's value but not in the reference's"""
    sa, sb = subterms(a), subterms(b)
    c = [(t.size, t.uid, ev.prov[t]) for t in sa - sb if t in ev.prov and t.size > 1]
    if not c:
        c = [(t.size, t.uid, ev.prov[t]) for t in sa - sb if t in ev.prov]
    if not c:
        c = [(t.size, t.uid, ev.prov[t]) for t in [a] if t in ev.prov]
    c.sort()
    out = []
    for _, _, l in c:
        l = rel(l)
        l = ':'.join(l.split(':')[:2])
        if l not in out:
            out.append(l)
    if not out:
        out = ['%s (%s)' % (rel(l), k.split('(')[0]) for k, l in ev.visited.items()][-4:]
    return out[:6]


def run_driver(prog, f, opts, seed, q):
    t0 = time.time()
    res = {'driver': f['q'], 'items': [], 'visited': {}, 'error': None}
    ev = None
    try:
        from .eval import Ev, Frame
        T.NAN_MODE[0] = f['name'].endswith('_nan')
        ev = Ev(prog, opaque=opts.get('opaque', ()), pure=opts.get('pure', ()), constargs=opts.get('constargs', ()), replace=opts.get('replace'))
        ev.st = St()
        ev.fr = Frame({'f': 'top', 'ret': '?'})
        vals = []
        for p in f['params']:
            v = ev.symbolic(p['t'], p['name'])
            vals.append(ev.temp(v) if p['ref'] else v)
        # parameters stay alive for the comparison
        try:
            ev.inline(f, None, vals)
        except Undecided:
            if not ev.nothrow or not ev.pend:
                raise
        for name, loc in ev.nothrow:
            c = T.FF
            for g, s, v in ev.pend:
                c = T.b_or(c, g)
            ev.outs.append((name, T.b_not(c), T.TT, ev.assumed, loc, ev.st.copy()))
        again = []
        for name, a, b, g, loc, st in ev.outs:
            keep, ev.st = ev.st, st
            try:
                for it in pairs(ev, name, a, b):
                    r = decide(ev, it, g, loc, seed, opts, 8)
                    res['items'].append(r)
                    if r['status'] == 'undecided' and r.pop('more', False):
                        again.append((len(res['items']) - 1, it, g, loc, st))
            except Undecided as e:
                res['items'].append({'name': name, 'status': 'undecided', 'why': str(e), 'loc': loc})
            ev.st = keep
        # more effort for what was neither proved nor refuted, unless the answer is known anyway
        if not any(i['status'] == 'differs' for i in res['items']):
            for n, it, g, loc, st in again:
                if time.time() - t0 > opts.get('effort', 150):
                    break
                ev.st = st
                r = decide(ev, it, g, loc, seed + 1000, opts, opts.get('secs', 40))
                r.pop('more', None)
                if r['status'] != 'undecided':
                    res['items'][n] = r
                    if r['status'] == 'differs':
                        break
        if not ev.outs:
            res['error'] = 'nothing compared'
    except Undecided as e:
        res['error'] = str(e)
    except T.Blowup as e:
        res['error'] = 'too large: %s at %s' % (e, ev.loc if ev else '?')
    except RecursionError:
        res['error'] = 'recursion depth at %s' % (ev.loc if ev else '?')
    except Timeout:
        res['error'] = 'time limit at %s' % (rel(ev.loc) if ev else '?')
    except Exception as e:
        res['error'] = 'internal: %s: %s at %s' % (type(e).__name__, e, rel(ev.loc) if ev else '?')
        res['trace'] = traceback.format_exc()[-3000:]
    if ev is not None:
        res['visited'] = {k: rel(v) for k, v in ev.visited.items()}
        res['loops'] = ev.loops
    res['terms'] = len(T._tab)
    res['wall'] = round(time.time() - t0, 2)
    q.put(res)


class Timeout(Exception):
    pass


COMPUTES = ('std::', 'Eigen::', 'angles::', 'tf2::', '__gnu', 'boost::')


def foreign(ev, a, b):
    """library functions that the repository's value depends on, that are not modelled, and that the reference does not call:
    what they return could be anything, also the right value"""
    def names(t):
        return {x.a[1] for x in subterms(t) if isinstance(x.a, tuple) and x.a and isinstance(x.a[0], str) and x.a[0] == 'call'}
    return sorted(n for n in names(a) - names(b) if any('::' not in q or q.startswith(COMPUTES) for q in ev.callq.get(n, ())))


def decide(ev, it, g, loc, seed, opts, secs):
    a, b = ev.known(it.a), ev.known(it.b)
    r = {'name': it.name, 'loc': rel(loc)}
    if a is b:
        return dict(r, status='holds', how='identical')
    if g is T.FF:
        return dict(r, status='undecided', why='assumption never holds')
    if g is not T.TT:
        a, b = restrict_by(g, a), restrict_by(g, b)
        if a is b:
            return dict(r, status='holds', how='identical under the assumption')
    if a.k == 'num' and b.k == 'num' and T.is_zero(T.psub(a, b)):
        return dict(r, status='holds', how='rational identity')
    if a.k == 'ite' or b.k == 'ite':
        # compare case by case
        try:
            d = T.lift(lambda x, y: T.TT if x is y or (x.k == 'num' and y.k == 'num' and T.is_zero(T.psub(x, y))) else T.FF, a, b)
            if d is T.TT:
                return dict(r, status='holds', how='equal in every case')
        except T.Blowup:
            pass
    wit, used, why = rand.separate(a, b, g, seed, free=it.free, tries=opts.get('tries', 1500), secs=secs)
    if len(wit) >= 2:
        odd = foreign(ev, a, b)
        if odd:
            return dict(r, status='undecided', why='the meaning of %s is not modelled' % ', '.join(odd), at=locate(ev, a, b))
        return dict(r, status='differs', at=locate(ev, a, b), witness=valuation(wit[0]), repo_term=T.show(a)[:600], ref_term=T.show(b)[:600])
    return dict(r, status='undecided', more=True, why='normal forms differ, not separated by %d valuations%s' % (used, '; ' + why if why else ''),
                repo_term=T.show(a)[:600], ref_term=T.show(b)[:600], at=locate(ev, a, b))


def run_spec(specfile, prefix, opts=None, seed=1, limit=240, prog=None, jobs=8):
    """evaluates all drivers of namespace spec whose name starts with the prefix, each in its own process"""
    opts = opts or {}
    prog = prog or Program([specfile])
    fs = [f for f in prog.funcs.values() if f['q'].startswith('spec::' + prefix) and f.get('body') and not f['name'].endswith('_')]
    fs.sort(key=lambda f: f['l'])
    ctx = multiprocessing.get_context('fork')
    running, out, todo = [], [], list(fs)
    while todo or running:
        while todo and len(running) < jobs:
            f = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=child, args=(prog, f, opts, seed, q, opts.get('limit', limit)))
            p.start()
            running.append((p, q, f, time.time()))
        time.sleep(0.02)
        for x in list(running):
            p, q, f, t0 = x
            if not q.empty():
                out.append(q.get())
                p.join()
                running.remove(x)
            elif not p.is_alive():
                if not q.empty():
                    continue
                out.append({'driver': f['q'], 'items': [], 'visited': {}, 'error': 'analysis process ended', 'wall': time.time() - t0})
                running.remove(x)
            elif time.time() - t0 > opts.get('limit', limit) + 20:
                p.kill()
                p.join()
                out.append({'driver': f['q'], 'items': [], 'visited': {}, 'error': 'time limit', 'wall': time.time() - t0})
                running.remove(x)
    order = {f['q']: i for i, f in enumerate(fs)}
    out.sort(key=lambda r: order[r['driver']])
    return prog, out


def child(prog, f, opts, seed, q, limit):
    import threading, resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(limit))
    run_driver(prog, f, opts, seed, q)


if __name__ == '__main__':
    import json
    prog, res = run_spec(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '')
    for e in prog.errors:
        print('ERR', e[0], e[1][:1500])
    for r in res:
        print('==', r['driver'], r['wall'], 's', r['error'] or '')
        if r.get('trace'):
            print(r['trace'])
        for i in r['items']:
            if i['status'] == 'holds':
                print('   ok  ', i['name'])
            else:
                print('   ', i['status'].upper(), i['name'], i.get('why', ''), i.get('at', ''))
                print('        repo', i.get('repo_term', '')[:500])
                print('        ref ', i.get('ref_term', '')[:500])
                if 'witness' in i:
                    print('        ', i['witness'])
