"""Loads the type-resolved program: runs the extractor over all translation units of /repo/src plus
the reference models of a check, in parallel, with a cache keyed by all file contents."""
import hashlib, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NDT_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
LLVM = '/usr/lib/llvm-18'


class ToolError(Exception):
    pass


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def _files(*dirs):
    out = []
    for d in dirs:
        for b, ds, fs in os.walk(d):
            ds.sort()
            ds[:] = [x for x in ds if x not in ('.git', 'build')]
            out += [os.path.join(b, f) for f in sorted(fs)]
    return out


def build_tool():
    src = os.path.join(VERIF, 'extract', 'extract.cpp')
    exe = os.path.join(CACHE, 'extract-' + _hash([src]))
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        lib = os.path.join(LLVM, 'lib', 'libclang-cpp.so.18.1')
        r = subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
                            lib, '-L' + LLVM + '/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise ToolError('extractor does not build: ' + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def _extract(exe, roots, f, flags, key, base):
    out = os.path.join(CACHE, 'ast-%s-%s.json' % (os.path.basename(f).replace('.', '_'), key))
    if not os.path.exists(out):
        r = subprocess.run([exe, roots, f, '--'] + flags, capture_output=True, text=True)
        if not r.stdout.strip():
            raise ToolError('cannot parse %s: %s' % (f, r.stderr[-1500:]))
        d = json.loads(r.stdout)
        d['stderr'] = r.stderr[-3000:] if r.returncode else ''
        tmp = out + '.%d' % os.getpid()
        with open(tmp, 'w') as o:
            json.dump(d, o)
        os.rename(tmp, out)
    # declarations are numbered per file: keep those of different files apart
    with open(out) as i:
        return json.loads(re.sub(r'(?<!\\)"id": (\d+)', lambda m: '"id": %d' % (base + int(m.group(1))), i.read()))


class Program:
    def __init__(self, specs=(), only=None):
        exe = build_tool()
        gen_src = os.path.join(VERIF, 'lib', 'gen_msgs.py')
        stubs = os.path.join(VERIF, 'stubs')
        gkey = _hash(_files(REPO + '/msg', REPO + '/srv') + [gen_src])
        gen = os.path.join(CACHE, 'gen-' + gkey)
        if not os.path.isdir(gen):
            os.makedirs(CACHE, exist_ok=True)
            tmp = gen + '.%d' % os.getpid()
            subprocess.run([sys.executable, gen_src, REPO, tmp], check=True, capture_output=True)
            try:
                os.rename(tmp, gen)
            except OSError:
                pass
        srcs = [f for f in _files(REPO + '/src') if f.endswith('.cpp')]
        if only:
            srcs = [f for f in srcs if os.path.basename(f) in only]
        specs = [os.path.join(VERIF, 'specs', s) for s in specs]
        hdrs = _files(REPO + '/include', stubs, VERIF + '/specs') + [exe]
        base = _hash([h for h in hdrs if not h.endswith('.cpp') and h != exe]) + os.path.basename(exe)
        roots = ':'.join([REPO + '/src', REPO + '/include', VERIF + '/specs', stubs, gen])
        flags = ['-std=c++17', '-I' + VERIF + '/specs/model', '-I' + stubs, '-I' + gen, '-I' + REPO + '/include', '-I' + REPO + '/src',
                 '-I' + VERIF + '/specs', '-isystem', '/usr/include/eigen3', '-fno-access-control', '-Wno-everything']
        jobs = [(f, hashlib.sha256((base + gkey + roots + f + _hash([f])).encode()).hexdigest()[:24]) for f in specs + srcs]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: _extract(exe, roots, j[1][0], flags, j[1][1], j[0] * 1000000), enumerate(jobs)))
        self.files = [f for f, _ in jobs]
        self.funcs, self.records, self.globals, self.errors = {}, {}, {}, []
        for (f, _), d in zip(jobs, res):
            if d['stderr']:
                self.errors.append((f, d['stderr']))
            for fn in d['funcs']:
                fn['tu'] = f
                old = self.funcs.get(fn['f'])
                if old is None or (f in srcs and fn['l'].startswith(f)):
                    self.funcs[fn['f']] = fn
            for r in d['records']:
                self.records.setdefault(r['q'], r)
            for g in d['globals']:
                self.globals.setdefault(g['q'], g)
        self.by_name = {}
        for fn in self.funcs.values():
            self.by_name.setdefault(fn['q'], []).append(fn)

    def in_repo(self, fn):
        return fn['l'].startswith(REPO + '/')

    def repo_funcs(self):
        return [f for f in self.funcs.values() if self.in_repo(f)]

    def find(self, q):
        return self.by_name.get(q, [])


def rel(loc):
    return loc.replace(REPO + '/', '').replace(VERIF + '/', '')


# ---------------------------------------------------------------- types
def split_targs(t):
    """'a<b, c<d>>' -> ('a', ['b', 'c<d>'])"""
    t = t.strip()
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return t, []
    args, depth, cur = [], 0, ''
    for ch in t[i + 1:-1]:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    args.append(cur.strip())
    return t[:i], args


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
        'char', 'signed char', 'unsigned char', 'size_t'}


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:].strip()
        if t.startswith('volatile '):
            t = t[9:].strip()
        if t.endswith(' const'):
            t = t[:-6].strip()
        if t.endswith('*const'):
            t = t[:-5].strip()
        if t == o:
            return t


_tc = {}


def kind_of(t):
    """('real'|'int'|'bool') | ('ptr', T) | ('vec', T) | ('arr', T, n) | ('mat', r, c) | ('iso',) | ('str',) |
    ('map', K, V) | ('atomic', T) | ('rec', name) ..."""
    r = _tc.get(t)
    if r is None:
        r = _tc[t] = _kind(strip_cv(t))
    return r


def _kind(t):
    if t in ('double', 'float', 'long double'):
        return ('real',)
    if t in INTS:
        return ('int',)
    if t == 'bool':
        return ('bool',)
    if t == 'void':
        return ('void',)
    if t.endswith('*'):
        return ('ptr', t[:-1].strip())
    if t.endswith(']'):
        i = t.rindex('[')
        return ('arr', t[:i].strip(), t[i + 1:-1])
    b, a = split_targs(t)
    if b in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::weak_ptr', 'std::__shared_ptr_access'):
        return ('ptr', a[0])
    if b in ('std::vector', 'std::deque', 'std::list'):
        return ('vec', a[0])
    if b == 'std::array':
        return ('arr', a[0], a[1])
    if b == 'std::pair':
        return ('pair', a[0], a[1])
    if b in ('std::unordered_map', 'std::map'):
        return ('map', a[0], a[1])
    if b == 'std::atomic' or b == 'std::__atomic_base' or b == 'std::__atomic_float':
        return ('atomic', a[0])
    if b == 'std::optional':
        return ('opt', a[0])
    if b == 'Eigen::Matrix' and a[1].lstrip('-').isdigit() and int(a[1]) > 0 and int(a[2]) > 0:
        return ('mat', int(a[1]), int(a[2]))
    if b == 'Eigen::Transform':
        return ('iso', int(a[1]))
    if b in ('std::basic_string',):
        return ('str',)
    if b == '__gnu_cxx::__normal_iterator':
        return ('iter',)
    if b == 'ceres::Jet':
        return ('real',)
    return ('rec', t)
