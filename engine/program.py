"""Loads the resolved program of /repo's current tree (extracted by clang) and indexes it."""
import hashlib, json, os, re, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
RESDIR = '/usr/lib/llvm-18/lib/clang/18'

FLAGS = ['-std=c++17', '-pthread', '-fPIC', '-fsigned-char', '-I' + REPO, '-DNDEBUG',
         '-D_GNU_SOURCE=1', '-D_ISOC99_SOURCE=1', '-D_POSIX_C_SOURCE=999999L',
         '-D_FILE_OFFSET_BITS=64', '-D_REENTRANT', '-D__EXTENSIONS__', '-D_TKRZW_COMP_ZLIB',
         '-D_TKRZW_COMP_ZSTD', '-D_TKRZW_COMP_LZ4', '-D_TKRZW_COMP_LZMA',
         '-D_TKRZW_PREFIX="/usr/local"', '-D_TKRZW_INCLUDEDIR="/usr/local/include"',
         '-D_TKRZW_LIBDIR="/usr/local/lib"', '-D_TKRZW_BINDIR="/usr/local/bin"',
         '-D_TKRZW_LIBEXECDIR="/usr/local/libexec"', '-D_TKRZW_APPINC="-I/usr/local/include"',
         '-D_TKRZW_APPLIBS="-ltkrzw"', '-D_TKRZW_PKG_VERSION="1.0.32"',
         '-D_TKRZW_LIB_VERSION="1.75.0"', '-w', '-resource-dir', RESDIR]


class AnalysisError(Exception):
    pass


def lib_sources():
    """Library translation units of the real build (configure's object list)."""
    with open(os.path.join(REPO, 'configure')) as f:
        for line in f:
            m = re.match(r'MYLIBOBJFILES="([^"]*)"', line)
            if m:
                return [x[:-2] + '.cc' for x in m.group(1).split()]
    raise AnalysisError('cannot find the library object list in configure')


def command_sources():
    with open(os.path.join(REPO, 'configure')) as f:
        for line in f:
            m = re.match(r'MYCOMMANDFILES="([^"]*)"', line)
            if m:
                return [x + '.cc' for x in m.group(1).split()
                        if os.path.exists(os.path.join(REPO, x + '.cc'))]
    return []


def _sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


_sha_memo = {}


def file_sha(rel):
    if rel not in _sha_memo:
        try:
            _sha_memo[rel] = _sha(os.path.join(REPO, rel))
        except OSError:
            _sha_memo[rel] = 'missing'
    return _sha_memo[rel]


def ensure_extractor():
    exs = _sha(os.path.join(VERIF, 'extract', 'extract.cc'))[:16]
    path = os.path.join(BUILD, 'extract-' + exs)
    if not os.path.exists(path):
        r = subprocess.run([os.path.join(VERIF, 'setup.sh'), '--extractor-only'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(path):
            raise AnalysisError('extractor build failed: ' + r.stdout.decode()[-2000:])
    return path, exs


def extract_tu(src, extra=()):
    """Returns the path of the JSON-lines dump for a TU. src: relative to REPO or absolute."""
    ex, exs = ensure_extractor()
    os.makedirs(CACHE, exist_ok=True)
    full = src if os.path.isabs(src) else os.path.join(REPO, src)
    flags = FLAGS + list(extra)
    tag = hashlib.sha256((exs + '\0' + src + '\0' + '\0'.join(flags)).encode()).hexdigest()[:16]
    base = os.path.basename(src) + '.' + tag
    idx = os.path.join(CACHE, base + '.idx')
    if os.path.exists(idx):
        try:
            for ent in json.load(open(idx)):
                if all(file_sha(d) == h for d, h in ent['deps']) and \
                        (not os.path.isabs(src) or _sha(src) == ent['self']):
                    p = os.path.join(CACHE, ent['out'])
                    if os.path.exists(p):
                        return p
        except (ValueError, KeyError):
            pass
    tmp = os.path.join(CACHE, base + '.%d.tmp' % os.getpid())
    r = subprocess.run([ex, REPO.rstrip('/') + '/', full, tmp, '--'] + flags,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd='/tmp')
    if r.returncode != 0:
        raise AnalysisError('extraction of %s failed: %s' % (src, r.stderr.decode()[-3000:]))
    deps = None
    with open(tmp, 'rb') as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - 20000))
        last = f.read().rstrip().split(b'\n')[-1]
    deps = json.loads(last)['d']
    dl = sorted((d, file_sha(d)) for d in deps)
    key = hashlib.sha256(json.dumps(dl).encode()).hexdigest()[:16]
    selfsha = _sha(src) if os.path.isabs(src) else ''
    out = base + '.' + key + selfsha[:8] + '.json'
    os.replace(tmp, os.path.join(CACHE, out))
    ents = []
    if os.path.exists(idx):
        try:
            ents = [e for e in json.load(open(idx)) if e['out'] != out]
        except ValueError:
            ents = []
    ents.insert(0, {'deps': dl, 'out': out, 'self': selfsha})
    for e in ents[6:]:
        try:
            os.unlink(os.path.join(CACHE, e['out']))
        except OSError:
            pass
    ents = ents[:6]
    with open(idx + '.%d' % os.getpid(), 'w') as f:
        json.dump(ents, f)
    os.replace(idx + '.%d' % os.getpid(), idx)
    return os.path.join(CACHE, out)


class Func:
    __slots__ = ('id', 'qn', 'n', 'file', 'line', 'end', 'ret', 'cls', 'kind', 'virt', 'stat',
                 'cst', 'acc', 'ov', 'ps', 'blocks', 'entry', 'exit', 'x', 'parent', 'ec', 'tries',
                 'tmpl', 'tu', '_a', 'idx')

    def __init__(self, o):
        g = o.get
        self.id = o['id']; self.qn = o['qn']; self.n = o['n']; self.file = o['file']
        self.line = o['line']; self.end = o['end']; self.ret = o['ret']
        self.cls = g('cls'); self.kind = o['kind']; self.virt = g('virt', 0)
        self.stat = g('stat', 0); self.cst = g('cst', 0); self.acc = g('acc')
        self.ov = g('ov', []); self.ps = o['ps']; self.x = o['x']
        self.blocks = {b['id']: b for b in g('blocks', [])}
        self.entry = g('entry'); self.exit = g('exit'); self.parent = g('parent')
        self.ec = g('ec', 0); self.tries = g('tries', []); self.tmpl = g('tmpl', 0)
        self._a = None
        self.idx = 0

    @property
    def has_body(self):
        return bool(self.blocks)

    def name(self):
        if self.kind == 'lambda':
            return 'lambda@%s:%d' % (self.file, self.line)
        return self.qn

    def where(self):
        return '%s:%d' % (self.file, self.line)


class Program:
    def __init__(self):
        self.funcs = {}
        self.classes = {}
        self.enums = {}
        self.gvars = {}
        self.tus = []
        self.by_qn = {}
        self.overriders = {}
        self.lambdas_of = {}

    def load(self, path, tu):
        self.tus.append(tu)
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                t = o['t']
                if t == 'func':
                    if o['id'] in self.funcs:
                        continue
                    fn = Func(o)
                    fn.tu = tu
                    fn.idx = len(self.funcs)
                    self.funcs[fn.id] = fn
                elif t == 'class':
                    self.classes.setdefault(o['name'], o)
                elif t == 'enum':
                    self.enums.setdefault(o['name'], o)
                elif t == 'gvar':
                    old = self.gvars.get(o['name'])
                    if old is None or ('cv' not in old and 'nodes' not in old):
                        self.gvars[o['name']] = o

    def finish(self):
        for f in self.funcs.values():
            self.by_qn.setdefault(f.qn, []).append(f)
            for o in f.ov:
                self.overriders.setdefault(o, []).append(f.id)
            if f.kind == 'lambda' and f.parent:
                self.lambdas_of.setdefault(f.parent, []).append(f.id)
        # transitive overriders
        changed = True
        while changed:
            changed = False
            for k, v in list(self.overriders.items()):
                for x in list(v):
                    for y in self.overriders.get(x, []):
                        if y not in v:
                            v.append(y)
                            changed = True
        self.subclasses = {}
        for c in self.classes.values():
            for b in c['bases']:
                self.subclasses.setdefault(b, set()).add(c['name'])

    def is_subclass(self, c, base):
        seen = set()
        st = [c]
        while st:
            x = st.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in self.classes:
                st.extend(self.classes[x]['bases'])
        return False

    def resolve_virtual(self, fid, cls):
        """The final overrider of method fid for dynamic class cls."""
        f = self.funcs.get(fid)
        cands = [fid] + self.overriders.get(fid, [])
        c = cls
        seen = set()
        st = [cls]
        while st:
            c = st.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for k in cands:
                kf = self.funcs.get(k)
                if kf is not None and kf.cls == c:
                    return k
            if c in self.classes:
                st.extend(self.classes[c]['bases'])
        return None

    def methods(self, cls, name=None):
        return [f for f in self.funcs.values() if f.cls == cls and (name is None or f.n == name)]

    def find(self, qn):
        return self.by_qn.get(qn, [])


_prog = {}


def load_program(commands=False, extra_tus=(), only=None, flags=()):
    key = (commands, tuple(extra_tus), tuple(only or ()), tuple(flags))
    if key in _prog:
        return _prog[key]
    srcs = list(only) if only else lib_sources()
    if commands:
        srcs += [s for s in command_sources() if s.endswith('.cc')]
    srcs += list(extra_tus)
    ensure_extractor()
    with ThreadPoolExecutor(max_workers=8) as ex:
        paths = list(ex.map(lambda s: extract_tu(s, flags), srcs))
    p = Program()
    for s, path in zip(srcs, paths):
        p.load(path, s)
    p.finish()
    _prog[key] = p
    return p


if __name__ == '__main__':
    import time
    t = time.time()
    p = load_program(commands='--warm' in sys.argv,
                     extra_tus=[os.path.join(VERIF, 'engine', 'witness.cc')])
    print('units %d functions %d classes %d in %.1fs' % (
        len(p.tus), len(p.funcs), len(p.classes), time.time() - t))
