"""C30: files are opened, locked and truncated as asked for."""
import fcntl
import os
import interp

THIS = ('this',)
FILES = ('MemoryMapParallelFileImpl', 'MemoryMapAtomicFileImpl', 'PositionalParallelFileImpl', 'PositionalAtomicFileImpl')
IMPLS = {'HashDBMImpl': 'file_', 'TreeDBMImpl': 'hash_dbm_', 'SkipDBMImpl': 'file_', 'BabyDBMImpl': 'file_', 'TinyDBMImpl': 'file_',
         'CacheDBMImpl': 'file_', 'StdDBMImpl': 'file_'}
OBASE = os.O_CREAT | os.O_TRUNC | os.O_EXCL | os.O_ACCMODE | os.O_APPEND
SETLK = {fcntl.F_SETLK: 'F_SETLK', fcntl.F_SETLKW: 'F_SETLKW', 37: 'F_SETLK', 38: 'F_SETLKW'}
TYPES = {fcntl.F_RDLCK: 'shared', fcntl.F_WRLCK: 'exclusive', fcntl.F_UNLCK: 'none'}
ALTER = ('ftruncate', 'ftruncate64', 'TruncateFile', 'pwrite', 'pwrite64', 'PWriteSequence', 'write', 'msync', 'munmap')


def short(c):
    return (c or '').split('<')[0].replace('tkrzw::', '')


class Client(interp.Client):
    relfacts = True

    def __init__(self, prog, summ):
        self.p, self.s = prog, summ
        self.cache = {}
        self.own = self.layer = None
        self.opening = False

    def touches(self, f):
        k = (f.id, self.own)
        r = self.cache.get(k)
        if r is None:
            self.cache[k] = r = False
            for n in f.x:
                q = n.get('qn') or '' if n['k'] == 'call' else ''
                nm = q.rsplit('::', 1)[-1]
                g = self.p.funcs.get(n.get('fn') or '') if q else None
                if q in ('open', 'open64', 'fcntl', 'fcntl64', 'mmap', 'mmap64') or nm in ALTER or nm in ('Open', 'OpenAdvanced') or \
                        g is not None and g.has_body and g.id != f.id and self.mine(g) and self.touches(g) or \
                        n['k'] == 'bin' and n.get('op', '').endswith('=') and f.x[n['l']].get('f') in ('writable_', 'open_options_'):
                    r = True
                    break
            self.cache[k] = r
        return r

    def mine(self, f):
        return short(f.cls) == self.own or not f.cls and (f.file == self.file or self.layer is None)

    def flagger(self, f):
        """Helpers which change the flags of open through a pointer."""
        return f.ps and f.ps[0]['ty'].endswith('int *') or f.ps and f.ps[0]['ty'].endswith('int32_t *')

    def inline(self, it, f, call, st):
        if f.kind == 'lambda' or call is not None and self.mine(f) and (self.touches(f) or self.flagger(f)) and f.n not in ALTER:
            return 'full'
        return False

    def ev(self, st, *e):
        st.ps = (st.ps or ()) + (e,)
        return st

    def field(self, st, p, f):
        v = st.env.get(p + (f,))
        if v is None and ('zero', p) in self.zeros:
            return ('c', 0)
        return v

    def pre_call(self, it, c, st):
        q = c.qn or ''
        nm = q.rsplit('::', 1)[-1]
        if q in ('open', 'open64') and self.layer is None:
            self.sites.add((c.frame.f.qn, c.line))
            st2 = st.copy()
            return [(self.ev(st2, 'open', it.argval(c, 1, st.env), c.line), ('c', 5)), (st, ('c', -1))]
        if nm == 'memset' and len(c.args) == 3:
            a = it.argval(c, 0, st.env)
            if a[0] == 'p' and it.argval(c, 1, st.env) == ('c', 0):
                self.zeros.add(('zero', a[1]))
                for k in [k for k in st.env if isinstance(k, tuple) and k[:len(a[1])] == a[1] and len(k) > len(a[1])]:
                    del st.env[k]
            return [(st, a)]
        if q in ('fcntl', 'fcntl64') and self.layer is None:
            cmd = it.argval(c, 1, st.env)
            if cmd[0] == 'c' and cmd[1] not in SETLK:
                return None
            a = it.argval(c, 2, st.env)
            self.sites.add((c.frame.f.qn, c.line))
            vals = (None,) * 4
            if a[0] == 'p':
                vals = tuple(self.field(st, a[1], f) for f in ('l_type', 'l_whence', 'l_start', 'l_len'))
            st2 = st.copy()
            return [(self.ev(st2, 'lock', cmd, vals, c.line), ('c', 0)), (st, ('c', -1))]
        if q in ('mmap', 'mmap64'):
            return [(self.ev(st, 'mmap', it.argval(c, 2, st.env), it.argval(c, 3, st.env), c.line), ('c', 70000))]
        if nm in ALTER and self.layer is None:
            a = it.argval(c, 1, st.env) if len(c.args) > 1 else None
            trunc = 'runc' in nm
            st = self.ev(st, 'alter', nm, a if trunc else None, c.line)
            return [(st, it.fresh(c.frame, c.i))] if nm not in ('TruncateFile', 'PWriteSequence') else [(st, ('c', 0)), (st.copy(), ('c', 2))]
        if nm == 'GetErrnoStatus':
            return [(st, ('c', 2))]
        if nm in ('fstat', 'fstat64', 'close') and not q.startswith('tkrzw'):
            if nm == 'close':
                self.ev(st, 'close', c.line)
            return [(st, ('c', 0))]
        if self.layer and q.startswith('tkrzw') and nm in ('Open', 'OpenAdvanced') and c.recvn is not None:
            r = self.recv_field(c)
            if r == self.layer:
                self.sites.add((c.frame.f.qn, c.line))
                self.ev(st, 'Open', it.argval(c, 1, st.env), it.argval(c, 2, st.env) if len(c.args) > 2 else ('c', 0),
                        it.argval(c, 0, st.env), c.frame.f.qn, c.line)
                return [(st, ('c', 0)), (st.copy(), ('c', 2))]
        g = self.p.funcs.get(c.fn) if getattr(c, 'fn', None) else None
        if self.layer and self.opening and g is not None and g.ret == 'tkrzw::Status' and not self.inline(it, g, c, st):
            return [(st, ('c', 0)), (st.copy(), ('c', 2))]
        return None

    def on_write(self, it, fr, path, val, st, line):
        if len(path) == 2 and path[0] == THIS and path[1] in ('writable_', 'open_options_'):
            st.ps = tuple(e for e in st.ps or () if e[:2] != ('keep', path[1])) + (('keep', path[1], val),)

    def recv_field(self, c):
        fr, i, seen = c.frame, c.recvn, 0
        while i is not None and i >= 0 and seen < 12:
            seen += 1
            n = fr.f.x[i]
            if n['k'] == 'mem':
                return n['f']
            if n['k'] in ('cast', 'paren', 'idx') and n.get('a'):
                i = n['a'][0]
            elif n['k'] == 'un':
                i = n.get('s', n.get('a', [None])[0] if n.get('a') else None)
            elif n['k'] == 'call':
                i = n['m'] if n.get('m') is not None else (n['a'][0] if n.get('a') else None)
            else:
                return None
        return None

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val, st))


def run(ck):
    prog, summ = ck.load()
    ck.rule('Open of the file classes is interpreted for writable and read-only and every combination of options: flags of open(2), kind, '
            'extent and waiting of the lock, what happens before the lock, truncation and protection of the mapping are compared with '
            'the documented meaning. Open of the databases hands mode and options to the layer below and keeps them. Files which are opened '
            'anew in between are not truncated. Close alters the file before it gives the lock up.')
    O = {v['qn'].rsplit('::', 1)[-1]: v['v'] for e in prog.enums.values() for v in e['vals'] if v['qn'].startswith('tkrzw::File::OPEN_')}
    TR, NC, NW, NL, SH = (O['OPEN_' + x] for x in ('TRUNCATE', 'NO_CREATE', 'NO_WAIT', 'NO_LOCK', 'SYNC_HARD'))
    cl = Client(prog, summ)
    cl.sites, cl.zeros = set(), set()
    it = interp.Interp(prog, cl, summ)
    it.CAP = it.EXITCAP = 48
    bad, failed = {}, []
    n = {'opens': 0, 'succ': 0, 'locks': 0, 'layers': 0, 'reopens': 0, 'closes': 0, 'own': 0}

    def go(f, args=None):
        cl.exits = []
        it.steps = 0
        it.memo.clear()
        try:
            it.run_root(f, args=args)
        except interp.Budget:
            failed.append(f.qn)
            return []
        return cl.exits

    def v(f, text, line=None):
        q = f.qn.split('<')[0].replace('tkrzw::', '') + '::' + f.n if '<' in f.qn else f.qn.replace('tkrzw::', '')
        bad.setdefault('%s|%s' % (q, text), ('%s %s' % (q, text), '%s:%d' % (f.file, line or f.line)))

    def args_of(f, w, o):
        a = {}
        for i, p in enumerate(f.ps):
            if p['ty'] == 'bool':
                a[i] = ('c', w)
            elif i > 0 and p['ty'] in ('int', 'int32_t'):
                a[i] = ('c', o)
        return a
    fs = sorted((f for f in prog.funcs.values() if f.has_body and f.cls), key=lambda f: (f.file, f.line, f.id))

    for f in fs:
        if short(f.cls) not in FILES or f.n != 'Open' or len(f.ps) < 3:
            continue
        cl.own, cl.layer, cl.file = short(f.cls), None, f.file
        n['opens'] += 1
        for w in (0, 1):
            for o in range(TR | NC | NW | NL | SH | 1):
                if o & ~(TR | NC | NW | NL | SH):
                    continue
                how = 'of a %s file%s' % ('writable' if w else 'read-only', ''.join(', ' + k for k, b in sorted(O.items()) if b & o and b))
                want = (os.O_RDWR | (0 if o & NC else os.O_CREAT)) if w else os.O_RDONLY
                succ = 0
                for ev, val, st in go(f, args_of(f, w, o)):
                    op = [e for e in ev if e[0] == 'open']
                    if len(op) > 1:
                        v(f, 'opens twice', op[1][2])
                    for e in op:
                        if e[1][0] != 'c':
                            v(f, 'opens with flags which are not determined by its arguments', e[2])
                        else:
                            g = e[1][1] & OBASE
                            if g & os.O_TRUNC:
                                v(f, 'lets open truncate before the file is locked', e[2])
                                g &= ~os.O_TRUNC
                            if g != want:
                                what = [x for x, b in (('access mode', os.O_ACCMODE), ('creation', os.O_CREAT | os.O_EXCL), ('O_APPEND', os.O_APPEND))
                                        if (g ^ want) & b]
                                v(f, 'opens with wrong flags (%s)' % ', '.join(what), e[2])
                    lk = [i for i, e in enumerate(ev) if e[0] == 'lock']
                    first = lk[0] if lk else None
                    for i, e in enumerate(ev):
                        if e[0] == 'alter' and not o & NL and (first is None or i < first):
                            v(f, 'alters the file before it is locked', e[3])
                        if e[0] == 'alter' and not w:
                            v(f, 'alters a file which is opened as read-only', e[3])
                        if e[0] == 'alter' and e[2] == ('c', 0) and not o & TR:
                            v(f, 'empties the file without being asked to', e[3])
                        if e[0] == 'mmap':
                            if e[1] != ('c', 3 if w else 1):
                                v(f, 'maps the file with wrong protection', e[3])
                            if e[2] != ('c', 1):
                                v(f, 'does not map the file as shared', e[3])
                    for i in lk:
                        e = ev[i]
                        n['locks'] += 1
                        if o & NL:
                            v(f, 'locks the file in spite of OPEN_NO_LOCK', e[3])
                        cmd = SETLK.get(e[1][1]) if e[1][0] == 'c' else None
                        if cmd != ('F_SETLK' if o & NW else 'F_SETLKW'):
                            v(f, 'waits for the lock in spite of OPEN_NO_WAIT' if o & NW else 'does not wait for the lock', e[3])
                        t = TYPES.get(e[2][0][1]) if e[2][0] and e[2][0][0] == 'c' else None
                        if t != ('exclusive' if w else 'shared'):
                            v(f, 'does not take the %s lock for a %s file' % (('exclusive', 'writable') if w else ('shared', 'read-only')), e[3])
                        if e[2][1:] != (('c', 0),) * 3:
                            v(f, 'does not lock the whole file', e[3])
                    if val is None or it.truth(val, st.env) is True:
                        continue
                    succ += 1
                    if not op:
                        v(f, 'succeeds without opening the file')
                    if not o & NL and not lk:
                        v(f, 'succeeds without the lock')
                    if w and o & TR and not any(e[0] == 'alter' and e[2] == ('c', 0) for e in ev) and not any(e[1][0] == 'c' and e[1][1] & os.O_TRUNC for e in op):
                        v(f, 'does not empty the file with OPEN_TRUNCATE')
                    for g, x in (('writable_', w), ('open_options_', o)):
                        y = st.env.get((THIS, g))
                        if y is None or y[0] != 'c' or (y[1] | (TR if g[0] == 'o' else 0)) != (x | (TR if g[0] == 'o' else 0)):
                            v(f, 'does not keep %s in %s' % ('the mode' if x is w and g[0] == 'w' else 'the options', g))
                n['succ'] += succ
                if not succ:
                    v(f, 'never succeeds (%s)' % how)

    for f in fs:
        if short(f.cls) not in FILES or f.n != 'Close':
            continue
        cl.own, cl.layer, cl.file = short(f.cls), None, f.file
        n['closes'] += 1
        for ev, val, st in go(f):
            un = [i for i, e in enumerate(ev) if e[0] == 'close' or e[0] == 'lock' and e[2][0] == ('c', fcntl.F_UNLCK)]
            for i, e in enumerate(ev):
                if e[0] == 'alter' and un and i > un[0]:
                    v(f, 'alters the file after its lock was given up', e[3])
                if e[0] == 'lock' and e[2][0] is not None and e[2][0][0] == 'c' and e[2][0] != ('c', fcntl.F_UNLCK):
                    v(f, 'locks the file anew', e[3])

    for f in fs:
        c = short(f.cls)
        if c not in IMPLS or f.kind in ('ctor', 'dtor', 'lambda'):
            continue
        cl.own, cl.layer, cl.file = c, IMPLS[c], f.file
        if f.n == 'Open':
            n['opens'] += 1
            cl.opening = True
            keeps = {x['n'] for x in prog.classes[f.cls]['fields']}
            for w in (0, 1):
                for o in (0, TR, NC, NW, NL, SH, TR | NC | NW | NL | SH):
                    for ev, val, st in go(f, args_of(f, w, o)):
                        L = [e for e in ev if e[0] == 'Open']
                        if L:
                            n['layers'] += 1
                            e = L[0]
                            if e[1] != ('c', w):
                                v(f, 'does not hand its mode to the %s below' % ('database' if 'dbm' in cl.layer else 'file'), e[5])
                            if e[2] != ('c', o):
                                v(f, 'does not hand its options to the %s below' % ('database' if 'dbm' in cl.layer else 'file'), e[5])
                            for e in L[1:]:
                                if e[2][0] != 'c' or (e[2][1] ^ o) & (NW | NL | SH):
                                    v(f, 'loses options when the file is opened again', e[5])
                        if val is None or it.truth(val, st.env) is True:
                            continue
                        if not L:
                            v(f, 'succeeds without opening what is below')
                        for g, x in (('writable_', w), ('open_options_', o)):
                            y = st.env.get((THIS, g))
                            if os.environ.get('DBG') and g in keeps and (y is None or y[0] != 'c' or y[1] != x): print(f.qn, w, o, g, y, val, [e[0] for e in ev])
                            if g in keeps and (y is None or y[0] != 'c' or (y[1] | (TR if g[0] == 'o' else 0)) != (x | (TR if g[0] == 'o' else 0))):
                                v(f, 'does not keep %s in %s' % ('the mode' if g[0] == 'w' else 'the options', g))
            cl.opening = False
        elif cl.touches(f) and not any(x['k'] == 'call' and x.get('fn') == f.id and g.id != f.id and short(g.cls) == c for g in fs for x in g.x):
            for ev, val, st in go(f):
                for e in ev:
                    if e[0] != 'Open':
                        continue
                    n['reopens'] += 1
                    if 'path_' in repr(e[3]) and not truncfree(e[2], TR):
                        v(f, 'may truncate the file of the database when it is opened again', e[5])
                    if e[3][0] == 's' and e[3][1] == 'i' and e[3][2] == (THIS, 'path_') or e[3] == ('p', (THIS, 'path_')):
                        n['own'] += 1
                        if 'open_options_' in keeps_of(prog, f.cls) and "'open_options_'" not in repr(e[2]) and '"open_options_"' not in repr(e[2]):
                            v(f, 'loses options when the file is opened again', e[5])
    for k, (text, where) in sorted(bad.items()):
        ck.violation(k, text, where)
    ck.sample('calls', sorted('%s line %d' % (a.replace('tkrzw::', ''), b) for a, b in cl.sites))
    ck.count('open_functions', n['opens'], 11)
    ck.count('successful_paths', n['succ'], 250)
    ck.count('locks_seen', n['locks'], 100)
    ck.count('layers_opened', n['layers'], 150)
    ck.count('opened_again', n['reopens'], 6)
    ck.count('own_files_opened_again', n['own'], 6)
    ck.count('close_functions', n['closes'], 4)
    ck.need(not failed, 'functions which could not be followed: %s' % sorted(set(failed))[:5])


def truncfree(v, tr):
    if v[0] == 'c':
        return not v[1] & tr
    if v[0] == 'op' and v[1] == '&':
        return any(x[0] == 'c' and not x[1] & tr for x in v[2:])
    return False


def keeps_of(prog, c):
    return {x['n'] for x in prog.classes[c]['fields']}
