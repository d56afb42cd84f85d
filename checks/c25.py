"""C25: a failed Open leaves nothing open, Close always closes, and descriptors and mappings are released on every path."""
import interp

OPENS = {'open': ('close',), 'open64': ('close',), 'opendir': ('closedir',), 'mmap': ('munmap', 'mremap'), 'mmap64': ('munmap', 'mremap')}
CLOSES = {c: k for k in ('open', 'opendir', 'mmap') for c in OPENS[k]}
IMPLS = ('HashDBMImpl', 'TreeDBMImpl', 'SkipDBMImpl', 'BabyDBMImpl', 'TinyDBMImpl', 'CacheDBMImpl', 'StdDBMImpl')
FRONTS = ('PolyDBM', 'ShardDBM', 'PolyFile', 'MessageQueueImpl')
FILES = ('MemoryMapParallelFileImpl', 'MemoryMapAtomicFileImpl', 'PositionalParallelFileImpl', 'PositionalAtomicFileImpl')
THIS = ('this',)
SUCC = ('c', 0)
# The field of a file or database object which is opened with this one, by class.
LAYER = {'TreeDBMImpl': 'hash_dbm_', 'PolyDBM': 'dbm_', 'ShardDBM': 'dbms_', 'MessageQueueImpl': 'files_'}
MARK = {'PolyDBM': 'dbm_', 'PolyFile': 'file_', 'ShardDBM': 'open_', 'MessageQueueImpl': 'files_'}


def short(c):
    return (c or '').split('<')[0].replace('tkrzw::', '')


class Client(interp.Client):
    relfacts = True

    def __init__(self, prog, summ):
        self.p, self.s = prog, summ
        self.cache = {}

    def touches(self, f):
        r = self.cache.get((f.id, self.own))
        if r is None:
            r = self.cache[f.id, self.own] = False
            for n in f.x:
                if n['k'] != 'call':
                    continue
                q = n.get('qn') or ''
                nm = q.rsplit('::', 1)[-1]
                g = self.p.funcs.get(n.get('fn') or '')
                if nm in OPENS or nm in CLOSES or nm in ('Open', 'OpenAdvanced', 'Close') or \
                        g is not None and g.has_body and self.mine(g) and self.touches(g):
                    r = True
                    break
            if not r and self.own and short(f.cls) == self.own:
                for fld in self.watch:
                    if any(a for a in f.x if a['k'] in ('bin', 'call') and self.assigns(f, a, fld)):
                        r = True
            self.cache[f.id, self.own] = r
        return r

    def assigns(self, f, n, fld):
        if n['k'] == 'bin' and n.get('op') == '=':
            l = f.x[n['l']]
            return l['k'] == 'mem' and l.get('f') == fld
        return False

    def mine(self, f):
        return bool(self.own) and short(f.cls) == self.own or not f.cls and f.file == self.file

    def inline(self, it, f, call, st):
        if f.kind == 'lambda':
            return 'full'
        if self.mine(f) and self.touches(f):
            return 'full'
        return False

    def ev(self, st, *e):
        st2 = st.copy()
        if (st.ps or ()).count(e) < 2:
            st2.ps = (st.ps or ()) + (e,)
        return st2

    def root_field(self, c):
        """The field of this object (or local variable) through which the call is made."""
        fr, i, seen = c.frame, c.recvn, 0
        while i is not None and i >= 0 and seen < 20:
            seen += 1
            n = fr.f.x[i]
            if n['k'] == 'mem':
                b = n.get('b')
                if b is not None and b >= 0 and fr.f.x[b]['k'] != 'this':
                    m = fr.f.x[b]
                    while m['k'] in ('cast', 'paren') and m.get('a'):
                        m = fr.f.x[m['a'][0]]
                    if m['k'] != 'this':
                        i = b
                        continue
                return ('f', n['f'])
            if n['k'] in ('cast', 'paren', 'idx') and n.get('a'):
                i = n['a'][0]
            elif n['k'] == 'un':
                i = n.get('s', n.get('a', [None])[0] if n.get('a') else None)
            elif n['k'] == 'call':
                i = n['m'] if n.get('m') is not None else (n['a'][0] if n.get('a') else None)
            elif n['k'] == 'var':
                return ('v', n['n'])
            elif n['k'] == 'bin' and 'l' in n:
                i = n['l']
            else:
                return None
        return None

    def pre_call(self, it, c, st):
        q = c.qn or ''
        nm = q.rsplit('::', 1)[-1]
        if q in OPENS:
            self.n += 1
            h = ('c', 1000000 + 1000 * c.frame.f.line + c.line)
            bad = ('c', 0) if q == 'opendir' else ('c', -1)
            kind = 'opendir' if q == 'opendir' else 'mmap' if q.startswith('mmap') else 'open'
            self.sites.add((c.frame.f.qn, c.line))
            return [(self.ev(st, '+', kind, h, c.line), h), (st, bad)]
        if q in CLOSES:
            v = it.argval(c, 0, st.env)
            return [(self.ev(st, '-', CLOSES[q], v, c.line), it.fresh(c.frame, c.i))]
        if nm == 'GetErrnoStatus' and q.startswith('tkrzw'):
            return [(st, ('c', 2))]
        if q.startswith('tkrzw') and nm == 'MakeFileInstance' or nm in ('make_unique', 'make_shared'):
            return None
        if q.startswith('tkrzw') and nm in ('Open', 'OpenAdvanced') and c.recvn is not None and self.own:
            r = self.root_field(c)
            if r is not None and (r[0] == 'f' or self.own in FRONTS and not short(q).startswith('MessageQueue::')):
                st = self.ev(st, 'T', r[1])
                return [(self.ev(st, 'L+', r[1]), SUCC), (st, ('c', 2))]
            return None
        if q.startswith('tkrzw') and nm == 'Close' and c.recvn is not None and self.own:
            r = self.root_field(c)
            if r is not None:
                return [(self.ev(st, 'L-', r[1]), it.fresh(c.frame, c.i))]
        if nm in ('clear', 'reset') and c.recvn is not None and self.own:
            r = self.root_field(c)
            if r is not None and r[0] == 'f':
                return [(self.ev(st, 'clear', r[1]), ('c', 0))] if nm == 'clear' and r[1] in self.watch else \
                    self.note_reset(it, c, st, r[1])
        return None

    def note_reset(self, it, c, st, fld):
        if fld in self.watch:
            if (st.ps or ()).count(('clear', fld)) < 2:
                st.ps = (st.ps or ()) + (('clear', fld),)
        return None

    def on_branch(self, it, fr, cond, taken, st, line):
        neg = False
        while cond[0] == 'not':
            cond, neg = cond[1], not neg
        t = taken != neg

        def fld(v):
            return v[2][1] if v[0] == 's' and v[1] == 'i' and len(v[2]) == 2 and v[2][0] == THIS else None
        e = None
        if fld(cond) in self.watch:
            e = ('is', fld(cond), t)
        elif cond[0] == 'b' and cond[1] == '==' and ('c', 0) in cond[2:]:
            for x in cond[2:]:
                if fld(x) in self.watch:
                    e = ('is', fld(x), not t)
        elif cond[0] == 'b' and cond[1] == '<' and fld(cond[2]) == 'fd_' and cond[3] == ('c', 0):
            e = ('is', 'fd_', not t)
        elif cond[0] == 'b' and cond[1] == '<' and fld(cond[3]) == 'fd_' and cond[2] == ('c', -1):
            e = ('is', 'fd_', t)
        elif 'files_' in self.watch and 'files_' in repr(cond):
            e = ('files', t)
        if e is not None and e not in (st.ps or ()):
            st.ps = (st.ps or ()) + (e,)

    def on_write(self, it, fr, path, val, st, line):
        if len(path) == 2 and path[0] == THIS and path[1] in self.marks:
            t = it.truth(val, st.env)
            st.ps = tuple(e for e in st.ps or () if e[:2] != ('mark', path[1])) + (('mark', path[1], t),)

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val, st))


def stored(env, h):
    return any(k[0] == THIS and v == h for k, v in env.items() if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple))


def run(ck):
    prog, summ = ck.load()
    ck.rule('All paths of the functions which open descriptors, directories or mappings, and of Open and Close of files, databases '
            'and queues are interpreted: what was opened is released before each exit, unless it is kept in a field by a function which '
            'does not fail; a failing Open closes the layer below and does not leave the object marked as open; Close '
            'closes the layer below and leaves the object marked as closed whether it fails or not; destructors close.')
    cl = Client(prog, summ)
    cl.n = 0
    cl.precond = next(v['v'] for e in prog.enums.values() for v in e['vals'] if v['qn'] == 'tkrzw::Status::PRECONDITION_ERROR')
    cl.sites = set()
    it = interp.Interp(prog, cl, summ)
    it.CAP = it.EXITCAP = 48
    failed, bad, nroots, npaths, nfail = [], {}, 0, 0, 0
    dtors = 0
    samples = []
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.has_body or f.kind == 'lambda' or f.file.startswith('engine') or 'witness' in f.file:
            continue
        b = short(f.cls)
        member = b in IMPLS + FRONTS + FILES
        cl.own = b if member else ''
        cl.file = f.file
        if not (member and (f.n in ('Open', 'OpenAdvanced', 'Close') or f.n.startswith('~') and b in IMPLS + FILES) or
                any(n['k'] == 'call' and (n.get('qn') or '') in OPENS for n in f.x)):
            continue
        cl.watch = {'fd_'} if b in FILES else {LAYER.get(b, 'file_'), MARK.get(b, 'open_')} if member else set()
        cl.marks = {'open_'} if member and b not in FILES else set()
        if b == 'PolyDBM':
            cl.watch |= cl.marks
        cl.exits = []
        it.steps = 0
        it.memo.clear()
        try:
            it.run_root(f, args={j: ('s', 'arg', p['n']) for j, p in enumerate(f.ps)})
        except interp.Budget:
            failed.append(f.qn)
            continue
        nroots += 1
        key = f.qn.replace('tkrzw::', '')
        samples.append('%s: %d paths' % (key, len(cl.exits)))

        def v(text, line):
            bad.setdefault('%s|%s' % (key, text), ('%s %s' % (key, text), '%s:%d' % (f.file, line)))
        layer, mark = LAYER.get(b, 'file_'), MARK.get(b, 'open_')
        for ps, val, st in cl.exits:
            npaths += 1
            fails = val is not None and 'Status' in f.ret and it.truth(val, st.env) is True
            nfail += fails
            live = {}
            for e in ps:
                if e[0] == '+':
                    live[e[2]] = e
                elif e[0] == '-' and e[2] in live:
                    del live[e[2]]
            for h, e in sorted(live.items()):
                keep = stored(st.env, h) or val == h
                what = {'open': 'descriptor', 'opendir': 'directory', 'mmap': 'mapping'}[e[1]]
                if not keep:
                    v('may return without releasing the %s it has opened' % what, e[3])
                elif fails and val != h:
                    v('may fail and yet keep the %s it has opened' % what, e[3])
            if fails:
                for e in ps:
                    if e[0] == '+' and e[2] not in live and stored(st.env, e[2]):
                        v('may fail and keep a number of something which it has released', e[3])
            if not member:
                continue
            on = {e[1]: e[2] for e in ps if e[0] == 'is'}
            fins = {e[1]: e[2] for e in ps if e[0] == 'mark'}
            fin = fins.get(mark, 0)
            if b == 'PolyDBM' and f.n == 'Close' and on.get('dbm_') is not False and fins.get('open_', 0) is not False:
                v('may return and leave itself marked as open', f.line)
            if f.n in ('Open', 'OpenAdvanced'):
                if b in FILES:
                    if not fails and on.get('fd_') is not True and not any(st.env.get((THIS, 'fd_')) == e[2] for e in ps if e[0] == '+'):
                        v('may succeed without keeping the descriptor', f.line)
                    continue
                if on.get(mark) is True and fin == 0 and not any(e[0].startswith('L') for e in ps):
                    continue
                o = tried = False
                for e in ps:
                    if e[0] == 'L+' and (e[1] in (layer, 'file_') or b in FRONTS):
                        o = True
                    elif e[0] == 'T' and b in FRONTS:
                        tried = True
                    elif e[0] in ('L-', 'clear') and e[1] in (layer, 'file_', mark):
                        o = False
                        tried = tried and e[0] != 'clear'
                if b == 'PolyDBM':
                    tried = o
                if fails:
                    if o and b not in FRONTS:
                        v('may fail and yet leave %s open' % layer, f.line)
                    if mark == 'open_' and fin is not False and fin != 0:
                        v('may fail and yet leave itself marked as open', f.line)
                    if b == 'PolyDBM' and fins.get('open_') is True:
                        v('may fail and yet leave itself marked as open', f.line)
                    if b in FRONTS and tried:
                        v('may fail and yet keep %s' % layer, f.line)
                elif b == 'PolyDBM':
                    if o and val is not None and it.truth(val, st.env) is False and fins.get('open_') is not True:
                        v('may succeed without being marked as open', f.line)
                elif mark == 'open_' and val is not None and it.truth(val, st.env) is False and \
                        fin is not True:
                    v('may succeed without being marked as open', f.line)
            elif f.n == 'Close' or f.n.startswith('~'):
                if b in FILES:
                    if on.get('fd_') is False:
                        continue
                    if not any(e[0] == '-' and e[1] == 'open' and e[2] == ('s', 'i', (THIS, 'fd_')) for e in ps):
                        v('may return without closing the descriptor', f.line)
                    if f.n == 'Close' and st.env.get((THIS, 'fd_')) != ('c', -1):
                        v('may return and leave itself marked as open', f.line)
                    if b.startswith('MemoryMap') and not any(e[0] == '-' and e[1] == 'mmap' and e[2] == ('s', 'i', (THIS, 'map_')) for e in ps):
                        v('may return without releasing the mapping', f.line)
                    continue
                if on.get(mark) is False or ('files', True) in ps:
                    continue
                if mark == 'files_' and val == ('c', cl.precond) and not any(e[0] in ('L-', 'clear') for e in ps):
                    continue
                if not any(e[0] == 'L-' for e in ps) and on.get(layer) is not False:
                    if b not in ('ShardDBM', 'MessageQueueImpl') and on.get('open_') is not False:
                        v('may return without closing %s' % layer, f.line)
                if mark == 'open_' and fin is not False and f.n == 'Close':
                    v('may return and leave itself marked as open', f.line)
                if mark != 'open_' and ('clear', mark) not in ps:
                    v('may return and leave itself marked as open', f.line)
    for b in IMPLS + FILES:
        if not any(short(f.cls) == b and f.n.startswith('~') and f.has_body for f in prog.funcs.values()) and \
                any(short(c) == b for c in prog.classes):
            bad.setdefault('%s|no destructor' % b, ('%s has no destructor which closes it' % b, b))
    for k, (text, where) in sorted(bad.items()):
        ck.violation(k, text, where)
    ck.count('functions', nroots, 25)
    ck.count('paths', npaths, 200)
    ck.count('failing paths', nfail, 60)
    ck.count('opening calls', len(cl.sites), 10)
    ck.sample('functions', samples)
    ck.need(len(failed) <= 3, 'functions which could not be followed: %s' % failed[:5])
