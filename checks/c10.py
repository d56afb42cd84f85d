"""C10: Synchronize and Close save everything there is to save, to every layer below."""
import interp

# class -> (what must be saved, in methods of the class or of helper objects; field of the layer below)
DBMS = {
    'tkrzw::HashDBMImpl': (('SaveMetadata',), 'file_'),
    'tkrzw::TreeDBMImpl': (('FlushLeafCacheAll', 'FlushInnerCacheAll', 'SaveMetadata'), 'hash_dbm_'),
    'tkrzw::SkipDBMImpl': (('FinishStorage',), 'file_'),
    'tkrzw::BabyDBMImpl': (('ExportRecords',), 'file_'),
    'tkrzw::TinyDBMImpl': (('ExportRecords',), 'file_'),
    'tkrzw::CacheDBMImpl': (('ExportRecords',), 'file_'),
    'tkrzw::StdDBMImpl': (('ExportRecords',), 'file_'),
    'tkrzw::MessageQueueImpl': (('SaveMetadata',), None),
    'tkrzw::ShardDBM': ((), None),
    'tkrzw::DBMUpdateLoggerDBM': ((), None),
    'tkrzw::DBMUpdateLoggerMQ': ((), None),
}
FILES = {
    'tkrzw::MemoryMapParallelFileImpl': (), 'tkrzw::MemoryMapAtomicFileImpl': (),
    'tkrzw::PositionalParallelFileImpl': ('page_cache_', 'head_buffer_'),
    'tkrzw::PositionalAtomicFileImpl': ('page_cache_', 'head_buffer_'),
}
EXEMPT = ('tkrzw::StdFile', 'tkrzw::StdFileImpl', 'tkrzw::DBM::UpdateLogger')   # documented to synchronize nothing
SYSCALLS = ('msync', 'fsync', 'fdatasync', 'tkrzw_fsync_range', 'tkrzw_fsync', 'sync_file_range')
FLAGS = ('open_', 'writable_', 'healthy_', 'updated_', 'read_only_', 'page_cache_', 'head_buffer_')
HARD = ('s', 'arg', 'hard')
PROC = ('s', 'arg', 'proc')


def base(c):
    return (c or '').split('<')[0]


class Client(interp.Client):
    relfacts = True

    def __init__(self, prog, summ):
        self.p, self.s = prog, summ
        self._reach = {}

    def reaches(self, f):
        r = self._reach.get(f.id)
        if r is None:
            r = self._reach[f.id] = False
            for n in f.x:
                if n['k'] != 'call':
                    continue
                nm = (n.get('qn') or '').rsplit('::', 1)[-1]
                if nm in self.saves or nm in ('Synchronize', 'SynchronizeAdvanced', 'Close'):
                    r = True
                    break
                g = self.p.funcs.get(n.get('fn') or '')
                if g is not None and g.has_body and self.mine(g) and self.reaches(g):
                    r = True
                    break
            self._reach[f.id] = r
        return r

    def mine(self, f):
        return base(f.cls) == self.own or not f.cls and f.file == self.file

    def inline(self, it, f, call, st):
        if f.kind == 'lambda':
            return 'full'
        if self.mine(f) and f.n not in self.saves:
            return 'full' if self.isfile or self.reaches(f) else False
        return False

    def note(self, st, *e):
        st2 = st.copy()
        old = st.ps or ()
        if old.count(e) < 2:
            st2.ps = old + (e,)
        return st2

    def recv_field(self, c):
        fr = c.frame
        i = c.recvn
        seen = 0
        while i is not None and i >= 0 and seen < 12:
            seen += 1
            n = fr.f.x[i]
            if n['k'] == 'mem':
                return n['f']
            if n['k'] in ('cast', 'paren') and n.get('a'):
                i = n['a'][0]
            elif n['k'] == 'un':
                i = n.get('s', n.get('a', [None])[0] if n.get('a') else None)
            elif n['k'] == 'call' and n.get('m') is not None:
                i = n['m']
            elif n['k'] == 'var':
                return n['n']
            else:
                return None
        return None

    def pre_call(self, it, c, st):
        q = c.qn or ''
        nm = q.rsplit('::', 1)[-1]
        cls = base(q.rsplit('::', 1)[0]) if '::' in q else ''
        if not (q.startswith('tkrzw') or nm in SYSCALLS):
            return None
        if nm == 'GetErrnoStatus':
            return [(st, ('c', 2))]
        if nm in self.saves and (cls == self.own or cls in ('tkrzw::PageCache',)):
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            return [(self.note(st, 'save', nm, vals, c.line), it.fresh(c.frame, c.i))]
        if nm == 'PWriteSequence' and self.isfile:
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            if any(self.field(v) == 'head_buffer_' for v in vals):
                return [(self.note(st, 'save', 'head_buffer_', vals, c.line), it.fresh(c.frame, c.i))]
        if nm == 'Flush' and self.isfile:
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            return [(self.note(st, 'save', 'Flush', vals, c.line), it.fresh(c.frame, c.i))]
        if nm in ('Synchronize', 'SynchronizeAdvanced') and c.recvn is not None and cls != self.own:
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            return [(self.note(st, 'sync', self.recv_field(c), self.isflag(it, vals[0], st), vals[1:], c.line), it.fresh(c.frame, c.i))]
        if nm == 'Close' and c.recvn is not None and cls != self.own:
            return [(self.note(st, 'close', self.recv_field(c), c.line), it.fresh(c.frame, c.i))]
        if nm == 'Process' and c.recvn is not None and 'FileProcessor' in q:
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            return [(self.note(st, 'proc', vals, c.line), ('c', 0))]
        if nm in SYSCALLS and self.isfile:
            return [(self.note(st, 'sys', nm, c.line), it.fresh(c.frame, c.i))]
        if nm == 'TruncateFile':
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            return [(self.note(st, 'trunc', vals, c.line), it.fresh(c.frame, c.i))]
        return None

    def isflag(self, it, v, st):
        """The value v is the flag hard of the caller on this path."""
        if v == HARD:
            return True
        t = it.truth(v, st.env)
        h = it.truth(HARD, st.env)
        if t is None:
            return None if v[0] != 's' or v[1] != 'i' else False
        return h is not None and t == h

    def on_branch(self, it, fr, cond, taken, st, line):
        neg = False
        while cond[0] == 'not':
            cond, neg = cond[1], not neg
        t = taken != neg
        e = None
        if cond in (HARD, PROC):
            e = ('is', cond[2], t)
        elif cond[0] == 'b' and cond[1] == '==' and PROC in cond[2:] and any(x[0] == 'c' for x in cond[2:]):
            e = ('is', 'proc', not t)
        elif cond[0] == 'b' and cond[1] == '==' and ('c', 0) in cond[2:] and any(self.field(x) in FLAGS for x in cond[2:]):
            e = ('is', [self.field(x) for x in cond[2:] if self.field(x)][0], not t)
        elif cond[0] == 's' and cond[1] == 'i' and len(cond[2]) == 2 and cond[2][0] == ('this',) and cond[2][1] in FLAGS:
            e = ('is', cond[2][1], t)
        elif 'open_options_' in repr(cond) and cond[0] == 'op' and cond[1] == '&' and ('c', self.synchard) in cond:
            e = ('is', 'SYNC_HARD', t)
        elif cond[0] == 'b' and cond[1] == '<' and cond[2] == ('c', 0) and cond[3][0] != 'c' and not t:
            e = ('empty',)
        if e is not None and e not in (st.ps or ()):
            st.ps = (st.ps or ()) + (e,)

    def field(self, v):
        return v[2][1] if v[0] == 's' and v[1] == 'i' and len(v[2]) == 2 and v[2][0] == ('this',) else None

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val, st))


def null(it, st, fld):
    """True, False or None: the pointer field is null on this path."""
    t = it.truth(('s', 'i', (('this',), fld)), st.env)
    return None if t is None else not t


def known(it, st, fld):
    return it.truth(('s', 'i', (('this',), fld)), st.env)


def run(ck):
    prog, summ = ck.load()
    ck.rule('Synchronize of every database, queue, update logger and file class is interpreted on all paths: whenever it may '
            'report success, everything which is kept in memory has been saved, the update logger and the layer below have '
            'been synchronized with the flag of the caller after that, and the processor (if any) was called once with the '
            'path after that. A file synchronizes its descriptor if the flag is set. Close likewise saves and closes the layer below.')
    cl = Client(prog, summ)
    cl.synchard = next(v['v'] for e in prog.enums.values() for v in e['vals'] if v['qn'] == 'tkrzw::File::OPEN_SYNC_HARD')
    it = interp.Interp(prog, cl, summ)
    it.CAP = it.EXITCAP = 64
    nroots = npaths = nsync = 0
    failed = []
    bad = {}
    samples = []
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        b = base(f.cls)
        if not f.has_body or f.kind != 'method' or f.n not in ('Synchronize', 'SynchronizeAdvanced', 'Close'):
            continue
        front = b not in DBMS and b not in FILES
        if front and (f.n == 'Close' or not f.ps or f.ps[0]['n'] != 'hard' or 'Status' not in f.ret or 'uture' in f.ret or b in EXEMPT):
            continue
        cl.isfile = b in FILES
        cl.own, cl.file = b, f.file
        cl._reach = {}
        saves, lower = DBMS.get(b, ((), None))
        have = {g.n for g in prog.funcs.values() if base(g.cls) == b}
        saves = tuple(s for s in saves if s in have)
        cl.saves = saves + (('SaveMetadata',) if b == 'tkrzw::SkipDBMImpl' and f.n == 'Close' else ())
        cl.exits = []
        it.steps = 0
        it.memo.clear()
        fields = {d['n'] for c in prog.classes if base(c) == b for d in prog.classes[c]['fields']}
        try:
            it.run_root(f, args={j: ('s', 'arg', p['n']) if not cl.isfile or p['n'] == 'hard' else ('c', 0) for j, p in enumerate(f.ps)})
        except interp.Budget:
            failed.append(f.qn)
            continue
        nroots += 1
        key = b.replace('tkrzw::', '') + '::' + f.n

        def v(text, line):
            bad.setdefault('%s|%s' % (key, text), ('%s %s' % (key, text), '%s:%d' % (f.file, line)))
        some = 0
        for ps, val, st in cl.exits:
            if front:
                for e in ps:
                    if e[0] == 'sync':
                        nsync += 1
                        some += 1
                        if e[2] is not True:
                            v('hands on another flag than that of its caller', e[4])
                        if any(p['n'] == 'proc' for p in f.ps) and not any('proc' in repr(x) for x in e[3]):
                            v('does not hand on the processor', e[4])
                continue
            if val is not None and it.truth(val, st.env) is True:
                continue
            npaths += 1
            if val is not None and val[0] == 'c' and not ps and b not in FILES and f.n == 'Close':
                continue
            evs = [e for e in ps if e[0] not in ('is', 'empty')]
            syncs = [(j, e) for j, e in enumerate(evs) if e[0] == 'sync']
            closes = [(j, e) for j, e in enumerate(evs) if e[0] == 'close']
            saved = {}
            for j, e in enumerate(evs):
                if e[0] == 'save':
                    saved.setdefault(e[1], j)
            inert = known(it, st, 'writable_') is False or known(it, st, 'open_') is False or \
                'read_only_' in fields and known(it, st, 'read_only_') is True
            if f.n.startswith('Synchronize'):
                for j, e in syncs:
                    nsync += 1
                    if e[2] is False:
                        v('synchronizes %s with another flag than that of its caller' % (e[1] or 'the layer below'), e[4])
                if b in FILES:
                    some += any(e[0] == 'sys' for e in evs)
                    if ('is', 'hard', False) not in ps and not any(e[0] == 'sys' for e in evs) and ('empty',) not in ps:
                        v('may report success without having synchronized the file though that was asked for', f.line)
                    for k in FILES[b]:
                        k2 = 'Flush' if k == 'page_cache_' else k
                        if k in fields and null(it, st, k) is not True and k2 not in saved:
                            v('may report success without having written %s to the file' % k, f.line)
                        sy = [j for j, e in enumerate(evs) if e[0] == 'sys']
                        if k2 in saved and sy and min(sy) < saved[k2]:
                            v('synchronizes the file before %s is written to it' % k, f.line)
                    continue
                if 'update_logger_' in fields and null(it, st, 'update_logger_') is not True and not inert and \
                        not any(e[1] == 'update_logger_' for j, e in syncs):
                    v('may report success without having synchronized the update logger', f.line)
                if inert:
                    continue
                some += 1
                for s in saves:
                    if s not in saved:
                        v('may report success without %s' % s, f.line)
                low = [(j, e) for j, e in syncs if e[1] != 'update_logger_']
                if b == 'tkrzw::ShardDBM':
                    if any(e[2] is not True for j, e in low):
                        v('does not hand the flag on to each shard', f.line)
                    continue
                if not low:
                    v('may report success without having synchronized the layer below', f.line)
                    continue
                last = max(j for j, e in low)
                if b == 'tkrzw::HashDBMImpl' and ('is', 'hard', True) in ps and 'SaveMetadata' in saved and \
                        min(j for j, e in low) > saved['SaveMetadata']:
                    v('writes the metadata before the records are synchronized', low[0][1][4])
                for s in saves:
                    if s in saved and saved[s] > last:
                        v('synchronizes the layer below before %s' % s, low[-1][1][4])
                if lower and not any(e[1] == lower for j, e in low):
                    v('synchronizes something else than %s' % lower, low[-1][1][4])
                handed = any(PROC in e[3] or ('p', (('S', PROC),)) in e[3] for j, e in low)
                procs = [j for j, e in enumerate(evs) if e[0] == 'proc']
                if any(p['n'] == 'proc' for p in f.ps) and not handed:
                    t = False if ('is', 'proc', False) in ps else None
                    if t is not False and len(procs) != 1:
                        v('calls the processor %d times' % len(procs), f.line)
                    elif t is False and procs:
                        v('calls a processor which is null', f.line)
                    if procs and (min(procs) < last or any(s in saved and saved[s] > min(procs) for s in saves)):
                        v('calls the processor before everything is synchronized', f.line)
            else:
                on = {e[1]: e[2] for e in ps if e[0] == 'is'}
                if b in FILES:
                    some += any(e[0] == 'sys' for e in evs)
                    if on.get('writable_') is False:
                        continue
                    if not any(e[0] == 'trunc' for e in evs):
                        v('may report success without having set the size of the file', f.line)
                    if on.get('SYNC_HARD') is True and ('empty',) not in ps and not any(e[0] == 'sys' for e in evs):
                        v('may report success without having synchronized the file though OPEN_SYNC_HARD was given', f.line)
                    for k in FILES[b]:
                        if k in fields and on.get(k) is not False and ('Flush' if k == 'page_cache_' else k) not in saved:
                            v('may report success without having written %s to the file' % k, f.line)
                    continue
                if on.get('open_') is False:
                    continue
                if lower and not any(e[1] == lower for j, e in closes):
                    v('may report success without having closed %s' % lower, f.line)
                if on.get('writable_') is False or on.get('healthy_') is False or on.get('read_only_') is True or not evs:
                    continue
                some += 1
                need = saves
                if b == 'tkrzw::SkipDBMImpl' and on.get('updated_') is False:
                    need = ('SaveMetadata',)
                for k in need:
                    if k not in saved:
                        v('may report success without %s' % k, f.line)
                    elif any(j < saved[k] for j, e in closes if e[1] == lower):
                        v('closes the layer below before %s' % k, f.line)
        samples.append('%s: %d paths' % (key, len(cl.exits)))
        if not some and b not in ('tkrzw::ShardDBM', 'tkrzw::DBMUpdateLoggerDBM', 'tkrzw::DBMUpdateLoggerMQ'):
            v('never synchronizes anything' if f.n != 'Close' else 'never saves anything', f.line)
    for k, (text, where) in sorted(bad.items()):
        ck.violation(k, text, where)
    ck.count('functions', nroots, 40)
    ck.count('successful paths', npaths, 40)
    ck.count('synchronizations seen', nsync, 20)
    ck.sample('functions', samples)
    ck.need(len(failed) <= 3, 'functions which could not be followed: %s' % failed[:5])
