"""C05: record processors are called under a lock which excludes every conflicting call for the same record."""
import interp
import lockrun
import locks

PROC = ('tkrzw::DBM::RecordProcessor::ProcessFull', 'tkrzw::DBM::RecordProcessor::ProcessEmpty',
        'tkrzw::CallRecordProcessFull', 'tkrzw::CallRecordProcessEmpty')
APPEND = ('tkrzw::DBM::UpdateLogger::WriteSet', 'tkrzw::DBM::UpdateLogger::WriteRemove')


class Client(lockrun.Client):
    def __init__(self, *a):
        super().__init__(*a)
        self.sites = {}
        self.byfile = {}
        for f in self.p.funcs.values():
            if f.cls in self.p.classes:
                self.byfile.setdefault(f.file, set()).add(f.cls)
        self.multi = {}

    def inline(self, it, f, call, st):
        if f.cls and f.cls.startswith(locks.REPO_MUTEX):
            return False
        if f.kind == 'lambda' or f.id in self.netwrap or self.raii(f):
            return 'full'
        if f.id not in self.relevant:
            return False
        return 'canon' if locks.comp(f) == self.comp or f.file == 'tkrzw_thread_util.h' else False

    def name_of_node(self, fr, i):
        nm = super().name_of_node(fr, i)
        if nm.startswith('tkrzw::ScopedHashLock'):
            # taken by an iterator: the record locks of its database
            own = {c + '::' + f['n'] for c in self.byfile.get(self.root.file.replace('.h', '.cc'), ()) for f in self.p.classes[c]['fields']
                   if 'HashMutex' in f['ty']}
            if len(own) == 1:
                return own.pop()
        return nm

    def mode(self, it, fr, st):
        """Value of the parameter "writable" of the operation around."""
        g = fr
        while g is not None:
            for p in g.f.ps:
                if p['ty'] == 'bool' and p['n'] == 'writable':
                    v = it.rd((('L', g.depth, p['d']),), st.env) if g is fr else None
                    if v is not None:
                        t = it.truth(v, st.env)
                        if t is not None:
                            return bool(t)
            g = g.site[0] if g.site else None
        return self.rootmode

    def pre_call(self, it, c, st):
        q = c.qn
        if q in PROC or q in APPEND:
            # ends and announcements of iterations do not concern a record
            vals = [it.argval(c, j, st.env) for j in range(len(c.args))]
            announce = any(isinstance(v, tuple) and v[:2] == ('s', 'i') and v[2][0][0] == 'G' for v in vals)
            if not announce:
                w = self.mode(it, c.frame, st)
                held = frozenset((h[2], h[1]) for h in st.ps if h[1] in ('X', 'S') and h[2] != '<private>')
                kind = 'log' if q in APPEND else 'proc'
                self.sites.setdefault((self.family(c.frame.f), kind), {}).setdefault((w, held), {}).setdefault(
                    (self.root.qn, c.frame.f.file, c.line), lockrun.chain(c.frame))
                if kind == 'proc' and self.ismulti(c.frame):
                    self.multi.setdefault(self.root.qn, 0)
                    self.multi[self.root.qn] += 1
                    rel = [h for h in st.ps if h[1] == 'r' and self.recordlock(h[2])]
                    if rel:
                        self.found.append(('multi', c.frame.f.qn, rel[0][2], c.frame.f.file, c.line, lockrun.chain(c.frame), self.root.qn))
        return super().pre_call(it, c, st)

    def ismulti(self, fr):
        while fr is not None:
            f = fr.f
            if f.qn.endswith('::ProcessMulti') or any('vector<' in p['ty'] and 'RecordProcessor' in p['ty'] for p in f.ps):
                return True
            fr = fr.site[0] if fr.site else None
        return False

    def recordlock(self, name):
        return not name.startswith('tkrzw::SpinMutex')

    def release(self, it, fr, st, path, mode, name, line):
        super().release(it, fr, st, path, mode, name, line)
        if self.ismulti(fr):
            st.ps = st.ps | {(path, 'r', name, None)}

    def root_impl(self, f):
        return f.cls or f.qn

    def family(self, f):
        return f.file.rsplit('.', 1)[0].split('_dbm_')[-1] + (':map' if 'StdDBMImpl<std::map' in self.root_impl(f) else '')


def protected(h1, h2):
    for n1, m1 in h1:
        for n2, m2 in h2:
            if n1.split('#')[0] == n2.split('#')[0] and 'X' in (m1, m2):
                return True
    return False


def analyse(ck):
    prog, summ = ck.load()
    cl = Client(prog, summ, ck, True)
    calls = {f.id for f in prog.funcs.values() if any(n.get('k') == 'call' and n.get('qn') in PROC + APPEND for n in f.x)}
    cl.relevant = summ.closure(calls) | cl.lock_closure
    files = ('hash', 'tree', 'skip', 'tiny', 'baby', 'cache', 'std')
    roots = [f for f in lockrun.roots_of(prog) if any(f.file.startswith('tkrzw_dbm_%s.' % x) for x in files)
             and f.id in summ.closure(calls) and 'unordered_map' not in f.qn]
    it = interp.Interp(prog, cl, summ)
    it.CAP = 4
    it.BUDGET = 400000
    failed = []
    for f in roots:
        wp = [p for p in f.ps if p['n'] == 'writable' and p['ty'] == 'bool']
        for w in ((True, False) if wp else (None,)):
            cl.root, cl.rootmode = f, w
            it.steps = 0
            it.memo.clear()
            try:
                it.run_root(f, args={j: ('c', 1 if w else 0) for j, p in enumerate(f.ps) if p in wp})
            except interp.Budget:
                failed.append(f.qn)
    return cl, it, roots, failed


def owner(held):
    """The class of the database whose locks are held (the template arguments matter for the standard containers)."""
    return {n.split('#')[0].rsplit('::', 1)[0] for n, m in held if n.endswith('::mutex_') and 'DBMImpl' in n}


def run(ck):
    ck.rule('Every operation of the seven database classes is interpreted with the set of locks held. At each call of a record '
            'processor and each record-level call of the update logger the set is recorded with the mode of the operation '
            '(modifying or not). Any two modifying sites, and any modifying and any reading site, of one class must hold a common '
            'lock, one of them exclusively: otherwise two threads can be inside processors of one record at once. In '
            'ProcessMulti no record lock may be released before a later call of a processor.')
    cl, it, roots, failed = analyse(ck)
    ck.count('operations interpreted', len(roots), 60)
    ck.need(len(failed) <= 3, 'budget exceeded in %s' % ', '.join(failed[:5]))
    nsites = npairs = 0
    rows = []
    guards = set()
    for (fam, kind), d in sorted(cl.sites.items()):
        items = sorted(d.items(), key=str)
        nsites += sum(len(x) for _, x in items)
        for (w, h), _ in items:
            guards |= {n for n, m in h}
        reported = set()
        for a in range(len(items)):
            for b in range(a, len(items)):
                (w1, h1), s1 = items[a]
                (w2, h2), s2 = items[b]
                if w1 is False and w2 is False and kind == 'proc':
                    continue
                if owner(h1) and owner(h2) and not owner(h1) & owner(h2):
                    continue
                npairs += 1
                if protected(h1, h2):
                    continue
                # the weaker one is to blame: the one with fewer partners it is protected against
                def weak(h):
                    return (sum(1 for (w, x), _ in items if protected(h, x)), len(h))
                s, h, o = (s1, h1, h2) if weak(h1) <= weak(h2) else (s2, h2, h1)
                for (root, file, line), ch in sorted(s.items()):
                    fn = ch.split(' <- ')[0]
                    k = '%s:%s:%s:%s' % (fam, kind, root.replace('tkrzw::', ''), fn)
                    if k in reported:
                        continue
                    reported.add(k)
                    ck.violation(k, '%s calls %s holding only {%s}; another call for the same record can run at the same time holding {%s} (%s)' % (
                        fn, 'the record processor' if kind == 'proc' else 'the update logger',
                        ', '.join('%s:%s' % x for x in sorted(h)), ', '.join('%s:%s' % x for x in sorted(o)), ch), '%s:%d' % (file, line))
        rows.append('%s %s: %s' % (fam, kind, '; '.join('%s{%s}' % ({True: 'w', False: 'r', None: '?'}[w], ', '.join(
            sorted(n + ':' + m for n, m in h))) for (w, h), _ in items)))
    ck.sample('locks_held', rows)
    ck.count('call sites with their lock sets', nsites, 60)
    ck.count('pairs of conflicting sites', npairs, 30)
    ck.count('calls of processors in ProcessMulti', sum(cl.multi.values()), 10)
    seen = set()
    for x in cl.found:
        if x[0] == 'multi' and x[2] in guards:
            k = 'multi:%s:%s' % (x[6].replace('tkrzw::', ''), x[2].replace('tkrzw::', ''))
            if k not in seen:
                seen.add(k)
                ck.violation(k, '%s has released %s before it calls a later record processor (%s)' % (x[6], x[2], x[5]), '%s:%d' % (x[3], x[4]))
