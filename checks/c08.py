"""C08: a failing system call makes the operation fail."""
import interp

NEG = ('c', -1)
# name -> value which tells of the failure
CALLS = {n: NEG for n in ('open', 'open64', 'close', 'read', 'write', 'pread', 'pread64', 'pwrite', 'pwrite64', 'ftruncate', 'ftruncate64', 'mmap',
                          'mmap64', 'mremap', 'munmap', 'msync', 'fsync', 'fdatasync', 'sync_file_range', 'rename', 'unlink', 'remove', 'rmdir',
                          'mkdir', 'closedir', 'fstat', 'fstat64', 'stat', 'stat64', 'lstat', 'lstat64', 'lseek', 'lseek64', 'fcntl', 'fcntl64',
                          'truncate', 'truncate64', 'fallocate', 'posix_fallocate', 'copy_file_range', 'sendfile', 'sendfile64')}
CALLS.update({'opendir': ('c', 0), 'realpath': ('c', 0)})
OKVAL = {'close', 'ftruncate', 'munmap', 'msync', 'fsync', 'fdatasync', 'sync_file_range', 'rename', 'unlink', 'remove', 'rmdir', 'mkdir', 'closedir',
         'fstat', 'stat', 'lstat', 'truncate', 'fallocate', 'posix_fallocate'}
STREAM = ('open', 'close', 'read', 'write', 'seekg', 'seekp', 'tellg', 'tellp', 'flush', 'put', 'get')
ERRNO = ('errno',)
# Calls which may do a part of what was asked, and the arguments which tell where.
PARTIAL = {'pread': (1, 3), 'pread64': (1, 3), 'pwrite': (1, 3), 'pwrite64': (1, 3), 'write': (1,), 'sendfile': (), 'sendfile64': ()}


class Client(interp.Client):
    relfacts = True

    def __init__(self, prog, summ):
        self.p, self.s = prog, summ
        self.cache = {}

    def site(self, n):
        q = n.get('qn') or ''
        if q in CALLS:
            return q
        b, _, m = q.rpartition('::')
        if m in STREAM and b.startswith('std::') and ('fstream' in b or 'istream' in b or 'ostream' in b):
            return 'stream.' + m
        return None

    def relevant(self, f):
        r = self.cache.get(f.id)
        if r is None:
            self.cache[f.id] = r = False
            for n in f.x:
                if n['k'] == 'call':
                    if self.site(n):
                        r = True
                    else:
                        g = self.p.funcs.get(n.get('fn') or '')
                        if g is not None and g.has_body and self.inner(f, g) and self.relevant(g):
                            r = True
                    if r:
                        break
            self.cache[f.id] = r
        return r

    def inner(self, f, g):
        """Helpers whose system calls are those of the caller."""
        return g.id != f.id and ('Status' not in (g.ret or '') or g.kind == 'lambda')

    def inline(self, it, f, call, st):
        if f.kind == 'lambda':
            return 'full'
        if call is not None and self.relevant(f) and self.inner(call.frame.f, f):
            return 'full'
        return False

    def failed(self, st):
        return any(e[0] == 'F' for e in st.ps or ())

    def split(self, it, c, st, name, okval, badval):
        self.sites.add((c.frame.f.qn, name, c.line))
        if self.failed(st):
            return [(st, okval)]
        st2 = st.copy()
        st2.ps = (st.ps or ()) + (('F', name, c.frame.f.qn, c.line),)
        if name.startswith('stream.'):
            st2.ps += (('bad',),)
        st2.env[(ERRNO,)] = it.fresh(c.frame, c.i + 500000)
        return [(st, okval), (st2, badval)]

    def pre_call(self, it, c, st):
        q = c.qn or ''
        if q in ('__errno_location', '__error'):
            return [(st, ('p', (ERRNO,)))]
        name = self.site({'qn': q})
        if name is None:
            nm = q.rsplit('::', 1)[-1]
            if q.startswith('std::') and ('fstream' in q or 'basic_ios' in q or 'ios_base' in q):
                bad = ('bad',) in (st.ps or ())
                if nm in ('good', 'operator bool'):
                    return [(st, ('c', 0 if bad else 1))]
                if nm in ('fail', 'bad', 'operator!'):
                    return [(st, ('c', 1 if bad else 0))]
                if nm == 'clear':
                    st.ps = tuple(e for e in st.ps or () if e != ('bad',))
            elif nm == 'GetErrnoStatus' and q.startswith('tkrzw'):
                return [(st, ('c', 2))]
            return None
        if name.startswith('stream.'):
            return self.split(it, c, st, name, it.fresh(c.frame, c.i), NEG if 'tell' in name else it.fresh(c.frame, c.i))
        ok = ('c', 0) if name.replace('64', '') in OKVAL else ('c', 1000000 + c.line)
        if name in PARTIAL:
            k = ('N', name, c.frame.f.qn, c.line)
            vals = tuple(it.argval(c, i, st.env) for i in PARTIAL[name])
            for e in st.ps or ():
                if e[:4] == k:
                    for a, b in zip(e[5], vals):
                        if a == b and a[0] != 'c' and 'phi' not in repr(a):
                            self.bad[k[1:]] = 'may go on at the same place after a partial %s' % name
            st.ps = tuple(e for e in st.ps or () if e[:4] != k and e[0] != 'A')
            r = self.split(it, c, st.copy(), name, ok, CALLS[name])
            r[0][0].ps = (r[0][0].ps or ()) + (k + (ok, vals),)
            return r + ([(st.copy(), ('c', 0))] if 'read' in name else [])
        if name == 'read':
            return self.split(it, c, st, name, ok, CALLS[name]) + [(st.copy(), ('c', 0))]
        if name in ('lseek', 'lseek64'):
            ok = it.fresh(c.frame, c.i)
            r = self.split(it, c, st, name, ok, CALLS[name])
            return r
        if name.startswith('fcntl'):
            ok = ('c', 0)
        return self.split(it, c, st, name, ok, CALLS[name])

    def used(self, st, val, n=0):
        """The count of a partial transfer is taken into account."""
        for e in st.ps or ():
            if e[0] == 'N' and ('A',) not in st.ps and val[0] in ('op', 'b') and e[4] in val[2:] and any(x[0] != 'c' for x in val[2:]) and \
                    not (val[0] == 'op' and val[1] == '+' and any(x in e[5] for x in val[2:])):
                st.ps += (('A',),)
                break

    def on_write(self, it, fr, path, val, st, line):
        self.used(st, val)

    def on_branch(self, it, fr, cond, taken, st, line):
        neg = False
        self.used(st, cond[1] if cond[0] == 'not' else cond)
        while cond[0] == 'not':
            cond, neg = cond[1], not neg
        if cond[0] == 'b' and cond[1] == '==' and taken != neg:
            e = st.env.get((ERRNO,))
            for x, y in ((cond[2], cond[3]), (cond[3], cond[2])):
                if x == e and y[0] == 'c' and y[1] > 0:
                    self.answered.update((n[1], n[2], n[3]) for n in st.ps or () if n[0] == 'F')
                    st.ps = tuple(n for n in st.ps or () if n[0] != 'F')

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val, st))


def run(ck):
    prog, summ = ck.load()
    ck.rule('Every function which returns a status and makes system calls or file stream operations, itself or through helpers without a status, is '
            'interpreted with each call failing: unless the code compares errno with a particular error, no path from there returns success. '
            'After a transfer of a part of the data, buffer and offset move and the count is taken into account.')
    cl = Client(prog, summ)
    cl.sites, cl.answered, cl.bad = set(), set(), {}
    it = interp.Interp(prog, cl, summ)
    it.CAP = it.EXITCAP = 64
    failed, bad, nroots, npaths, nfail, npart = [], {}, 0, 0, 0, 0
    direct = set()
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.has_body or not f.file.startswith('tkrzw_') or f.kind == 'lambda' or 'Status' not in (f.ret or '') or not cl.relevant(f):
            continue
        cl.exits = []
        it.steps = 0
        it.memo.clear()
        try:
            it.run_root(f)
        except interp.Budget:
            failed.append(f.qn)
            continue
        nroots += 1
        for ev, val, st in cl.exits:
            npaths += 1
            N = [e for e in ev if e[0] == 'N']
            if N:
                npart += 1
                if ('A',) not in ev and (val is None or it.truth(val, st.env) is not True):
                    cl.bad.setdefault(N[0][1:4], 'may take a partial %s for a complete one' % N[0][1])
            F = [e for e in ev if e[0] == 'F']
            if F:
                nfail += 1
                if val is None or it.truth(val, st.env) is not True:
                    e = F[0]
                    q = f.qn.replace('tkrzw::', '')
                    bad.setdefault('%s|success after %s failed' % (q, e[1]),
                                   ('%s may return success although %s failed' % (q, e[1]), '%s:%d' % (prog_file(prog, e[2], f), e[3])))
    for (name, qn, line), text in cl.bad.items():
        bad['%s|%s' % (qn, text)] = ('%s %s' % (qn.replace('tkrzw::', ''), text), '%s:%d' % (prog_file(prog, qn, f), line))
    for k, (text, where) in sorted(bad.items()):
        ck.violation(k, text, where)
    # System calls elsewhere must not be out of sight.
    out = set()
    for f in prog.funcs.values():
        if f.has_body and f.file.startswith('tkrzw_'):
            for n in f.x:
                if n['k'] == 'call' and cl.site(n) and not any(s[0] == f.qn for s in cl.sites):
                    out.add('%s: %s' % (f.qn.replace('tkrzw::', ''), cl.site(n)))
    ck.sample('calls in functions without a status (not claimed)', sorted(out))
    ck.sample('calls', sorted('%s: %s line %d' % (a.replace('tkrzw::', ''), b, c) for a, b, c in cl.sites))
    ck.sample('failures answered by their error number', sorted('%s: %s' % (b.replace('tkrzw::', ''), a) for a, b, c in cl.answered))
    ck.count('functions', nroots, 30)
    ck.count('calls_made_to_fail', len(cl.sites), 80)
    ck.count('paths', npaths, 300)
    ck.count('failing_paths', nfail, 120)
    ck.count('paths_with_partial_transfers', npart, 6)
    ck.need(len(failed) <= 2, 'functions which could not be followed: %s' % failed[:5])


def prog_file(prog, qn, f):
    return next((g.file for g in prog.funcs.values() if g.qn == qn), f.file)
