"""C11: a file which is rebuilt, restored or exported is replaced only by a complete one, and temporary files do not stay."""
import interp

THIS = ('this',)


class Client(interp.Client):
    relfacts = True

    def __init__(self, prog, summ):
        self.p, self.s = prog, summ
        self.cache = {}

    def touches(self, f):
        r = self.cache.get(f.id)
        if r is None:
            self.cache[f.id] = False
            r = False
            for n in f.x:
                if n['k'] != 'call':
                    continue
                nm = (n.get('qn') or '').rsplit('::', 1)[-1]
                g = self.p.funcs.get(n.get('fn') or '')
                if nm in ('RenameFile', 'Rename', 'RemoveFile', 'RestoreDatabase') or \
                        g is not None and g.has_body and g.cls == self.cls and not self.renames(g) and self.touches(g):
                    r = True
                    break
            self.cache[f.id] = r
        return r

    def renames(self, f):
        return any(n['k'] == 'call' and (n.get('qn') or '').rsplit('::', 1)[-1] in ('RenameFile', 'Rename') and
                   (n.get('qn') or '').startswith('tkrzw') for n in f.x)

    def inline(self, it, f, call, st):
        if f.kind == 'lambda':
            return 'full'
        if (f.cls == self.cls and self.cls or not f.cls and f.file == self.file) and \
                f.n not in ('RestoreDatabase', 'RenameFile', 'RemoveFile') and not self.renames(f) and self.touches(f):
            return 'full'
        return False

    def strfields(self, f, op):
        r = set()
        for x in f.x:
            if x['k'] == 'call' and (x.get('qn') or '').endswith('::' + op):
                i = x.get('m')
                if i is None and x.get('a'):
                    i = x['a'][0]
                m = f.x[i] if i is not None and i >= 0 else {}
                if m.get('k') == 'mem' and m.get('f') == 'cipher_key_':
                    r.add(m['f'])
        return r

    def ev(self, st, *e):
        st2 = st.copy()
        if e not in (st.ps or ()):
            st2.ps = (st.ps or ()) + (e,)
        return st2

    def recv(self, c):
        fr, i, seen = c.frame, c.recvn, 0
        while i is not None and i >= 0 and seen < 20:
            seen += 1
            n = fr.f.x[i]
            if n['k'] == 'mem':
                return n['f']
            if n['k'] in ('cast', 'paren', 'idx') and n.get('a'):
                i = n['a'][0]
            elif n['k'] == 'un':
                i = n.get('s', n.get('a', [None])[0] if n.get('a') else None)
            elif n['k'] == 'call':
                i = n['m'] if n.get('m') is not None else (n['a'][0] if n.get('a') else None)
            elif n['k'] == 'var':
                return n['n']
            else:
                return None
        return None

    def fail(self, it, c, st, nm, r):
        v = it.fresh(c.frame, c.i, 'bad')
        st2 = self.ev(st, 'bad', nm, r, c.line, v)
        if st2 is st:
            st2 = st.copy()
        st2.env.pop(('F', v), None)
        it.setfact(st2.env, v, 0, False)
        return (st2, v)

    def pre_call(self, it, c, st):
        q = c.qn or ''
        nm = q.rsplit('::', 1)[-1]
        if not q.startswith('tkrzw'):
            return None
        ps = st.ps or ()

        def arg(j):
            return it.argval(c, j, st.env) if j < len(c.args) else None
        fresh = it.fresh(c.frame, c.i)
        h = self.p.funcs.get(c.frame.f.x[c.i].get('fn') or '')
        if h is not None and h.has_body and h.cls == self.cls and self.cls:
            for fld in self.strfields(h, 'clear'):
                if ('cleared', fld, h.n) not in (st.ps or ()):
                    st.ps = (st.ps or ()) + (('cleared', fld, h.n),)
            for fld in self.strfields(h, 'operator='):
                st.ps = tuple(e for e in st.ps or () if e[:2] != ('cleared', fld))
            ps = st.ps or ()
        if nm == 'RemoveFile':
            self.lines.setdefault(('remove', arg(0)), c.line)
            return [(self.ev(st, 'remove', arg(0), c.line), fresh)]
        if nm in ('RenameFile', 'Rename'):
            src, dst = (arg(0), arg(1)) if nm == 'RenameFile' else (self.recv(c), arg(0))
            self.sites.add((c.frame.f.qn, c.line))
            return [(self.ev(st, 'rename', src, dst, c.line), ('c', 0)),
                    (self.ev(st, 'norename', src, dst, c.line), ('c', 2))]
        if nm == 'GetErrnoStatus':
            return [(st, ('c', 2))]
        g = self.p.funcs.get(c.fn or '') if hasattr(c, 'fn') else None
        if nm == 'RestoreDatabase' or nm in ('WriteFile', 'WriteFileAtomic'):
            t = arg(1) if nm == 'RestoreDatabase' else arg(0)
            if nm == 'RestoreDatabase' and len(c.args) >= 3:
                kv = arg(len(c.args) - 1)
                fld = kv[2][1] if kv[0] == 's' and kv[1] == 'i' and len(kv[2]) == 2 and kv[2][0] == THIS else None
                self.keys.append((c.frame.f, kv, c.line, next((e[2] for e in ps if e[0] == 'cleared' and e[1] == fld), None)))
            st = self.ev(st, 'create', t, None, c.line)
            return [(st, ('c', 0)), self.fail(it, c, st, nm, None)]
        if nm == 'SynchronizeFile':
            return [(self.ev(st, 'syncfile', arg(0), c.line), ('c', 0)),
                    self.fail(it, c, st, nm, None)]
        if nm in ('Open', 'OpenAdvanced') and c.recvn is not None:
            r = self.recv(c)
            return [(self.ev(st, 'create', arg(0), r, c.line), ('c', 0)), self.fail(it, c, st, nm, r)]
        if nm == 'Synchronize' and c.recvn is not None:
            r = self.recv(c)
            st = self.ev(st, 'sync', r, arg(0), c.line)
            return [(st, ('c', 0)), self.fail(it, c, st, nm, r)]
        ret = self.ret(c)
        if ret == 'tkrzw::Status' and nm not in ('Status', 'operator|=', 'operator=') and any(e[0] == 'create' for e in ps) and \
                not any(e[0] == 'rename' for e in ps):
            if self.inlined(c):
                return None
            r = self.recv(c) if c.recvn is not None else None
            s0 = st
            if nm == 'Close':
                s0 = self.ev(st, 'close', r, c.line)
            return [(s0, ('c', 0)), self.fail(it, c, st, nm, r)]
        return None

    def ret(self, c):
        n = c.frame.f.x[c.i]
        g = self.p.funcs.get(n.get('fn') or '')
        if g is None:
            g = next((self.p.funcs[o] for o in self.p.overriders.get(n.get('fn') or '', []) if o in self.p.funcs), None)
        return g.ret.replace('const ', '') if g is not None else None

    def inlined(self, c):
        n = c.frame.f.x[c.i]
        g = self.p.funcs.get(n.get('fn') or '')
        return g is not None and g.has_body and self.inline(None, g, None, None) == 'full'

    def on_branch(self, it, fr, cond, taken, st, line):
        neg = False
        while cond[0] == 'not':
            cond, neg = cond[1], not neg
        t = taken != neg
        if cond[0] == 'b' and cond[1] == '==' and t and any(x[0] == 'c' and x[1] != 0 for x in cond[2:]):
            st.ps = tuple(e for e in st.ps or () if not (e[0] == 'bad' and e[4] in cond[2:]))
        if cond == ('s', 'arg', 'sync_hard') or cond[0] == 'op' and cond[1] == '&' and ('c', self.hardsync) in cond:
            e = ('hard', t)
            if e not in (st.ps or ()):
                st.ps = (st.ps or ()) + (e,)

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val, st))


def run(ck):
    prog, summ = ck.load()
    ck.rule('All functions which put a file in the place of another one are interpreted with every Status-returning call succeeding '
            'and failing: nothing that makes the new file may have failed when it is renamed, a failing function removes the '
            'temporary file, the live path is never removed, with hard synchronization the new file is hardened before it is '
            'renamed and the replacement after it, and the restoration gets the cipher key.')
    cl = Client(prog, summ)
    cl.sites = set()
    cl.hardsync = next(v['v'] for e in prog.enums.values() for v in e['vals'] if v['n'] == 'RESTORE_WITH_HARDSYNC')
    it = interp.Interp(prog, cl, summ)
    it.CAP = it.EXITCAP = 64
    failed, bad, nroots, npaths, nren, nhard, nkeys = [], {}, 0, 0, 0, 0, 0
    samples = []
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if not f.has_body or f.kind == 'lambda' or not cl.renames(f) or f.n in ('Rename', 'RenameFile') or f.n == 'RenameDirectory':
            continue
        if 'witness' in f.file or f.n == 'main' or f.file.endswith('_util.cc') and 'dbm_util' in f.file:
            continue
        cl.cls, cl.file = f.cls, f.file
        cl.cache = {}
        cl.exits, cl.lines, cl.keys = [], {}, []
        it.steps = 0
        it.memo.clear()
        try:
            it.run_root(f, args={j: ('s', 'arg', p['n']) for j, p in enumerate(f.ps)})
        except interp.Budget:
            failed.append(f.qn)
            continue
        nroots += 1
        key = f.qn.replace('tkrzw::', '')
        samples.append('%s: %d paths' % (key, len(cl.exits)))

        def v(text, line):
            bad.setdefault('%s|%s' % (key, text), ('%s %s' % (key, text), '%s:%d' % (f.file, line)))
        tmps, live, robj = set(), set(), set()
        for ps, val, st in cl.exits:
            for e in ps:
                if e[0] in ('rename', 'norename'):
                    live.add(e[2])
                    if isinstance(e[1], str):
                        robj.add(e[1])
                    elif e[1] is not None:
                        tmps.add(e[1])
        tmps -= live
        for ps, val, st in cl.exits:
            for e in ps:
                if e[0] == 'create' and e[1] in live:
                    continue
                if e[0] == 'create' and e[2] in robj:
                    tmps.add(e[1])
                elif e[0] == 'create' and e[2] is not None and e[1] in tmps:
                    robj.add(e[2])
        hard_after = hard_any = False
        for ps, val, st in cl.exits:
            npaths += 1
            fails = val is not None and it.truth(val, st.env) is True
            made = {}
            ren = None
            dbs = {}
            for j, e in enumerate(ps):
                if e[0] == 'create' and e[1] in tmps:
                    made[e[1]] = e[3]
                    if e[2] is not None:
                        dbs[e[2]] = False
                elif e[0] == 'remove':
                    if e[1] in live:
                        v('removes the live file', e[2])
                    made.pop(e[1], None)
                elif e[0] in ('rename', 'norename'):
                    nren += 1
                    ren = j
                    for b in ps[:j]:
                        if b[0] != 'bad' or b[2] == 'file_' and 'file_' not in dbs:
                            continue
                        if not any(x[0] == 'create' and x[1] in tmps for x in ps[:ps.index(b)]) and b[1] not in ('RestoreDatabase', 'WriteFile'):
                            continue
                        v('may replace the live file though %s has failed' % b[1], e[3])
                    if e[0] == 'rename':
                        made.clear()
                    hards = [h for h in ps if h[0] == 'hard']
                    if ('hard', True) in hards:
                        hard_any = True
                        nhard += 1
                        if not any(x[0] == 'sync' and x[2] == ('c', 1) and x[1] == e[1] or x[0] == 'syncfile' and x[1] == e[1] for x in ps[:j]):
                            v('replaces the live file before the new one is hardened', e[3])
                        if any(x[0] == 'syncfile' for x in ps[j:]):
                            hard_after = True
            if fails and made:
                for t, line in made.items():
                    v('may fail and leave the temporary file made at the call in this function', line)
            if not fails and val is not None and it.truth(val, st.env) is False and ren is None and made and f.n not in ('Open',):
                v('may succeed and leave the temporary file', list(made.values())[0])
        if hard_any and not hard_after:
            v('does not harden the replacement of the live file', f.line)
        for g, val, line, cleared in cl.keys:
            nkeys += 1
            if val == ('str', ''):
                v('restores with an empty cipher key', line)
            if val[0] == 's' and val[1] == 'i' and len(val[2]) == 2 and val[2][0] == THIS and cleared:
                v('restores with a cipher key which %s has cleared' % cleared, line)
    for k, (text, where) in sorted(bad.items()):
        ck.violation(k, text, where)
    ck.count('functions', nroots, 8)
    ck.count('paths', npaths, 100)
    ck.count('renaming sites', len(cl.sites), 12)
    ck.count('paths with a replacement', nren, 30)
    ck.count('hardened replacements', nhard, 4)
    ck.count('keys of restorations', nkeys, 2)
    ck.sample('functions', samples)
    ck.need(len(failed) <= 2, 'functions which could not be followed: %s' % failed[:5])
