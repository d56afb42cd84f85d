"""Whole-program summaries: resolved call graph, field modification sets, relevance closures."""
from fa import fa, ASSIGN

TRIV_MAX = 40


class Summ:
    def __init__(self, prog):
        self.p = prog
        self._callees = {}
        self._dmods = {}
        self._mods = None
        self._triv = {}
        self._lw = {}

    def direct_calls(self, f):
        """[(node index, node, [callee ids])]; virtual calls resolve to every override."""
        r = self._callees.get(f.id)
        if r is None:
            r = []
            for i, n in enumerate(f.x):
                k = n.get('k')
                if k in ('call', 'ctor') and n.get('fn'):
                    c = [n['fn']]
                    if n.get('virt') and not n.get('nonvirt'):
                        c = c + self.p.overriders.get(n['fn'], [])
                    r.append((i, n, c))
                elif k == 'lambda':
                    r.append((i, n, [n['fn']]))
                elif k == 'fref' and n.get('fn'):
                    r.append((i, n, [n['fn']]))
                elif k == 'delete':
                    d = self.dtors().get(n.get('dt', ''))
                    if d:
                        r.append((i, n, [d.id]))
            for b in f.blocks.values():
                for e in b['e']:
                    t = None
                    if e[0] == 'd':
                        t = e[2]
                    elif e[0] == 'm':
                        t = e[2]
                    elif e[0] == 't':
                        t = f.x[e[1]].get('ty')
                    if t:
                        d = self.dtors().get(t)
                        if d:
                            r.append((-1, {'k': 'dtor'}, [d.id]))
            self._callees[f.id] = r
        return r

    def dtors(self):
        c = getattr(self, '_dtors', None)
        if c is None:
            c = self._dtors = {f.cls: f for f in self.p.funcs.values() if f.kind == 'dtor'}
        return c

    def callees(self, fid):
        f = self.p.funcs.get(fid)
        if f is None:
            return set()
        out = set()
        for _, _, cs in self.direct_calls(f):
            out.update(cs)
        return out

    def direct_callees(self, fid):
        """Callees the interpreter can resolve: no fan-out over overriders."""
        f = self.p.funcs.get(fid)
        out = set()
        if f is None:
            return out
        for i, n, cs in self.direct_calls(f):
            if n.get('virt') and not n.get('nonvirt'):
                c = [x for x in cs if x in self.p.funcs]
                if len(c) == 1:
                    out.add(c[0])
            else:
                out.update(cs)
        return out

    def reverse_direct(self):
        c = getattr(self, '_revd', None)
        if c is None:
            c = {}
            for fid in self.p.funcs:
                for k in self.direct_callees(fid):
                    c.setdefault(k, set()).add(fid)
            self._revd = c
        return c

    def closure(self, pred_fids, virtual=False):
        """Functions from which some function in pred_fids is reachable (including themselves)."""
        rev = self.reverse() if virtual else self.reverse_direct()
        seen = set(pred_fids)
        st = list(seen)
        while st:
            y = st.pop()
            for c in rev.get(y, ()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return seen

    def reverse(self):
        c = getattr(self, '_rev', None)
        if c is None:
            c = {}
            for fid in self.p.funcs:
                for k in self.callees(fid):
                    c.setdefault(k, set()).add(fid)
            self._rev = c
        return c

    def dmods(self, f):
        m = self._dmods.get(f.id)
        if m is None:
            m = set()
            A = fa(f)
            for i, n in enumerate(f.x):
                if n.get('k') == 'mem':
                    k = A.access_kind(i)
                    if k in ('w', 'rw', 'x', 'a'):
                        m.add(n['f'])
                        self._outer(f, i, m)
                    elif k == 'c':
                        # method call on a member object: std containers and the like are modified
                        p = A.parent[i]
                        q = f.x[p].get('qn', '')
                        if not q.startswith('tkrzw::') and not self._harmless(q):
                            m.add(n['f'])
            for b in f.blocks.values():
                for e in b['e']:
                    if e[0] == 'i' and 'f' in e[1] and f.kind == 'ctor':
                        pass
            self._dmods[f.id] = m
        return m

    def _outer(self, f, i, m):
        n = f.x[i]
        b = n.get('b', -1)
        while b is not None and b >= 0 and f.x[b].get('k') == 'mem' and not n.get('ar'):
            n = f.x[b]
            m.add(n['f'])
            b = n.get('b', -1)

    def _harmless(self, q):
        b = q.rsplit('::', 1)[-1]
        if 'mutex' in q or 'lock' in b:
            return True
        if q.startswith(('std::unique_ptr', 'std::shared_ptr')) and b in ('get', 'operator->', 'operator*', 'operator bool'):
            return True
        return b in ('load', 'begin', 'end', 'find', 'operator->', 'operator*', 'rbegin', 'rend')

    def mods(self, fid):
        if self._mods is None:
            self._compute_mods()
        return self._mods.get(fid, frozenset())

    def mods_of_call(self, fid, node):
        if self._mods is None:
            self._compute_mods()
        m = self._mods.get(fid, frozenset())
        if node.get('virt') and not node.get('nonvirt'):
            m = set(m)
            for o in self.p.overriders.get(fid, []):
                m |= self._mods.get(o, frozenset())
        return m

    def _compute_mods(self):
        mods = {fid: set(self.dmods(f)) for fid, f in self.p.funcs.items()}
        rev = self.reverse()
        work = list(mods)
        inw = set(work)
        while work:
            x = work.pop()
            inw.discard(x)
            mx = mods.get(x)
            if not mx:
                continue
            for c in rev.get(x, ()):
                mc = mods.get(c)
                if mc is not None and not mx <= mc:
                    mc |= mx
                    if c not in inw:
                        inw.add(c)
                        work.append(c)
        self._mods = mods

    def fields(self, fid):
        """Field names mentioned by a function or anything it may call."""
        if getattr(self, '_fields', None) is None:
            fl = {}
            for k, f in self.p.funcs.items():
                s = set(n['f'] for n in f.x if n.get('k') == 'mem')
                for b in f.blocks.values():
                    for e in b['e']:
                        if e[0] == 'i' and 'f' in e[1]:
                            s.add(e[1]['f'])
                        elif e[0] == 'm':
                            s.add(e[1])
                fl[k] = s
            rev = self.reverse()
            work = list(fl)
            inw = set(work)
            while work:
                x = work.pop()
                inw.discard(x)
                for c in rev.get(x, ()):
                    mc = fl.get(c)
                    if mc is not None and not fl[x] <= mc:
                        mc |= fl[x]
                        if c not in inw:
                            inw.add(c)
                            work.append(c)
            self._fields = fl
        return self._fields.get(fid, frozenset())

    def trivial(self, f):
        """Small straight-line functions are always interpreted."""
        t = self._triv.get(f.id)
        if t is None:
            t = False
            if f.has_body and len(f.x) <= TRIV_MAX and len(f.blocks) <= 3:
                t = True
                for n in f.x:
                    if n.get('k') == 'call' and n.get('qn', '').startswith('tkrzw::') and \
                            not n['qn'].startswith('tkrzw::Status'):
                        t = False
                    if n.get('k') in ('lambda', 'delete', 'new'):
                        t = False
                if f.kind == 'dtor':
                    t = False
            self._triv[f.id] = t
        return t

    def lambda_writes(self, f, d):
        k = (f.id, d)
        r = self._lw.get(k)
        if r is None:
            r = False
            A = fa(f)
            for i, n in enumerate(f.x):
                if n.get('k') == 'var' and n.get('d') == d:
                    if A.access_kind(i) in ('w', 'rw', 'x', 'a', 'c'):
                        r = True
                    elif A.access_kind(i) == 'n':
                        r = True
            self._lw[k] = r
        return r
