"""Per-function static facts: effectful nodes, parents, access kinds, liveness, loop heads."""

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>='}


def is_effect(n):
    k = n.get('k')
    if k in ('call', 'ctor', 'new', 'delete', 'lambda', 'decl', 'ret', 'throw'):
        return True
    if k == 'bin':
        return n['op'] in ASSIGN
    if k == 'un':
        return n['op'] in ('++', '--', 'post++', 'post--')
    return False


def children(n):
    k = n.get('k')
    out = []
    if k in ('mem', 'mfref'):
        out.append(n.get('b', -1))
    elif k == 'call':
        if 'm' in n:
            out.append(n['m'])
        if 'fe' in n:
            out.append(n['fe'])
        out.extend(n['a'])
    elif k in ('ctor', 'init', 'other'):
        out.extend(n.get('a', []))
    elif k == 'bin':
        out.append(n['l']); out.append(n['r'])
    elif k in ('un', 'icast', 'delete', 'ret', 'throw', 'id'):
        out.append(n.get('s', -1))
    elif k == 'cond':
        out.extend((n['c'], n['l'], n['r']))
    elif k == 'sub':
        out.extend((n['b'], n['i']))
    elif k == 'new':
        out.append(n.get('i', -1)); out.append(n.get('as', -1))
    elif k == 'decl':
        for v in n['v']:
            out.append(v.get('i', -1))
    elif k == 'lambda':
        for c in n['caps']:
            out.append(c.get('init', -1))
    return [c for c in out if c is not None and c >= 0]


ELEMENT = {'operator[]', 'at', 'front', 'back', 'begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound',
           'equal_range', 'top', 'data', 'get', 'operator*', 'operator->'}


class FA:
    def in_loop(self, i):
        """Whether expression i is evaluated in a block inside a loop (None: unknown, treated as yes)."""
        c = getattr(self, '_inl', None)
        if c is None:
            c = set()
            lb = set()
            for v in self.loop_blocks.values():
                lb |= set(v)
            for bid in lb:
                st = [e[1] for e in self.exec[bid] if e[0] in ('s', 't') and isinstance(e[1], int)]
                t = self.f.blocks[bid].get('t')
                if t and 'c' in t:
                    st.append(t['c'])
                while st:
                    j = st.pop()
                    if j is None or j < 0 or j in c:
                        continue
                    c.add(j)
                    st.extend(children(self.f.x[j]))
            self._inl = c
        return i in c

    def __init__(self, f):
        self.f = f
        x = f.x
        self.eff = [is_effect(n) for n in x]
        self.parent = [None] * len(x)
        for mf in (False, True):
            # the use of an object in a call of its method is the call, not the name of the method
            for i, n in enumerate(x):
                if (n.get('k') == 'mfref') == mf:
                    for c in children(n):
                        if self.parent[c] is None:
                            self.parent[c] = i
        self.listed = set()
        self.elems = {}
        for b in f.blocks.values():
            for e in b['e']:
                if e[0] == 's':
                    self.listed.add(e[1])
        # ctor targets
        self.ctarget = {}
        for i, n in enumerate(x):
            if n.get('k') == 'decl':
                for v in n['v']:
                    j = v.get('i', -1)
                    if j is not None and j >= 0 and x[j].get('k') in ('ctor', 'init', 'call'):
                        if not v.get('ref'):
                            self.ctarget[j] = ('v', v['d'])
            elif n.get('k') == 'new':
                j = n.get('i', -1)
                if j is not None and j >= 0 and x[j].get('k') == 'ctor':
                    self.ctarget[j] = ('n', i)
        for b in f.blocks.values():
            for e in b['e']:
                if e[0] == 'i' and 'f' in e[1]:
                    j = e[1]['i']
                    if j >= 0 and x[j].get('k') == 'ctor':
                        self.ctarget[j] = ('f', e[1]['f'])
        # execution lists per block: skip redundant 'w'
        self.exec = {}
        for bid, b in f.blocks.items():
            out = []
            seenw = set()
            for e in b['e']:
                if e[0] == 'w':
                    if e[1] in self.listed or e[1] in seenw or e[1] < 0:
                        continue
                    seenw.add(e[1])
                    out.append(('s', e[1]))
                elif e[0] == 's' and e[1] < 0:
                    continue
                else:
                    out.append(tuple(e))
            self.exec[bid] = out
        self._liveness()
        self._loops()

    def uses(self, i, out):
        """Keys read when evaluating pure expression i (stops at effectful nodes)."""
        x = self.f.x
        st = [i]
        while st:
            j = st.pop()
            if j is None or j < 0:
                continue
            n = x[j]
            if self.eff[j]:
                out.add(('t', j))
                continue
            if n.get('k') == 'var':
                out.add(('v', n['d']))
            st.extend(children(n))

    def elem_uses(self, e):
        x = self.f.x
        out = set()
        if e[0] == 's':
            n = x[e[1]]
            if self.eff[e[1]]:
                for c in children(n):
                    self.uses(c, out)
                if n.get('k') == 'lambda':
                    for c in n['caps']:
                        if 'd' in c:
                            out.add(('v', c['d']))
        elif e[0] == 'i':
            self.uses(e[1]['i'], out)
        elif e[0] == 'd':
            out.add(('v', e[1]))
        elif e[0] == 't':
            out.add(('t', e[1]))
        return out

    def _liveness(self):
        f = self.f
        x = f.x
        self.pinned = set()   # vars whose address escapes: references, &, captures, out params
        reftypes = {}
        for i, n in enumerate(x):
            k = n.get('k')
            if k == 'lambda':
                for c in n['caps']:
                    if 'd' in c:
                        self.pinned.add(c['d'])
            elif k == 'un' and n['op'] == '&':
                j = n['s']
                while j >= 0 and x[j].get('k') in ('mem', 'sub'):
                    j = x[j].get('b', -1)
                if j >= 0 and x[j].get('k') == 'var':
                    self.pinned.add(x[j]['d'])
            elif k == 'decl':
                for v in n['v']:
                    if v.get('ref') and v.get('i', -1) is not None and v.get('i', -1) >= 0:
                        j = v['i']
                        while j >= 0 and x[j].get('k') in ('mem', 'sub'):
                            j = x[j].get('b', -1)
                        if j >= 0 and x[j].get('k') == 'var':
                            self.pinned.add(x[j]['d'])
                        # objects reached through calls such as vec.begin()
                        if j >= 0 and x[j].get('k') == 'call' and x[j].get('m', -1) is not None:
                            m = x[j].get('m', -1)
                            if m >= 0 and x[m].get('k') == 'var':
                                self.pinned.add(x[m]['d'])
                    elif v.get('i', -1) is not None and v.get('i', -1) >= 0:
                        j = v['i']
                        if x[j].get('k') == 'call' and x[j].get('m', -1) >= 0:
                            m = x[j]['m']
                            if x[m].get('k') == 'var':
                                self.pinned.add(x[m]['d'])
        # class-typed ctor args may retain pointers/references to locals
        for i, n in enumerate(x):
            if n.get('k') == 'ctor' and 'tkrzw' in n.get('ct', ''):
                for a in n['a']:
                    if a >= 0 and x[a].get('k') == 'var':
                        self.pinned.add(x[a]['d'])
        gen, kill = {}, {}
        for bid, b in f.blocks.items():
            g, k = set(), set()
            for e in self.exec[bid]:
                u = self.elem_uses(e)
                g |= (u - k)
                if e[0] == 's':
                    n = x[e[1]]
                    if self.eff[e[1]]:
                        k.add(('t', e[1]))
                    if n.get('k') == 'decl':
                        for v in n['v']:
                            k.add(('v', v['d']))
            t = b.get('t')
            if t and 'c' in t:
                u = set()
                self.uses(t['c'], u)
                g |= (u - k)
            gen[bid], kill[bid] = g, k
        livein = {bid: set() for bid in f.blocks}
        changed = True
        order = sorted(f.blocks)  # clang numbers blocks in reverse: exit first
        while changed:
            changed = False
            for bid in order:
                b = f.blocks[bid]
                lo = set()
                for s in b['s']:
                    if s >= 0:
                        lo |= livein[s]
                ni = gen[bid] | (lo - kill[bid])
                if ni != livein[bid]:
                    livein[bid] = ni
                    changed = True
        self.livein = livein

    def _loops(self):
        f = self.f
        self.heads = set()
        self.loop_blocks = {}
        color = {}
        stack = [(f.entry, iter(f.blocks[f.entry]['s']))] if f.entry in f.blocks else []
        if stack:
            color[f.entry] = 1
        backs = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s < 0:
                    continue
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(f.blocks[s]['s'])))
                    break
                elif color[s] == 1:
                    self.heads.add(s)
                    backs.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        preds = {}
        for b in f.blocks.values():
            for s in b['s']:
                preds.setdefault(s, []).append(b['id'])
        self.preds = preds
        for src, head in backs:
            body = self.loop_blocks.setdefault(head, {head})
            st = [src]
            while st:
                y = st.pop()
                if y in body:
                    continue
                body.add(y)
                st.extend(preds.get(y, []))
        # reverse post order for the worklist priority
        self.rpo = {}
        seen = set()
        order = []
        if f.entry in f.blocks:
            st = [(f.entry, iter(f.blocks[f.entry]['s']))]
            seen.add(f.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s >= 0 and s not in seen:
                        seen.add(s)
                        st.append((s, iter(f.blocks[s]['s'])))
                        break
                else:
                    order.append(b)
                    st.pop()
        for i, b in enumerate(reversed(order)):
            self.rpo[b] = i

    def access_kind(self, i):
        """How the value denoted by var/mem node i is used: 'r', 'w', 'rw', 'a' (address), 'c' (method
        call on a class object), 'n' (only a prefix of a longer access)."""
        x = self.f.x
        p = self.parent[i]
        if p is None:
            return 'r'
        n = x[p]
        k = n.get('k')
        if k == 'bin' and n['op'] in ASSIGN and n['l'] == i:
            return 'w' if n['op'] == '=' else 'rw'
        if k == 'un':
            if n['op'] in ('++', '--', 'post++', 'post--'):
                return 'rw'
            if n['op'] == '&':
                return 'a'
            return 'r'
        if k == 'mem' and n.get('b') == i:
            if n.get('ar'):
                return 'r'
            return 'n'
        if k == 'sub' and n.get('b') == i:
            t = x[i].get('ty', '')
            if '[' in t:
                return self.access_kind(p)
            return 'r'
        if k == 'call':
            if n.get('m') == i and not n.get('mp'):
                op = n.get('op')
                if op in ('=', '+=', '-=', '|=', '&=', '++', '--'):
                    return 'w' if op == '=' else 'rw'
                if n.get('cst'):
                    return 'cc'
                q = n.get('qn', '')
                b = q.rsplit('::', 1)[-1]
                if q.startswith('std::') and b in ELEMENT and not (b == 'operator[]' and 'map<' in n.get('mt', '')):
                    # an element is looked up: what is done with it counts
                    kp = self.access_kind(p)
                    return kp if kp in ('w', 'rw', 'x', 'c') and n.get('lv') else 'cc'
                return 'c'
            if i in n['a']:
                pk = n.get('pk')
                j = n['a'].index(i)
                if n.get('qn', '').startswith(('std::make_unique', 'std::make_shared', 'std::make_pair', 'std::forward', 'std::make_tuple')) \
                        or n.get('qn', '').rsplit('::', 1)[-1] in ('emplace', 'emplace_back', 'emplace_front', 'try_emplace'):
                    return 'r'
                if pk and j < len(pk):
                    if pk[j] in ('r',):
                        return 'w'
                    if pk[j] == 'x':
                        return 'x'
                    if n.get('op') in ('|=', '=', '+=') and j == 0 and 'm' not in n:
                        return 'rw'
                return 'r'
            return 'r'
        if k == 'ctor':
            if i in n['a']:
                pk = n.get('pk')
                j = n['a'].index(i)
                if pk and j < len(pk):
                    if pk[j] == 'r':
                        return 'a'
                    if pk[j] == 'x':
                        return 'x'
            return 'r'
        if k == 'decl':
            for v in n['v']:
                if v.get('i') == i and v.get('ref'):
                    return 'ra' if v['ty'].startswith('const ') else 'a'
            return 'r'
        if k in ('cond', 'id', 'init', 'other'):
            return 'r'
        return 'r'


def fa(f):
    if f._a is None:
        f._a = FA(f)
    return f._a
