"""C22: iterators never point at what is gone."""
import re
import interp

LIST = re.compile(r'^std::(?:__cxx11::)?(?:list|vector|set)<(tkrzw::.*) \*>$')
ITER = re.compile(r'\biterator\b|_iterator\b|_Iterator\b')
THIS = ('this',)


def registries(prog):
    """{class: (list field, class of the iterators, field of the iterator which names its owner)}"""
    out = {}
    for c, d in prog.classes.items():
        if not c.startswith('tkrzw::'):
            continue
        for f in d['fields']:
            m = LIST.match(f['ty'])
            if not m or m.group(1) not in prog.classes:
                continue
            for g in prog.classes[m.group(1)]['fields']:
                if g['ty'] == c + ' *':
                    out[c] = (f['n'], m.group(1), g['n'])
    return out


class Client(interp.Client):
    relfacts = True

    def __init__(self, prog, summ):
        self.p, self.s = prog, summ
        self.cache = {}

    def relevant(self, f, seen=()):
        k = (f.id, self.own)
        if k not in self.cache:
            self.cache[k] = r = False
            for n in f.x:
                if n['k'] == 'mem' and (n.get('c') == self.own and n.get('f') in (self.lst,) + self.stores + (('file_',) if self.own in self.swaps else ()) or n.get('c') == self.it and n.get('f') in self.pos):
                    r = True
                elif n['k'] == 'delete' and n.get('dt') in self.pointees:
                    r = True
                elif n['k'] == 'call':
                    g = self.p.funcs.get(n.get('fn') or '')
                    if g is not None and g.has_body and g.id != f.id and g.cls in (self.own, self.it) and self.relevant(g):
                        r = True
                if r:
                    break
            self.cache[k] = r
        return self.cache[k]

    def inline(self, it, f, call, st):
        if f.kind == 'lambda':
            return 'full'
        if f.cls not in (self.own, self.it) or not self.relevant(f):
            return False
        return 'canon' if f.cls == self.own and call is not None and call.frame.f.cls == self.own else 'full'

    def ev(self, st, *e):
        if e not in (st.ps or ()):
            st.ps = (st.ps or ()) + (e,)
        return st

    def unset(self, st, *tags):
        st.ps = tuple(e for e in st.ps or () if e[0] not in tags)

    def mine(self, p):
        """The list of iterators of this object, or of the database which an iterator belongs to."""
        return p is not None and len(p) == 2 and p[1] == self.lst

    def element(self, p):
        """Path of a field of an element of the list -> the field."""
        if p is not None and len(p) == 2 and isinstance(p[0], tuple) and p[0][0] == 'S' and self.elem(p[0][1]):
            return p[1]
        return None

    def elem(self, v):
        return v[0] == 's' and v[1] == 'i' and len(v[2]) == 3 and v[2][1:] == (self.lst, '[*]')

    def fieldval(self, v):
        return v[0] == 's' and v[1] == 'i' and len(v[2]) == 2 and isinstance(v[2][0], tuple) and v[2][0][0] == 'S' and \
            self.elem(v[2][0][1]) and v[2][1] in self.pos

    def pre_call(self, it, c, st):
        q = c.qn or ''
        nm = q.rsplit('::', 1)[-1]
        r = c.recv
        if nm.endswith('const_iterator') and len(c.args) == 1:
            return [(st, it.argval(c, 0, st.env))]      # made from an iterator
        if r is None:
            return None
        if q.startswith('std::'):
            if self.mine(r) and nm in ('begin', 'cbegin', 'rbegin'):
                self.close(st)
                self.ev(st, 'visit')
            elif self.mine(r) and nm in ('emplace_back', 'push_back', 'emplace_front', 'push_front', 'insert', 'emplace'):
                if ('p', (THIS,)) in c.args or THIS in c.args:
                    self.ev(st, 'reg')
            elif self.mine(r) and nm in ('remove', 'erase'):
                if nm == 'erase' or any(self.is_this(a, st.env) for a in c.args):
                    self.ev(st, 'unreg')
            elif nm == 'operator*' and q.startswith(('std::_List_iterator<', 'std::_List_const_iterator<')):
                cur = it.rd(r, st.env)
                if cur[0] == 'p' and len(cur[1]) == 3 and cur[1][1:] == (self.lst, '[*]'):
                    self.unset(st, 'none')
                    self.ev(st, 'it')
                    self.ev(st, 'pend')
                    self.n['elements'].add((c.frame.f.qn, c.line))
                    self.whole(c)
            elif len(r) == 2 and r[1] in self.stores:
                if nm in ('end', 'cend'):
                    return [(st, ('s', 'end'))]
                if nm in ('erase', 'extract'):
                    self.gone(st, c.frame, c.line, 'an element of %s is removed' % r[1], True)
                elif nm in ('clear', 'rehash', 'swap', 'operator=', 'reserve'):
                    self.gone(st, c.frame, c.line, '%s loses its elements' % r[1], False)
            elif nm == 'operator++' and self.element(r) in self.pos:
                self.moved(st)
        return None

    def close(self, st):
        """The end of a loop over the list."""
        t = {e[0] for e in st.ps or ()}
        if 'visit' in t and 'pend' not in t:
            if 'it' not in t or 'reset' in t:
                self.ev(st, 'all reset')
            if 'it' not in t or 'det' in t:
                self.ev(st, 'all detached')
        self.unset(st, 'it', 'pend', 'due', 'reset', 'det', 'none', 'moved')

    def whole(self, c):
        """A loop over the list is only left at its end."""
        A, b = c.frame.A, None
        for bid, blk in c.frame.f.blocks.items():
            if any(e[1] == c.i for e in blk['e'] if len(e) > 1):
                b = bid
        loops = [(len(bl), h, bl) for h, bl in A.loop_blocks.items() if b in bl]
        if not loops:
            self.bad.setdefault((c.frame.f.qn, 'looks at an iterator of the list', 'outside of a loop over all'), (c.frame.f.file, c.line))
            return
        _, h, bl = min(loops)
        if any(x != h and s >= 0 and s not in bl for x in bl for s in c.frame.f.blocks[x]['s']):
            self.bad.setdefault((c.frame.f.qn, 'may leave the loop over the list of iterators', 'before its end'), (c.frame.f.file, c.line))

    def is_this(self, a, env):
        return a == ('p', (THIS,)) or a == THIS or a[0] == 'p' and env.get(a[1]) == ('p', (THIS,)) or a == ('s', 'this')

    def moved(self, st):
        self.unset(st, 'pend', 'due')
        self.ev(st, 'moved')

    def gone(self, st, fr, line, what, single):
        self.n['gone'].add((fr.f.qn, line))
        t = {e[0] for e in st.ps or ()}
        key = (fr.f.qn, what)
        if single:
            if 'visit' not in t:
                self.bad.setdefault(key + ('while no iterator is told',), (fr.f.file, line))
            elif 'due' in t or 'pend' in t:
                self.bad.setdefault(key + ('while an iterator may still point at it',), (fr.f.file, line))
        else:
            self.ev(st, 'lost', fr.f.qn, what, fr.f.file, line)

    def on_write(self, it, fr, path, val, st, line):
        f = self.element(path)
        if f is None:
            if path == (THIS, 'file_') and self.own in self.swaps:
                self.gone(st, fr, line, 'file_ is replaced', False)
            return
        if f == self.back:
            if val == ('c', 0):
                self.unset(st, 'pend')
                self.ev(st, 'det')
        elif f in self.none:
            if val == self.none[f]:
                self.ev(st, 'none', f)
                if all(('none', g) in st.ps for g in self.none):
                    self.unset(st, 'pend', 'due', 'none')
                    self.ev(st, 'reset')
            elif ('due', val) not in (st.ps or ()):
                self.moved(st)

    def on_delete(self, it, fr, val, st, line):
        if any(n['k'] == 'delete' and n['ln'] == line and n.get('dt') in self.pointees for n in fr.f.x):
            t = {e[0] for e in st.ps or ()}
            if fr.f.cls == self.own:
                self.n['gone'].add((fr.f.qn, line))
                if 'due' in t or 'pend' in t:
                    self.bad.setdefault((fr.f.qn, 'memory is released', 'while an iterator may still point at it'), (fr.f.file, line))
                elif 'visit' not in t:
                    self.ev(st, 'lost', fr.f.qn, 'memory is released', fr.f.file, line)

    def on_branch(self, it, fr, cond, taken, st, line):
        neg = False
        while cond[0] == 'not':
            cond, neg = cond[1], not neg
        if cond[0] != 'b' or cond[1] != '==':
            if self.fieldval(cond):
                self.moved(st) if taken == neg else None
            return
        eq = taken != neg
        a, b = cond[2:]
        for x, y in ((a, b), (b, a)):
            if self.fieldval(x):
                if ('pend',) in (st.ps or ()) or ('due',) in (st.ps or ()):
                    self.unset(st, 'pend')
                    if eq:
                        self.ev(st, 'due', y)
                return
            if self.elem(x) and eq:       # the iterator which does this itself
                self.unset(st, 'pend')
                return
            if x[0] == 's' and x[1] == 'i' and x[2] == (THIS, self.back) and y == ('c', 0) and eq:
                self.ev(st, 'detached')

    def on_exit(self, it, fr, val, st):
        self.close(st)
        self.exits.append(({e[0] for e in st.ps or ()}, [e for e in st.ps or () if e[0] == 'lost'], val, st))


def short(c):
    return c.split('<')[0].replace('tkrzw::', '')


# Operations after which no position is valid any more.
RESET = {'HashDBMImpl': ('Close', 'Clear'), 'TreeDBMImpl': ('Close', 'Clear'), 'SkipDBMImpl': ('Close', 'Clear', 'Rebuild', 'Synchronize'),
         'TinyDBMImpl': ('Close', 'Clear', 'Rebuild'), 'BabyDBMImpl': ('Close', 'Clear'), 'CacheDBMImpl': ('Close', 'Clear', 'Rebuild'),
         'StdDBMImpl': ('Close', 'Clear'), 'StdIndex': ('Clear',), 'StdIndexStr': ('Clear',)}
SWAPS = ('HashDBMImpl', 'SkipDBMImpl')


def run(ck):
    prog, summ = ck.load(witness=True)
    ck.rule('Every class which keeps a list of its iterators (or readers) is interpreted on all paths: constructors of iterators enter '
            'them in the list and destructors take them out; the destructor of the owner detaches every one; an element of a '
            'container or a node is only removed after every iterator was compared with it and moved if it points there; after '
            'Close, Clear, rebuilding and the replacement of the file every iterator is without a position, as its constructor leaves it.')
    regs = registries(prog)
    cl = Client(prog, summ)
    cl.n = {'elements': set(), 'gone': set()}
    it = interp.Interp(prog, cl, summ)
    it.CAP = it.EXITCAP = 32
    failed, samples = [], []
    nroots = npaths = 0
    bad = {}
    subs = {}
    for c, (lst, ic, back) in sorted(regs.items()):
        cl.own, cl.lst, cl.it, cl.back = c, lst, ic, back
        cl.own_short = short(c)
        cl.swaps = {k for k in regs if short(k) in SWAPS}
        flds = prog.classes[ic]['fields']
        cl.pos = tuple(f['n'] for f in flds if f['n'] != back)
        cl.pointees = {f['ty'][:-2] for f in flds if f['ty'].startswith('tkrzw::') and f['ty'].endswith(' *') and f['n'] != back}
        held = any(ITER.search(f['ty']) for f in flds)
        cl.stores = tuple(f['n'] for f in prog.classes[c]['fields'] if re.match(r'std::(unordered_)?(multi)?(map|set)<', f['ty'])) if held else ()
        cl.none, cl.bad = {}, {}
        it.memo.clear()
        name = short(c) if not c.startswith('tkrzw::StdDBMImpl') else 'StdDBMImpl'

        def go(f, args=None):
            nonlocal nroots, npaths
            cl.exits = []
            it.steps = 0
            try:
                it.run_root(f, args=args)
            except interp.Budget:
                failed.append(f.qn)
                return []
            nroots += 1
            npaths += len(cl.exits)
            return cl.exits

        def v(f, text):
            q = re.sub(r'<.*>', '', f.qn.replace('tkrzw::', ''))
            bad.setdefault('%s|%s' % (q, text), ('%s %s' % (q, text), '%s:%d' % (f.file, f.line)))
        fs = sorted((f for f in prog.funcs.values() if f.has_body and f.cls in (c, ic)), key=lambda f: (f.file, f.line, f.id))
        ctors = [f for f in fs if f.cls == ic and f.kind == 'ctor' and f.ps and f.ps[0]['ty'] == c + ' *']
        dtors = [f for f in fs if f.cls == ic and f.kind == 'dtor']
        odtors = [f for f in fs if f.cls == c and f.kind == 'dtor']
        for what, l in (('constructor of its iterators', ctors), ('destructor of its iterators', dtors), ('destructor', odtors)):
            if not l:
                bad['%s|no %s' % (name, what)] = ('%s has no %s which keeps its list' % (name, what), prog.classes[c]['file'])
        for f in ctors:
            for t, lost, val, st in go(f):
                if 'reg' not in t:
                    v(f, 'may leave the new object unknown to its owner')
                for g in cl.pos:
                    x = st.env.get((THIS, g))
                    ty = next(h['ty'] for h in flds if h['n'] == g)
                    if x == ('c', -1) or x == ('c', 0) and ty.endswith('*') or x == ('s', 'end'):
                        cl.none[g] = x
                    elif g in cl.none:
                        del cl.none[g]
        for f in dtors:
            for t, lost, val, st in go(f):
                if not t & {'unreg', 'detached'}:
                    v(f, 'may leave the dead object known to its owner')
        for f in odtors:
            for t, lost, val, st in go(f):
                if 'all detached' not in t:
                    v(f, 'may leave an iterator attached')
        n = 0
        called = {x.get('fn') for f in fs for x in f.x if x['k'] == 'call' and x.get('fn') != f.id}
        for f in fs:
            if f.kind in ('ctor', 'dtor', 'lambda') or not (f.n in RESET.get(name, ()) and f.cls == c or cl.relevant(f) and f.id not in called and (cl.stores or cl.pointees or c in cl.swaps)):
                continue
            n += 1
            for t, lost, val, st in go(f):
                ok = 'all reset' in t
                fails = val is not None and it.truth(val, st.env) is True
                for e in lost:
                    if not ok and not (fails and 'file_' in e[2]):
                        v(f, 'may leave iterators with positions after %s' % e[2])
                if f.n in RESET.get(name, ()) and f.cls == c and val is not None and it.truth(val, st.env) is not True and not ok:
                    v(f, 'may leave iterators with positions which are no longer valid')
        for (q, what, how), (file, line) in cl.bad.items():
            q = re.sub(r'<.*>', '', q.replace('tkrzw::', ''))
            bad.setdefault('%s|%s %s' % (q, what, how), ('%s: %s %s' % (q, what, how), '%s:%s' % (file, line)))
        samples.append('%s.%s: %d functions, no position: %s' % (c.replace('tkrzw::', ''), lst, n + len(ctors + dtors + odtors),
                                                                 ' '.join('%s=%s' % (k, x[1]) for k, x in sorted(cl.none.items()))))
    for k, (text, where) in sorted(bad.items()):
        ck.violation(k, text, where)
    ck.count('owning_classes', len(regs), 8)
    ck.count('functions', nroots, 60)
    ck.count('paths', npaths, 300)
    ck.count('loops_over_iterators', len(cl.n['elements']), 18)
    ck.count('removals', len(cl.n['gone']), 15)
    ck.sample('classes', samples)
    ck.need(len(failed) <= 3, 'functions which could not be followed: %s' % failed[:5])
