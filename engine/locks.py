"""Lock-set client: locks held, by location and mode, along every path."""
from interp import Client, mentions, subs
from fa import fa

STD_MUTEX = ('std::mutex', 'std::shared_mutex', 'std::shared_timed_mutex', 'std::recursive_mutex',
             'std::timed_mutex', 'std::__mutex_base', 'std::__shared_mutex_pthread',
             'std::__shared_timed_mutex_base', 'std::recursive_timed_mutex')
REPO_MUTEX = ('tkrzw::SpinMutex', 'tkrzw::SpinSharedMutex', 'tkrzw::SpinWPSharedMutex')
GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::shared_lock', 'std::scoped_lock')
LOCKOPS = {'lock': ('+', 'X'), 'unlock': ('-', 'X'), 'lock_shared': ('+', 'S'),
           'unlock_shared': ('-', 'S'), 'try_lock': ('?', 'X'), 'try_lock_shared': ('?', 'S'),
           'try_lock_for': ('?', 'X'), 'try_lock_until': ('?', 'X')}
HASHMUTEX = 'tkrzw::HashMutex'
HM_OPS = {'LockOne': ('+', 'X'), 'UnlockOne': ('-', 'X'), 'LockOneShared': ('+', 'S'),
          'UnlockOneShared': ('-', 'S'), 'LockAll': ('+', 'X'), 'UnlockAll': ('-', 'X'),
          'LockAllShared': ('+', 'S'), 'UnlockAllShared': ('-', 'S'), 'LockMulti': ('+', 'X'),
          'UnlockMulti': ('-', 'X'), 'LockMultiShared': ('+', 'S'), 'UnlockMultiShared': ('-', 'S')}


def is_mutex_method(qn):
    if qn.startswith(STD_MUTEX) or qn.startswith(REPO_MUTEX):
        b = qn.rsplit('::', 1)[-1]
        return LOCKOPS.get(b)
    return None


def is_guard_type(ct):
    return ct.startswith(GUARDS) or ct.startswith(tuple('const ' + g for g in GUARDS))


def guard_mode(ct):
    return 'S' if 'shared_lock' in ct.split('<')[0] else 'X'


def fmt_path(p):
    def val(v):
        if not isinstance(v, tuple):
            return str(v)
        if v[0] == 's':
            if v[1] == 'i':
                return fmt_path(v[2])
            if v[1] == 'arg':
                return v[2]
            return '<%s>' % v[1]
        if v[0] == 'p':
            return '&' + fmt_path(v[1])
        return str(v[0])
    out = []
    for e in p:
        if isinstance(e, tuple):
            if e[0] == 'this':
                out.append('this')
            elif e[0] == 'L':
                out.append(e[2].split('@')[0])
            elif e[0] == 'P':
                out.append(e[1])
            elif e[0] == 'G':
                out.append(e[1])
            elif e[0] == 'S':
                out.append('(' + val(e[1]) + ')')
            else:
                out.append(e[0])
        else:
            out.append(e)
    return '.'.join(out)


def comp(f):
    return f.file.rsplit('.', 1)[0]


class LockClient(Client):
    """ps = frozenset of (path, mode, name)."""
    track_hash = True
    keep_names = False      # locks of objects unknown to the callee stay visible by name
    canon_fields = False

    def __init__(self, prog, summ):
        self.p = prog
        self.summ = summ
        self.reports = []
        self.edges = {}
        self.acq_sites = set()
        self.rel_sites = set()
        self.raw_spin = False
        self._raii = {}
        self.manual = set()     # functions with raw lock/unlock calls on mutexes
        self.locky = set()
        for f in prog.funcs.values():
            if f.cls and f.cls.startswith(REPO_MUTEX):
                continue
            for i, n in enumerate(f.x):
                if n.get('k') == 'call' and n.get('qn'):
                    if is_mutex_method(n['qn']):
                        self.manual.add(f.id)
                        self.locky.add(f.id)
                elif n.get('k') == 'ctor' and is_guard_type(n['ct']):
                    self.locky.add(f.id)
        self.manual_closure = summ.closure(self.manual)
        self.lock_closure = summ.closure(self.locky)
        # wrappers: callable functions which return with a changed lock set (filled on the fly)
        self.loopcache = {}
        self.netwrap = self._netwrap()

    def _netwrap(self):
        """Functions whose raw lock and unlock operations are unbalanced by kind (lock wrappers)."""
        r, todo = {}, True
        while todo:
            todo = False
            for fid in self.manual_closure:
                f = self.p.funcs.get(fid)
                if f is None or fid in r or not f.has_body or f.cls and f.cls.startswith(REPO_MUTEX):
                    continue
                kinds = set()
                for n in f.x:
                    if n.get('k') == 'call' and n.get('qn'):
                        op = is_mutex_method(n['qn'])
                        if op:
                            kinds.add('-' if op[0] == '-' else '+')
                        elif n.get('fn') in r:
                            kinds.add(r[n['fn']])
                if len(kinds) == 1:
                    r[fid] = kinds.pop()
                    todo = True
        return set(r)

    def lname(self, c, fr):
        """Class-qualified name of the mutex denoted by the receiver / argument expression."""
        return None

    def name_of_node(self, fr, i):
        x = fr.f.x
        while i is not None and i >= 0:
            n = x[i]
            k = n.get('k')
            if k == 'mem':
                return '%s::%s' % (n.get('c', '?'), n['f'])
            if k == 'sub':
                i = n['b']
                continue
            if k in ('un', 'icast', 'id'):
                i = n['s']
                continue
            if k == 'call' and 'm' in n:
                i = n['m']
                continue
            if k == 'var':
                return n['n']
            break
        return '?'

    def canon(self, path):
        return path

    def edge(self, held, a, ma, b, mb, where):
        """Mutex b is requested (mode mb) while a is held (mode ma); held: everything that is locked then."""
        gates = frozenset((h[2], h[1]) for h in held if h[1] != 'r' and h[2] not in ('<private>', a, b))
        self.edges.setdefault((a, b), {}).setdefault((ma, mb, gates), where)

    # --- lock state changes
    def acquire(self, it, fr, st, path, mode, name, line):
        self.acq_sites.add((fr.f.file, line))
        held = st.ps
        owner = self.owner(fr)
        for (p, m, nm, ow) in held:
            if p == path and m != 'r' and '[*]' not in fmt_path(path) and (m == 'X' or mode == 'X'):
                self.report_relock(it, fr, st, path, mode, name, line)
            if nm != '<private>' and m != 'r' and (nm != name or p != path):
                self.edge(held, nm, m, name, mode, (fr.f.qn, fr.f.file, line))
        st.ps = (held - {(path, 'r', name, None)}) | {(path, mode, name, owner)}

    def owner(self, fr):
        """The lock-owning helper object under construction, if any."""
        while fr is not None:
            if fr.f.kind == 'ctor' and self.raii(fr.f):
                return fr.this
            if fr.depth == 0:
                return None
            fr = fr.site[0] if fr.site else None
        return None

    def release(self, it, fr, st, path, mode, name, line):
        self.rel_sites.add((fr.f.file, line))
        held = st.ps
        hit = [h for h in held if h[0] == path and h[1] != 'r']
        if not hit:
            if (path, 'r', name, None) in held and self.in_loop(fr):
                return              # another element of the same container
            self.report_unheld(it, fr, st, path, mode, name, line)
            return
        good = [h for h in hit if h[1] == mode]
        if not good:
            self.report_mode(it, fr, st, path, mode, name, line)
            good = hit
        st.ps = held - {good[0]}
        if '[*]' in fmt_path(path):
            st.ps = st.ps | {(path, 'r', name, None)}

    def in_loop(self, fr):
        while fr is not None:
            if fr.A.loop_blocks:
                return True
            fr = fr.site[0] if fr.site else None
        return False

    def report_relock(self, it, fr, st, path, mode, name, line):
        pass

    def report_unheld(self, it, fr, st, path, mode, name, line):
        pass

    def report_mode(self, it, fr, st, path, mode, name, line):
        pass

    def held(self, st, path, need):
        for (p, m, nm, ow) in st.ps:
            if p == path and (m == 'X' or need == 'S'):
                return True
        return False

    # --- hooks
    def init(self, f):
        self.comp = comp(f)
        return frozenset()

    def inline(self, it, f, call, st):
        if f.id not in self.lock_closure or (f.cls and f.cls.startswith(REPO_MUTEX)):
            return False
        if f.kind == 'lambda' or f.id in self.netwrap or self.raii(f):
            return 'full'
        return 'canon' if comp(f) == self.comp or f.file == 'tkrzw_thread_util.h' else False

    def raii(self, f):
        """Constructors and destructors of lock-owning helper classes."""
        if f.kind not in ('ctor', 'dtor') or not f.cls:
            return False
        r = self._raii.get(f.cls)
        if r is None:
            r = False
            for g in self.p.funcs.values():
                if g.cls == f.cls and g.kind in ('ctor', 'dtor'):
                    for n in g.x:
                        if n.get('k') == 'call' and n.get('qn') and (
                                is_mutex_method(n['qn']) or (n['qn'].startswith(HASHMUTEX) and
                                                             n['qn'].rsplit('::', 1)[-1] in HM_OPS) or n.get('fn') in self.netwrap):
                            r = True
            self._raii[f.cls] = r
        return r

    def to_callee(self, it, ps, pairs):
        vis, hid = set(), set()
        for e in ps:
            q = it.rewrite(e[0], pairs)
            if q[0][0] == 'G' or any(t[:len(a)] == a for a, b in pairs for t in subs(e[0])):
                ow = e[3]
                if ow is not None and ow[0][0] != 'G':
                    ow = it.rewrite(ow, pairs) if ow[0][0] != 'O' else ow
                    if ow == e[3]:
                        ow = (('O', ow),)       # an object which the callee does not know
                vis.add((q, e[1], e[2], ow))
            else:
                hid.add(e)
                if self.keep_names and e[2] != '<private>':
                    star = e[0][0][0] == 'A*' or '[*]' in fmt_path(e[0])
                    vis.add(((('A*' if star else 'A',),), e[1], e[2], None))
        return frozenset(vis), frozenset(hid)

    def from_callee(self, it, ps, hid, back, st):
        out = set(hid)
        for e in ps:
            if e[0][0][0] == 'G':
                out.add(e)
                continue
            if e[0][0][0] in ('A', 'A*'):
                continue
            ow = e[3]
            if ow is not None and ow[0][0] == 'O':
                ow = ow[0][1]
            elif ow is not None:
                ow = it.rewrite(ow, back)
                if ow == e[3] and ow[0][0] not in ('G',):
                    continue            # owned by an object the caller does not track
            out.add((it.rewrite(e[0], back), e[1], e[2], ow))
        return frozenset(out)

    def pre_call(self, it, c, st):
        fr = c.frame
        if c.kind == 'ctor':
            if is_guard_type(c.node['ct']) and not c.node.get('cp'):
                ct = c.node['ct']
                r = it.do_ctor(c, c.node, ct, c.recv, st, fr, it.fresh(fr, c.i))
                mode = guard_mode(ct)
                defer = False
                mux = []
                for j, a in enumerate(c.args):
                    ty = fr.f.x[c.argn[j]].get('ty', '')
                    if 'defer_lock' in ty:
                        defer = True
                    elif 'adopt_lock' in ty or 'try_to_lock' in ty:
                        defer = True
                    elif a[0] == 'p':
                        mux.append((a[1], self.name_of_node(fr, c.argn[j])))
                for s, v in r:
                    for q, (path, nm) in enumerate(mux):
                        s.env[c.recv + ('#lock%d' % q,)] = ('lk', path, mode, nm)
                        if not defer:
                            self.acquire(it, fr, s, path, mode, nm, c.line)
                            s.env[c.recv + ('#owns',)] = ('c', 1)
                return r
            return None
        if self.track_hash and c.qn.startswith(HASHMUTEX) and c.recv is not None and \
                not (fr.f.cls and fr.f.cls.startswith(HASHMUTEX)):
            b = c.qn.rsplit('::', 1)[-1]
            op = HM_OPS.get(b)
            if op:
                return self.hash_op(it, c, st, op, b)
        op = is_mutex_method(c.qn)
        if op and c.recv is not None:
            nm = self.name_of_node(fr, c.recvn)
            return self.mutex_op(it, fr, st, c.recv, op, nm, c)
        if c.qn.startswith(GUARDS) and c.recv is not None:
            b = c.qn.rsplit('::', 1)[-1]
            if b in ('unlock', 'lock', 'owns_lock', 'mutex'):
                lk = st.env.get(c.recv + ('#lock0',))
                if lk is not None and b in ('lock', 'unlock'):
                    if b == 'unlock':
                        self.release(it, fr, st, lk[1], lk[2], lk[3], c.line)
                        st.env[c.recv + ('#owns',)] = ('c', 0)
                    else:
                        self.acquire(it, fr, st, lk[1], lk[2], lk[3], c.line)
                        st.env[c.recv + ('#owns',)] = ('c', 1)
                return [(st, it.fresh(fr, c.i))]
        if c.qn.startswith(('std::condition_variable', 'std::_V2::condition_variable_any')):
            return self.cond_op(it, c, st)
        return None

    def cond_op(self, it, c, st):
        # the predicate, if any, runs under the lock
        return [(st, it.fresh(c.frame, c.i))]

    tag_all = False

    def hash_op(self, it, c, st, op, b):
        fr = c.frame
        nm = self.name_of_node(fr, c.recvn)
        if self.tag_all and b.startswith('LockAll'):
            nm += '#all'
        sym = it.fresh(fr, c.i)
        if op[0] == '-':
            self.release(it, fr, st, c.recv, op[1], nm, c.line)
            return [(st, sym)]
        isbool = c.node.get('ty') == 'bool'
        if isbool:
            s2 = st.copy()
            self.acquire(it, fr, st, c.recv, op[1], nm, c.line)
            for a in c.args:
                if a[0] == 's':
                    # only an existing (never negative) bucket index can be locked
                    st.env[('F', ('b', '<', a, ('c', 0)))] = ('eq', 0)
                    st.env[('F', a)] = ('ne', frozenset((-1, -(1 << 63))))
            return [(st, ('c', 1)), (s2, ('c', 0))]
        self.acquire(it, fr, st, c.recv, op[1], nm, c.line)
        if b.startswith('LockOne'):
            # the bucket index that a successful hashing lock returns is never negative
            st.env[('F', ('b', '<', sym, ('c', 0)))] = ('eq', 0)
            st.env[('F', sym)] = ('ne', frozenset((-1, -(1 << 63))))
        return [(st, sym)]

    def mutex_op(self, it, fr, st, path, op, nm, c):
        k, mode = op
        sym = it.fresh(fr, c.i)
        if k == '+':
            self.acquire(it, fr, st, path, mode, nm, c.line)
            return [(st, sym)]
        if k == '-':
            self.release(it, fr, st, path, mode, nm, c.line)
            return [(st, sym)]
        s2 = st.copy()
        st.ps = st.ps | {(path, mode, nm, self.owner(fr))}
        self.acq_sites.add((fr.f.file, c.line))
        return [(st, ('c', 1)), (s2, ('c', 0))]

    def on_dtor(self, it, fr, path, ty, st, line):
        if is_guard_type(ty):
            q = 0
            owns = st.env.get(path + ('#owns',))
            while True:
                lk = st.env.get(path + ('#lock%d' % q,))
                if lk is None:
                    break
                if owns == ('c', 1):
                    self.release(it, fr, st, lk[1], lk[2], lk[3], line)
                q += 1
            return [st]
        own = [h for h in st.ps if h[3] == path]
        if ty in self.raii_classes():
            if own:
                for h in own:
                    self.rel_sites.add((fr.f.file, line))
                st.ps = st.ps - frozenset(own)
            return [st]
        if ty.startswith('std::unique_ptr'):
            v = st.env.get(path)
            if v is not None and v[0] == 'p':
                own = [h for h in st.ps if h[3] == v[1]]
                if own:
                    st.ps = st.ps - frozenset(own)
        return None

    # --- objects under construction or destruction are not shared
    def enter(self, it, f, this, ps):
        if f.kind in ('ctor', 'dtor') and this is not None:
            return ps | {(this + ('<private>',), 'X', '<private>', this)}
        return ps

    def leave(self, it, f, this, ps):
        if f.kind in ('ctor', 'dtor') and this is not None:
            return ps - {(this + ('<private>',), 'X', '<private>', this)}
        return ps

    def raii_classes(self):
        c = getattr(self, '_rc', None)
        if c is None:
            c = self._rc = set(f.cls for f in self.p.funcs.values() if f.kind in ('ctor', 'dtor') and self.raii(f))
        return c

    def at_least_once(self, it, fr, b):
        f = fr.f
        k = (f.id, b['id'])
        r = self.loopcache.get(k)
        if r is None:
            r = False
            A = fr.A
            for bb in A.loop_blocks.get(b['id'], ()):
                for e in A.exec[bb]:
                    if e[0] == 's':
                        n = f.x[e[1]]
                        if n.get('k') == 'call':
                            if is_mutex_method(n.get('qn', '')) or n.get('fn') in self.netwrap:
                                r = True
            self.loopcache[k] = r
        return r


def header_api(prog):
    """Public methods of classes defined in headers, plus free functions: the library's entry points."""
    hdr = set(n for n, c in prog.classes.items() if c['file'].endswith('.h'))
    out = []
    for f in prog.funcs.values():
        if not f.has_body or f.kind == 'lambda':
            continue
        if f.cls in hdr and f.acc == 'public' and '@' not in f.cls:
            out.append(f)
        elif f.kind == 'func' and f.cls is None:
            out.append(f)
    return out
