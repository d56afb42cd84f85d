"""C04: no wakeup of a waiting thread is lost."""
import interp
import locks
import lockrun

# class -> (condition variable, mutex, {field: operations which may end a wait})
STORE = ('store', 'operator=', 'exchange')
TABLE = {
    'tkrzw::TaskQueue': ('cond_', 'mutex_', {'running_': STORE, 'queue_': ('push', 'emplace')}),
    'tkrzw::WaitCounter': ('cond_', 'mutex_', {'count_': ('fetch_sub', 'operator--', 'operator-=')}),
    'tkrzw::SignalBroker': ('cond_', 'mutex_', {'wait_ids_': ('erase', 'clear')}),
    'tkrzw::KeySignalBroker': ('cond_', 'mutex_', {'wait_ids_': ('erase', 'clear')}),
    'tkrzw::MessageQueueImpl': ('cond_', 'mutex_', {'files_': ('clear',), 'last_file_id_': ('operator++',)}),
    'tkrzw::MessageQueueReaderImpl': ('cond_', 'mutex_', {'canceled_': STORE}),
}
VALUE = {'running_': 0, 'canceled_': 1}      # the value that ends the wait
OWNER = {'tkrzw::MessageQueueReaderImpl': 'tkrzw::MessageQueueImpl'}
DATA = ('Write', 'WriteSimple', 'Append', 'AppendSimple')


def base(cls):
    return (cls or '').split('<')[0]


def pseudo(kind, what):
    return ((('G', '!%s:%s' % (kind, what)),), 'r', '<%s>' % kind, None)


class Client(lockrun.Client):
    keep_names = False

    def __init__(self, *a):
        super().__init__(*a)
        self.bad, self.late = {}, {}
        self.waits, self.notes, self.writes = {}, {}, {}
        self.waiters, self.told, self.site = set(), set(), {}

    def inline(self, it, f, call, st):
        if f.cls and f.cls.startswith(locks.REPO_MUTEX):
            return False
        if f.kind == 'lambda' or f.id in self.netwrap or self.raii(f):
            return 'full'
        if f.file in FILES and base(f.cls) in ALLCLS:
            return 'full'
        return False

    def field_of(self, fr, i):
        """(class, field) of the member expression i, if it is one in the table."""
        n = fr.f.x[i] if i is not None and i >= 0 else None
        while n is not None and n['k'] in ('cast', 'paren') and n.get('a'):
            n = fr.f.x[n['a'][0]]
        if n is None or n.get('k') != 'mem':
            return None
        c = base(n.get('c'))
        if c in TABLE and n['f'] in TABLE[c][2]:
            return c, n['f']
        return None

    def own(self, fr):
        return fr.f.kind in ('ctor', 'dtor')

    def waking(self, it, fr, st, c, fld, line, what, absolute):
        if self.own(fr):
            return
        o = OWNER.get(c, c)
        mutex = TABLE[c][1]
        held = any(h[1] == 'X' and h[2].split('<')[0] + h[2].split('>')[-1] == o + '::' + mutex or
                   (h[1] == 'X' and h[2].rsplit('::', 1)[-1] == mutex and base(h[2].rsplit('::', 1)[0]) == o) for h in st.ps)
        key = o.replace('tkrzw::', '') + '.' + fld
        self.writes.setdefault((key, what), set()).add('%s:%d' % (fr.f.file, line))
        add = {pseudo('sig', key)}
        if not held:
            add.add(pseudo('unsync', key))
        if absolute:
            add.add(pseudo('abs', key))
        st.ps = st.ps | frozenset(add)
        self.site[key] = (fr.f.file, line, fr.f.qn)

    def acquire(self, it, fr, st, path, mode, name, line):
        super().acquire(it, fr, st, path, mode, name, line)
        o = base(name.rsplit('::', 1)[0]).replace('tkrzw::', '')
        m = name.rsplit('::', 1)[-1]
        if mode == 'X':
            for k, t in TABLE.items():
                if k.replace('tkrzw::', '') == o and t[1] == m:
                    st.ps = frozenset(h for h in st.ps if not (h[2] == '<unsync>' and h[0][0][1].startswith('!unsync:%s.' % o)))

    def on_write(self, it, fr, path, val, st, line):
        if len(path) >= 2 and isinstance(path[-1], str):
            for c, (cv, mx, flds) in TABLE.items():
                if path[-1] in flds and STORE[0] in flds[path[-1]]:
                    cls = self.cls_of_path(fr, path)
                    if cls == c and val == ('c', VALUE[path[-1]]):
                        self.waking(it, fr, st, c, path[-1], line, 'assign', True)

    def cls_of_path(self, fr, path):
        # the class of the object at path[:-1]: this of a method, or by the unique owner of the field
        own = [c for c, d in self.p.classes.items() if any(f['n'] == path[-1] for f in d['fields'])]
        if path[:-1] == fr.this and base(fr.f.cls) in TABLE:
            return base(fr.f.cls)
        own = {base(c) for c in own}
        own &= set(TABLE)
        return own.pop() if len(own) == 1 else None

    def pre_call(self, it, c, st):
        fr = c.frame
        nm = (c.qn or '').rsplit('::', 1)[-1]
        if c.recvn is not None:
            cf = self.field_of(fr, c.recvn)
            if cf and nm in TABLE[cf[0]][2][cf[1]] and nm not in STORE:
                # the call itself first, then what it means
                self.waking(it, fr, st, cf[0], cf[1], c.line, nm, nm in ('erase', 'clear'))
        if nm in DATA and (c.qn or '').startswith('tkrzw::') and base(fr.f.cls) == 'tkrzw::MessageQueueImpl' and \
                'File' in c.qn:
            self.waking(it, fr, st, 'tkrzw::MessageQueueImpl', 'last_file_', c.line, nm, False)
        return super().pre_call(it, c, st)

    def cond_op(self, it, c, st):
        fr = c.frame
        nm = c.qn.rsplit('::', 1)[-1]
        if nm.startswith('notify'):
            cls = self.cv_class(fr, c.recvn)
            if cls:
                o = cls.replace('tkrzw::', '')
                self.notes.setdefault(o, set()).add('%s:%d' % (fr.f.file, c.line))
                for h in st.ps:
                    k = h[0][0][1] if h[0][0][0] == 'G' else ''
                    if h[2] == '<unsync>' and k.startswith('!unsync:%s.' % o):
                        fld = k.split('.', 1)[1]
                        self.bad.setdefault('unsync-%s.%s-%s' % (o, fld, fr.f.qn), (
                            '%s:%d' % (fr.f.file, c.line),
                            '%s changes %s and notifies without having locked %s between: a thread which has checked %s, but '
                            'does not sleep yet, misses it' % (fr.f.qn, fld, 'the mutex of the waiters', fld)))
                    if h[2] == '<abs>' and k.startswith('!abs:%s.' % o) and nm == 'notify_one':
                        fld = k.split('.', 1)[1]
                        self.bad.setdefault('one-%s.%s-%s' % (o, fld, fr.f.qn), (
                            '%s:%d' % (fr.f.file, c.line),
                            '%s ends the wait of every thread by the change of %s, but wakes only one thread' % (fr.f.qn, fld)))
                for h in st.ps:
                    if h[2] == '<sig>' and h[0][0][1].split(':', 1)[1].startswith(o + '.'):
                        k = h[0][0][1].split(':', 1)[1]
                        if k.endswith('.count_'):
                            self.told.add((k, self.site[k][2]))     # only the last decrement needs it
                st.ps = frozenset(h for h in st.ps if not (
                    h[2] in ('<sig>', '<abs>') and h[0][0][1].split(':', 1)[1].startswith(o + '.')))
        elif nm.startswith('wait'):
            cls = self.cv_class(fr, c.recvn)
            if cls:
                o = cls.replace('tkrzw::', '')
                self.waits.setdefault(o, set()).add('%s:%d' % (fr.f.file, c.line))
                self.waiters.add(fr.f.id)
                npred = {'wait': 2, 'wait_for': 3, 'wait_until': 3}.get(nm, 9)
                if len(c.argn) < npred and not self.looped(fr):
                    self.bad.setdefault('noloop-%s-%s' % (o, fr.f.qn), (
                        '%s:%d' % (fr.f.file, c.line), '%s waits without a predicate and outside a loop, so a spurious wakeup '
                        'ends the wait' % fr.f.qn))
                pred = None
                if len(c.argn) >= npred:
                    v = it.argval(c, npred - 1, st.env)
                    pred = self.p.funcs.get(v[1]) if v[0] in ('fn', 'lam') else None
                seen = self.seen_fields([pred] if pred is not None else [fr.f])
                for k, (cv, mx, flds) in TABLE.items():
                    if k != cls and OWNER.get(k) != cls:
                        continue
                    for fld in flds:
                        if fld not in seen:
                            self.bad.setdefault('blind-%s.%s-%s' % (o, fld, fr.f.qn), (
                                '%s:%d' % (fr.f.file, c.line), '%s waits without looking at %s, so the change which should end '
                                'the wait does not end it' % (fr.f.qn, fld)))
        return [(st, it.fresh(c.frame, c.i))]

    def seen_fields(self, funcs):
        ids = {f.id for f in funcs}
        todo = list(funcs)
        while todo:
            f = todo.pop()
            for g in self.p.funcs.values():
                if g.id not in ids and g.has_body and g.file in FILES and (
                        g.parent == f.id or g.id in self.summ.direct_callees(f.id)):
                    ids.add(g.id)
                    todo.append(g)
        return {n['f'] for i in ids for n in self.p.funcs[i].x if n.get('k') == 'mem'}

    def looped(self, fr):
        return bool(fr.A.loop_blocks)

    def cv_class(self, fr, i):
        n = fr.f.x[i] if i is not None and i >= 0 else None
        while n is not None and n['k'] in ('cast', 'paren') and n.get('a'):
            n = fr.f.x[n['a'][0]]
        if n is None or n.get('k') != 'mem':
            return None
        c = base(n.get('c'))
        return c if c in TABLE and n['f'] == TABLE[c][0] else None

    def on_exit(self, it, fr, val, st):
        self.exits += 1
        left = sorted(h[0][0][1].split(':', 1)[1] for h in st.ps if h[2] == '<sig>')
        if not left:
            return
        if fr.f.ret and 'Status' in fr.f.ret and it.truth(val, st.env) is not False:
            return          # only what is reported as done must be announced
        for k in left:
            f, line, q = self.site[k]
            if fr.f.qn.rsplit('::', 1)[-1] in ('Open',) or fr.f.id in self.waiters or (k, q) in self.told:
                continue
            self.late.setdefault((k, q), ('silent-%s-%s' % (k, fr.f.qn),
                '%s:%d' % (f, line), '%s returns after %s has changed %s without waking the waiting threads' % (
                    fr.f.qn, q, k), fr.f.id))


FILES = ('tkrzw_thread_util.h', 'tkrzw_message_queue.cc')
ALLCLS = set(TABLE) | {k + '::Waiter' for k in TABLE}


def run(ck):
    prog, summ = ck.load(witness=True)
    ck.rule('For each condition variable of the library: what the waiting threads wait for (fields, or data of a file) may be '
            'changed without the mutex only if the mutex is locked between the change and the notification; every change which '
            'can end a wait is followed by a notification on every path to success; a wait without a predicate is in a loop; and '
            'a change which ends the wait of all threads is not announced to one of them only. All paths of all functions of the '
            'classes are followed.')
    cl = Client(prog, summ, ck)
    rev = summ.reverse_direct()

    def helper(f):
        # a private function of these classes is followed in its callers
        callers = [prog.funcs[c] for c in rev.get(f.id, ()) if c in prog.funcs and c != f.id]
        return f.acc == 'private' and bool(callers) and all(base(c.cls) in ALLCLS for c in callers)
    roots = [f for f in prog.funcs.values() if f.has_body and base(f.cls) in ALLCLS and f.file in FILES and
             f.kind not in ('lambda',) and not helper(f)]
    lam = [f for f in prog.funcs.values() if f.kind == 'lambda' and f.file == 'tkrzw_thread_util.h' and 'TaskQueue' in f.qn]
    it, total, failed = lockrun.run(prog, summ, cl, roots + lam)
    for kq, (key, where, text, fid) in cl.late.items():
        if kq not in cl.told and fid not in cl.waiters:
            cl.bad.setdefault(key, (where, text))
    for k, (where, text) in sorted(cl.bad.items()):
        ck.violation(k, text, where)
    ck.count('functions followed', len(roots) + len(lam), 26)
    ck.count('waits', sum(len(x) for x in cl.waits.values()), 5)
    ck.count('notifications', sum(len(x) for x in cl.notes.values()), 6)
    ck.count('changes which may end a wait', len(cl.writes), 7)
    ck.sample('changes', ['%s %s %s' % (k, w, sorted(v)) for (k, w), v in sorted(cl.writes.items())])
    ck.sample('waits', ['%s %s' % (k, sorted(v)) for k, v in sorted(cl.waits.items())])
    ck.need(len(failed) <= 3, 'functions which could not be followed: %s' % failed[:5])
    ck.assume.append('what ends a wait is given by a table of fields and operations per class')
