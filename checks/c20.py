"""C20: an asynchronous operation is the synchronous one, run once, on copies of its arguments."""
import interp

DBMS = ('tkrzw::DBM', 'tkrzw::ParamDBM')
OUT = 'out!'


class Client(interp.Client):
    relfacts = True

    def __init__(self, prog, summ):
        self.p, self.s = prog, summ

    def inline(self, it, f, call, st):
        return 'full' if f.kind == 'lambda' or f.file.startswith('tkrzw_dbm_async') else False

    def rec(self, st, *e):
        st2 = st.copy()
        old = st.ps or ()
        if old.count(e) < 2:
            st2.ps = old + (e,)
        return st2

    def pre_call(self, it, c, st):
        q = c.qn or ''
        nm = q.rsplit('::', 1)[-1]
        fr = c.frame
        vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
        g = self.p.funcs.get(c.node.get('fn') or '')
        free = q.startswith('tkrzw::') and g is not None and g.cls is None and g.ps and g.ps[0]['ty'] == 'tkrzw::DBM *'
        if q.rsplit('::', 1)[0] in DBMS and not nm.startswith('~') or free:
            cst = g is not None and g.cst
            if cst and nm != 'GetMulti' and nm != 'Get':
                return None
            n = len([e for e in st.ps or () if e[0] == 'dbm'])
            st2 = self.rec(st, 'dbm', nm, vals[1:] if free else vals, c.line,
                           (tuple(c.argn[1:]) if free else tuple(c.argn)) if fr.depth == 0 else ())
            outs = 0
            for j, v in enumerate(vals):
                if v[0] == 'p' and v[1] and v[1][0][0] == 'L' and len(v[1]) == 1 and g is not None and g.ps[j]['ty'].endswith('*') \
                        and 'const' not in g.ps[j]['ty']:
                    it.assign(st2.env, v[1], ('s', OUT, outs))
                    outs += 1
            return [(st2, ('s', 'dbm', n))]
        if nm == 'Postprocess':
            return [(self.rec(st, 'post', vals, c.line), ('c', 0))]
        if nm == 'ProcessStatus':
            return [(self.rec(st, 'pstat', vals, c.line), ('c', 0))]
        if nm == 'set_value' and q.startswith('std::promise'):
            return [(self.rec(st, 'set', vals, c.line), ('c', 0))]
        if q == 'std::make_pair':
            return [(st, ('op', 'pair') + vals)]
        if self.meth is None:
            return None
        if nm == 'get_future' and q.startswith('std::promise'):
            return [(self.rec(st, 'fut', (), c.line), ('s', 'fut'))]
        if q == 'tkrzw::TaskQueue::Add':
            return [(self.rec(st, 'add', (), c.line), ('c', 0))]
        if q.startswith('tkrzw::AsyncDBM::') and c.recv is not None and fr.depth == 0:
            return [(self.rec(st, 'fwd', (nm, tuple(vals), tuple(c.argn)), c.line), ('s', 'fut'))]
        if nm in PUSH and c.recvn is not None and fr.depth == 0 and vals:
            x = self.A.field(c.recvn)
            pr = vals[-1][2:] if vals[-1][:2] == ('op', 'pair') else vals
            if x is not None and len(pr) == 2:
                for v, w in zip(pr, ('second', 'first')):
                    if v[0] == 's' and v[1] == 'i' and v[2][-1] == w:
                        self.bad('mixes up keys and values in its task (%s)' % x, c.line)
            if x is not None and views(self.A.fty.get(x, '')):
                v = vals[-1]
                if v[0] == 'op' and v[1] == 'pair':
                    v = v[-1]
                self.view(it, st, x, v, c.line)
        return None

    def on_write(self, it, fr, path, val, st, line):
        if self.meth is not None and fr.depth == 0 and len(path) == 2 and path[0][0] == 'S' and isinstance(path[1], str):
            x = path[1]
            if self.A.fty.get(x, '').startswith('std::basic_string_view'):
                self.view(it, st, x, val, line)

    def view(self, it, st, x, v, line):
        """A view of the task is set: null and ANY_DATA must stay what they are."""
        for k in sorted(self.A.taint(x)):
            if k not in NULLS.get(self.op(self.meth), ()):
                continue
            kind = 'any' if v == ANY else 'null' if v == ('str', '') or v == ('c', 0) else 'copy'
            null, any_ = facts(st, k)
            self.views += 1
            pn = self.meth.ps[k]['n']
            if kind == 'copy' and null is not False:
                self.bad('copies %s although it may be null, which is not the same as empty' % pn, line)
            elif kind == 'copy' and k in ANYS.get(self.op(self.meth), ()) and any_ is not False:
                self.bad('copies %s although it may be ANY_DATA, which is recognized by its address' % pn, line)
            elif kind == 'null' and null is not True:
                self.bad('hands on no data for %s although it may have data' % pn, line)
            elif kind == 'any' and any_ is not True:
                self.bad('hands on ANY_DATA for %s although it may be something else' % pn, line)

    def op(self, f):
        return self.ops.get(f.id, f.n)

    def bad(self, text, line):
        self.found.setdefault((self.op(self.meth), text), (self.meth, line))

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val, st))


def operations(prog):
    """Private methods which only one operation calls, by id and by name: the operation they are a part of."""
    fs = {f.id: f for f in prog.funcs.values() if f.cls == 'tkrzw::AsyncDBM' and f.kind == 'method'}
    callers = {}
    for f in fs.values():
        for n in f.x:
            if n.get('k') == 'call' and n.get('fn') in fs and n['fn'] != f.id:
                callers.setdefault(n['fn'], set()).add(f.id)
    out = {}
    for i, f in fs.items():
        seen = {i}
        g = f
        while g.acc == 'private' and len(callers.get(g.id, ())) == 1:
            j = next(iter(callers[g.id]))
            if j in seen:
                break
            seen.add(j)
            g = fs[j]
        if g is not f:
            out[i] = out[f.n] = g.n
    return out


def facts(st, k):
    null = any_ = None
    for key, f in st.env.items():
        if key[0] != 'F':
            continue
        e = key[1]
        t = f[1] != 0 if f[0] == 'eq' else True if 0 in f[1] else None
        if e[0] == 'm' and e[1] == 'data' and about(e[2], k):
            null = None if t is None else not t
        if e[0] == 'b' and e[1] == '==' and t is not None:
            x, y = e[2], e[3]
            for x, y in ((x, y), (y, x)):
                if x[0] == 'm' and x[1] == 'data' and about(x[2], k) and y == ('m', 'data', ANY):
                    any_ = t
                if x[0] == 'm' and x[1] == 'data' and about(x[2], k) and y == ('c', 0):
                    null = t
    return null, any_


def about(v, k):
    return ('s', 'arg', k) in interp.subs(v) and (v == ('s', 'arg', k) or 'second' in repr(v))


class Flow:
    """Where the fields of the task of a method come from (source order, over the syntax)."""

    def __init__(self, prog, f, task):
        self.f, self.x, self.task = f, f.x, task
        self.fty = {d['n']: d['ty'] for d in prog.classes[task]['fields']} if task in prog.classes else {}
        self.par = {p['d']: j for j, p in enumerate(f.ps)}
        self.defs = {}       # local -> [node]
        self.sets = {}       # field -> [(line, node, rhs nodes, push?)]
        for i, n in enumerate(f.x):
            if n['k'] == 'decl':
                for v in n['v']:
                    if v.get('i') is not None and v['i'] >= 0:
                        self.defs.setdefault(v['d'], []).append(v['i'])
            elif n['k'] == 'bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                self.set_(n['l'], n['ln'], i, [n['r']], False)
            elif n['k'] == 'call':
                nm = (n.get('qn') or '').rsplit('::', 1)[-1]
                if nm == 'operator=' and n.get('m') is not None:
                    self.set_(n['m'], n['ln'], i, n['a'], False)
                elif nm == 'operator=' and len(n['a']) == 2:
                    self.set_(n['a'][0], n['ln'], i, n['a'][1:], False)
                elif nm in PUSH + ('assign',) and n.get('m') is not None:
                    self.set_(n['m'], n['ln'], i, n['a'], True)

    def strip(self, i):
        n = self.x[i] if i is not None and i >= 0 else None
        while n is not None and n['k'] in ('cast', 'paren') and n.get('a'):
            n = self.x[n['a'][0]]
        return n

    def field(self, i):
        n = self.strip(i)
        return n['f'] if n is not None and n['k'] == 'mem' and n.get('c') == self.task else None

    def set_(self, l, ln, i, rhs, push):
        n = self.strip(l)
        x = self.field(l)
        if x is not None:
            self.sets.setdefault(x, []).append((ln, i, rhs, push))
        elif n is not None and n['k'] == 'var':
            self.defs.setdefault(n['d'], []).extend(rhs)

    def kids(self, n):
        for k in ('a', 'i', 'b', 'm', 'l', 'r', 's', 'c', 't', 'e'):
            v = n.get(k)
            if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < len(self.x):
                if k in ('l', 'r', 'i', 's', 'b', 'm', 'c', 't', 'e'):
                    yield v
            elif isinstance(v, list):
                for w in v:
                    if isinstance(w, int) and 0 <= w < len(self.x):
                        yield w

    def src(self, i, seen=()):
        """Direct sources of expression i: ('param', j) and ('field', x); back() of a field gives what was pushed last."""
        if i is None or i < 0 or i in seen:
            return set()
        seen = seen + (i,)
        n = self.x[i]
        if n['k'] == 'var':
            if n['d'] in self.par:
                return {('param', self.par[n['d']])}
            out = set()
            for j in self.defs.get(n['d'], ()):
                out |= self.src(j, seen)
            return out
        x = self.field(i)
        if x is not None:
            return {('field', x)}
        if n['k'] == 'call' and (n.get('qn') or '').endswith('::back') and n.get('m') is not None:
            x = self.field(n['m'])
            if x is not None:
                last = [s for s in self.sets.get(x, ()) if s[3] and (s[0], s[1]) < (n['ln'], i)]
                if last:
                    s = max(last, key=lambda s: (s[0], s[1]))
                    out = {('owned', x)}
                    for r in s[2]:
                        for z in self.src(r, seen):
                            out.add(('via',) + z)
                    return out
                return {('field', x)}
        if n['k'] == 'this':
            return set()
        out = set()
        for j in self.kids(n):
            out |= self.src(j, seen)
        return out

    def taint(self, x, seen=()):
        """Parameters whose data the field x holds."""
        if x in seen:
            return set()
        out = set()
        for ln, i, rhs, push in self.sets.get(x, ()):
            for r in rhs:
                for z in self.src(r):
                    if z[0] == 'via':
                        z = z[1:]
                    if z[0] == 'param':
                        out.add(z[1])
                    elif z[0] == 'field':
                        out |= self.taint(z[1], seen + (x,))
        return out



def data_field(A, x):
    if x not in A.fty:
        return False
    return bool(A.taint(x)) or not A.fty[x].startswith(
        ('std::promise', 'tkrzw::DBM *', 'tkrzw::AsyncDBM::CommonPostprocessor *'))


def views(ty):
    return 'basic_string_view' in ty and 'std::function' not in ty or ty in ('const char *', 'char *')


PUSH = ('emplace_back', 'push_back', 'emplace', 'insert', 'try_emplace', 'insert_or_assign')
ANY = ('s', 'i', (('G', 'tkrzw::DBM::ANY_DATA'),))
# parameters for which no data, and ANY_DATA, mean something of their own (positions)
NULLS = {'CompareExchange': (1, 2), 'CompareExchangeMulti': (0, 1)}
ANYS = {'CompareExchange': (1, 2), 'CompareExchangeMulti': (0,)}
# the operations which are not methods of the same name
NAMES = {'Rebuild': ('RebuildAdvanced', 'Rebuild'), 'Synchronize': ('SynchronizeAdvanced', 'Synchronize'),
         'ExportToFlatRecords': ('ExportDBMToFlatRecords',), 'ImportFromFlatRecords': ('ImportDBMFromFlatRecords',),
         'SearchModal': ('SearchDBMModal',)}
POST = {'ExportToFlatRecords': 'ExportRecordsToFlatRecords', 'ImportFromFlatRecords': 'ImportRecordsFromFlatRecords'}


def fields_in(v):
    return sorted({x[1] for x in interp.subs(v) if len(x) >= 2 and x[0] == ('this',) and isinstance(x[1], str)})


def outs_in(v):
    out = []

    def go(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 's' and v[1] == OUT:
                out.append(v[2])
                return
            for e in v:
                go(e)
    go(v)
    return out


def run(ck):
    prog, summ = ck.load(witness=True)
    ck.rule('Every method of AsyncDBM which queues a task: the fields of the task own copies of the arguments (views in a task '
            'refer to strings of the same task, which do not move any more); the task takes the future before it is queued, '
            'is queued once, and that future is returned. Do of the task calls the operation of the same name of the database '
            'exactly once on each path, with each argument in its place, tells the postprocessor (if there is one) the name '
            'and the status, or the processors the status, and sets the promise exactly once, to that status and what the operation gave out.')
    cl = Client(prog, summ)
    it = interp.Interp(prog, cl, summ)
    it.CAP = it.EXITCAP = 64
    cl.found, cl.views = {}, 0
    cl.ops = operations(prog)
    tasks = {}
    for f in prog.funcs.values():
        if f.n == 'Do' and f.file.startswith('tkrzw_dbm_async') and f.has_body and f.parent:
            tasks[f.parent] = f
    nm_ = npaths = nargs = nfwd = nviews = 0
    samples = []
    failed = []
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.id)):
        if f.cls != 'tkrzw::AsyncDBM' or not f.has_body or f.kind != 'method' or 'future' not in f.ret:
            continue
        do = tasks.get(f.id)
        cl.meth = f
        cl.A = A = Flow(prog, f, do.cls if do else '')
        cl.exits = []
        it.steps = 0
        it.memo.clear()
        try:
            it.run_root(f, args={j: ('s', 'arg', j) for j, p in enumerate(f.ps)})
        except interp.Budget:
            failed.append(f.qn)
            continue
        if do is None:
            nfwd += 1
            for ps, v, st in cl.exits:
                fw = [e for e in ps if e[0] == 'fwd']
                if len(fw) != 1 or cl.ops.get(fw[0][1][0], fw[0][1][0]) != cl.op(f):
                    cl.bad('does not hand the call on to %s once' % cl.op(f), f.line)
                    continue
                got = []
                for i in fw[0][1][2]:
                    got.append(sorted(z[1] for z in A.src(i) if z[0] == 'param'))
                want = list(range(len(f.ps)))
                if len(got) != len(want) or any(g and w not in g for g, w in zip(got, want)):
                    cl.bad('does not hand on each argument in its place', fw[0][2])
                if v != ('s', 'fut'):
                    cl.bad('does not return the future of the call it hands on', fw[0][2])
            continue
        nm_ += 1
        for ps, v, st in cl.exits:
            npaths += 1
            ev = [e[0] for e in ps if e[0] in ('fut', 'add')]
            if ev.count('add') != 1:
                cl.bad('queues its task %s' % ('%d times' % ev.count('add') if ev.count('add') else 'on no account on some path'), f.line)
            elif ev.count('fut') != 1 or ev.index('fut') > ev.index('add'):
                cl.bad('does not take the future of the task once, before the task is queued', f.line)
            elif v != ('s', 'fut'):
                cl.bad('does not return the future of the task', f.line)
        # ownership
        for x, ty in sorted(A.fty.items()):
            if not data_field(A, x):
                continue
            if ty.endswith('&'):
                cl.bad('keeps a reference in its task (%s)' % x, f.line)
            for ln, i, rhs, push in A.sets.get(x, ()):
                for r in rhs:
                    s = A.src(r)
                    if views(ty):
                        nviews += 1
                        if any(z[0] == 'param' for z in s):
                            cl.bad('lets the task refer to the data of the caller (%s)' % x, ln)
                        for z in s:
                            if z[0] == 'owned' and A.fty.get(z[1], '').startswith('std::vector<'):
                                e = reserve(A, f, z[1])
                                if e:
                                    cl.bad('lets the task refer to elements of %s, which move when it grows%s' % (z[1], e), ln)
        # the task
        cl.meth, cl.exits = None, []
        it.steps = 0
        it.memo.clear()
        try:
            it.run_root(do)
        except interp.Budget:
            failed.append(do.qn)
            continue
        cl.meth = f
        D = Flow(prog, do, do.cls)
        D.par = {}
        full = False
        for ps, v, st in cl.exits:
            npaths += 1
            db = [e for e in ps if e[0] == 'dbm']
            sets = [e for e in ps if e[0] == 'set']
            names = NAMES.get(cl.op(f), (cl.op(f),))
            if len(db) != 1 or db[0][1] not in names:
                cl.bad('lets its task call %s instead of %s once' % (' and '.join(e[1] for e in db) or 'nothing', names[0]), do.line)
                continue
            args = []
            for j, a in enumerate(db[0][2]):
                fl = {x for x in fields_in(a) if data_field(A, x)}
                if not fl and j < len(db[0][4]):
                    fl = {z[1] for z in D.src(db[0][4][j]) if z[0] == 'field' and data_field(A, z[1])}
                if fl:
                    args.append(set().union(*[A.taint(x) or {'?'} for x in fl]))
            nargs += len(args)
            want = list(range(len(f.ps)))
            if db[0][1] == names[0]:
                full = True
            elif len(args) < len(want):
                want = want[:len(args)]
            if len(args) != len(want):
                cl.bad('lets its task call %s with %d of its %d arguments' % (db[0][1], len(args), len(want)), db[0][3])
            for j, (a, w) in enumerate(zip(args, want)):
                if '?' not in a and w not in a:
                    cl.bad('lets its task call %s with something else in place of %s' % (db[0][1], f.ps[w]['n']), db[0][3])
                elif a == {'?'}:
                    cl.bad('does not set what its task passes as %s' % f.ps[w]['n'], db[0][3])
            S = ('s', 'dbm', 0)
            if len(sets) != 1:
                cl.bad('has a task which sets its promise %d times on some path' % len(sets), do.line)
            else:
                val = sets[0][1][0] if sets[0][1] else None
                st_ = val[2] if val is not None and val[0] == 'op' and val[1] == 'pair' else val
                if st_ is None or st_[0] in ('c', 'str') or st_[0] == 's' and st_[1] in (OUT, 'dbm') and st_ != S:
                    cl.bad('gives its caller another status than that of the operation', sets[0][2])
                if val is not None and val[0] == 'op' and val[1] == 'pair':
                    o = outs_in(val)
                    if o and o != sorted(set(o)):
                        cl.bad('gives its caller the results of the operation in another order', sets[0][2])
                    if len(val) > 3 and val[3][0] in ('c', 'str') and 'c' == val[3][0]:
                        cl.bad('gives its caller a constant instead of the result of the operation', sets[0][2])
            posts = [e for e in ps if e[0] == 'post']
            if 'postproc' in A.fty:
                isnull = it.truth(('s', 'i', (('this',), 'postproc')), st.env)
                if isnull is not False and len(posts) != 1 and isnull is True:
                    cl.bad('does not tell the postprocessor once', do.line)
                for e in posts:
                    if len(e[1]) == 2 and (e[1][0][0] == 'str' and e[1][0][1] != POST.get(cl.op(f), cl.op(f))):
                        cl.bad('tells the postprocessor the name of another operation', e[2])
                    if len(e[1]) == 2 and (e[1][1][0] == 'c' or e[1][1][0] == 's' and e[1][1][1] == 'dbm' and e[1][1] != S):
                        cl.bad('tells the postprocessor another status than that of the operation', e[2])
            order = [e[0] for e in ps]
            if 'set' in order and any(k in order[order.index('set'):] for k in ('post', 'pstat')):
                cl.bad('sets the promise before the processor is told the status', do.line)
            for e in ps:
                if e[0] == 'pstat' and e[1] and e[1][0] != S and e[1][0][0] == 'c':
                    cl.bad('tells the processor another status than that of the operation', e[2])
            if any(p['n'] in ('proc', 'key_proc_pairs') and f.ret.count('unique_ptr') + f.ret.count('shared_ptr') for p in f.ps) and \
                    cl.op(f).startswith('Process') and cl.op(f) != 'ProcessMulti' and len([e for e in ps if e[0] == 'pstat']) != 1:
                cl.bad('does not tell the processor the status once', do.line)
        if not full and cl.exits:
            cl.bad('never calls %s' % NAMES.get(cl.op(f), (cl.op(f),))[0], do.line)
        samples.append('%s: %d paths' % (f.n, len(cl.exits)))
    for (m, text), (f, line) in sorted(cl.found.items()):
        ck.violation('AsyncDBM::%s|%s' % (m, text), 'AsyncDBM::%s %s' % (m, text), '%s:%d' % (f.file, line))
    ck.count('queueing methods', nm_, 24)
    ck.count('forwarding methods', nfwd, 3)
    ck.count('paths', npaths, 70)
    ck.count('arguments traced', nargs, 60)
    ck.count('views set', nviews, 8)
    ck.count('views with a meaning of null', cl.views, 6)
    ck.sample('methods', samples)
    ck.need(len(failed) <= 3, 'methods which could not be followed: %s' % failed[:5])


def reserve(A, f, x):
    """Empty if the vector field x is given room for all it gets, before its elements are referred to."""
    pushes = [s for s in A.sets.get(x, ()) if s[3]]
    res = [n for n in f.x if n['k'] == 'call' and (n.get('qn') or '').endswith('::reserve') and n.get('m') is not None
           and A.field(n['m']) == x]
    if not res:
        return ', and room for all is not reserved'
    if len(res) > 1:
        return ''
    room = linear(A, res[0]['a'][0])
    if room is None:
        return ''
    used = {}
    for ln, i, rhs, push in pushes:
        ps = set()
        for r in rhs:
            ps |= {z[1] for z in A.src(r) if z[0] == 'param'}
        if len(ps) != 1:
            return ''
        p = ps.pop()
        used[p] = used.get(p, 0) + 1
    for p, k in used.items():
        if room.get(p, 0) < k:
            return ', and the room reserved does not suffice'
    return ''


def linear(A, i):
    n = A.strip(i)
    if n is None:
        return None
    if 'cv' in n:
        return {None: n['cv']}
    if n['k'] == 'call' and (n.get('qn') or '').endswith('::size') and n.get('m') is not None:
        s = A.src(n['m'])
        if len(s) == 1 and next(iter(s))[0] == 'param':
            return {next(iter(s))[1]: 1}
        return None
    if n['k'] == 'bin' and n['op'] in ('+', '*'):
        a, b = linear(A, n['l']), linear(A, n['r'])
        if a is None or b is None:
            return None
        if n['op'] == '+':
            return {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
        if set(a) == {None}:
            a, b = b, a
        if set(b) != {None}:
            return None
        return {k: v * b[None] for k, v in a.items()}
    return None
