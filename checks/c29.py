"""C29: the basic operations decide as documented, for existing and missing records (decision tables by interpretation)."""
import itertools

import interp

REC = ('s', 'rec')          # the value of the existing record
KEYREC = ('s', 'reckey')    # its key, where the operation does not give it
ANY, NULLD, GEN = 'any', 'null', 'given'
NOOP, REMOVE = ('verdict', 'NOOP'), ('verdict', 'REMOVE')
OK, NOTFOUND, DUP, INFEASIBLE, FAULT = ('c', 0), ('c', 7), ('c', 10), ('c', 9), ('c', 2)
MISSING = '*unset*'


def arg(n):
    return ('s', 'arg', n)


class Op:
    """qn of a function, its parameters by role in declared order, scenarios, and the expectation."""

    def __init__(self, qn, roles, spec, first=False):
        self.qn, self.roles, self.spec, self.first = qn, roles, spec, first


def if_(c, d):
    return d if c else {}


# roles: key, sv:NAME (string view with data null, ANY or given), val (plain view), out:NAME (pointer, may be null), flag, inc, int
def s_get(a, ex):
    if ex:
        return dict(wr=0, verdict=NOOP, st=OK, out={'value': REC})
    return dict(wr=0, verdict=NOOP, st=NOTFOUND, out={})


def s_set(a, ex):
    if not ex:
        return dict(wr=1, verdict=arg('value'), st=OK, out={})
    if a['overwrite']:
        return dict(wr=1, verdict=arg('value'), st=OK, out={'old_value': REC})
    return dict(wr=1, verdict=NOOP, st=DUP, out={'old_value': REC})


def s_remove(a, ex):
    if ex:
        return dict(wr=1, verdict=REMOVE, st=OK, out={'old_value': REC})
    return dict(wr=1, verdict=NOOP, st=NOTFOUND, out={})


def s_append(a, ex):
    if not ex:
        return dict(wr=1, verdict=arg('value'), st=OK, out={})
    v = (REC, arg('delim'), arg('value')) if a['delim'] == GEN else (REC, arg('value'))
    return dict(wr=1, verdict=('cat',) + v, st=OK, out={})


def s_compex(a, ex):
    wr = 0 if a['desired'] == ANY else 1
    fnd = {'found': ('c', 1 if ex else 0)}
    if ex:
        fnd['actual'] = REC
    want = {NULLD: REMOVE if ex else NOOP, ANY: NOOP, GEN: arg('desired')}[a['desired']]
    if ex:
        match = a['expected'] == ANY or (a['expected'] == GEN and a['eq'])
    else:
        match = a['expected'] == NULLD
    if match:
        return dict(wr=wr, verdict=want, st=OK, out=fnd)
    return dict(wr=wr, verdict=NOOP, st=INFEASIBLE, out=fnd)


def s_increment(a, ex):
    cur = ('s', 's2i', REC) if ex else arg('initial')
    if a['increment'] == 'min':
        return dict(wr=0, verdict=NOOP, st=OK, out={'current': cur})
    v = ('op', '+', cur, arg('increment'))
    return dict(wr=1, verdict=('s', 'i2s', v), st=OK, out={'current': v})


def s_iget(a, ex):
    return dict(wr=0, verdict=NOOP, st=OK, out={'key': KEYREC, 'value': REC})


def s_iset(a, ex):
    return dict(wr=1, verdict=arg('value'), st=OK, out={'old_key': KEYREC, 'old_value': REC})


def s_iremove(a, ex):
    return dict(wr=1, verdict=REMOVE, st=OK, out={'old_key': KEYREC, 'old_value': REC})


def s_pop(a, ex):
    return dict(wr=1, verdict=REMOVE, st=OK, out={'key': KEYREC, 'value': REC})


OPS = [
    Op('tkrzw::DBM::Get', 'key out:value', s_get),
    Op('tkrzw::HashDBM::Get', 'key out:value', s_get),
    Op('tkrzw::DBM::Set', 'key val:value flag:overwrite out:old_value', s_set),
    Op('tkrzw::HashDBM::Set', 'key val:value flag:overwrite out:old_value', s_set),
    Op('tkrzw::SkipDBM::Set', 'key val:value flag:overwrite out:old_value', s_set),
    Op('tkrzw::DBM::Remove', 'key out:old_value', s_remove),
    Op('tkrzw::HashDBM::Remove', 'key out:old_value', s_remove),
    Op('tkrzw::SkipDBM::Remove', 'key out:old_value', s_remove),
    Op('tkrzw::DBM::Append', 'key val:value sv:delim', s_append),
    Op('tkrzw::DBM::CompareExchange', 'key sv:expected sv:desired out:actual out:found', s_compex),
    Op('tkrzw::DBM::Increment', 'key inc:increment out:current int:initial', s_increment),
    Op('tkrzw::DBM::PopFirst', 'out:key out:value', s_pop, True),
    Op('tkrzw::DBM::Iterator::Get', 'out:key out:value', s_iget, True),
    Op('tkrzw::DBM::Iterator::Set', 'val:value out:old_key out:old_value', s_iset, True),
    Op('tkrzw::DBM::Iterator::Remove', 'out:old_key out:old_value', s_iremove, True),
]


def gname(path):
    if len(path) == 1 and path[0][0] == 'G':
        return str(path[0][1]).rsplit('::', 1)[-1]
    return None


class Client(interp.Client):
    def __init__(self, prog, summ):
        self.p = prog
        self.summ = summ

    def inline(self, it, f, call, st):
        if f.kind in ('lambda', 'ctor') or f.qn.startswith(('tkrzw::DBM::', 'tkrzw::HashDBM::', 'tkrzw::SkipDBM::')) or 'RecordProcessor' in f.qn:
            return 'full'
        return False

    def view(self, v):
        """What a string view shows: NOOP, REMOVE, ANY, or a value."""
        if isinstance(v, tuple) and len(v) == 3 and v[:2] == ('s', 'i'):
            g = gname(v[2])
            if g in ('NOOP', 'REMOVE', 'ANY_DATA'):
                return ('verdict', g)
        return v

    def kind(self, v):
        """Kind of data pointer of a view."""
        w = self.view(v)
        if w[0] == 'verdict':
            return {'NOOP': ('c', 100001), 'REMOVE': ('c', 100002), 'ANY_DATA': ('c', 100003)}[w[1]]
        for n, k in self.scn.items():
            if k in (ANY, NULLD, GEN) and w == arg(n):
                return {ANY: ('c', 100003), NULLD: ('c', 0), GEN: ('c', 100010 + sorted(self.scn).index(n))}[k]
        if w == REC:
            return ('c', 100005)
        return None

    def process(self, it, c, st, j, wr, readable):
        """One call of Process or the like: the record exists, or it does not."""
        if st.ps is not None:
            self.err('processes twice')
        out = []
        p = it.argval(c, j, st.env)
        if p[0] != 'p':
            return None
        path = p[1]
        ty = st.env.get(('ty', path))
        if ty is None:
            return None
        fqs = {}
        for f in self.p.funcs.values():
            if f.cls == ty[1] and f.qn.rsplit('::', 1)[-1] in ('ProcessFull', 'ProcessEmpty') and f.has_body:
                fqs[f.qn.rsplit('::', 1)[-1]] = f
        s0 = st.copy()
        s0.ps = ('failed', None, None)
        out.append((s0, FAULT))
        for ex in ((True,) if self.op.first else (True, False)):
            f = fqs.get('ProcessFull' if ex else 'ProcessEmpty')
            if f is None:
                s2 = st.copy()
                s2.ps = (ex, wr, NOOP)
                out.append((s2, OK))
                continue
            rec = REC if readable != ('c', 0) else ('s', 'unread')
            args = [self.keyval] + ([rec] if ex else [])
            for s2, v in it.invoke(f, path, args, (), st.copy(), c.frame, c.line):
                if v[0] in ('p', 'o'):
                    v = it.rd(v[1], s2.env)
                s2.ps = (ex, wr, self.view(v))
                out.append((s2, OK))
        return out

    def pre_call(self, it, c, st):
        q = c.qn
        m = q.rsplit('::', 1)[-1]
        pk = [x for x in (c.node.get('pt') or [])]
        if q.startswith('tkrzw::') and m in ('Process', 'ProcessFirst', 'ProcessImpl'):
            for j in range(len(c.args)):
                v = it.argval(c, j, st.env)
                if v is not None and v[0] == 'p' and ('ty', v[1]) in st.env:
                    rest = [it.argval(c, k, st.env) for k in range(j + 1, len(c.args))]
                    wr = rest[-1] if rest else None
                    rd = rest[0] if len(rest) > 1 else ('c', 1)
                    k = [it.argval(c, k, st.env) for k in range(j)]
                    if not self.op.first and (not k or k[-1] != self.keyval):
                        self.err('processes a key other than the given one')
                    t = it.truth(rd, st.env) if rd[0] != 'c' else bool(rd[1])
                    return self.process(it, c, st, j, wr, ('c', 0) if t is False else ('c', 1))
        if m == 'Insert' and q.startswith('tkrzw::SkipDBMImpl'):
            # stores blindly; the deletion of a missing record is resolved later
            s2 = st.copy()
            v = self.view(it.argval(c, 1, st.env))
            if it.argval(c, 0, st.env) != self.keyval:
                self.err('processes a key other than the given one')
            out = []
            for ex in (True, False):
                s2 = st.copy()
                s2.ps = (ex, ('c', 1), v, 'blind')
                out.append((s2, OK))
            return out
        if 'basic_string_view' in q and c.recv is not None and m in ('data', 'empty', 'size', 'length'):
            g = gname(c.recv)
            v = ('s', 'i', c.recv) if g else it.rd(c.recv, st.env)
            if m == 'data':
                k = self.kind(v)
                if k is not None:
                    return [(st, k)]
            elif m == 'empty':
                w = self.view(v)
                for n, k in self.scn.items():
                    if w == arg(n) and k in (NULLD, GEN):
                        return [(st, ('c', 1 if k == NULLD else 0))]
        if m in ('operator==', 'operator!=') and ('basic_string_view' in str(c.node.get('pt')) or q.startswith('std::')) and len(c.args) == 2:
            a, b = it.argval(c, 0, st.env), it.argval(c, 1, st.env)
            if REC in (a, b) and arg('expected') in (a, b):
                e = self.scn.get('eq')
                return [(st, ('c', 1 if e == (m == 'operator==') else 0))]
        if q in ('tkrzw::StrToIntBigEndian',):
            return [(st, ('s', 's2i', it.argval(c, 0, st.env)))]
        if q in ('tkrzw::IntToStrBigEndian',):
            return [(st, ('s', 'i2s', it.argval(c, 0, st.env)))]
        if q.startswith('std::basic_string<') or q.startswith('std::__cxx11::basic_string<'):
            if m == 'reserve':
                return [(st, ('c', 0))]
            if m in ('append', 'operator+=') and len(c.args) == 1 and c.recv is not None:
                cur = st.env.get(c.recv)
                cur = cur if cur is not None and cur[0] == 'cat' else (('cat', cur) if cur in (REC, arg('value')) else ('cat',))
                v = it.argval(c, 0, st.env)
                st.env[c.recv] = cur + (v[1:] if v[0] == 'cat' else (v,))
                return [(st, ('p', c.recv))]
        if q == 'tkrzw::StrCat':
            return [(st, ('cat',) + tuple(it.argval(c, j, st.env) for j in range(len(c.args))))]
        return None

    def err(self, text):
        self.errors.add(text)


# ---- operations on several records: the processors, and the order in which they are applied
BOOLP, STP, STRP = (('S', ('s', 'out', 'noop')),), (('S', ('s', 'out', 'status')),), (('S', ('s', 'out', 'str')),)


def multi_processors():
    """(class, [argument roles], scenario, existing?, expected verdict, expected noop, expected status, expected string)"""
    for noop in (0, 1):
        for k in (NULLD, ANY, GEN):
            for eq in (True, False):
                n = noop if (k == ANY or k == GEN and eq) else 1
                yield ('RecordCheckerCompareExchangeMulti', ['noop', 'expected'], dict(noop=noop, expected=k, eq=eq), True, NOOP, n, None, None)
                n = noop if k == NULLD else 1
                yield ('RecordCheckerCompareExchangeMulti', ['noop', 'expected'], dict(noop=noop, expected=k, eq=eq), False, NOOP, n, None, None)
        for k in (NULLD, GEN):
            for ex in (True, False):
                v = NOOP if noop else ((REMOVE if ex else NOOP) if k == NULLD else arg('desired'))
                yield ('RecordSetterCompareExchangeMulti', ['noop', 'desired'], dict(noop=noop, desired=k), ex, v, noop, None, None)
    for st in (0, 7, 10):
        yield ('RecordCheckerRekey', ['status'], dict(status=st), True, NOOP, None, 10, None)
        yield ('RecordCheckerRekey', ['status'], dict(status=st), False, NOOP, None, st, None)
        for copying in (0, 1):
            yield ('RecordRemoverRekey', ['status', 'str', 'copying'], dict(status=st, copying=copying), True,
                   NOOP if st or copying else REMOVE, None, st, REC if not st else None)
            yield ('RecordRemoverRekey', ['status', 'str', 'copying'], dict(status=st, copying=copying), False, NOOP, None, None if st else 7, None)
        for ex in (True, False):
            yield ('RecordSetterRekey', ['status', 'str'], dict(status=st), ex, NOOP if st else ('s', 'strval'), None, st, None)


def multi(ck, cl, it, prog):
    n = 0
    for cname, roles, scn, ex, verdict, noop, status, string in multi_processors():
        cq = 'tkrzw::DBM::' + cname
        fs = [f for f in prog.funcs.values() if f.cls == cq and f.has_body]
        ctor = [f for f in fs if f.kind == 'ctor' and len(f.ps) == len(roles)]
        meth = [f for f in fs if f.qn.endswith('::ProcessFull' if ex else '::ProcessEmpty')]
        if not ctor or not meth:
            continue
        cl.scn, cl.errors, cl.op = {k: v for k, v in scn.items() if isinstance(v, (str, bool))}, set(), OPS[0]
        cl.keyval = arg('key')
        this = (('L', 0, 'obj'),)
        env = {BOOLP: ('c', scn.get('noop', 0)), STP: ('c', scn.get('status', 0)), STRP: ('s', 'strval')}
        args = []
        for r in roles:
            if r in ('noop', 'status', 'str'):
                args.append(('s', 'out', r))
            elif r == 'copying':
                args.append(('c', scn[r]))
            else:
                args.append(arg(r))
        fr = interp.Frame(meth[0], 0, (('none',),), (), (), None)
        it.steps = 0
        it.memo.clear()
        it.cmemo.clear()
        st = interp.St(env, None)
        sts = it.invoke(ctor[0], this, args, (), st, fr, 0)
        for st, _ in sts:
            for s2, v in it.invoke(meth[0], this, [arg('key')] + ([REC] if ex else []), (), st, fr, 0):
                n += 1
                if v[0] in ('p', 'o'):
                    v = it.rd(v[1], s2.env)
                who = 'an existing' if ex else 'a missing'
                where = '%s:%s' % (meth[0].file, meth[0].line)

                def bad(text):
                    ck.violation('%s|%s' % (cname, text), '%s %s (%s)' % (cname, text, scn), where)
                if cl.view(v) != verdict:
                    bad('decides on %s record other than specified' % who)
                if noop is not None and it.rd(BOOLP, s2.env) != ('c', noop):
                    bad('marks the exchange as infeasible other than specified for %s record' % who)
                if status is not None and it.rd(STP, s2.env) != ('c', status):
                    bad('sets a wrong status for %s record' % who)
                if string is not None and it.rd(STRP, s2.env) != string:
                    bad('does not hand over the value of %s record' % who)
    return n


def norm(v):
    if isinstance(v, tuple) and v[:2] == ('op', '+'):
        return ('sum', frozenset(map(norm, v[2:])))
    if isinstance(v, tuple):
        return tuple(norm(x) if isinstance(x, tuple) else x for x in v)
    return v


def run(ck):
    prog, summ = ck.load()
    ck.rule('Each basic operation is interpreted for every combination of null and given output pointers, flags, null, ANY or '
            'given views, equal or different values, and for an existing and a missing record, through the record processor it '
            'makes. The mode passed to Process, the verdict of the processor, the status and every output must be those of the '
            'decision table; a failure of Process must be returned, and an output must not come from a value the database was '
            'told not to read.')
    cl = Client(prog, summ)
    it = interp.Interp(prog, cl, summ)
    it.CAP = 64
    it.BUDGET = 300000
    cells, nops, failed = 0, 0, []
    for op in OPS:
        fs = [f for f in prog.funcs.values() if f.qn == op.qn and f.has_body and len(f.ps) == len(op.roles.split())
              and not any('RecordProcessor' in p['ty'] for p in f.ps)]
        if not fs:
            continue
        f = fs[0]
        nops += 1
        roles = [r.split(':') for r in op.roles.split()]
        dims = []
        for r in roles:
            if r[0] == 'out':
                dims.append((r[1], (True, False)))
            elif r[0] == 'flag':
                dims.append((r[1], (True, False)))
            elif r[0] == 'sv':
                dims.append((r[1], (NULLD, GEN) if r[1] == 'delim' else (NULLD, ANY, GEN)))
            elif r[0] == 'inc':
                dims.append((r[1], ('min', 'plain')))
        if any(r[0] == 'sv' and r[1] == 'expected' for r in roles):
            dims.append(('eq', (True, False)))
        for combo in itertools.product(*[d[1] for d in dims]):
            scn = dict(zip([d[0] for d in dims], combo))
            cl.scn, cl.op, cl.errors = scn, op, set()
            env = {}
            fr = interp.Frame(f, 0, (('this',),), (), (f.id,), None)
            cl.keyval = KEYREC if op.first else arg('key')
            for p, r in zip(f.ps, roles):
                path = (('L', 0, p['d']),)
                name = r[1] if len(r) > 1 else 'key'
                if r[0] == 'out':
                    if scn[name]:
                        env[path] = ('s', 'out', name)
                        env[('F', env[path])] = ('ne', frozenset((0,)))
                        env[(('S', env[path]),)] = ('s', MISSING, name)
                    else:
                        env[path] = ('c', 0)
                elif r[0] == 'flag':
                    env[path] = ('c', 1 if scn[name] else 0)
                elif r[0] == 'inc':
                    if scn[name] == 'min':
                        env[path] = ('c', -(1 << 63))
                    else:
                        env[path] = arg(name)
                        env[('F', arg(name))] = ('ne', frozenset((-(1 << 63),)))
                else:
                    env[path] = arg(name)
            it.steps = 0
            it.memo.clear()
            it.cmemo.clear()
            try:
                outs = it.run_body(fr, interp.St(env, None))
            except interp.Budget:
                failed.append(op.qn)
                break
            seen = set()

            def bad(text):
                key = op.qn.replace('tkrzw::', '')
                ck.violation('%s|%s' % (key, text), '%s %s (%s)' % (key, text, ', '.join('%s=%s' % kv for kv in sorted(scn.items()))),
                             '%s:%s' % (f.file, f.line))
            for e in cl.errors:
                bad(e)
            for st, v in outs:
                if v is not None and v[0] in ('p', 'o'):
                    v = it.rd(v[1], st.env)
                if st.ps is None:
                    bad('returns without having processed the record')
                    continue
                ex, wr, verdict = st.ps[:3]
                seen.add(ex)
                if ex == 'failed':
                    if v != FAULT:
                        bad('hides the failure of processing the record')
                    continue
                cells += 1
                w = op.spec(scn, ex)
                who = 'an existing' if ex else 'a missing'
                if len(st.ps) > 3:
                    # stored blindly
                    if not (w['verdict'] == verdict or verdict == REMOVE and not ex):
                        bad('stores other than the specified for %s record' % who)
                    if any(k in scn and scn[k] for k in w['out']):
                        bad('stores without providing the requested output')
                    continue
                wv = bool(wr[1]) if wr is not None and wr[0] == 'c' else (it.truth(wr, st.env) if wr is not None else None)
                if wv is None or bool(w['wr']) != wv:
                    if not (w['verdict'] == NOOP and wv):
                        bad('processes %s record in the wrong mode' % who)
                    elif w['wr'] == 0:
                        bad('asks for the writable mode without need')
                if norm(verdict) != norm(w['verdict']):
                    bad('decides on %s record other than specified' % who)
                if v != w['st']:
                    bad('returns a wrong status for %s record' % who)
                for n, want in list(w['out'].items()) + [(k, None) for k, x in scn.items() if x is True and k not in w['out']]:
                    if not any(r[0] == 'out' and r[1] == n for r in roles) or not scn[n]:
                        continue
                    got = it.rd((('S', ('s', 'out', n)),), st.env)
                    if want is not None and norm(got) != norm(want):
                        bad('sets the output %s other than specified for %s record' % (n, who))
                    if want is None and got == ('s', 'unread'):
                        bad('sets the output %s to data which was not read' % n)
            if not ({True} if op.first else {True, False}) <= seen:
                bad('does not process the record')
    ck.count('multi_record_processor_cells', multi(ck, cl, it, prog), 20)
    ck.count('operations', nops, 13)
    ck.count('table_cells_compared', cells, 150)
    ck.count('over_budget', len(failed))
    ck.need(len(failed) <= 1, 'over budget: %s' % failed)
    ck.sample('operations', [o.qn for o in OPS])
    ck.assume += ['Process calls the processor as C28 decides, and once']
