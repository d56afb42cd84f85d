"""Runs the code around record processors once per verdict (NOOP, REMOVE, a value), and records what is done with it."""
import time

import interp
import locks
from fa import fa, children

T = ('this',)
DEBUG = False
ONLY = ''
NOOP, REMOVE, VALUE, CLEAR, APPEND = 'NOOP', 'REMOVE', 'VALUE', 'CLEAR', 'APPEND'
PTR = {NOOP: ('c', 100001), REMOVE: ('c', 100002), VALUE: ('c', 100003)}
PROC = {'tkrzw::DBM::RecordProcessor::ProcessFull': True, 'tkrzw::DBM::RecordProcessor::ProcessEmpty': False,
        'tkrzw::CallRecordProcessFull': True, 'tkrzw::CallRecordProcessEmpty': False}
LOG = {'tkrzw::DBM::UpdateLogger::WriteSet': 'set', 'tkrzw::DBM::UpdateLogger::WriteRemove': 'remove',
       'tkrzw::DBM::UpdateLogger::WriteClear': 'clear'}
MUT_STD = {'insert', 'erase', 'emplace', 'emplace_back', 'push_back', 'clear', 'pop_back', 'operator=', 'assign', 'append', 'operator+=',
           'insert_or_assign', 'try_emplace', 'swap', 'resize', 'emplace_hint', 'extract'}
FILE_MUT = {'Write', 'WriteInline', 'WriteSimple', 'Append', 'AppendSimple', 'Expand', 'ExpandSimple', 'Truncate'}
LOGC = 'tkrzw::DBM::UpdateLogger::WriteClear'
PRIM = {'xfree', 'xrealloc', 'xreallocappend'}
# members which are not part of the contents
AUX = {'proc_clock_', 'mini_opaque_', 'eff_data_size_', 'num_records_', 'cache_', 'update_logger_', 'record_index_', 'past_offsets_'}


def fld(*names):
    p = (T,)
    for n in names[:-1]:
        p = (('S', ('s', 'i', p + (n,))),)
    return p + (names[-1],)


class Txn:
    """ps = None, or (verdict, full, key value, log entries, mutated, count delta, line)"""


def v_is_value(t):
    return t is not None and t[0] == VALUE


class Client(interp.Client):
    def __init__(self, prog, summ):
        self.p = prog
        self.summ = summ
        self.writable = True
        self.logger = True
        self.reports = set()
        self.txns = set()
        self.comp = None

    def inline(self, it, f, call, st):
        if f.kind == 'lambda':
            return 'full'
        if f.qn.startswith('tkrzw::CallRecordProcess'):
            return False
        if f.kind in ('ctor', 'dtor'):
            return False
        if f.id in self.rootids:
            return False
        if f.file == self.root.file and f.id in self.relevant:
            return 'full'
        return False

    def enter(self, it, f, this, ps):
        return ps

    # -- events
    def report(self, kind, c_or_line, text, it=None):
        self.reports.add((kind, self.root.qn, self.root.file, c_or_line, text))

    def close(self, st, ok):
        t = st.ps
        if t is None:
            return
        v, full, key, log, mut, delta, line = t
        if v in (CLEAR, APPEND):
            if not ok or not (mut[0] or log):
                return
            self.txns.add((self.root.qn, line, v, full, True, self.logger))
            want = 'clear' if v == CLEAR else 'set'
            if self.logger and [e[0] for e in log] != [want]:
                self.report('log', line, 'writes %s to the update log, instead of one record of %s' % (
                    ' and '.join(e[0] for e in log) or 'nothing', want))
            if v == APPEND and delta not in ((), (1,)):
                self.report('count', line, 'changes the record count by other than one by appending')
            if v == APPEND and delta == (1,) and log and log[0][1] not in self.args:
                self.report('log', line, 'logs a value other than the appended one for a new record')
            if v == APPEND and delta == () and log and log[0][1] in self.args:
                self.report('log', line, 'logs only the appended part for an existing record')
            return
        w, l = self.writable, self.logger
        what = 'ProcessFull' if full else 'ProcessEmpty'
        where = line
        self.txns.add((self.root.qn, line, v, full, w, l))
        if v == NOOP or not w:
            why = 'NOOP' if w else 'processing in the read-only mode'
            if mut[0]:
                self.report('verdict', where, 'modifies the data after %s by %s' % (why, what))
            if log:
                self.report('log', where, 'writes an update log after %s by %s' % (why, what))
            if delta:
                self.report('count', where, 'changes the record count after %s by %s' % (why, what))
            return
        if not ok:
            return
        if v == REMOVE and not full and not self.lazy:
            if mut[0]:
                self.report('verdict', where, 'modifies the data after REMOVE for a missing record')
            if log:
                self.report('log', where, 'logs the removal of a missing record')
            if delta:
                self.report('count', where, 'changes the record count after REMOVE for a missing record')
            return
        if mut[0] and v == VALUE and not mut[2]:
            self.report('verdict', where, 'does not store the value returned by %s' % what)
        if not mut[0]:
            self.report('verdict', where, 'does nothing after %s by %s' % ('REMOVE' if v == REMOVE else 'a new value', what))
        if l:
            want = 'remove' if v == REMOVE else 'set'
            if [e[0] for e in log] != [want]:
                self.report('log', where, 'writes %s to the update log, instead of one record of %s, after %s by %s' % (
                    ' and '.join(e[0] for e in log) or 'nothing', want, 'REMOVE' if v == REMOVE else 'a new value', what))
        if self.counted:
            d = 0 if v == VALUE and full else (1 if v == VALUE else -1)
            first = delta[:1] if d else (0,)
            rest = delta[1:] if d else delta
            if first != (d,) or [x for x in rest if x >= 0 or not self.evicts]:
                self.report('count', where, 'changes the record count by %s instead of %+d after %s by %s' % (
                    ', '.join('%+d' % x if x else 'an unknown number' for x in delta) or '0', d,
                    'REMOVE' if v == REMOVE else 'a new value', what))

    def mutate(self, st, it, line):
        t = st.ps
        if t is None:
            return
        v, full, key, log, mut, delta, ln = t
        if DEBUG:
            print('M', self.root.qn[7:40], v, line)
        if self.logger and self.writable and v != NOOP and (v != APPEND or self.durable) and not log and self.durable:
            self.report('log', line, 'modifies the data before the update is logged')
        st.ps = (v, full, key, log, (True, mut[1], mut[2] or bool(mut[1])), delta, ln)

    def carries(self, v):
        return v == PTR[VALUE] or isinstance(v, tuple) and v[:3] == ('s', 'vd', VALUE)

    def stored(self, st, where, does):
        v, full, key, log, mut, delta, ln = st.ps
        s = mut[1] | {where} if does else mut[1] - {where}
        st.ps = (v, full, key, log, (mut[0], s, mut[2]), delta, ln)

    def nonlocal_(self, path):
        return path[0][0] not in ('L', 'T')

    def pre_call(self, it, c, st):
        q = c.qn
        m = q.rsplit('::', 1)[-1]
        if q in PROC and c.frame.f.id not in self.wrap:
            full = PROC[q]
            if not self.used(c):
                # the result is dropped: only meant for notifications, and for reading
                if full and self.writable:
                    self.report('verdict', c.line, 'ignores the result of ProcessFull in the writable mode')
                if full:
                    self.close(st, True)
                    st.ps = None
                return [(st, ('s', 'vd', 'dropped'))]
            self.close(st, True)
            out = []
            k = it.argval(c, 1 if q.startswith('tkrzw::Call') else 0, st.env)
            for v in (NOOP, REMOVE, VALUE):
                s2 = st.copy()
                s2.ps = (v, full, k, (), (False, frozenset(), False), (), c.line)
                val = ('s', 'vd', v, 'packed') if q.startswith('tkrzw::Call') else ('s', 'vd', v)
                if q.startswith('tkrzw::Call'):
                    for a, n in zip(c.args, c.argn):
                        ty = c.frame.f.x[n].get('ty', '') if n >= 0 else ''
                        if 'basic_string_view' in ty and ty.endswith('*') and a[0] == 'p':
                            it.assign(s2.env, a[1], ('s', 'vd', v))
                out.append((s2, val))
            return out
        if m == 'data' and 'basic_string_view' in q and c.recv is not None:
            r = c.recv
            if r[0][0] == 'G' and str(r[0][1]).rsplit('::', 1)[-1] in (NOOP, REMOVE):
                return [(st, PTR[str(r[0][1]).rsplit('::', 1)[-1]])]
            v = it.rd(r, st.env)
            if v[:2] == ('s', 'vd') and v[2] in PTR:
                return [(st, PTR[v[2]])]
            if len(v) == 3 and v[:2] == ('s', 'i') and v[2][0][0] == 'G' and str(v[2][0][1]).rsplit('::', 1)[-1] in (NOOP, REMOVE):
                return [(st, PTR[str(v[2][0][1]).rsplit('::', 1)[-1]])]
        if m == 'GetWholeSize' and q.startswith('tkrzw::'):
            # no record is of size zero
            v = it.fresh(c.frame, c.i)
            st.env[('F', v)] = ('ne', frozenset((0,)))
            return [(st, v)]
        t = st.ps
        if q in LOG:
            if t is None:
                return None
            v, full, key, log, mut, delta, ln = t
            kind = LOG[q]
            if kind in ('set', 'remove'):
                k = it.argval(c, 0, st.env)
                if not self.samekey(k, key):
                    self.report('log', c.line, 'logs a key other than the one of the record')
            if kind == 'set':
                w = it.argval(c, 1, st.env)
                if v != APPEND and w != ('s', 'vd', v):
                    self.report('log', c.line, 'logs a value other than the one returned by the processor')
            st.ps = (v, full, key, log + ((kind, it.argval(c, 1, st.env) if kind == 'set' else None),), mut, delta, ln)
            return [(st, ('s', 'logst', c.line))]
        if t is None:
            return None
        if v_is_value(t) and q not in LOG and 'basic_string_view' not in q and c.args:
            self.stored(st, (q, c.recv), any(self.carries(it.argval(c, j, st.env)) for j in range(len(c.args))))
            t = st.ps
        path = c.recv
        if m in ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-=') and path is not None and path[-1] == 'num_records_':
            d = 1
            if c.args and m not in ('operator++', 'operator--'):
                d = it.const(it.argval(c, 0, st.env), st.env)
            d = d if d is not None else 0
            if m in ('fetch_sub', 'operator--', 'operator-='):
                d = -d
            v, full, key, log, mut, delta, ln = t
            st.ps = (v, full, key, log, mut, (delta + (d,))[:3], ln)
            return None
        if q.startswith('tkrzw::File::') and m in FILE_MUT:
            self.mutate(st, it, c.line)
        elif q.startswith('tkrzw::') and m in PRIM and self.mutating is self.frees:
            self.mutate(st, it, c.line)
        elif q in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove') and c.args and self.nonlocal_(self.ppath(c.args[0])):
            self.mutate(st, it, c.line)
        elif q.startswith('std::') and path is not None and m in MUT_STD and self.nonlocal_(path) and not self.aux(path):
            self.mutate(st, it, c.line)
        elif c.fn in self.mutating and not self.inline(it, self.p.funcs[c.fn], c, st) and (
                not self.paged or not self.p.funcs[c.fn].cls):
            self.mutate(st, it, c.line)
        return None

    def ppath(self, v):
        return v[1] if v[0] in ('p', 'o') else (('S', v),)

    def aux(self, path):
        return any(isinstance(e, str) and e in AUX for e in path) or any(
            interp.mentions(path, lambda z: isinstance(z, tuple) and any(isinstance(e, str) and e in AUX for e in z)) for _ in (0,))

    def samekey(self, a, b):
        if a == b or a in self.keys:
            return True
        return self.strip(a) == self.strip(b)

    def strip(self, v):
        while isinstance(v, tuple) and len(v) == 3 and v[:2] == ('s', 'i') and len(v[2]) == 1 and v[2][0][0] == 'S':
            v = v[2][0][1]
        return v

    def used(self, c):
        f = c.frame.f
        u = self._used.get(f.id)
        if u is None:
            u = set()
            for x in f.x:
                u.update(children(x))
            self._used[f.id] = u
        return c.i in u

    def on_write(self, it, fr, path, val, st, line):
        t = st.ps
        if v_is_value(t) and self.carries(val) and (len(path) > 1 or self.nonlocal_(path)):
            self.stored(st, path, True)
            t = st.ps
        if t is None or not self.nonlocal_(path):
            return
        if path[-1] == 'num_records_':
            if isinstance(val, tuple) and val[-1] == 'at':
                return
            v, full, key, log, mut, delta, ln = t
            d = 0
            if val[0] == 'op' and val[1] in ('+', '-') and len(val) == 4 and val[3][0] == 'c':
                d = val[3][1] if val[1] == '+' else -val[3][1]
            st.ps = (v, full, key, log, mut, (delta + (d,))[:3], ln)
            return
        if self.aux(path):
            return
        if DEBUG:
            print('W', self.root.qn[7:40], fr.f.file, line, str(path)[:150])
        self.mutate(st, it, line)

    def on_exit(self, it, fr, val, st):
        ok = True
        if fr.f.ret in ('tkrzw::Status', 'const tkrzw::Status'):
            ok = it.truth(it.binop('==', val, ('c', 0), fr, 0, st.env), st.env) is not False
        self.close(st, ok)


def roots(prog):
    out, wrap = [], set()
    for f in prog.funcs.values():
        if not f.has_body or f.qn.startswith('tkrzw::CallRecordProcess'):
            continue
        calls = [n for n in f.x if n.get('k') == 'call' and n.get('qn') in PROC]
        if not calls:
            continue
        if f.qn.rsplit('::', 1)[-1] in ('ProcessFull', 'ProcessEmpty') or 'ShardDBM' in f.qn or 'tkrzw_dbm_' not in f.file or \
                f.file.endswith('_impl.cc') or 'unordered_map' in f.qn:
            wrap.add(f.id)
            continue
        out.append(f)
    return sorted(out, key=lambda f: (f.file, f.line)), wrap


def extra(prog, rs):
    """The other functions which modify the data as ordered by the user: clearing, and native appending"""
    out = []
    ids = set(f.id for f in rs)
    for f in sorted(prog.funcs.values(), key=lambda f: (f.file, f.line, f.qn)):
        if not f.has_body or f.id in ids or 'tkrzw_dbm_' not in f.file or 'unordered_map' in f.qn or 'ShardDBM' in f.qn:
            continue
        calls = [n.get('qn') for n in f.x if n.get('k') == 'call']
        if f.qn.endswith('Impl::Clear') or LOGC in calls:
            out.append((f, CLEAR))
        elif f.qn.endswith('Impl::AppendImpl') or 'tkrzw::DBM::UpdateLogger::WriteSet' in calls and any(p['n'] == 'delim' for p in f.ps):
            out.append((f, APPEND))
    return out


def explore(prog, summ, ck):
    rs, wrap = roots(prog)
    cl = Client(prog, summ)
    cl.wrap = wrap
    cl._used = {}
    cl.times = []
    logs, writes, frees = set(), set(), set()
    for f in prog.funcs.values():
        for n in f.x:
            if n.get('k') != 'call':
                continue
            q = n.get('qn') or ''
            m = q.rsplit('::', 1)[-1]
            if q in LOG:
                logs.add(f.id)
            if q.startswith('tkrzw::File::') and m in FILE_MUT or q == 'tkrzw::RecordSorter::Add':
                writes.add(f.id)
            if q.startswith('tkrzw::') and m in PRIM and 'tkrzw_dbm_' in f.file:
                frees.add(f.id)
        if 'num_records_' in summ.dmods(f):
            logs.add(f.id)
    rev = summ.reverse_direct()
    todo = list(logs)
    while todo:
        y = todo.pop()
        for k in rev.get(y, ()):
            if k not in logs and prog.funcs[k].file == prog.funcs[y].file:
                logs.add(k)
                todo.append(k)
    cl.relevant = logs
    writes, frees = summ.closure(writes), summ.closure(frees)
    cl.frees = frees
    it = interp.Interp(prog, cl, summ)
    it.CAP = 48
    it.BUDGET = 400000
    failed = []
    for f, start in [(f, None) for f in rs] + extra(prog, rs):
        if ONLY and ONLY not in f.qn:
            continue
        cl.root = f
        cl.comp = locks.comp(f)
        cl.stem = f.file.split('.')[0]
        cl.paged = '_tree' in f.file or '_baby' in f.file
        cl.mutating = frees if '_hash' not in f.file and '_skip' not in f.file else writes
        cl.lazy = '_skip' in f.file
        cl.counted = not cl.lazy and '_std' not in f.file
        cl.evicts = '_cache' in f.file
        cl.rootids = set(g.id for g in rs) - {f.id}
        cl.durable = not any(s in f.file for s in ('_tiny', '_baby', '_cache', '_std'))
        t0 = time.time()
        hasw = [p for p in f.ps if p['n'] == 'writable']
        for w in ((True, False) if hasw else (True,)):
            for l in (True, False):
                cl.writable, cl.logger = w, l
                env = {}
                fr = interp.Frame(f, 0, (T,), (), (f.id,), None)
                cl.keys = set()
                cl.args = set()
                key = None
                for p in f.ps:
                    path = (('L', 0, p['d']),)
                    if it.isref(p['ty']):
                        env[path] = ('p', (('P', p['n']),))
                    elif p['n'] == 'writable':
                        env[path] = ('c', 1 if w else 0)
                    else:
                        env[path] = ('s', 'arg', p['n'])
                    cl.args.add(env[path])
                    if p['n'] == 'key':
                        key = env[path]
                        cl.keys.add(env[path])
                for pre in (('update_logger_',), ('dbm_', 'update_logger_')):
                    pth = fld(*pre)
                    if l:
                        env[pth] = ('s', 'ulog', 1)
                        env[('F', env[pth])] = ('ne', frozenset((0,)))
                    else:
                        env[pth] = ('c', 0)
                for nm in ('open_', 'writable_', 'healthy_'):
                    env[fld(nm)] = ('c', 1)
                    env[fld('dbm_', nm)] = ('c', 1)
                it.steps = 0
                it.memo.clear()
                it.cmemo.clear()
                try:
                    outs = it.run_body(fr, interp.St(env, start and (start, False, key, (), (False, frozenset(), False), (), f.line)))
                except interp.Budget:
                    failed.append(f.qn)
                    continue
                for st, v in outs:
                    cl.on_exit(it, fr, v, st)
        cl.times.append((time.time() - t0, f.qn))
    return cl, rs, failed
