"""C09: the C interface hands calls on, reports their status, contains exceptions, and copies results into memory large enough."""
import re

import interp

LAYERS = ('tkrzw::ParamDBM', 'tkrzw::DBM', 'tkrzw::AsyncDBM', 'tkrzw::File', 'tkrzw::PolyFile', 'tkrzw::PolyIndex',
          'tkrzw::PolyDBM', 'tkrzw::ShardDBM', 'tkrzw::DBM::Iterator', 'tkrzw::PolyIndex::Iterator')
FREE = ('tkrzw::SearchDBMModal', 'tkrzw::ExportDBMToFlatRecords', 'tkrzw::ImportDBMFromFlatRecords', 'tkrzw::ExportDBMKeysAsLines',
        'tkrzw::SearchTextFileModal')
# functions not named after the method they are for
NAMES = {'dbm_open': None, 'file_open': None, 'index_open': None, 'dbm_restore_database': None, 'async_dbm_new': None,
         'dbm_check': 'Get', 'dbm_set_and_get': 'Process', 'dbm_remove_and_get': 'Process',
         'dbm_compare_exchange_and_get': 'CompareExchange', 'dbm_rebuild': 'RebuildAdvanced',
         'dbm_synchronize': 'SynchronizeAdvanced', 'dbm_iter_get_key': 'Get', 'dbm_iter_get_value': 'Get',
         'dbm_search': 'SearchDBMModal', 'dbm_export_to_flat_records': 'ExportDBMToFlatRecords',
         'dbm_import_from_flat_records': 'ImportDBMFromFlatRecords', 'dbm_export_keys_as_lines': 'ExportDBMKeysAsLines',
         'file_search': 'SearchTextFileModal', 'async_dbm_search': 'SearchModal'}
PREFIXES = ('dbm_iter_', 'async_dbm_', 'index_iter_', 'dbm_', 'file_', 'index_')
# the status of the processor takes the place of the one of Process, if that succeeds
JOINS = ('tkrzw_dbm_set_and_get', 'tkrzw_dbm_remove_and_get')
# the result tells more than the status
RICHER = ('tkrzw_dbm_should_be_rebuilt', 'tkrzw_index_iter_get')
OUTSIDE = ('std::exception::what', 'tkrzw_set_last_status')
ANYG = ('s', 'i', (('G', 'TKRZW_ANY_DATA'),))


def arg(n):
    return ('s', 'arg', n)


def expected(name):
    if name in NAMES:
        return NAMES[name]
    for p in PREFIXES:
        if name.startswith(p):
            m = ''.join(w.capitalize() for w in name[len(p):].split('_'))
            return None if m == 'Free' else m
    return None


class Client(interp.Client):
    def __init__(self, prog, summ):
        self.p, self.s = prog, summ
        self.copies = self.outs = self.handed = 0
        self.bad = []
        self.wrapper = False

    def inline(self, it, f, call, st):
        return 'full' if f.kind == 'lambda' or f.file == 'tkrzw_langc.cc' else False

    def havoc(self, it, c, st, m):
        for j in range(len(c.args)):
            v = it.argval(c, j, st.env)
            if isinstance(v, tuple) and v[0] == 'p' and v[1][0][0] == 'L':
                for k in [k for k in st.env if k == v[1]]:
                    st.env[k] = ('s', 'out', m, j)

    def pre_call(self, it, c, st):
        q = c.qn
        cls, m = q.rsplit('::', 1) if '::' in q else ('', q)
        if cls in LAYERS or q in FREE:
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            st2 = st.copy()
            st2.ps = (st.ps or ()) + ((c.node.get('fn'), m, vals, c.line),)
            self.havoc(it, c, st2, m)
            return [(st2, ('s', 'ret', m))]
        if self.wrapper and not q:
            self.callback = [it.argval(c, j, st.env) for j in range(len(c.args))]
            out = []
            for v in (-1, -2, 4096):
                s2 = st.copy()
                s2.ps = v
                self.havoc(it, c, s2, 'proc')
                s2.env[(('G', 'TKRZW_REC_PROC_NOOP'),)] = ('c', -1)
                s2.env[(('G', 'TKRZW_REC_PROC_REMOVE'),)] = ('c', -2)
                out.append((s2, ('c', v)))
            return out
        if q in ('strlen', 'std::strlen'):
            return [(st, ('s', 'strlen', it.argval(c, 0, st.env)))]
        if q.startswith(('std::basic_string<', 'std::basic_string_view<', 'std::__cxx11::basic_string<')) and c.recv is not None:
            if m in ('size', 'length') and not c.args:
                return [(st, ('s', 'size', self.ident(it, c, st)))]
            if m in ('c_str', 'data') and not c.args:
                return [(st, ('s', 'data', self.ident(it, c, st)))]
        if q in ('tkrzw::xmalloc', 'tkrzw::xrealloc', 'malloc'):
            return [(st, ('s', 'mem', c.frame.f.id, c.line, it.argval(c, len(c.args) - 1, st.env)))]
        if q in ('memcpy', 'std::memcpy', 'memmove'):
            self.copy(it, c, st)
        return None

    def ident(self, it, c, st):
        """The string object meant: an alias of an element is the element."""
        v = st.env.get(c.recv)
        if isinstance(v, tuple) and v[0] in ('p', 'o'):
            return v[1]
        return c.recv

    def copy(self, it, c, st):
        dst, src, n = (it.argval(c, j, st.env) for j in range(3))
        base, off = split(dst)
        if base is None:
            return
        self.copies += 1
        if off == ('c', 0) and isinstance(src, tuple) and src[:2] == ('s', 'data'):
            st.env[('CP', base)] = src[2]
        room = lin(base[4])
        need = lin(n)
        for k, v in lin(off).items():
            need[k] = need.get(k, 0) + v
        diff = dict(room)
        for k, v in need.items():
            diff[k] = diff.get(k, 0) - v
        if any(v < 0 for v in diff.values()):
            self.bad.append((c.frame.f, c.line, 'copies more into memory than was allocated for it'))
        if isinstance(src, tuple) and src[:2] == ('s', 'data'):
            rest = lin(n)
            sz = ('s', 'size', src[2])
            if rest.get(sz, 0) != 1 or any(k not in (sz, 1) for k in rest):
                self.bad.append((c.frame.f, c.line, 'copies a number of bytes which is not the size of the copied string'))
            elif rest.get(1, 0) not in (0, 1):
                self.bad.append((c.frame.f, c.line, 'copies beyond the end of the string'))

    def on_write(self, it, fr, path, val, st, line):
        if len(path) == 1 and path[0][0] == 'S' and path[0][1][:2] == ('s', 'arg') and path[0][1][2].endswith('_size'):
            src = [v for k, v in st.env.items() if k[0] == 'CP']
            if src:
                self.outs += 1
                if isinstance(val, tuple) and val[:2] == ('s', 'size') and val[2] in src or val[0] == 'c':
                    return
                self.bad.append((fr.f, line, 'sets *%s to something else than the size of a copied string' % path[0][1][2]))

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val, st))


def split(v):
    """(allocation, offset) of a pointer into allocated memory."""
    if isinstance(v, tuple):
        if v[:2] == ('s', 'mem'):
            return v, ('c', 0)
        if v[:2] in (('op', '+'), ('b', '+')):
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                base, off = split(a)
                if base is not None:
                    return base, ('op', '+', off, b)
    return None, None


def lin(v):
    """Linear form {term: factor}, with the constant under 1."""
    if isinstance(v, tuple):
        if v[0] == 'c' and isinstance(v[1], int):
            return {1: v[1]} if v[1] else {}
        if v[0] in ('op', 'b') and v[1] in ('+', '-') and len(v) == 4:
            a, b = lin(v[2]), lin(v[3])
            for k, x in b.items():
                a[k] = a.get(k, 0) + (x if v[1] == '+' else -x)
            return {k: x for k, x in a.items() if x}
    return {v: 1}


def has(v, w):
    return v == w or isinstance(v, tuple) and any(has(x, w) for x in v)


def check_args(f, g, vals, scn):
    """Yields what is wrong with the arguments of the call of g made by f."""
    names = {p['n'] for p in f.ps}
    for p, v in zip(g['ps'], vals):
        n = p['n']
        if n == 'proc':
            continue
        if n + '_ptr' in names and n + '_size' not in scn:
            continue
        if n + '_ptr' in names:
            a, z = arg(n + '_ptr'), scn[n + '_size']
            want = a
            if scn.get(n + '_ptr') == 'null':
                if v != ('str', '') and not (isinstance(v, tuple) and v[:2] == ('op', 'sv') and v[2] == ('c', 0)):
                    yield 'passes something else than a null view for a null %s_ptr' % n
                continue
            if scn.get(n + '_ptr') == 'any':
                if not (isinstance(v, tuple) and has(v, 'tkrzw::DBM::ANY_DATA')):
                    yield 'does not pass ANY_DATA for %s_ptr' % n
                continue
            if scn.get(n + '_ptr') == 'given' and has(v, 'tkrzw::DBM::ANY_DATA'):
                continue    # the path on which the pointer is TKRZW_ANY_DATA
            if isinstance(v, tuple) and v[:2] == ('op', 'sv') and v[2] == want:
                if v[3] != (('s', 'strlen', want) if z < 0 else ('c', z)):
                    yield 'passes %s_ptr with a length other than %s' % (n, 'its own' if z < 0 else n + '_size')
            else:
                yield 'does not pass %s_ptr as the argument %s' % (n, n)
        elif n in names:
            pt = next(x for x in f.ps if x['n'] == n)['ty']
            if pt.endswith('*') or pt.startswith('Tkrzw') or pt.startswith('tkrzw_'):
                if pt == 'const char *' and not has(v, arg(n)) and not str(v).startswith("('s', 'e'") and not str(v).startswith("('s', 'phi'"):
                    yield 'does not pass the parameter %s on' % n
                continue
            if not has(v, arg(n)):
                yield 'does not pass the parameter %s on' % n
            elif pt == 'bool' and v != arg(n):
                yield 'passes something else than the parameter %s' % n


def scenarios(f):
    sizes = [p['n'] for p in f.ps if p['n'].endswith('_size') and p['ty'] in ('int', 'int32_t') and p['n'][:-5] + '_ptr' in {q['n'] for q in f.ps}]
    opts = [n[:-5] + '_ptr' for n in sizes if n in ('expected_size', 'desired_size')]
    for mode in ('negative', 'zero', 'positive'):
        z = {n: -1 if mode == 'negative' else 0 if mode == 'zero' else 5 + j for j, n in enumerate(sizes)}
        if not opts or mode != 'positive':
            yield dict(z, **{o: 'given' for o in opts})
        else:
            for a in ('null', 'any', 'given'):
                for b in ('null', 'any', 'given'):
                    yield dict(z, **dict(zip(opts, (a, b))))
        if not sizes:
            break


def possible(it, scn, st):
    """The path is consistent with the scenario."""
    if 'any' in scn.values() and it.truth(('b', '==', ANYG, ('c', 0)), st.env):
        return False
    for n, k in scn.items():
        if k == 'given' and (it.truth(('b', '==', arg(n), ANYG), st.env) or it.truth(('b', '==', arg(n), ('c', 0)), st.env)):
            return False
    return True


def wrappers(ck, prog, cl, it):
    """The record processors of the C interface give back what the callback decides."""
    n = 0
    cl.wrapper = True
    for f in prog.funcs.values():
        m = f.qn.rsplit('::', 1)[-1]
        if not (f.file == 'tkrzw_langc.cc' and m in ('ProcessFull', 'ProcessEmpty') and f.has_body and f.cls and
                any(x['n'] == 'proc' and x['ty'] == 'tkrzw_record_processor' or '(*)' in x['ty'] for x in prog.classes.get(f.cls, {}).get('fields', []))):
            continue
        cl.exits, cl.callback = [], None
        it.steps = 0
        it.memo.clear()
        it.run_root(f, args={j: arg(p['n']) for j, p in enumerate(f.ps)})
        n += 1
        where = '%s:%d' % (f.file, f.line)

        def bad(text):
            ck.violation('%s|%s' % (f.qn, text), '%s %s' % (f.qn, text), where)
        if cl.callback is None:
            bad('does not call the callback')
            continue
        for ps, v, st in cl.exits:
            if v is not None and v[0] in ('p', 'o'):
                v = it.rd(v[1], st.env)
            if ps in (-1, -2):
                if not has(v, 'tkrzw::DBM::RecordProcessor::' + ('NOOP' if ps == -1 else 'REMOVE')):
                    bad('does not return %s if the callback does' % ('NOOP' if ps == -1 else 'REMOVE'))
            elif not (isinstance(v, tuple) and v[:2] == ('op', 'sv') and v[2] == ('c', 4096) and v[3][:2] == ('s', 'out')):
                bad('does not return the data which the callback gives')
        if len(cl.callback) == 6:
            a, kp, ks, vp, vs, _ = cl.callback
            if not has(a, 'arg'):
                bad('does not pass the argument of the callback')
            kn, vn = ([p['n'] + '@' for p in f.ps] + ['?'])[:2]
            if m == 'ProcessFull' and not (kp[:2] == vp[:2] == ('s', 'data') and ks[:2] == vs[:2] == ('s', 'size') and
                                           kn in str(kp) and kn in str(ks) and vn in str(vp) and vn in str(vs)):
                bad('does not pass the record to the callback')
            if m == 'ProcessEmpty' and not (vp == ('c', 0) and vs == ('c', -1)):
                bad('does not pass a null value for a missing record')
    cl.wrapper = False
    ck.count('callback_wrappers', n, 4)


def contains(ck, prog):
    """Exceptions: calls of the library lie in a try block which catches them, and whose handler sets the status."""
    n = 0
    for f in prog.funcs.values():
        if f.file != 'tkrzw_langc.cc' or not f.qn.startswith('tkrzw_') or '(' in f.qn or f.kind == 'lambda':
            continue
        outer = [t for t in f.tries if any(h == '...' or re.sub(r'const |[ &]', '', h) == 'std::exception' for h in t['h'])]
        lib = False
        for x in f.x:
            if x.get('k') not in ('call', 'ctor', 'new'):
                continue
            q = x.get('qn') or ''
            cls = q.rsplit('::', 1)[0]
            risky = cls in LAYERS or q in FREE or q.startswith(('std::vector<', 'std::map<', 'std::unordered_map<')) or x.get('k') == 'new' or \
                'Future' in q
            if not risky:
                continue
            lib = True
            n += 1
            if not any(t['b'] <= x.get('ln', 0) <= t['e'] for t in outer):
                ck.violation('%s|throws|%s' % (f.qn, q), '%s calls %s outside of a try block which catches std::exception' % (f.qn, q or 'new'),
                             '%s:%d' % (f.file, x.get('ln', f.line)))
        if lib:
            end = max([t['e'] for t in outer], default=0)
            sets = [x for x in f.x if x.get('k') == 'call' and x.get('qn') == 'tkrzw_set_last_status' and x.get('ln', 0) >= end]
            if outer and not sets:
                ck.violation('%s|handler' % f.qn, '%s catches exceptions but does not record them as the last status' % f.qn, '%s:%d' % (f.file, end))
    ck.count('calls_in_try_blocks', n, 200)


SCALAR = re.compile(r'^(int|long|unsigned int|unsigned long|bool|double|int32_t|int64_t|TkrzwKeyValuePair \*\*?) \*$')


def outputs(cl, f, it, bad):
    """What is handed out through a parameter is set whenever there is a result."""
    names = [p['n'] for p in f.ps if SCALAR.match(p['ty'])]
    for ps, v, st in cl.exits:
        if not names or v is None or f.ret == 'void' or v == ('c', 0) or it.truth(v, st.env) is False:
            continue
        for n in names:
            a = arg(n)
            sib = n[:-5] + '_ptr'
            if n.endswith('_size') and any(p['n'] == sib and p['ty'].endswith('**') for p in f.ps) and \
                    it.truth(('b', '==', arg(sib), ('c', 0)), st.env) is True or any(a in x[2] for x in ps if len(x) > 2):
                continue        # not asked for, or set by the library
            cl.handed += 1
            if (('S', a),) not in st.env and it.truth(('b', '==', a, ('c', 0)), st.env) is not True:
                bad('may return a result without setting *%s' % n)


def run(ck):
    ck.rule('Every function of the C interface is interpreted with its lengths negative, zero and positive and with null, ANY and '
            'given views. It must call the method it is named after exactly once on every path, with each argument made of the '
            'parameters of the same name (a negative length being replaced by strlen of that very string, any other taken as '
            'is), store the resulting status as the last status, and return true exactly on SUCCESS, or a null pointer for a '
            'failure. Memory copies into allocated memory are compared with the size of the allocation as linear forms. Calls '
            'of the library must lie in try blocks which catch std::exception, whose handlers set the last status.')
    prog, summ = ck.load()
    cl = Client(prog, summ)
    it = interp.Interp(prog, cl, summ)
    decls = {m['id']: m for c in prog.classes.values() for m in c.get('methods', [])}
    for g in prog.funcs.values():
        decls.setdefault(g.id, {'n': g.n, 'ps': g.ps, 'ret': g.ret})
    nf = ne = nforward = nargs = 0
    failed = []
    fs = [f for f in prog.funcs.values() if f.file == 'tkrzw_langc.cc' and f.qn.startswith('tkrzw_') and f.has_body and '(' not in f.qn]
    for f in sorted(fs, key=lambda f: f.line):
        nf += 1
        want = expected(f.qn[6:])
        where = '%s:%d' % (f.file, f.line)

        def bad(text):
            ck.violation('%s|%s' % (f.qn, text), '%s %s' % (f.qn, text), where)
        first = True
        for scn in scenarios(f):
            args = {}
            for j, p in enumerate(f.ps):
                v = arg(p['n'])
                if p['n'] in scn:
                    s = scn[p['n']]
                    v = ('c', s) if isinstance(s, int) else ('c', 0) if s == 'null' else ANYG if s == 'any' else v
                args[j] = v
            cl.exits = []
            it.steps = 0
            it.memo.clear()
            try:
                it.run_root(f, args=args)
            except interp.Budget:
                failed.append(f.qn)
                continue
            outputs(cl, f, it, bad)
            if want is None:
                break
            if first:
                nforward += 1
                first = False
            for ps, v, st in cl.exits:
                ne += 1
                main = [x for x in ps if x[1] == want]
                if len(main) != 1:
                    bad('calls %s %d times' % (want, len(main)))
                    continue
                g = decls.get(main[0][0])
                if g is None:
                    continue
                if any(n.endswith('_ptr') for n in scn) and not possible(it, scn, st):
                    continue
                if True:
                    nargs += len(main[0][2])
                    for t in check_args(f, g, main[0][2], scn):
                        bad(t)
                if g['ret'] == 'tkrzw::Status':
                    r = ('s', 'ret', want)
                    if f.qn.startswith('tkrzw_index_iter'):
                        continue
                    ok = it.truth(('b', '==', r, ('c', 0)), st.env)
                    last = st.env.get((('G', 'last_status'),))
                    if f.qn in JOINS and ok is not False and (last is None or last[0] == '?'):
                        bad('does not store any status as the last status although %s succeeds' % want)
                    if last != r and not (f.qn in JOINS and ok is not False):
                        bad('does not store the status of %s as the last status' % want)
                    t = it.truth(v, st.env) if v is not None else None
                    if f.ret == 'bool' and f.qn not in JOINS + RICHER:
                        if not (v == ('b', '==', r, ('c', 0)) or ok is not None and t == ok):
                            bad('does not return true exactly if %s succeeds' % want)
                    elif f.ret.endswith('*') and ok is False and t is not False:
                        bad('returns a pointer although %s fails' % want)
                elif f.ret == 'bool' and g['ret'] == 'bool' and v != ('s', 'ret', want) and f.qn not in RICHER:
                    bad('does not return the result of %s' % want)
    contains(ck, prog)
    wrappers(ck, prog, cl, it)
    for f, line, text in cl.bad:
        ck.violation('%s|%s' % (f.qn, text), '%s %s' % (f.qn, text), '%s:%d' % (f.file, line))
    ck.need(len(failed) <= 3, 'over budget: %s' % failed)
    ck.count('functions_interpreted', nf, 130)
    ck.count('forwarding_functions', nforward, 95)
    ck.count('paths', ne, 300)
    ck.count('output_sizes', cl.outs, 12)
    ck.count('output_parameters_on_paths', cl.handed, 40)
    ck.count('arguments_compared', nargs, 600)
    ck.count('memory_copies', cl.copies, 40)

