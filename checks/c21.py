"""C21: forwarding methods call the method of the same name with the same arguments and give back its result."""
import interp


def arg(n):
    return ('s', 'arg', n)


class Client(interp.Client):
    def __init__(self, prog, summ):
        self.p, self.s = prog, summ

    def const(self, c):
        g = self.p.funcs.get(c.node.get('fn') or '')
        return bool(g is not None and g.cst) or c.qn.rsplit('::', 1)[-1].startswith(('Is', 'Get'))

    def inline(self, it, f, call, st):
        # helpers of the forwarding class itself
        return 'full' if f.cls == self.own or f.kind == 'lambda' else False

    def pre_call(self, it, c, st):
        q = c.qn
        cls, m = q.rsplit('::', 1) if '::' in q else ('', q)
        if cls in self.alts:
            vals = tuple(it.argval(c, j, st.env) for j in range(len(c.args)))
            st2 = st.copy()
            st2.ps = (st.ps or ()) + ((m, vals, c.line, not self.const(c)),)
            return [(st2, ('s', 'ret', m))]
        return None

    def on_exit(self, it, fr, val, st):
        self.exits.append((st.ps or (), val))


WRAPPERS = {'dbm_': ('tkrzw::PolyDBM', 'tkrzw::PolyIndex', 'tkrzw::FileIndex', 'tkrzw::MemIndex'), 'iter_': None, 'file_': ('tkrzw::PolyFile',), 'impl_': None}


# methods which are meant to do more, or something else, than the one of the same name
OWN = {'*': ('GetInternalDBM',),
       'tkrzw::BabyDBM': ('ShouldBeRebuilt',),
       'tkrzw::PolyDBM': ('Open', 'Close', 'MakeDBM', 'Rebuild', 'Synchronize'),
       'tkrzw::PolyFile': ('Open', 'MakeFile')}
WRAPS = ('MakeIterator',)          # the result is wrapped


def up(prog, c):
    out, w = set(), [c]
    while w:
        x = w.pop()
        if x not in out:
            out.add(x)
            w += [b for b in prog.classes.get(x, {}).get("bases", [])]
    return out


def klass(ty):
    for x in ('std::unique_ptr<', 'std::shared_ptr<'):
        if ty.startswith(x):
            ty = ty[len(x):-1]
    return ty.replace('*', '').replace('const ', '').strip()


def matches(v, p):
    """v is the parameter itself, or the object a reference parameter refers to."""
    a = arg(p['n'])
    return v == a or v == ('s', 'i', (('S', a),)) or v == ('p', (('S', a),))


def nothing(v, ret):
    """The result of a wrapper which has nothing to forward to."""
    if ret == 'tkrzw::Status':
        return v == ('c', 4)
    if ret == 'void':
        return True
    if ret == 'bool' or ret.endswith('*'):
        return v in (('c', 0), ('c', None))
    return True


def methods(prog, target):
    for x in up(prog, target):
        for m in prog.classes.get(x, {}).get('methods', []):
            yield m['n'], [p['ty'] for p in m['ps']]


def run(ck):
    ck.rule('For every class which holds the object doing the work (the field impl_ of the public database, file, iterator and '
            'queue classes; dbm_, iter_ and file_ of PolyDBM, PolyFile and the index classes), each method which that object '
            'declares with the same name and parameter types is interpreted. On every path it must call that method exactly '
            'once, each parameter passed as given and in its place, call no other method of the object which can modify it, and '
            'return the result. The only other path allowed is that of a wrapper without an object, which '
            'must fail with PRECONDITION_ERROR (or return false, null or nothing).')
    prog, summ = ck.load()
    cl = Client(prog, summ)
    it = interp.Interp(prog, cl, summ)
    n = npaths = 0
    holders = []
    for c, d in sorted(prog.classes.items()):
        for fl in d['fields']:
            if fl['n'] not in WRAPPERS or not c.startswith('tkrzw::'):
                continue
            only = WRAPPERS[fl['n']]
            if only and not any(c == o or c.startswith(o + '::') for o in only):
                continue
            cl.target = klass(fl['ty'])
            cl.alts = up(prog, cl.target)
            decl = list(methods(prog, cl.target))
            k0 = n
            for f in sorted((f for f in prog.funcs.values() if f.cls == c and f.has_body and f.kind not in ('lambda', 'ctor', 'dtor')),
                            key=lambda f: (f.file, f.line)):
                m = f.qn.rsplit('::', 1)[-1]
                if (m, [p['ty'] for p in f.ps]) not in decl or m in OWN['*'] or m in OWN.get(c, ()) or f.stat:
                    continue
                cl.exits, cl.own = [], c
                it.steps = 0
                it.memo.clear()
                it.run_root(f, args={j: arg(p['n']) for j, p in enumerate(f.ps)})
                n += 1
                called = False
                for ps, v in cl.exits:
                    npaths += 1
                    same = [x for x in ps if x[0] == m]
                    text = None
                    if not ps and fl['n'] != 'impl_' and nothing(v, f.ret):
                        continue
                    if not same:
                        text = 'returns without calling %s::%s' % (cl.target, m)
                    elif len(same) > 1:
                        text = 'calls %s::%s %d times' % (cl.target, m, len(same))
                    elif len(same[0][1]) != len(f.ps):
                        text = 'calls another overload of %s::%s' % (cl.target, m)
                    else:
                        called = True
                        for w, p in zip(same[0][1], f.ps):
                            if not matches(w, p):
                                text = 'passes something else than its parameter %s to %s::%s' % (p['n'], cl.target, m)
                                break
                        if text is None and f.ret != 'void' and v != ('s', 'ret', m) and m not in WRAPS:
                            text = 'does not return the result of %s::%s' % (cl.target, m)
                        other = [x for x in ps if x[0] != m and x[3]]
                        if text is None and other:
                            text = 'also calls %s::%s' % (cl.target, other[0][0])
                    if text:
                        ck.violation('%s::%s|%s' % (c, m, text), '%s::%s %s' % (c, m, text), '%s:%d' % (f.file, f.line))
                if not called and cl.exits:
                    text = 'never calls %s::%s' % (cl.target, m)
                    ck.violation('%s::%s|%s' % (c, m, text), '%s::%s %s' % (c, m, text), '%s:%d' % (f.file, f.line))
            if n > k0:
                holders.append('%s::%s -> %s: %d methods' % (c, fl['n'], cl.target, n - k0))
    ck.count('forwarding_classes', len(holders), 25)
    ck.count('forwarding_methods', n, 300)
    ck.count('paths', npaths, 330)
    ck.sample('classes', holders)
