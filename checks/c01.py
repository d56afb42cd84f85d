"""C01: every lock that an operation takes is given back on every way out of it."""
import interp
import lockrun
from locks import REPO_MUTEX, HASHMUTEX, HM_OPS, is_mutex_method, fmt_path

# Public operations whose documented purpose is to take or give back a lock for the caller.
WRAPPERS = {
    'tkrzw::StdFile::Lock': 'opens the critical section that StdFile::Unlock closes',
    'tkrzw::StdFile::Unlock': 'closes the critical section that StdFile::Lock opens',
}


def is_wrapper(qn):
    b = qn.rsplit('::', 1)
    return qn in WRAPPERS or (b[0].startswith((HASHMUTEX, 'tkrzw::SlottedMutex')) and b[1] in HM_OPS)


def run(ck):
    prog, summ = ck.load(witness=True)
    cl = lockrun.Client(prog, summ, ck)
    roots = [f for f in lockrun.roots_of(prog) if f.id in cl.lock_closure]
    nexits = [0]

    def on_root(f, outs):
        for st, v in outs:
            nexits[0] += 1
            if f.kind == 'ctor' and cl.raii(f) or (f.cls and f.cls in cl.raii_classes()):
                continue
            for (p, m, nm, ow) in st.ps:
                if ow is None and m != 'r' and not is_wrapper(f.qn):
                    ck.violation('leak|%s|%s' % (f.qn, nm),
                                 'a path of %s returns while %s (%s) is still locked (%s)' % (f.qn, nm, fmt_path(p), m),
                                 '%s:%s' % (f.file, f.line))
    it, steps, failed = lockrun.run(prog, summ, cl, roots, on_root=on_root)
    ck.need(not failed, 'analysis budget exceeded for %s' % failed)
    for kind, qn, nm, file, line, ch, mode in cl.found:
        if kind == 'relock' or is_wrapper(qn):
            continue
        if any(is_wrapper('tkrzw::' + x) for x in ch.split(' <- ')):
            continue
        c = qn.rsplit('::', 1)[0]
        if c in cl.raii_classes():
            continue
        if kind == 'unheld':
            ck.violation('unheld|%s|%s' % (qn, nm), '%s gives back %s (%s), which is not held on some path (%s)' % (qn, nm, mode, ch),
                         '%s:%s' % (file, line))
        else:
            ck.violation('mode|%s|%s' % (qn, nm), '%s gives back %s in the wrong mode (%s) (%s)' % (qn, nm, mode, ch),
                         '%s:%s' % (file, line))
    # lock-owning helper classes: construction, any use, destruction leave nothing locked
    comp = 0
    for cls in sorted(cl.raii_classes()):
        ctors = [f for f in prog.funcs.values() if f.cls == cls and f.kind == 'ctor' and f.has_body]
        dts = [f for f in prog.funcs.values() if f.cls == cls and f.kind == 'dtor' and f.has_body]
        meths = [f for f in prog.funcs.values() if f.cls == cls and f.kind == 'method' and f.has_body and f.id in cl.lock_closure]
        for c in ctors:
            for seq in [[]] + [[m] for m in meths] + [[m, m] for m in meths]:
                comp += 1
                for key, text in compose(prog, summ, ck, cls, c, seq, dts):
                    ck.violation(key, text, '%s:%s' % (c.file, c.line))
    ck.rule('Path-sensitive lock-set analysis from every public entry point (constructors, methods and functions '
            'declared in the headers): helpers of the same component are followed into, correlated branches are kept '
            'apart, and every exit must hold no lock the entry point took; a lock is given back only when held and in '
            'the mode it was taken; lock-owning helper classes are balanced over construction, use and destruction.')
    ck.count('entry_points', len(roots), 350)
    ck.count('functions_interpreted', len(it.analysed), 600)
    ck.count('exit_states', nexits[0], 400)
    ck.count('acquisition_sites', len(cl.acq_sites), 250)
    ck.count('release_sites', len(cl.rel_sites), 30)
    ck.count('lock_owning_classes', len(cl.raii_classes()), 4)
    ck.count('owning_class_compositions', comp, 8)
    ck.count('block_visits', steps)
    ck.sample('acquisition_sites', sorted('%s:%s' % s for s in cl.acq_sites))
    ck.assume += ['calls through std::function objects and user callbacks do not change the lock set of the library',
                  'loops which take a raw lock per element run as often as the loop which gives them back']


class RClient(lockrun.Client):
    def owner(self, fr):
        return None

    def on_dtor(self, it, fr, path, ty, st, line):
        if ty in self.raii_classes():
            return None
        return super().on_dtor(it, fr, path, ty, st, line)


def compose(prog, summ, ck, cls, ctor, seq, dts):
    """Runs ctor; seq...; dtor on one symbolic object."""
    cl = RClient(prog, summ, ck)
    it = interp.Interp(prog, cl, summ)
    it.CAP = 16
    it.EXITCAP = 16
    out = []
    states = [({}, frozenset())]
    this = (('this',),)
    steps = [('c', ctor)] + [('m', m) for m in seq] + [('d', d) for d in dts[:1]]
    for kind, f in steps:
        nxt = []
        seen = set()
        for env, ps in states:
            cl.comp = f.file.rsplit('.', 1)[0]
            fr = interp.Frame(f, 0, this, (), (f.id,), None)
            e2 = {k: v for k, v in env.items() if not (isinstance(k[0], tuple) and k[0][0] in ('L', 'T')) and k[0] not in ('t', 'ret')}
            for j, p in enumerate(f.ps):
                path = (('L', 0, p['d']),)
                if it.isref(p['ty']):
                    e2[path] = ('p', (('P', f.qn + p['n']),))
                else:
                    e2[path] = ('s', 'arg', f.qn + p['n'])
                    if p['ty'].endswith('*'):
                        e2[('F', e2[path])] = ('ne', frozenset((0,)))
            for st, v in it.run_body(fr, interp.St(e2, ps)):
                k = (frozenset(st.env.items()), st.ps)
                if k not in seen:
                    seen.add(k)
                    nxt.append((st.env, st.ps))
        states = nxt[:64]
    for env, ps in states:
        left = [h for h in ps if h[2] != '<private>' and h[1] != 'r']
        if left:
            key = 'raii|%s|%s' % (cls, '.'.join(f.qn.rsplit('::', 1)[-1] for k, f in steps))
            out.append((key, 'an object of %s leaves %s locked after %s' % (
                cls, ', '.join('%s (%s)' % (h[2], h[1]) for h in left), ', '.join(f.qn for k, f in steps))))
            break
    for kind, qn, nm, file, line, ch, mode in cl.found:
        if kind != 'relock':
            key = 'raii|%s|%s|%s' % (cls, kind, '.'.join(f.qn.rsplit('::', 1)[-1] for k, f in steps))
            out.append((key, 'an object of %s gives back %s (%s) wrongly (%s)' % (cls, nm, mode, kind)))
            break
    return out
