"""C02: shared state is only touched under the lock that guards it."""
import re
import json
import os
import interp
import lockrun
import locks
from common import VERIF

# Public operations that are documented to leave the locking to the caller.
CALLER_LOCKS = {
    'tkrzw::StdFile::Unlock': 'ends the critical section which Lock began',
    'tkrzw::StdFile::ReadInCriticalSection': 'to be called between Lock and Unlock',
    'tkrzw::StdFile::WriteInCriticalSection': 'to be called between Lock and Unlock',
    'tkrzw::HashDBM::GetInternalFile': 'documented to break encapsulation; only for testing and debugging',
    'tkrzw::TreeDBM::GetInternalFile': 'documented to break encapsulation; only for testing and debugging',
    'tkrzw::SkipDBM::GetInternalFile': 'documented to break encapsulation; only for testing and debugging',
}
MUTEXES = ('SpinMutex', 'SpinSharedMutex', 'SpinWPSharedMutex', 'mutex', 'shared_mutex', 'shared_timed_mutex', 'timed_mutex')


def is_mutex_type(ty):
    t = ty.replace('const ', '').split('::')[-1]
    return t in MUTEXES


def atomic(ty):
    return ty.startswith(('std::atomic', 'const std::atomic')) or 'atomic<' in ty.split('::')[1 if '::' in ty else 0]


class Client(lockrun.Client):
    def __init__(self, *a):
        super().__init__(*a)
        self.acc = {}
        self.alias = {}
        self.naccess = 0

    def inline(self, it, f, call, st):
        if f.cls and f.cls.startswith(locks.REPO_MUTEX):
            return False
        if f.kind == 'lambda' or f.id in self.netwrap or self.raii(f):
            return 'full'
        return 'canon' if locks.comp(f) == self.comp or f.file == 'tkrzw_thread_util.h' else False

    def has_part(self, owner, c):
        return any(f['ty'] == c or f['ty'].startswith(c + '[') for f in self.p.classes.get(owner, {}).get('fields', ()))

    def called(self, fr, i):
        """The class whose method is called on the field, or on its element."""
        x = fr.f.x
        p = fr.A.parent[i]
        while p is not None and (x[p].get('k') in ('sub', 'cast', 'icast') or x[p].get('k') == 'call' and x[p].get('m') == i and
                                 fr.A.access_kind(p) == 'c' and x[p].get('qn', '').startswith('std::')):
            i, p = p, fr.A.parent[p]
        return x[p].get('mt') or x[p].get('qn', '').rsplit('::', 1)[0] if p is not None else None

    def pointee(self, fr, i, n):
        """The use of an object without a lock which the field owns, or None."""
        m = PTR.match(n.get('ty', ''))
        if not m:
            return None
        c = (m.group(1) or m.group(2)).strip()
        if c in self.guarded or c.split('<')[0] in SELF_SYNC:
            return None
        if any(re.match(re.escape(g) + r'\b', x['ty']) for x in self.p.classes.get(c, {}).get('fields', ()) for g in self.guarded):
            return None     # made of parts which have locks of their own
        x = fr.f.x
        p = fr.A.parent[i]
        while p is not None and (x[p].get('k') in ('cast', 'icast') or x[p].get('k') == 'call' and x[p].get('m') == i and
                                 x[p].get('qn', '').rsplit('::', 1)[-1] in ('operator->', 'get', 'operator*')):
            i, p = p, fr.A.parent[p]
        if p is not None and x[p].get('k') == 'call' and x[p].get('m') == i:
            return 'r' if x[p].get('cst') else 'w'
        return None

    def on_access(self, it, fr, n, i, path, kind, st):
        if kind == 'n':
            return
        c, field = n.get('c'), n.get('f')
        top = fr
        while top.site:
            top = top.site[0]
        if not c and n.get('k') == 'var' and (top.f.id, fr.f.cls, path) in self.alias:
            c, field = self.alias[top.f.id, fr.f.cls, path]     # a local reference to a field
        if not c or c not in self.guarded:
            return
        if kind == 'a':
            self.alias[top.f.id, fr.f.cls, path] = c, field
        if kind == 'c' and self.called(fr, i) in self.guarded:
            kind = 'r'      # a method of a class with a lock of its own, whose accesses are seen by themselves
        if n.get('k') == 'mem':
            kp = self.pointee(fr, i, n)
            if kp:
                self.record(fr, n, c, field + '->', path, kp, st)
        self.record(fr, n, c, field, path, kind, st)

    def record(self, fr, n, c, field, path, kind, st):
        base = path[:-1]
        for h in st.ps:
            if h[2] == '<private>' and base[:len(h[0]) - 1] == h[0][:-1]:
                return
        if base and isinstance(base[0], tuple) and base[0][0] == 'L':
            return      # an object that lives in this very frame
        g = fr
        while g is not None:
            if g.f.kind in ('ctor', 'dtor') and g.f.cls and (c.startswith(g.f.cls + '::') or self.has_part(g.f.cls, c)):
                return      # a part of the object which is being made or destroyed
            g = g.site[0] if g.site else None
        self.naccess += 1
        held = set()
        for h in st.ps:
            if h[1] == 'r' or h[2] == '<private>':
                continue
            owner = h[2].rsplit('::', 1)[0]
            star = h[0][0][0] == 'A*' or '[*]' in locks.fmt_path(h[0])
            if h[0][:-1] == base:
                held.add(('.', h[2].rsplit('::', 1)[-1] if h[0][-1][0] == 'A' else str(h[0][-1]) +
                          ('#all' if h[2].endswith('#all') else ''), h[1]))
            elif owner == c and (star or (h[0][0][0] == 'A' and base != fr.this)):
                # the same field of an object that the caller knows under another name
                held.add(('.', h[2].rsplit('::', 1)[-1], h[1]))
            elif owner != c and owner.split('<')[0].endswith('Impl') and not star:
                held.add(('^', h[2], h[1]))
        self.acc.setdefault((c, field), {}).setdefault((KIND[kind], frozenset(held)), {}).setdefault(
            fr.f.qn, (fr.f.file, n['ln'], lockrun.chain(fr)))


HASHED = set()
PTR = re.compile(r'^(?:std::unique_ptr<(tkrzw::.*)>|(tkrzw::.*) \*)$')
SELF_SYNC = ('tkrzw::File', 'tkrzw::DBM', 'tkrzw::DBM::UpdateLogger', 'tkrzw::Compressor', 'tkrzw::HashDBM')
# Fields which only the thread that begins and ends the life of the object may use.
OWNED = {('tkrzw::TaskQueue', 'threads_'): 'used only by Start and Stop, which begin and end the service and are called once, by its owner'}
KIND = {'w': 'write', 'rw': 'write', 'c': 'write', 'x': 'write', 'r': 'read', 'a': 'read', 'ra': 'read', 'cc': 'read'}


def protected(h1, h2):
    """Two threads cannot be at these two accesses of one object at the same time."""
    for s1, n1, m1 in h1:
        for s2, n2, m2 in h2:
            if s1 == s2 and (m1 == 'X' or m2 == 'X'):
                if n1.split('#')[0] == n2.split('#')[0]:
                    # two locks of single records do not exclude each other
                    if not n1.split('#')[0] in HASHED or '#all' in n1 or '#all' in n2:
                        return True
    return False


def collect(ck):
    prog, summ = ck.load(witness=True)
    cl = Client(prog, summ, ck, True)
    cl.guarded = {}
    cl.tag_all = True
    HASHED.update({n for c, d in prog.classes.items() for f in d['fields'] if 'HashMutex' in f['ty'] and not c.startswith('tkrzw::ScopedHashLock')
                   for n in (f['n'], c + '::' + f['n'])})
    for cn, c in prog.classes.items():
        if not cn.startswith('tkrzw::') or cn.startswith(locks.REPO_MUTEX) or cn.startswith(locks.HASHMUTEX):
            continue
        ms = [f['n'] for f in c['fields'] if is_mutex_type(f['ty'])]
        if ms:
            cl.guarded[cn] = ms
    # documented: other operations of the parallel file classes than reading and writing are not thread-safe
    par = lambda f: (f.cls or '').split('::')[1:2] and 'Parallel' in f.cls and f.kind == 'method' and \
        f.qn.rsplit('::', 1)[-1] not in ('Read', 'Write', 'Append', 'Expand', 'ReadSimple', 'ReadString', 'GetSize', 'GetSizeSimple')
    roots = [f for f in lockrun.roots_of(prog) if not par(f) and f.qn not in CALLER_LOCKS and not (f.cls in cl.raii_classes() and f.kind not in ('ctor', 'dtor'))]
    # what the threads of the task queue do
    roots += [f for f in prog.funcs.values() if f.kind == 'lambda' and f.file == 'tkrzw_thread_util.h' and 'TaskQueue' in f.qn
              and not (f.parent in prog.funcs and prog.funcs[f.parent].kind == 'lambda')]
    it, steps, failed = lockrun.run(prog, summ, cl, roots)
    ck.need(len(failed) <= 3, 'analysis budget exceeded for %s' % failed)
    return prog, cl, it, roots


def fmt(h):
    return '{' + ' '.join(a + b.replace('tkrzw::', '') + ':' + c for a, b, c in h) + '}'


EXEMPT_TYPES = ('std::atomic', 'std::condition_variable', 'tkrzw::Atomic', 'tkrzw::HashMutex', 'tkrzw::Spin')


def conflicts(prog, cl, ck=None):
    """[(class, field, kind, function, where, other kind, other function)] of unprotected pairs."""
    out = []
    nfields = npairs = 0
    usage = {}
    for (c, f), d in cl.acc.items():
        for (k, h), fns in d.items():
            for e in h:
                if e[0] == '.':
                    usage.setdefault((c, e[1].split('#')[0]), set()).update((f, x) for x in fns)
    for (c, f), d in sorted(cl.acc.items()):
        fty = [x['ty'] for x in prog.classes[c]['fields'] if x['n'] == f.split('-')[0]]
        if (c, f) in OWNED or not fty or f in cl.guarded[c] or fty[0].startswith(EXEMPT_TYPES) or 'utex' in fty[0]:
            continue
        accs = list(d.items())
        writes = [a for a in accs if a[0][0] == 'write']
        if not writes:
            continue
        nfields += 1
        # the guard of most functions which write the field
        score = {}
        for (k, h), fns in accs:
            for e in h:
                if e[2] == 'X' or e[0] == '.':
                    score.setdefault(e[:2], set()).update(fns)
        guard = max(sorted(score), key=lambda g: (g[0] == '.', len(usage.get((c, g[1]), ())), len(score[g]))) if score else None

        def lacks(a):
            (k, h), fns = a
            return not any(e[:2] == guard and (e[2] == 'X' or k == 'read') for e in h)
        bad = {}
        for w in writes:
            for o in accs:
                npairs += 1
                if not protected(w[0][1], o[0][1]):
                    for a, b in ((w, o), (o, w)):
                        if guard is None or lacks(a):
                            for fn, (file, line, ch) in a[1].items():
                                bad.setdefault((a[0][0], fn), (file, line, ch, sorted(a[0][1]), b[0][0], sorted(b[1])[0], sorted(b[0][1])))
        for (k, fn), v in sorted(bad.items()):
            out.append((c, f, k, fn) + v + (guard,))
    return out, nfields, npairs


def run(ck):
    prog, cl, it, roots = collect(ck)
    res, nf, np = conflicts(prog, cl)
    for c, f, k, fn, file, line, ch, h, k2, fn2, h2, g in res:
        held = {(b, m) for a, b, m in h if a == '.'}
        if ('rebuild_mutex_', 'X') in held and ('mutex_', 'S') in held:
            key = '%s.%s|%s|online-rebuild' % (c, f, k)
        else:
            key = '%s.%s|%s|%s' % (c, f, k, fn)
        ck.violation(key, '%s of %s.%s in %s holding %s can coincide with a %s in %s holding %s (%s)' % (
            k, c, f, fn, fmt(h), k2, fn2, fmt(h2), ch), '%s:%s' % (file, line))
    ck.rule('Every access to a field of a class that has a mutex is collected with the locks held there, over all paths '
            'from all public entry points; for every pair of accesses to one field of which one is a write, both must '
            'hold a common lock of which one holds exclusively. Self-synchronised fields (atomics, mutexes) and objects '
            'under construction or destruction are exempt.')
    ck.count('entry_points', len(roots), 650)
    ck.count('accesses_seen', cl.naccess, 12000)
    ck.count('shared_fields_written', nf, 130)
    ck.count('conflicting_pairs_examined', np, 500)
    ck.count('functions_interpreted', len(it.analysed), 900)
    ck.sample('fields', sorted('%s.%s' % k for k in cl.acc))
    ck.assume += ['single-record locks of different records never protect the same object',
                  'objects reached through a database are protected by the locks of that database',
                  'documented exemptions: ' + '; '.join('%s (%s)' % e for e in sorted(CALLER_LOCKS.items())) +
                  '; of the parallel file classes only reading and writing are thread-safe']
