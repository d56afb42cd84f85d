"""Runs the lock-set analysis from every entry point of the library."""
import interp
import locks
from locks import LockClient, header_api, REPO_MUTEX, fmt_path

CALLBACK_CLASSES = ('tkrzw::DBM::RecordProcessor', 'tkrzw::DBM::UpdateLogger', 'tkrzw::DBM::FileProcessor',
                    'tkrzw::File', )


def chain(fr, n=6):
    out = []
    while fr is not None and len(out) < n:
        out.append(fr.f.qn.replace('tkrzw::', ''))
        fr = fr.site[0] if fr.site else None
    return ' <- '.join(out)


def roots_of(prog):
    rs = [f for f in header_api(prog) if not (f.cls and f.cls.startswith(REPO_MUTEX))]
    # the destructor of a base class, which the compiler calls after that of the derived class
    bases = {b for c, d in prog.classes.items() if c.startswith('tkrzw::') for b in d['bases']} - {f.cls for f in rs}
    rs += [f for f in prog.funcs.values() if f.kind == 'dtor' and f.cls in bases and f.has_body and not f.cls.startswith(REPO_MUTEX)]
    return sorted(rs, key=lambda f: (f.file, f.line, f.id))


class Client(LockClient):
    keep_names = True

    def __init__(self, prog, summ, ck, everything=False):
        super().__init__(prog, summ)
        self.ck = ck
        self.everything = everything
        self.found = []
        self.exits = 0

    def name_of_node(self, fr, i):
        nm = super().name_of_node(fr, i)
        if nm.startswith('tkrzw::ScopedHashLock'):
            site = fr
            while site is not None and site.f.cls and site.f.cls.startswith('tkrzw::ScopedHashLock'):
                site = site.site[0] if site.site else None
            if site is not None:
                cands = sorted({c + '::' + f['n'] for c, d in self.p.classes.items() for f in d['fields']
                                if 'HashMutex' in f['ty'] and not c.startswith('tkrzw::ScopedHashLock')})
                own = [c for c in cands if c.rsplit('::', 1)[0] == site.f.cls]
                if len(own) == 1:
                    return own[0]
        return nm

    def inline(self, it, f, call, st):
        if f.cls and f.cls.startswith(REPO_MUTEX):
            return False
        if not self.everything and f.id not in self.lock_closure:
            return False
        if f.kind == 'lambda' or f.id in self.netwrap or self.raii(f):
            return 'full'
        return 'canon' if locks.comp(f) == self.comp or f.file == 'tkrzw_thread_util.h' else False

    def post_call(self, it, c, sts):
        return None

    def report_relock(self, it, fr, st, path, mode, name, line):
        self.found.append(('relock', fr.f.qn, name, fr.f.file, line, chain(fr), mode))

    def report_unheld(self, it, fr, st, path, mode, name, line):
        self.found.append(('unheld', fr.f.qn, name, fr.f.file, line, chain(fr), mode))

    def report_mode(self, it, fr, st, path, mode, name, line):
        self.found.append(('mode', fr.f.qn, name, fr.f.file, line, chain(fr), mode))


def run(prog, summ, client, roots, cap=4, budget=400000, on_root=None):
    it = interp.Interp(prog, client, summ)
    it.CAP = cap
    it.BUDGET = budget
    total = 0
    failed = []
    for f in roots:
        it.steps = 0
        it.memo.clear()
        try:
            outs = it.run_root(f)
            if on_root:
                on_root(f, outs)
        except interp.Budget:
            failed.append(f.qn)
        total += it.steps
    return it, total, failed
