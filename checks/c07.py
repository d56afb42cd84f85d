"""C07: no failure of an operation is dropped on the way to the caller (static fault propagation)."""
import interp
from fa import children

ST = ('tkrzw::Status', 'const tkrzw::Status')
CODES = {'quick': [2], 'thorough': [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]}

# Failures which the surrounding function is there to deal with: (callees, callers, reason).
ABSORBED = [
    ('HashRecord::CheckCRC HashRecord::ReadMetadataKey HashRecord::ReadBody HashRecord::FindNextOffset SkipRecord::ReadBody '
     'SkipRecord::ReadMetadataKey File::Read MessageQueue::ReadNextMessage',
     'HashRecord::FindNextOffset HashRecord::ReplayOperations HashRecord::ExtractOffsets HashDBMImpl::ImportFromFileBackwardImpl '
     'HashDBMImpl::ValidateRecordsImpl HashDBM::FindRecordBase SkipDBM::RestoreDatabase MessageQueueImpl::Open',
     'a scan for damage: a broken record is skipped on request, or ends the scan'),
    ('HashDBM::ReadMetadata SkipDBM::ReadMetadata TreeDBM::ParseMetadata',
     'HashDBM::RestoreDatabase SkipDBM::RestoreDatabase TreeDBM::RestoreDatabase',
     'restoration goes on with default parameters if the metadata is broken'),
    ('HashDBMImpl::CheckZeroRegion SkipDBMImpl::CheckZeroRegion CheckFileZeroRegion HashDBMImpl::ValidateHashBucketsImpl '
     'HashDBMImpl::ValidateRecordsImpl File::Truncate File::TruncateFakely',
     'HashDBMImpl::OpenImpl HashDBMImpl::Open SkipDBMImpl::Open MessageQueueImpl::Open',
     'a probe of the health of the file: failing marks the database unhealthy or selects the restoration'),
    ('File::Close HashDBM::Close HashDBMImpl::CloseImpl RemoveFile',
     'HashDBMImpl::Open SkipDBMImpl::Open TreeDBMImpl::Open TreeDBM::RestoreDatabase',
     'the damaged or temporary database is put aside; only the outcome of the restoration counts'),
    ('RemoveFile', 'BabyDBMImpl::ExportRecords CacheDBMImpl::ExportRecords TinyDBMImpl::ExportRecords StdDBMImpl::ExportRecords',
     'removes what is left of a temporary file'),
    ('File::SetAllocationStrategy', 'MessageQueueImpl::Open MessageQueueImpl::WriteImpl MakeFileOrDie', 'only a tuning hint'),
    ('MessageQueue::FindFiles', 'MessageQueueImpl::Open', 'the same call is repeated, and checked, right afterwards'),
    ('ReadFileStatus', 'RenameFile', 'asks whether the destination exists'),
    ('PositionalFile::SetAccessStrategy', 'PolyFile::MakeFileInstance', 'a new file object always accepts the strategy'),
]
NO_CHANNEL = ('tkrzw::FileIndex', 'tkrzw::PolyIndex', 'tkrzw::MemIndex', 'tkrzw::StdIndex', 'tkrzw::PrintDBMRecordsInTSV',
              'tkrzw::MakeFileOrDie')


def named(qn):
    """The named function around a lambda, without template arguments and namespace."""
    q = qn.replace('(anonymous namespace)::', '').split('(')[0].replace('tkrzw::', '')
    out, d = '', 0
    for ch in q:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out


class Absorbed:
    def __init__(self, prog, summ):
        self.callers = {}
        byname = {}
        for f in prog.funcs.values():
            byname.setdefault(named(f.qn), []).append(f)
        self.up = {}
        for f in prog.funcs.values():
            if f.has_body:
                for g in [g for c in summ.direct_calls(f) for g in c[2]]:
                    t = prog.funcs.get(g)
                    if t is not None and t.kind != 'lambda' and '(' not in t.qn.replace('(anonymous namespace)', ''):
                        self.up.setdefault(named(t.qn), set()).add(named(f.qn))
        self.used = set()

    def reason(self, callee, caller):
        callee, caller = named(callee), named(caller)
        for k, (cs, fs, why) in enumerate(ABSORBED):
            if callee in cs.split() and self.within(caller, set(fs.split()), set()):
                self.used.add(k)
                return why
        return None

    def within(self, f, ok, seen):
        if f in ok:
            return True
        if f in seen:
            return True
        seen.add(f)
        ups = self.up.get(f, set()) - {f}
        return bool(ups) and all(self.within(u, ok, seen) for u in ups)



class Client(interp.Client):
    canon_fields = False

    def __init__(self, prog, summ, code):
        self.p = prog
        self.code = ('c', code)
        self.found = {}
        self.sites = set()
        self.exits = 0
        self.carried = 0
        self.outs = set()

    def init(self, f):
        return ()

    def inline(self, it, f, call, st):
        return 'full' if f.kind == 'lambda' else False

    def sym_other(self, sym):
        return ('s', 'other', sym)

    def post_call(self, it, c, sts):
        out = []
        sts = self.out_args(it, c, sts)
        if c.node.get('ty') in ST and not c.qn.startswith('tkrzw::Status::') and not c.node.get('lv'):
            for s, v in sts:
                if v[0] == 'c' or not (v[0] == 's' and v[1] == 'e'):
                    out.append((s, v))
                    continue
                site = (c.qn or 'a function object', c.frame.f.qn, c.frame.f.file)
                self.sites.add(site + (c.line,))
                if not s.ps:
                    s2 = s.copy()
                    s2.ps = (site, c.line)
                    out.append((s2, self.code))
                    it.setfact(s.env, v, self.code[1], False)
                out.append((s, v))
            return out
        # handing the status to somebody else passes the failure on
        if not c.qn.startswith(('tkrzw::Status::', 'tkrzw::operator==', 'tkrzw::operator!=')):
            for s, v in sts:
                if s.ps and c.kind in ('call', 'ctor') and self.has_status_arg(it, c, s):
                    s.ps = ()
        return sts

    def out_args(self, it, c, sts):
        """A local status whose address is handed out has to be looked at later."""
        if c.kind not in ('call', 'ctor'):
            return sts
        new = []
        for j, a in enumerate(c.argn):
            if a < 0 or j >= len(c.args) or c.args[j][0] != 'p' or c.args[j][1][0][0] != 'L' or len(c.args[j][1]) != 1:
                continue
            if c.frame.f.x[a].get('ty', '') != 'tkrzw::Status *':
                continue
            name = c.qn.rsplit('::', 1)[0] if c.kind == 'ctor' else c.qn
            site = ('status of ' + name, c.frame.f.qn, c.frame.f.file)
            self.outs.add(site + (c.line,))
            for s, v in sts:
                if not s.ps:
                    s2 = s.copy()
                    s2.ps = (site, c.line, c.args[j][1])
                    new.append((s2, v))
        return sts + new

    def pre_call(self, it, c, st):
        if len(st.ps) == 3:
            p = ('p', st.ps[2])
            if any(a == p and c.frame.f.x[n].get('ty') != 'tkrzw::Status *' for a, n in zip(c.args, c.argn) if n >= 0) or \
                    (c.recv == st.ps[2] and not c.qn.endswith('::operator=')):
                st.ps = ()
        return None

    def has_status_arg(self, it, c, s):
        for j, a in enumerate(c.argn):
            if a < 0 or j >= len(c.args):
                continue
            ty = c.frame.f.x[a].get('ty', '')
            if 'tkrzw::Status' in ty and 'Code' not in ty:
                if c.node.get('qn', '').startswith('tkrzw::Status'):
                    continue
                v = it.argval(c, j, s.env)
                if v == self.code:
                    return True
        return False

    def on_write(self, it, fr, path, val, st, line):
        if st.ps and val == self.code:
            r = path[0]
            if r[0] not in ('L', 'T'):
                st.ps = ()

    def on_throw(self, it, fr, st, line):
        st.ps = ()

    def on_exit(self, it, fr, val, st):
        self.exits += 1
        if not st.ps:
            return
        self.carried += 1
        f = fr.f
        if f.ret in ST:
            if it.truth(val, st.env) is True:
                return
            (callee, caller, file), line = st.ps[:2]
            self.found.setdefault(('%s|%s' % (callee, caller)), (callee, caller, file, line, f.qn))


def discarded(prog):
    """Calls whose Status is thrown away in functions that do not return a Status themselves."""
    out = []
    n = 0
    for f in prog.funcs.values():
        if not f.has_body or f.ret in ST or f.kind == 'dtor':
            continue
        used = set()
        for x in f.x:
            used.update(children(x))
        for i, x in enumerate(f.x):
            if x.get('k') == 'call' and x.get('ty') in ST and not x.get('lv') and not x.get('qn', '').startswith('tkrzw::Status::'):
                n += 1
                if i not in used:
                    out.append((f, x))
    return out, n


def run(ck):
    prog, summ = ck.load()
    ck.rule('A failure is assumed at every call that returns a Status, one at a time, and is followed along every path to '
            'the end of the function that made the call: a function that returns a Status must then return a failure, or '
            'have handed the status over (argument, out parameter, member). A status written through a pointer argument '
            'must be looked at before success is reported. A function without a Status result must not throw one away.')
    ab = Absorbed(prog, summ)
    roots = [f for f in prog.funcs.values() if f.has_body and f.ret in ST and not summ.trivial(f)]
    sites = set()
    failed = []
    carried = outs = 0
    accepted = {}

    def report(callee, caller, text, where):
        why = ab.reason(callee, caller)
        if why:
            accepted['%s in %s' % (named(callee), named(caller))] = why
            return
        ck.violation('%s|%s' % (named(callee), named(caller)), text, where)
    for code in CODES[ck.tier if ck.tier in CODES else 'quick']:
        cl = Client(prog, summ, code)
        it = interp.Interp(prog, cl, summ)
        it.CAP = 24
        it.BUDGET = 300000
        for f in sorted(roots, key=lambda f: (f.file, f.line, f.id)):
            it.steps = 0
            it.memo.clear()
            try:
                it.run_root(f)
            except interp.Budget:
                failed.append(f.qn)
        sites |= cl.sites
        carried += cl.carried
        outs = max(outs, len(cl.outs))
        for k, (callee, caller, file, line, root) in sorted(cl.found.items()):
            if callee.startswith('status of '):
                text = '%s can report success without having looked at the status which %s fills in' % (named(root), callee[10:].replace('tkrzw::', ''))
            else:
                text = 'a failure of %s is lost: %s can go on to return a status which is not that failure' % (named(callee), named(root))
            report(callee, caller, text, '%s:%s' % (file, line))
    disc, nvoid = discarded(prog)
    for f, x in disc:
        callee = x.get('qn') or 'a function object'
        if f.qn.startswith(NO_CHANNEL):
            continue
        if f.kind == 'lambda' and named(callee).split('::')[-1] in ('Close', 'RemoveFile'):
            accepted['%s in a lambda of %s' % (named(callee), named(f.qn))] = 'cleans up on the way out after another failure'
            continue
        report(callee, f.qn, 'the status of %s is thrown away in %s' % (named(callee), named(f.qn)), '%s:%s' % (f.file, x.get('ln')))
    ck.count('functions_interpreted', len(roots), 700)
    ck.count('status_call_sites', len(sites), 1200)
    ck.count('exits_with_failure_pending', carried, 1000)
    ck.count('status_out_arguments', outs, 25)
    ck.count('status_calls_in_other_functions', nvoid, 50)
    ck.count('over_budget', len(failed))
    ck.need(len(failed) <= 3, 'functions over budget: %s' % failed)
    ck.sample('over_budget', failed)
    ck.sample('absorbed_failures', ['%s: %s' % kv for kv in sorted(accepted.items())])
    ck.assume += ['the code of the failure is preserved by Status copies and merges', 'destructors may ignore failures',
                  'listed absorbed failures are handled by their surroundings']
