"""C06: an operation that the state of the object forbids is refused before it does anything."""
import interp
import locks

ST = ('tkrzw::Status', 'const tkrzw::Status')
PRE = 4
REFUSED = {4, 5}    # PRECONDITION_ERROR, or INVALID_ARGUMENT_ERROR of an earlier check of the arguments
T = ('this',)


def fld(*names):
    """Path of a field of the root object, through pointer members."""
    p = (T,)
    for n in names[:-1]:
        p = (('S', ('s', 'i', p + (n,))),)
    return p + (names[-1],)


EFFECTS = ('tkrzw::DBM::RecordProcessor::Process', 'tkrzw::DBM::FileProcessor::Process', 'tkrzw::DBM::UpdateLogger::Write',
           'tkrzw::DBM::UpdateLogger::Sync')
FILE_EFFECTS = {'Write', 'WriteInline', 'Append', 'Expand', 'Truncate', 'TruncateFakely', 'Synchronize', 'Rename', 'Read',
                'DisablePathOperations', 'Close', 'Open'}
SYSCALLS = {'write', 'pwrite', 'read', 'pread', 'ftruncate', 'truncate', 'fsync', 'fdatasync', 'msync', 'rename', 'unlink',
            'mmap', 'munmap', 'mremap', 'close', 'open', 'lseek'}


class Client(interp.Client):
    def __init__(self, prog, classes):
        self.p = prog
        self.classes = classes
        self.effects = []

    def inline(self, it, f, call, st):
        if f.kind == 'lambda':
            return 'full'
        if f.cls and 'Iterator' in f.cls and f.cls == self.rootcls:
            return 'full'       # the state of the database, beyond a pointer of the iterator, has to be known
        if f.cls and locks.comp(f) == self.comp:
            return 'canon'
        return False

    def enter(self, it, f, this, ps):
        return ps

    def pre_call(self, it, c, st):
        q = c.qn
        if q.startswith(EFFECTS):
            self.effects.append((q, c.frame.f.file, c.line))
        elif q.startswith('tkrzw::File::') and q.rsplit('::', 1)[-1] in FILE_EFFECTS:
            self.effects.append((q, c.frame.f.file, c.line))
        elif q.lstrip(':') in SYSCALLS:
            self.effects.append((q, c.frame.f.file, c.line))
        m = q.rsplit('::', 1)[-1]
        if m in ('IsEmpty', 'empty') and c.recv and c.recv[-1] in ('reorg_ids_', 'files_'):
            return [(st, ('c', 1))]
        return None


def attempt(it, cl, f, preset, writable=None):
    env = {}
    ps = ()
    fr = interp.Frame(f, 0, (T,), (), (f.id,), None)
    for p in f.ps:
        path = (('L', 0, p['d']),)
        if it.isref(p['ty']):
            env[path] = ('p', (('P', p['n']),))
        elif writable is not None and p['n'] == 'writable':
            env[path] = ('c', 1 if writable else 0)
        else:
            env[path] = ('s', 'arg', p['n'])
            if p['ty'].endswith('*'):
                env[('F', env[path])] = ('ne', frozenset((0,)))
    for k, v in preset.items():
        env[fld(*k)] = ('c', v)
        if len(k) > 1:
            env[('F', ('s', 'i', fld(*k[:-1])))] = ('ne', frozenset((0,)))
    cl.effects = []
    cl.comp, cl.rootcls = locks.comp(f), f.cls
    it.steps = 0
    it.memo.clear()
    it.cmemo.clear()
    outs = it.run_body(fr, interp.St(env, ps))
    vals = set()
    for st, v in outs:
        c = it.const(v, st.env)
        vals.add(c)
    return vals, cl.effects


def name(f):
    return f.qn.split('(')[0].split('::')[-1]


DB = 'Process ProcessFirst ProcessEach ProcessMulti Clear Rebuild Synchronize SetOpaqueMetadata '
GET = 'Close Count GetFilePath GetFileSize GetTimestamp ShouldBeRebuilt '
UPD = 'Process ProcessFirst ProcessEach ProcessMulti Synchronize '
MMF = 'Close DisablePathOperations GetPath GetSize Rename Synchronize Truncate TruncateFakely '
POS = MMF + 'Append Read SetHeadBuffer Write '
STDF = MMF + 'Append Read Write Expand ReadInCriticalSection WriteInCriticalSection '
POLYF = MMF + 'Append Read Write Expand CopyProperties SetAllocationStrategy '
POLYD = ('Process Get Set Remove Append ProcessFirst ProcessMulti ProcessEach Count GetFileSize GetFilePath GetTimestamp Clear '
         'Rebuild RebuildAdvanced ShouldBeRebuilt Synchronize SynchronizeAdvanced Close ')
SHARD = POLYD + 'CompareExchangeMulti CopyFileData '

OPENED = {('open_',): 1}
U = ('unopened', {('open_',): 0})
R = ('read-only', {('open_',): 1, ('writable_',): 0})
H = ('unhealthy', {('open_',): 1, ('writable_',): 1, ('healthy_',): 0})
O = ('already opened', OPENED)
FU = ('unopened', {('fd_',): -1})
FR = ('read-only', {('fd_',): 5, ('writable_',): 0})
FO = ('already opened', {('fd_',): 5})
SU = ('unopened', {('file_',): 0})
SR = ('read-only', {('file_',): 8, ('writable_',): 0})
PU = ('unopened', {('dbm_',): 0, ('open_',): 0})
MQ = ('unopened', {})


def it_state(s):
    return (s[0], {('dbm_',) + k: v for k, v in s[1].items()})


# (class, state, methods which must be refused in it)
SPEC = [
    ('HashDBMImpl', U, DB + 'SetDatabaseTypeMetadata ' + GET + 'ImportFromFileBackward ImportFromFileForward SetUpdateModeAppending ValidateHashBuckets ValidateRecords'),
    ('HashDBMImpl', R, DB + 'SetDatabaseTypeMetadata ' + 'ImportFromFileBackward ImportFromFileForward SetUpdateModeAppending'),
    ('HashDBMImpl', H, UPD + 'ImportFromFileBackward ImportFromFileForward'),
    ('HashDBMImpl', O, 'Open'),
    ('TreeDBMImpl', U, DB + 'SetDatabaseType ' + GET + 'ValidateHashBuckets ValidateRecords'),
    ('TreeDBMImpl', R, DB + 'SetDatabaseType '),
    ('TreeDBMImpl', H, UPD),
    ('TreeDBMImpl', O, 'Open'),
    ('SkipDBMImpl', U, DB + 'SetDatabaseTypeMetadata ' + GET + 'GetByIndex Insert MergeSkipDatabase Revert ValidateRecords'),
    ('SkipDBMImpl', R, DB + 'SetDatabaseTypeMetadata ' + 'Insert MergeSkipDatabase Revert'),
    ('SkipDBMImpl', H, UPD + 'Insert MergeSkipDatabase Revert'),
    ('SkipDBMImpl', O, 'Open'),
    ('HashDBMIteratorImpl', it_state(U), 'First Jump'),
    ('HashDBMIteratorImpl', it_state(R), 'Process'),
    ('HashDBMIteratorImpl', it_state(H), 'Process'),
    ('TreeDBMIteratorImpl', it_state(U), 'First Last Jump JumpLower JumpUpper'),
    ('TreeDBMIteratorImpl', it_state(R), 'Process'),
    ('TreeDBMIteratorImpl', it_state(H), 'Process'),
    ('SkipDBMIteratorImpl', it_state(U), 'First Last Jump JumpLower JumpUpper'),
    ('SkipDBMIteratorImpl', it_state(R), 'Process'),
    ('SkipDBMIteratorImpl', it_state(H), 'Process'),
] + [(c, U, 'Close GetFilePath GetFileSize GetTimestamp') for c in ('BabyDBMImpl', 'TinyDBMImpl', 'CacheDBMImpl', 'StdDBMImpl')] + [
    (c, O, 'Open') for c in ('BabyDBMImpl', 'TinyDBMImpl', 'CacheDBMImpl', 'StdDBMImpl')] + [
    ('PolyDBM', PU, POLYD), ('PolyDBM', ('already opened', {('dbm_',): 8}), 'Open OpenAdvanced'),
    ('ShardDBM', U, SHARD), ('ShardDBM', O, 'Open OpenAdvanced'),
    ('MessageQueueImpl', MQ, 'Close CancelReaders Write Synchronize'),
    ('PolyFile', SU, POLYF),
    ('StdFileImpl', SU, STDF),
    ('StdFileImpl', SR, 'Append Write Expand Truncate WriteInCriticalSection'),
] + [(c, FU, MMF) for c in ('MemoryMapParallelFileImpl', 'MemoryMapAtomicFileImpl')] + [
    (c, FR, 'Truncate Synchronize') for c in ('MemoryMapParallelFileImpl', 'MemoryMapAtomicFileImpl')] + [
    (c, FU, POS) for c in ('PositionalParallelFileImpl', 'PositionalAtomicFileImpl')] + [
    (c, FR, 'Truncate Synchronize Append Write') for c in ('PositionalParallelFileImpl', 'PositionalAtomicFileImpl')] + [
    (c, FO, 'Open SetAllocationStrategy') for c in ('MemoryMapParallelFileImpl', 'MemoryMapAtomicFileImpl', 'PositionalParallelFileImpl',
                                                    'PositionalAtomicFileImpl')]


def base(cls):
    return cls.replace('tkrzw::', '').split('<')[0]


def run(ck):
    prog, summ = ck.load()
    ck.rule('Every listed operation is interpreted from its first statement with the fields of the object fixed to the state '
            '(not opened, opened already, read-only, unhealthy) and with writable processing asked for. On every path it must '
            'return PRECONDITION_ERROR (or INVALID_ARGUMENT_ERROR if it checks the arguments first), and it must not have called a record or file processor, the update logger, a '
            'reading or writing method of the file, or a system call that touches files.')
    cl = Client(prog, None)
    it = interp.Interp(prog, cl, summ)
    it.CAP = 8
    it.BUDGET = 100000
    byc = {}
    for f in prog.funcs.values():
        if f.cls and f.has_body and f.kind == 'method' and f.ret in ST and f.acc == 'public':
            byc.setdefault(base(f.cls), []).append(f)
    done = 0
    missing = []
    failed = []
    effects = 0
    listing = []
    for cls, (state, preset), names in SPEC:
        for n in names.split():
            fs = [f for f in byc.get(cls, []) if name(f) == n]
            if not fs:
                missing.append('%s::%s' % (cls, n))
            for f in sorted(fs, key=lambda f: (f.file, f.line)):
                cl.mq = cls == 'MessageQueueImpl'
                try:
                    vals, eff = attempt(it, cl, f, preset, True)
                except interp.Budget:
                    failed.append(f.qn)
                    continue
                done += 1
                listing.append('%s::%s (%s)' % (cls, n, state))
                if not vals <= REFUSED or PRE not in vals:
                    got = sorted('code %s' % v if v is not None else 'an unknown status' for v in vals if v not in REFUSED)
                    ck.violation('%s::%s|%s|not refused' % (cls, n, state), '%s::%s on an object that is %s can return %s '
                                 'instead of PRECONDITION_ERROR' % (cls, n, state, ', '.join(got) or 'nothing'),
                                 '%s:%s' % (f.file, f.line))
                if eff:
                    q, file, line = eff[0]
                    ck.violation('%s::%s|%s|effect' % (cls, n, state), '%s::%s on an object that is %s reaches %s'
                                 % (cls, n, state, q.replace('tkrzw::', '')), '%s:%s' % (file, line))
    ck.count('operation_state_pairs', done, 230)
    ck.count('operations_not_found', len(missing))
    ck.sample('pairs', listing)
    ck.sample('not_found', missing)
    ck.need(len(failed) < 4, 'over budget: %s' % failed)
    ck.assume += ['a database which is not opened, or not writable, has no pending reorganization',
                  'the functions listed are those of the interface; data structures which need no opening are left out']
