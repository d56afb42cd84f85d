"""C15: what is stored in the metadata of a database file is read back as it was."""
import re

import interp

CLASSES = ('tkrzw::HashDBMImpl', 'tkrzw::TreeDBMImpl', 'tkrzw::SkipDBMImpl')
CODEC = ('tkrzw::WriteFixNum', 'tkrzw::ReadFixNum')


def mentions(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == ('this',) and isinstance(v[1], str):
            out.add(v[1])
            return
        for x in v:
            mentions(x, out)


def pointee(path):
    """The name of a pointee of a parameter: *name."""
    if len(path) == 1 and path[0][0] in ('P', 'S'):
        r = path[0][1]
        return r if isinstance(r, str) else (r[-1] if r and isinstance(r[-1], str) else None)
    return None


class Client(interp.Client):
    """Logs what is encoded at which offset and what is decoded into which field."""

    def __init__(self, prog, summ, codec_fns, full=()):
        self.p, self.s = prog, summ
        self.codec_fns = codec_fns
        self.full = set(full)
        self.log = []

    def inline(self, it, f, call, st):
        if f.id in self.codec_fns or f.kind == 'lambda' or f.id in self.full:
            return 'full'
        return False

    def pre_call(self, it, c, st):
        q = c.qn
        if q == 'tkrzw::WriteFixNum':
            self.log.append(('w',) + tuple(it.argval(c, j, st.env) for j in range(3)) + (c.line,))
            return [(st, ('c', 0))]
        if q == 'tkrzw::ReadFixNum':
            a = [it.argval(c, j, st.env) for j in range(2)]
            self.log.append(('rd', a[0], a[1], c.line))
            return [(st, ('s', 'rd', a[0], a[1]))]
        if q in ('memcpy', 'std::memcpy'):
            self.log.append(('w',) + tuple(it.argval(c, j, st.env) for j in range(3)) + (c.line,))
        return None

    def on_write(self, it, fr, path, val, st, line):
        if 'rd' in str(val) or "'sv'" in str(val):
            self.log.append(('r', path, val, line))

    def on_exit(self, it, fr, val, st):
        self.exits.append((val, st))

    exits = ()


def off(v):
    """(base, offset) of an address."""
    if v[0] == 'op' and v[1] == '+' and v[3][0] == 'c':
        return v[2], v[3][1]
    return v, 0


def base_key(v):
    # of a view, what it points into
    if v[0] == 'm' and v[1] == 'data':
        v = v[2]
        if v[0] == 'op' and v[1] == 'sv':
            v = v[2]
    return v


def reads(v, out):
    """All decoded (offset, width) in a value."""
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 's' and v[1] == 'rd':
            b, o = off(v[2])
            out.append((o, v[3][1] if v[3][0] == 'c' else None, b))
            return
        if len(v) == 4 and v[0] == 'op' and v[1] == 'sv':
            b, o = off(v[2])
            if b[0] in ('p', 'm') and o:
                out.append((o, v[3][1] if v[3][0] == 'c' else None, b))
            return
        for x in v:
            reads(x, out)


def limit(v):
    """An upper bound of a value."""
    if v[0] == 'c':
        return v[1]
    if v[0] == 'op' and v[1] == 'min':
        b = [limit(x) for x in v[2:] if isinstance(x, tuple)]
        b = [x for x in b if x is not None]
        return min(b) if b else None
    return None


def strip(b):
    return b[:-1] if b.endswith('_') else b


def run(ck):
    prog, summ = ck.load()
    ck.rule('The functions which store and load the metadata of a database are interpreted on all paths with the encoding and '
            'decoding calls as primitives. Each gives a table from (offset, width) to the field which is encoded there or '
            'decoded from there. The tables must be the same, and no two fields of the encoding may overlap. For each standard '
            'key comparator, what is stored must be decoded to the same function. For every update mode, record CRC mode and '
            'compression mode, the static flags which the tuning sets must decode to that mode, that CRC width and the '
            'compressor which that mode names.')
    codec = {f.id for f in prog.funcs.values() if f.has_body and not f.qn.endswith('RestoreDatabase') and (f.cls or '').startswith('tkrzw::')
             and any(n.get('qn') in CODEC for n in f.x)}
    codec |= {i for i in summ.closure(codec) if prog.funcs[i].has_body and prog.funcs[i].cls in {prog.funcs[j].cls for j in codec}
              and prog.funcs[i].n != 'RestoreDatabase' and prog.funcs[i].kind == 'method'}
    tables(ck, prog, summ, codec)
    header(ck, prog, summ, codec)
    comparators(ck, prog, summ, codec)
    flags(ck, prog, summ, codec)


def methods(prog, cls, name):
    return [f for f in prog.funcs.values() if f.qn == cls + '::' + name and f.has_body]


def writer_table(ck, cl, fname, log):
    tab = {}
    for e in log:
        if e[0] != 'w':
            continue
        b, o = off(e[1])
        w = e[3]
        w = w[1] if w[0] == 'c' else None
        m = set()
        mentions(e[2], m)
        if w is None:
            mentions(e[3], m)
        key = o
        t = tab.setdefault(key, {'w': w, 'f': set(), 'line': e[4], 'vals': set(), 'magic': False, 'lens': set()})
        t['lens'].add(e[3])
        t['f'] |= m
        t['vals'].add(e[2])
        if 'MAGIC' in str(e[2]) and e[2][0] == 'p':
            t['magic'] = True
        if t['w'] != w:
            ck.violation('%s@%d-width' % (fname, o), 'the field at offset %d is written with different widths' % o, fname)
    return tab


def tables(ck, prog, summ, codec):
    nf = 0
    for cls in CLASSES + ('queue',):
        if cls == 'queue':
            ws, rs = (methods(prog, 'tkrzw::MessageQueueImpl', m) for m in ('SaveMetadata', 'LoadMetadata'))
        else:
            ws, rs = methods(prog, cls, 'SaveMetadata'), methods(prog, cls, 'LoadMetadata')
        ck.need(len(ws) == 1 and len(rs) == 1, 'the functions which store and load the metadata of %s' % cls)
        w, r = ws[0], rs[0]
        cl = Client(prog, summ, codec)
        it = interp.Interp(prog, cl, summ)
        cl.log, cl.exits = [], []
        it.run_root(w)
        log = cl.log
        if cls == 'queue':
            wt = queue_writer(ck, w, log)
        else:
            wt = writer_table(ck, cl, w.qn, log)
        cl.log = []
        it.steps = 0
        it.memo.clear()
        it.run_root(r)
        rt = {}
        for e in cl.log:
            if e[0] != 'r':
                continue
            path = e[1]
            if path[0] == ('this',) and len(path) == 2:
                name = path[1]
            elif cls == 'queue' and pointee(path):
                name = pointee(path)
            else:
                continue
            rr = []
            reads(e[2], rr)
            for o, wd, b in rr:
                rt.setdefault(name, set()).add((o, wd, e[3]))
        # every location decoded at all
        seen = {off(e[1])[1]: (e[2][1] if e[2][0] == 'c' else None, e[3]) for e in cl.log if e[0] == 'rd'}
        nf += len(wt)
        # 64-bit counts and offsets must be stored in at least 48 bits, others in enough bytes for their type or limit
        if cls != 'queue':
            ftys = {x['n']: x['ty'] for x in prog.classes[cls]['fields']}
            for o, t in wt.items():
                for x in t['f']:
                    if t['w'] is not None and t['w'] < 6 and ('int64' in ftys.get(x, '') or 'long' in ftys.get(x, '')):
                        ck.violation('%s-%s-narrow' % (w.qn, x), '%s is a 64-bit number, stored in %d bytes' % (x, t['w']),
                                     '%s:%d' % (w.file, t['line']))
        for o, t in wt.items():
            if t['w'] is None:
                b = [limit(x) for x in t['lens']]
                t['max'] = max(b) if b and all(x is not None for x in b) else None
        # overlaps
        spans = sorted((o, t['w'] or t.get('max')) for o, t in wt.items() if t['w'] or t.get('max'))
        for (o1, w1), (o2, w2) in zip(spans, spans[1:]):
            if o1 + w1 > o2:
                ck.violation('%s-overlap-%d' % (w.qn, o1), 'the field of %d bytes at offset %d overlaps the one at offset %d' % (
                    w1, o1, o2), '%s:%d' % (w.file, wt[o1]['line']))
        for name, locs in rt.items():
            if len({x[:2] for x in locs}) > 1:
                ck.violation('%s-%s-many' % (r.qn, name), 'the field %s is decoded from more than one place: %s' % (
                    name, sorted({x[0] for x in locs})), r.file)
            for o, wd, line in locs:
                t = wt.get(o)
                if t is None:
                    ck.violation('%s-%s-unwritten' % (r.qn, name), '%s is decoded from offset %d, where %s encodes nothing' % (
                        name, o, w.qn), '%s:%d' % (r.file, line))
                    continue
                if t['w'] is not None and wd is not None and t['w'] != wd:
                    ck.violation('%s-%s-width' % (r.qn, name), '%s is decoded from %d bytes at offset %d, but %d bytes are '
                                 'encoded' % (name, wd, o, t['w']), '%s:%d' % (r.file, line))
                if t['f'] and strip(name) not in {strip(x) for x in t['f']}:
                    ck.violation('%s-%s-other' % (r.qn, name), '%s is decoded from offset %d, where %s is encoded' % (
                        name, o, '/'.join(sorted(t['f']))), '%s:%d' % (r.file, line))
        got = {}
        for name, locs in rt.items():
            for o, wd, line in locs:
                got.setdefault(o, set()).add(name)
        for o, t in wt.items():
            if t['magic']:
                continue
            names = {strip(x) for x in t['f']}
            g = {strip(x) for x in got.get(o, ())}
            if not g and o not in seen:
                ck.violation('%s-%d-unread' % (r.qn, o), '%s is encoded at offset %d, but nothing is decoded from there' % (
                    '/'.join(sorted(names)), o), '%s:%d' % (w.file, t['line']))
            elif names and g and not (names & g):
                ck.violation('%s-%d-swap' % (r.qn, o), '%s is encoded at offset %d, but decoded into %s' % (
                    '/'.join(sorted(names)), o, '/'.join(sorted(g))), '%s:%d' % (w.file, t['line']))
            elif len(names) == 1 and not g and o in seen and len(rt.get(next(iter(t['f'])), ())) == 0:
                ck.violation('%s-%d-lost' % (r.qn, o), '%s is encoded at offset %d and nothing is restored into it' % (
                    '/'.join(sorted(names)), o), '%s:%d' % (w.file, t['line']))
            if o in seen and seen[o][0] is not None and t['w'] is not None and seen[o][0] != t['w']:
                ck.violation('%s-%d-w' % (r.qn, o), '%d bytes are encoded at offset %d, but %d are decoded' % (
                    t['w'], o, seen[o][0]), '%s:%d' % (r.file, seen[o][1]))
        ck.sample('metadata fields of ' + cls, ['%d+%s: %s -> %s' % (o, t['w'], '/'.join(sorted(t['f'])),
                                                                  '/'.join(sorted(got.get(o, ())))) for o, t in sorted(wt.items())])
    ck.count('metadata fields encoded', nf, 42)


def header(ck, prog, summ, codec):
    """The copy of the parameters in the header of the record section, and the reader which uses either copy."""
    meta = methods(prog, 'tkrzw::HashDBMImpl', 'SaveMetadata')[0]
    below, todo = {meta.id}, [meta]
    while todo:
        for c in summ.direct_calls(todo.pop()):
            for g in c[2]:
                if g not in below and g in prog.funcs and prog.funcs[g].cls == meta.cls and prog.funcs[g].has_body:
                    below.add(g)
                    todo.append(prog.funcs[g])
    hw = [f for f in prog.funcs.values() if f.cls == 'tkrzw::HashDBMImpl' and f.has_body and f.id not in below and
          sum(n.get('qn') == 'tkrzw::WriteFixNum' for n in f.x) >= 3]
    hr = methods(prog, 'tkrzw::HashDBM', 'FindRecordBase')
    ck.need(len(hw) == 1 and hr, 'the functions of the header of the record section')
    tabs = []
    for f in (meta, hw[0]):
        cl = Client(prog, summ, codec)
        it = interp.Interp(prog, cl, summ)
        cl.log, cl.exits = [], []
        it.run_root(f)
        tabs.append((f, writer_table(ck, cl, f.qn, cl.log)))
    cl = Client(prog, summ, codec)
    it = interp.Interp(prog, cl, summ)
    cl.log, cl.exits = [], []
    it.run_root(hr[0])
    bases = {}
    for e in cl.log:
        if e[0] == 'r' and pointee(e[1]) and e[2][:2] == ('s', 'rd'):
            rr = []
            reads(e[2], rr)
            for o, wd, b in rr:
                bases.setdefault(b, {})[(o, wd, pointee(e[1]))] = e[3]
    ck.count('fields decoded by FindRecordBase', sum(len(x) for x in bases.values()), 6)
    used = set()
    for b, locs in bases.items():
        best = None
        for k, (f, tab) in enumerate(tabs):
            bad = []
            for (o, wd, name), line in locs.items():
                t = tab.get(o)
                names = {strip(x) for x in t['f']} if t else set()
                if name == 'last_sync_size':
                    names = {'last_sync_size'} if 'file_size' in names else names
                if t is None or (wd is not None and t['w'] is not None and wd != t['w']) or strip(name) not in names:
                    bad.append((o, wd, name, line))
            if best is None or len(bad) < len(best[0]):
                best = (bad, k, f)
        used.add(best[1])
        for o, wd, name, line in best[0]:
            ck.violation('FindRecordBase-%s' % name, '%s is decoded from offset %d (%s bytes), but %s does not encode it there' % (
                name, o, wd, best[2].qn), '%s:%d' % (hr[0].file, line))
    if used != {0, 1} and len(bases) > 1:
        ck.violation('FindRecordBase-copies', 'both copies of the parameters are decoded with the same layout', hr[0].file)


def queue_writer(ck, w, log):
    tab = {}
    for e in log:
        if e[0] != 'w':
            continue
        b, o = off(e[1])
        m = set()
        v = e[2]
        def names(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 's' and x[1] == 'arg':
                    m.add(x[2])
                for y in x:
                    names(y)
        names(v)
        tab[o] = {'w': e[3][1] if e[3][0] == 'c' else None, 'f': m, 'line': e[4], 'vals': {v},
                  'lens': {e[3]}, 'magic': 'MAGIC' in str(v) and v[0] == 'p'}
    return tab


def comparators(ck, prog, summ, codec):
    w, r = methods(prog, 'tkrzw::TreeDBMImpl', 'SaveMetadata')[0], methods(prog, 'tkrzw::TreeDBMImpl', 'LoadMetadata')[0]
    comps = [f for f in prog.funcs.values() if f.qn.startswith('tkrzw::') and f.qn.endswith('KeyComparator') and not f.cls
             and len(f.ps) == 2]
    comps = sorted({f.qn: f for f in comps}.values(), key=lambda f: f.qn)
    codes = {}
    # the offset of the code: the one whose value depends on the comparator
    KC = (('this',), 'key_comparator_')
    def store(val):
        cl = Client(prog, summ, codec)
        it = interp.Interp(prog, cl, summ)
        cl.log, cl.exits = [], []
        it.run_root(w, env0={KC: val})
        return {off(e[1])[1]: e[2] for e in cl.log if e[0] == 'w' and e[2][0] == 'c'}
    def load(o, code):
        cl = Client(prog, summ, codec)
        orig = cl.pre_call
        def pre(it, c, st):
            if c.qn == 'tkrzw::ReadFixNum' and off(it.argval(c, 0, st.env))[1] == o:
                return [(st, ('c', code))]
            return orig(it, c, st)
        cl.pre_call = pre
        res = set()
        def wr(it, fr, path, val, st, line):
            if path == KC:
                res.add(val)
        cl.on_write = wr
        cl.exits = []
        it = interp.Interp(prog, cl, summ)
        it.run_root(r)
        return res
    outs = {f.qn: store(('fn', f.id)) for f in comps}
    none = store(('c', 0))
    offs = set(none)
    for t in outs.values():
        offs &= set(t)
    var = [o for o in offs if len({t[o] for t in outs.values()}) > 1]
    ck.need(len(var) == 1, 'the offset of the code of the key comparator (%s)' % var)
    o = var[0]
    n = 0
    custom = None
    for f in comps:
        code = outs[f.qn][o][1]
        res = load(o, code)
        if not res:
            # the custom code: fails unless a comparator is given
            ck.violation('comparator-' + f.qn, 'the standard comparator %s is stored as %d, which restores no comparator' % (
                f.qn, code), w.qn)
            continue
        n += 1
        if res != {('fn', f.id)}:
            ck.violation('comparator-' + f.qn, 'the comparator %s is stored as %d, which is decoded to %s' % (
                f.qn, code, sorted(str(x[1]) for x in res)), r.qn)
        if code in codes:
            ck.violation('comparator-code-%d' % code, '%s and %s have the same code' % (codes[code], f.qn), w.qn)
        codes[code] = f.qn
    ck.count('standard key comparators', n, 14)
    d = load(o, none[o][1])
    lex = [f for f in comps if f.qn == 'tkrzw::LexicalKeyComparator']
    if lex and d != {('fn', lex[0].id)}:
        ck.violation('comparator-default', 'no comparator is stored as %d, which is not decoded to the lexical one' % none[o][1], w.qn)
    ck.sample('key comparator codes', ['%d: %s' % x for x in sorted(codes.items())])


NULLS = {('c', 0)}
WIDTH = {'NONE': 0, 'DEFAULT': 0, '8': 1, '16': 2, '32': 4}


def flags(ck, prog, summ, codec):
    tun = methods(prog, 'tkrzw::HashDBMImpl', 'SetTuning')
    crcf = methods(prog, 'tkrzw::HashDBM', 'GetCRCWidthFromStaticFlags')
    compf = methods(prog, 'tkrzw::HashDBM', 'MakeCompressorFromStaticFlags')
    modef = methods(prog, 'tkrzw::HashDBMImpl', 'GetUpdateMode')
    ck.need(tun and crcf and compf and modef, 'the functions of the static flags')
    def enum(n, pre):
        e = prog.enums[n]
        return {x['n'][len(pre):]: int(x['v']) for x in e['vals'] if x['n'].startswith(pre)}
    ups = enum('tkrzw::HashDBM::UpdateMode', 'UPDATE_')
    crcs = enum('tkrzw::HashDBM::RecordCRCMode', 'RECORD_CRC_')
    comps = enum('tkrzw::HashDBM::RecordCompressionMode', 'RECORD_COMP_')
    SF = (('this',), 'static_flags_')
    P = ('P', 'tuning_params')
    pname = tun[0].ps[0]['n']
    P = ('P', pname)
    n = 0
    seen = {}
    def results(f, args=None, env0=None):
        cl = Client(prog, summ, codec)
        cl.exits, cl.log = [], []
        made = []
        def pre(it, c, st):
            if (c.qn or '').startswith('std::make_unique'):
                made.append(c.fn)
            elif c.qn and c.qn.rsplit('::', 2)[-1].endswith('Compressor') and c.qn.split('::')[-1] == c.qn.split('::')[-2]:
                made.append(c.qn)
            return None
        cl.pre_call = pre
        cl.full |= {g.id for g in prog.funcs.values() if g.file == f.file and g.has_body and not g.virt and len(g.x) < 400}
        it = interp.Interp(prog, cl, summ)
        it.run_root(f, args=args, env0=env0)
        return {v for v, st in cl.exits}, made, [st for v, st in cl.exits], it
    for u, uv in ups.items():
        for c, cv in crcs.items():
            for z, zv in comps.items():
                env0 = {SF: ('c', 0), (P, 'update_mode'): ('c', uv), (P, 'record_crc_mode'): ('c', cv),
                        (P, 'record_comp_mode'): ('c', zv)}
                _, _, sts, it = results(tun[0], env0=env0)
                fl = {it.rd(SF, st.env) for st in sts}
                if len(fl) != 1 or list(fl)[0][0] != 'c':
                    ck.need(False, 'the static flags of the modes %s %s %s (%s)' % (u, c, z, str(fl)[:80]))
                fl = fl.pop()
                n += 1
                key = fl[1]
                if key not in seen:
                    wd, _, _, _ = results(crcf[0], args={0: fl})
                    rets, made, _, _ = results(compf[0], args={0: fl})
                    ck.need(made or rets <= NULLS, 'what %s makes of the flags %d (%s)' % (compf[0].qn, key, str(rets)[:80]))
                    mode, _, _, _ = results(modef[0], env0={SF: fl, (('this',), 'open_'): ('c', 1)})
                    seen[key] = (wd, made, mode)
                wd, made, mode = seen[key]
                name = '%s/%s/%s' % (u, c, z)
                want = WIDTH.get(c)
                if want is not None and wd != {('c', want)}:
                    ck.violation('flags-crc-%s' % c, 'the record CRC mode %s with %s gives the flags %d, which decode to the CRC '
                                 'width %s' % (c, name, key, sorted(str(x) for x in wd)), crcf[0].qn)
                want = ups['IN_PLACE'] if u == 'DEFAULT' else uv
                if mode != {('c', want)}:
                    ck.violation('flags-mode-%s' % u, 'the update mode %s with %s gives the flags %d, which decode to %s' % (
                        u, name, key, sorted(str(x) for x in mode)), modef[0].qn)
                got = {cls for m in made for cls in prog.classes if cls.endswith('Compressor') and
                       re.search(r'(::|N5tkrzw\d+)%s(E|$|::)' % cls.rsplit('::', 1)[-1], str(m))}
                if z in ('NONE', 'DEFAULT'):
                    if got or made:
                        ck.violation('flags-comp-%s' % z, 'no compression with %s gives the flags %d, which decode to %s' % (
                            name, key, made), compf[0].qn)
                else:
                    want = {k for k in prog.classes if k.rsplit('::', 1)[-1].upper() == z + 'COMPRESSOR'}
                    if got != want:
                        ck.violation('flags-comp-%s' % z, 'the compression mode %s with %s gives the flags %d, which decode to %s' % (
                            z, name, key, made), compf[0].qn)
    ck.count('combinations of modes', n, 3 * 5 * 8)
