"""Shared driver of the three checks which follow the verdicts of record processors."""
import verdict


def go(ck, kind, floors):
    prog, summ = ck.load()
    cl, rs, failed = verdict.explore(prog, summ, ck)
    ck.count('functions_calling_a_record_processor', len(rs), 18)
    ck.count('transactions', len(cl.txns), 170)
    for v, n in floors:
        ck.count('transactions_with_' + v.lower(), len([t for t in cl.txns if t[2] == v]), n)
    ck.count('over_budget', len(failed))
    ck.need(len(failed) <= 3, 'functions over budget: %s' % failed)
    for k, root, file, line, text in sorted(cl.reports, key=str):
        if k == kind:
            q = root.replace('tkrzw::', '').split('<')[0].split('(')[0]
            if '<' in root:
                q += root.rsplit('>', 1)[-1]
            ck.violation('%s|%s' % (q, text), '%s %s' % (q, text), '%s:%s' % (file, line))
    ck.sample('functions', sorted(set(f.qn for f in rs)))
    ck.sample('transactions', sorted('%s:%s %s after %s, %s, %s' % (
        q.replace('tkrzw::', '')[:60], ln, v, 'ProcessFull' if full else 'ProcessEmpty', 'writable' if w else 'read-only',
        'with a logger' if l else 'no logger') for q, ln, v, full, w, l in cl.txns))
    ck.assume += ['record processors compare to NOOP and REMOVE by the address of the returned view',
                  'modification = a store outside the frame, a writing File method, or freeing or rewriting a record block']
