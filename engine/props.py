"""Single source of properties.jsonl and MANIFEST.json: python3 engine/props.py rewrites both."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, claim=None, na=None, observe=None, state=None):
    """claim: (technique, level note) if a check decides it; na: the reason if none does."""
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  claim=claim, na=na, observe=observe, state=state))


exec(open(os.path.join(VERIF, 'engine', 'proplist.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, p['pid']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            if p['observe']:
                a['observe_at'] = p['observe']
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            a['hook_needed'] = None
            fh.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']},
                                 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for p in P:
        if p['claim'] and not p['na']:
            tech, note = p['claim']
            checks.append({'property': p['pid'], 'quick_cmd': 'python3 check.py ' + p['pid'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['pid'],
                           'technique': tech, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': p['pid'], 'reason': p['na'] or 'no check has been built yet'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only. No hooks were added to /repo; the commits there are fixes.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print('%d properties, %d claimed, %d not applicable' % (len(P), len(checks), len(na)))


main()
