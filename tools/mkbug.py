"""mkbug.py SPEC.py: writes seeded/<id> from ID, PROP, FILE, EDITS [(old, new)], NEEDS, BREAKS, DEMO (C++ source), FILES."""
import difflib, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(V, 'seeded', ns['ID'])
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
out = ''
edits = ns.get('EDITS') or []
byf = {}
for e in edits:
    f, o, n = e if len(e) == 3 else (ns['FILE'],) + tuple(e)
    byf.setdefault(f, []).append((o, n))
for f, es in byf.items():
    s0 = s = open('/repo/' + f).read()
    for o, n in es:
        assert s.count(o) == 1, (f, s.count(o), o)
        s = s.replace(o, n)
    out += ''.join(difflib.unified_diff(s0.splitlines(1), s.splitlines(1), 'a/' + f, 'b/' + f))
open(d + '/patch.diff', 'w').write(out)
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.cc', 'w').write(ns['DEMO'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Exit 0 if the property holds in the scenario, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 98
trap 'rm -rf "$tmp"' EXIT
%s || exit 99
cd "$tmp" && timeout -s KILL %d ./demo "$tmp"
''' % (ns.get('COMPILE') or 'g++ -g -O1 -std=c++17 -pthread -D_GNU_SOURCE=1 -I/repo -I"$here" "$here/demo.cc" /repo/_build/libtkrzw.a '
       '-llzma -llz4 -lzstd -lz -lrt -latomic -o "$tmp/demo"', ns.get('TIMEOUT', 120)))
os.chmod(d + '/demo.sh', 0o755)
for f in ns.get('FILES', []):
    shutil.copy(os.path.join(V, 'tools', f), d)
print(out)
