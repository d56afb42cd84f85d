"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    out.append('* %s: %s. Needs: %s. Caught by %s.' % (os.path.basename(d[:-1]), m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.'), m['property']))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = s.index('<!-- bugs -->'), s.index('<!-- /bugs -->')
open(p, 'w').write(s[:a] + '<!-- bugs -->\n' + '\n'.join(out) + '\n' + s[b:])
