"""rebuild the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools' plant logs (notes/catches.json)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + '/notes/catches.json'))
rows = ['| bug | property | file | breaks | needs | caught by |', '|---|---|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    f = re.findall(r'^\+\+\+ b/(\S+)', open('%s/seeded/%s/patch.diff' % (V, i)).read(), re.M)
    rows.append('| %s | %s | %s | %s | %s | %s |' % (i, m['property'], ', '.join(os.path.basename(x) for x in f), m['what_it_breaks'], m['needs'], C.get(i, '')))
p = V + '/DESIGN.md'; s = open(p).read()
a = s.index('\n| bug | property') if '| bug | property' in s else s.index('then runs the check.') + len('then runs the check.\n')
b = s.index('Earlier batches')
s = s[:a].rstrip('\n') + '\n\n' + '\n'.join(rows) + '\n\n' + s[b:]
open(p, 'w').write(s)
