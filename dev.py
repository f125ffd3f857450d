#!/usr/bin/env python3-vt
"""developer view: prove the obligations of one property and print them (python3-vt dev.py P01 [task-substring])"""
import sys, os, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import resource
resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.RLIM_INFINITY)) if False else None
os.environ['DEV'] = '1'
import driver as DR
pid = sys.argv[1]
sub_ = sys.argv[2] if len(sys.argv) > 2 else ''
t0 = time.time()
spec = DR.load_spec(pid)
DR.EXTRA['spec'] = spec
DR.EXTRA['db'] = DR.FE.build_db(spec.UNITS, extra=getattr(spec, 'FLAGS', ()))
print('db %.1fs' % (time.time() - t0))
names = [n for n in spec.TASKS if sub_ in n]
for r in DR.run_tasks(pid, names, 1, False, 8):
    print('==== %s  [%s] %.1fs loops=%s %s' % (r['task'], r.get('fn'), r.get('time', 0), r['loops'], r['error'] or ''))
    if r.get('tb'): print('\n'.join(r['tb'].strip().split('\n')[-int(os.environ.get('TB', '5')):]))
    for o in r['obls']:
        if o['status'] == 'discharged' and '-v' not in sys.argv: continue
        print('   %-12s %s%s  %.2fs %s n=%s' % (o['status'], o['name'], ' (side)' if o['soft'] else '', o['time'], o['info'] or '', o['samples']))
    st = {}
    for o in r['obls']: st[o['status']] = st.get(o['status'], 0) + 1
    print('   ', st, 'used:', len(r['used']), 'contracts:', r['contracts'])
print('total %.1fs' % (time.time() - t0))
