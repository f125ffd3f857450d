#!/usr/bin/env python3-vt
"""check.py PID [--tier quick|thorough] [--replay FILE]

Decides one property of the current /repo tree:
 1. clang extracts the bodies of the functions under contract from /repo (AST of the real sources, nothing copied by hand);
 2. engine/ generates the proof obligations of specs/<pid>.py (function by function, callees by contract where the spec
    names one) and discharges them for all inputs, sizes and iterations;
 3. in parallel harness/h<NN>.cpp is compiled against /repo's sources: it replays failed obligations on the real code and
    is the bounded stand-in for whatever could not be brought within reach.
Exit 0: held.  Exit 1 + VIOLATION line: broken."""
import sys, os, time, json, subprocess, tempfile, shutil, re, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = os.environ.get('REPO', '/repo')
T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class Harness(threading.Thread):
    """build and run the C++ harness of a property against the current tree"""
    def __init__(s, name, tmp, seed, scale, limit, only=None):
        threading.Thread.__init__(s)
        s.name_ = name; s.tmp = tmp; s.seed = seed; s.scale = scale; s.limit = limit; s.only = only
        s.fails = []; s.cases = {}; s.error = None; s.build_s = s.run_s = 0.0; s.cut = []

    def run(s):
        try: s.go()
        except Exception as e: s.error = '%s: %s' % (type(e).__name__, e)

    def go(s):
        import frontend as FE
        t0 = time.time()
        src = os.path.join(HERE, 'harness', s.name_ + '.cpp')
        text = open(src).read()
        m = re.search(r'//\s*SOURCES:(.*)', text)
        srcs = [os.path.join(REPO, 'src/core', x) for x in ['utils/exception.cpp'] + (m.group(1).split() if m else [])]
        if 'models.hpp' in text: srcs += [os.path.join(REPO, 'src/core', x) for x in ('optctrl/shooting.cpp_fptype.in', 'utils/stop-watch.cpp') if x not in text]
        for k, f in enumerate(srcs):
            if f.endswith('.in') and os.path.exists(f):
                g = os.path.join(s.tmp, 'gen%d.cpp' % k)
                open(g, 'w').write(open(f).read().replace('@SCALAR_TYPE@', 'double'))
                srcs[k] = g
        libs = ['-lboost_serialization', '-lboost_filesystem', '-lboost_system'] 
        if '// LIBS: ipopt' in text: libs.append('-lipopt')
        ov = FE.make_overlay(os.path.join(s.tmp, 'h'))
        stub = os.path.join(HERE, 'harness', 'stub')
        fl = FE.flags(ov) + ['-I' + stub, '-I' + os.path.join(HERE, 'harness'), '-O1', '-g0', '-fno-access-control', '-pthread', '-D_GLIBCXX_ASSERTIONS',
                             '-DEIGEN_INITIALIZE_MATRICES_BY_NAN', '-UNDEBUG', '-include', os.path.join(HERE, 'harness', 'prefix.hpp')]
        ps = []
        os.makedirs(os.path.join(s.tmp, 'obj'), exist_ok=True)
        for k, f in enumerate([src] + srcs):
            if not os.path.exists(f): s.error = 'missing source ' + f; return
            o = os.path.join(s.tmp, 'obj', '%d.o' % k)
            ps.append((f, o, subprocess.Popen(['g++'] + fl + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
        for f, o, p in ps:
            out, _ = p.communicate()
            if p.returncode: s.error = 'harness does not compile (%s): %s' % (f, '\n'.join(l for l in out.splitlines() if 'error' in l)[:1500]); return
        exe = os.path.join(s.tmp, 'obj', 'h')
        r = sh(['g++', '-o', exe] + [o for _, o, _ in ps] + libs + ['-pthread'])
        if r.returncode: s.error = 'harness does not link: ' + r.stdout[-1500:]; return
        s.build_s = time.time() - t0
        t1 = time.time()
        env = dict(os.environ, VERIF_SEED=str(s.seed), H_SCALE=str(s.scale), H_TIMEOUT=str(s.limit))
        run = os.path.join(s.tmp, 'run'); os.makedirs(run, exist_ok=True)
        try: r = sh([exe] + (s.only or []), env=env, cwd=run, timeout=s.limit * 4 + 60)
        except subprocess.TimeoutExpired: s.error = 'harness out of time'; return
        s.run_s = time.time() - t1
        for l in r.stdout.splitlines():
            m = re.match(r'CASE (\S+) iters=(\d+)', l)
            if m: s.cases[m.group(1)] = int(m.group(2))
            if l.endswith(' cut'): s.cut.append(l)
            m = re.match(r'FAIL (\S+) iter=(\d+) seed=(\d+) (.*)', l)
            if m: s.fails.append({'case': m.group(1), 'iter': int(m.group(2)), 'seed': int(m.group(3)), 'message': m.group(4)})
        if r.returncode not in (0, 1): s.error = 'harness ended with %d: %s' % (r.returncode, r.stdout[-500:])


TRUSTED = ['clang 18 front end (AST of the current sources)', 'engine/: the verification-condition generator and the index-algebra prover written for this task',
           'z3 %s' % 'integer/boolean side conditions', 'Eigen operations by the algebraic contracts in engine/eig.py (sizes, aliasing of the destination only where the code says noalias)']
ASSUME = ['double arithmetic is treated as exact real arithmetic (no rounding, overflow, NaN)', 'fixed-width integers do not overflow',
          'OpenMP pragmas are ignored: the parallel loops are verified as sequential loops (each iteration touches its own node only, which the loop summary checks)',
          'no two shared_ptr members of the objects under contract alias unless the contract says so']


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    deep = tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        if '--replay' in a: return replay(pid, a[a.index('--replay') + 1], tmp)
        return go(pid, tier, seed, deep, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(pid, path, tmp):
    d = json.load(open(path))
    print(json.dumps(d, indent=1)[:6000])
    for f in d.get('harness_failures', []):
        h = Harness(d['harness'], tmp, f['seed'], 1, 120, [f['case'], str(f['iter'])])
        h.run()
        print('replayed %s: %s' % (f['case'], h.fails or h.error or 'passes now'))
        if h.fails: return 1
    return 0


def go(pid, tier, seed, deep, tmp):
    import driver as DR
    spec = DR.load_spec(pid)
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == pid and k.get('status') == 'open']
    hs = None
    if getattr(spec, 'HARNESS', None) and os.path.exists(os.path.join(HERE, 'harness', spec.HARNESS + '.cpp')):
        hs = Harness(spec.HARNESS, tmp, seed, 20 if deep else 1, 400 if deep else 60)
        hs.start()
    DR.EXTRA['spec'] = spec
    ext_err = None
    res = []
    tx = time.time()
    try:
        DR.EXTRA['db'] = DR.FE.build_db(spec.UNITS, os.path.join(tmp, 'ast'), extra=getattr(spec, 'FLAGS', ())) if spec.TASKS else None
    except Exception as e:
        ext_err = 'extraction failed: %s: %s' % (type(e).__name__, str(e)[:1500])
    tx = time.time() - tx
    tp = time.time()
    if spec.TASKS and not ext_err:
        res = DR.run_tasks(pid, list(spec.TASKS), seed, deep, 8)
    tp = time.time() - tp
    if hs: hs.join()
    # ---- verdict
    obls = [dict(o, task=r['task']) for r in res for o in r['obls']]
    hard = [o for o in obls if not o['soft']]
    broken = [o for o in obls if o['status'] == 'refuted' and not o['soft']]
    softbad = [o for o in obls if o['status'] == 'refuted' and o['soft']]
    undec = [o for o in obls if o['status'] in ('unknown', 'inconsistent')]
    errs = [{'task': r['task'], 'error': r['error']} for r in res if r['error']]
    fails = hs.fails if hs and not hs.error else []
    for o in broken: o['key'] = '%s / %s' % (o['task'], o['name'])
    for f in fails: f['key'] = f['case']

    def is_known(key, text):
        for k in known:
            if k.get('key') == key and (not k.get('match') or re.search(k['match'], text or '')): return k
        return None
    kn = []
    nb, nf_ = [], []
    for o in broken:
        k = is_known(o['key'], o['info'])
        (kn.append(k) if k else nb.append(o))
    for f in fails:
        k = is_known(f['key'], f['message'])
        (kn.append(k) if k else nf_.append(f))
    seen = set()
    for k in kn:
        if k['id'] in seen: continue
        seen.add(k['id'])
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    viol = bool(nb or nf_)
    notes = []
    if ext_err: notes.append(ext_err)
    for e in errs: notes.append('%s: %s' % (e['task'], e['error']))
    if hs and hs.error: notes.append(hs.error)
    # ---- evidence
    disch = [o for o in obls if o['status'] == 'discharged']
    backends = {}
    for o in disch: backends[o['backend']] = backends.get(o['backend'], 0) + 1
    fns = sorted({r['fn'] for r in res if r.get('fn')})
    bodies = sorted({re.sub(r' \(x\d+\)$', '', u) for r in res for u in r['used']})
    contracts = sorted({c for r in res for c in r['contracts']})
    cov = {
        'obligations': len(obls), 'discharged': len(disch),
        'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier),
        'trusted_base': TRUSTED + ['assumed contract: ' + c for c in contracts] + getattr(spec, 'TRUSTED', []),
        'functions_under_contract': fns, 'bodies_verified': bodies, 'callee_contracts_assumed': contracts,
        'backends': backends, 'solver_time_s': round(sum(o['time'] for o in obls), 2), 'z3_queries': sum(o['z3'] for o in obls),
        'loops_summarised': sum(r['loops'] for r in res),
        'preconditions_witnessed': sum(1 for o in disch if o['samples'] > 0),
        'bounded_stand_ins': {
            'undecided_obligations': ['%s / %s: %s (numeric samples agreeing: %s)' % (o['task'], o['name'], o['status'], o['samples']) for o in undec],
            'functions_outside_reach': ['%s: %s' % (e['task'], e['error']) for e in errs] + list(getattr(spec, 'BOUNDED', [])),
            'harness': spec.HARNESS if hs else None,
            'harness_cases': hs.cases if hs else {}, 'harness_error': hs.error if hs else None,
        },
        'evaluations': (sum(hs.cases.values()) if hs else 0),
        'rule': 'random problems/arguments drawn from VERIF_SEED, run on the real code and compared with the harness oracle; counted per completed iteration',
        'samples': [{'obligation': '%s: %s' % (o['fn'], o['name']), 'status': o['status'], 'backend': o['backend'], 'time_s': o['time']} for o in obls[:400]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': ASSUME + getattr(spec, 'ASSUME', []),
          'wall_s': round(time.time() - T0, 2), 'violations': len(nb) + len(nf_), 'notes': notes,
          'timing': {'extract_s': round(tx, 2), 'prove_s': round(tp, 2), 'harness_build_s': round(hs.build_s, 2) if hs else 0, 'harness_run_s': round(hs.run_s, 2) if hs else 0}}
    if softbad: ev['notes'].append('size obligations not established: ' + '; '.join('%s / %s' % (o['task'], o['name']) for o in softbad[:8]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d refuted%s; harness %s%s; %.1fs' % (
        pid, len(obls), len(disch), len(undec), len(broken), ' (+%d size)' % len(softbad) if softbad else '',
        '%d cases/%d runs' % (len(hs.cases), sum(hs.cases.values())) if hs else 'none', ' (%d failing)' % len(fails) if fails else '', time.time() - T0))
    for n in notes: print('  note:', n[:400])
    for o in undec: print('  undecided: %s / %s' % (o['task'], o['name']))
    if not viol:
        # nothing was decided at all: no answer rather than a pass
        return 2 if spec.TASKS and not obls and (hs is None or hs.error) else 0
    rp = os.path.join(HERE, 'replay')
    os.makedirs(rp, exist_ok=True)
    path = os.path.join(rp, '%s.json' % pid)
    json.dump({'property': pid, 'harness': spec.HARNESS if hs else None, 'how': 'python3-vt /verif/check.py %s --replay %s' % (pid, path),
               'failed_obligations': [{'function': o['fn'], 'obligation': o['key'], 'verifier_output': o['info']} for o in nb],
               'size_obligations_failed': [{'function': o['fn'], 'obligation': '%s / %s' % (o['task'], o['name']), 'verifier_output': o['info']} for o in softbad],
               'harness_failures': nf_, 'notes': notes}, open(path, 'w'), indent=1)
    for o in nb[:6]: print('  failed obligation: %s: %s' % (o['fn'], o['key']))
    for f in nf_[:6]: print('  real code: %s (iteration %d): %s' % (f['case'], f['iter'], f['message'][:300]))
    print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if nf_ else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit: raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
