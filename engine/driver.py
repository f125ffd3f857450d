"""Runs one property: proof obligations from /repo's current source + replay/bounded harness on the real code."""
import sys, os, time, json, importlib.util, multiprocessing as mp, traceback, subprocess, shutil, tempfile, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import frontend as FE
from term import *
import nf as NF, numev as NV, symex as SX
from spec import Task, Obl, GLOBALS

PROVE_S = float(os.environ.get('PROVE_S', '25'))
TASK_S = float(os.environ.get('TASK_S', '150'))
EXTRA = {}


def load_spec(pid):
    p = os.path.join(VERIF, 'specs', pid.lower() + '.py')
    sp = importlib.util.spec_from_file_location('spec_' + pid, p)
    m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.dirname(p))
    sp.loader.exec_module(m)
    return m


class TO(Exception): pass


def alarm(*a): raise TO()


def discharge(o, seed, deep):
    t0 = time.time()
    q0, z0 = NF.STATS['z3_queries'], NF.STATS['z3_time']
    end = t0 + PROVE_S * (4 if deep else 1)
    info = None
    if o.kind == 'frame':
        o.status = 'discharged' if o.a is TRUE else 'unknown'
        o.backend = 'write-set'
        return
    if o.inv:
        return discharge_inv(o, t0, q0, deep)
    try:
        if o.kind == 'zero':
            ok, info = NF.prove_zero(sub(o.a, o.b), o.facts, o.unfold, end)
            if not ok and any(x.op == 'maxo' for x in walk(o.a)) and any(x.op == 'maxo' for x in walk(o.b)):
                ok2, info2 = NF.prove_sup(o.a, o.b, o.facts, o.unfold, end)
                if ok2: ok, info = ok2, info2
            if not ok and any(x.op == 'sum' for x in walk(o.a)) and any(x.op == 'sum' for x in walk(o.b)):
                if NF.prove_pointwise(o.a, o.b, o.facts, o.unfold, end + 10): ok, info = True, None
        else:
            ok, info = NF.prove_bool(o.a, o.facts, o.unfold, end)
    except TO: raise
    except RecursionError as e:
        ok, info = False, ('error', 'recursion')
    except Exception as e:
        if os.environ.get('DEV'): print('  EXC', ' | '.join(traceback.format_exc().strip().splitlines()[-4:]), flush=True)
        ok, info = False, ('error', repr(e))
    o.backend = 'index-algebra normal form' + (' + z3' if NF.STATS['z3_queries'] > q0 else '')
    o.nq = NF.STATS['z3_queries'] - q0
    o.time = time.time() - t0
    # numeric evaluation: vacuity of the precondition for proved obligations, counter-model for unproved ones
    try:
        kw = dict(samples=4 if ok else 40, budget=1.0 if ok else 12.0, seed=seed)
        if o.kind == 'zero': r, ni = NV.refute_eq(o.a, o.b, o.facts, **kw)
        else: r, ni = NV.refute_bool(o.a, o.facts, **kw)
    except TO: raise
    except Exception as e:
        r, ni = 'held', (0, repr(e))
    if r == 'held': o.samples = ni[0]
    if ok and r == 'refuted':
        o.status = 'inconsistent'; o.info = str(ni)
    elif ok: o.status = 'discharged'
    elif r == 'refuted': o.status = 'refuted'; o.info = 'counter-model %s' % (ni,)
    else:
        o.status = 'unknown'; o.info = fmt(info) + ' | samples %s' % (ni,)
    o.time = time.time() - t0


def discharge_inv(o, t0, q0, deep):
    """obligations over the arbitrary state of an inductive loop: z3 decides; a z3 model is the counter-example state"""
    import z3
    o.backend = 'z3'
    if o.a is TRUE: o.status = 'discharged'; return
    F = NF.Facts(o.facts)
    sol = F.solver()
    z = F.zc.b(o.a); F.flush()
    sol.set('timeout', 60000 if deep else 15000)
    sat0 = sol.check()
    sol.push(); sol.add(z3.Not(z))
    k = sol.check()
    o.nq = 2
    if k == z3.unsat: o.status = 'discharged'; o.samples = 1 if sat0 == z3.sat else 0
    elif k == z3.sat:
        m = sol.model()
        names = {}
        for f in [o.a] + list(o.facts):
            for x in walk(f):
                if x.op in ('rapp', 'iapp', 'bapp'):
                    v = F.zc.m.get(x)
                    if v is not None: names[pp(x)] = str(m.eval(v, model_completion=True))
        o.status = 'refuted'; o.info = 'counter-model of the loop state: ' + ', '.join('%s = %s' % kv for kv in sorted(names.items()))[:1500]
    else:
        ok, info = NF.prove_bool(o.a, o.facts, (), time.time() + PROVE_S)
        if ok: o.status = 'discharged'; o.backend = 'index-algebra normal form + z3'
        else: o.status = 'unknown'; o.info = fmt(info)
    o.time = time.time() - t0


def fmt(info):
    try:
        if info and info[0] == 'residual':
            p = info[1]
            return 'residual: ' + ' ; '.join('%s * %s %s' % (k, [pp(v[0]) + '^%s' % v[1] for v in m[0]] if False else str(m)[:600], '') for m, k in list(p.items())[:6])
        if info and info[0] == 'residual-bool': return 'not implied: ' + pp(info[1])[:600]
    except Exception as e:
        return repr(info)[:500]
    return repr(info)[:500]


def run_task(a):
    pid, name, seed, deep = a
    t0 = time.time()
    res = {'task': name, 'obls': [], 'error': None, 'used': [], 'contracts': [], 'loops': 0}
    spec = EXTRA['spec']
    try:
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(TASK_S * (3 if deep else 1)))
        ts = spec.TASKS[name](EXTRA['db'])
        ts = ts if isinstance(ts, list) else [ts]
        if len(ts) > 1: Task.LAST.snap = [(g, g.copy()) for g in GLOBALS]
        for t in ts:
            if len(ts) > 1: t.activate()
            res['fn'] = t.fn_
            res['used'] += ['%s (x%d)' % kv for kv in sorted(t.ex.used.items())]
            res['contracts'] += sorted(t.ex.contract_used)
            res['loops'] += len(t.ex.loops)
            seen = set()
            t0d = time.time()
            for o in t.obls:
                k = (o.kind, o.a, o.b, tuple(o.facts), o.name)
                if k in seen: continue
                seen.add(k)
                discharge(o, seed, deep)
                res['obls'].append({'name': o.name, 'fn': t.fn_, 'status': o.status, 'info': o.info, 'time': round(o.time, 3), 'backend': o.backend,
                                    'z3': o.nq, 'soft': o.soft, 'samples': o.samples})
    except TO:
        res['error'] = 'time limit'
    except SX.AllThrow:
        res['error'] = 'every path of the function under contract throws'
    except SX.Unsupported as e:
        res['error'] = 'outside the supported subset: %s' % e
        if os.environ.get('DEV'): res['tb'] = traceback.format_exc()
    except RecursionError as e:
        res['error'] = 'recursion limit'
    except Exception as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('DEV'): res['tb'] = traceback.format_exc()
    finally:
        signal.alarm(0)
    res['time'] = round(time.time() - t0, 2)
    return res


def worker(q, r):
    while True:
        a = q.get()
        if a is None: return
        r.put((a[1], run_task(a)))


def run_tasks(pid, names, seed, deep, nproc):
    """fork workers; a worker that dies loses only its task"""
    import threading
    sys.setrecursionlimit(60000)
    out = {}
    pend = list(names)
    procs = {}

    def launch(nm):
        rd, wr = mp.Pipe(False)
        def go():
            threading.stack_size(512 * 1024 * 1024)
            box = []
            # signals only reach the main thread: give the main thread a large stack via setrlimit instead
            import resource
            try: resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
            except Exception: pass
            x = run_task((pid, nm, seed, deep))
            wr.send(x); wr.close()
            os._exit(0)
        p = mp.Process(target=go)
        p.start(); wr.close()
        procs[nm] = (p, rd, time.time())
    lim = TASK_S * (3 if deep else 1) + 20
    while pend or procs:
        while pend and len(procs) < nproc: launch(pend.pop(0))
        time.sleep(0.02)
        for nm, (p, rd, t0) in list(procs.items()):
            if rd.poll():
                try: out[nm] = rd.recv()
                except EOFError: out[nm] = {'task': nm, 'obls': [], 'error': 'prover process died', 'used': [], 'contracts': [], 'loops': 0}
                p.join(5); del procs[nm]
            elif not p.is_alive() or time.time() - t0 > lim:
                if p.is_alive(): p.kill()
                p.join(5)
                out[nm] = {'task': nm, 'obls': [], 'error': 'prover process died or timed out', 'used': [], 'contracts': [], 'loops': 0}
                del procs[nm]
    return [out[n] for n in names]
