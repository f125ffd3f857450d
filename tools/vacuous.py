"""Lists obligations whose hypotheses contradict each other (they would hold of any code)."""
import os, sys, time, resource, threading
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R + '/engine', R + '/specs']
sys.setrecursionlimit(60000)


def main():
    import driver as DR
    from spec import NF, TRUE, FALSE
    for pid in sys.argv[1:]:
        sp = DR.load_spec(pid)
        db = DR.FE.build_db(sp.UNITS, extra=getattr(sp, 'FLAGS', ()))
        for name, fn in sp.TASKS.items():
            r = fn(db)
            for q in (r if isinstance(r, list) else [r]):
                if hasattr(q, 'activate'): q.activate()
                seen = {}
                for o in q.obls:
                    k = tuple(o.facts)
                    if k not in seen:
                        try: seen[k] = NF.prove_bool(FALSE, list(o.facts), (), time.time() + 3)
                        except Exception as e: seen[k] = (None, repr(e)[:80])
                    v = seen[k]
                    if (v[0] if isinstance(v, tuple) else v) is True: print(pid, name, '|', q.fn_, '|', o.name, flush=True)
        print(pid, 'done', flush=True)


threading.stack_size(512 << 20)
th = threading.Thread(target=main); th.start(); th.join()
