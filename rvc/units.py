"""Registry of verification units and their process-parallel execution."""
import os, sys, time, traceback, multiprocessing as mp

UNITS = []     # (name, function, [functions under contract], timeout)

def unit(name, fns=(), timeout=240, tier='quick'):
    def deco(f):
        UNITS.append((name, f, list(fns), timeout, tier))
        return f
    return deco

def _run(f, conn):
    from . import terms as T
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = {}
    def go():
        from .vc import Lost
        from .terms import Unsupported
        t = time.time()
        try:
            vs = f()
            vs = vs if isinstance(vs, (list, tuple)) else [vs]
            out['results'] = [r for v in vs for r in v.results]
            out['assumptions'] = sorted({a for v in vs for a in v.assumptions})
            out['trusted'] = sorted({a for v in vs for a in v.ip.calls})
            out['inlined'] = sorted({f'{q} ({w[0].split("/crates/")[-1]}:{w[1]}-{w[2]})' for v in vs for q, w in v.ip.used.items()})
            out['invariants'] = sorted({a for v in vs for a in getattr(v.ip, 'inv_used', [])})
            out['status'] = 'done'
        except Lost as e: out.update(status='lost', detail=str(e), results=[])
        except Unsupported as e: out.update(status='unsupported', detail=str(e)[:400], results=[], tb=short_tb())
        except RecursionError as e: out.update(status='unsupported', detail='recursion', results=[])
        except Exception as e: out.update(status='error', detail=f'{type(e).__name__}: {str(e)[:300]}', results=[], tb=short_tb())
        out['time'] = time.time() - t
        out['queries'] = T.STATS['queries']; out['solver_s'] = T.STATS['time']
    th = threading.Thread(target=go); th.start(); th.join()
    conn.send(out); conn.close()

def short_tb():
    return ' | '.join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in traceback.extract_tb(sys.exc_info()[2])[-6:])

def run_units(units, jobs=8, scale=1.0, budget=None):
    """run every unit in its own process; returns name -> outcome"""
    ctx = mp.get_context('fork')
    todo = list(units); live = {}; res = {}
    start = time.time()
    while todo or live:
        while todo and len(live) < jobs:
            name, f, fns, to, tier = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_run, args=(f, b)); p.start(); b.close()
            live[name] = (p, a, time.time(), to * scale)
        for name in list(live):
            p, a, t0, to = live[name]
            over = budget is not None and time.time() - start > budget
            try:
                if a.poll(0):
                    res[name] = a.recv(); p.join(); del live[name]; continue
            except EOFError:
                res[name] = dict(status='error', detail='unit process died', results=[], time=time.time() - t0, queries=0, solver_s=0); p.join(); del live[name]; continue
            if time.time() - t0 > to or over:
                p.kill(); p.join()
                res[name] = dict(status='timeout', detail=f'{to:.0f}s', results=[], time=time.time() - t0, queries=0, solver_s=0); del live[name]
        time.sleep(0.02)
    return res
