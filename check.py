#!/usr/bin/env python3-vt
"""Decide one property: verify its contracts on /repo's current source, replay on the real code."""
import importlib, json, os, subprocess, sys, threading, time, hashlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get('RVC_REPO', '/repo')
FRONT = os.path.join(ROOT, 'target/frontend/debug/rvc-frontend')

def build_frontend():
    src = os.path.join(ROOT, 'frontend/src/main.rs')
    if os.path.exists(FRONT) and os.path.getmtime(FRONT) >= os.path.getmtime(src): return
    subprocess.run(['cargo', 'build', '--offline', '-q', '--target-dir', os.path.join(ROOT, 'target/frontend')], cwd=os.path.join(ROOT, 'frontend'), check=True, env=dict(os.environ, CARGO_NET_OFFLINE='true'))

def known_findings(pid):
    """lines `finding: property=<id> key=<key> <text>`"""
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith(f'finding: property={pid} key='):
                rest = l.split('key=', 1)[1].strip()
                k, _, txt = rest.partition(' ')
                out[k] = txt
    return out

def replay(pid, tier, seed, box):
    sys.path.insert(0, os.path.join(ROOT, 'replay'))
    try:
        import driver
        box['r'] = driver.run(pid, tier, seed, REPO, ROOT)
    except Exception as e:
        box['r'] = {'status': 'error', 'detail': f'{type(e).__name__}: {e}'[:500], 'fails': [], 'evaluations': 0}

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick') if len(sys.argv) < 3 else sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True); os.makedirs(os.path.join(ROOT, 'work'), exist_ok=True)
    build_frontend()
    from rvc import units as U
    box = {}
    th = threading.Thread(target=replay, args=(pid, tier, seed, box), daemon=True); th.start()
    U.UNITS.clear()
    front_err = None
    try:
        from rvc import vc
        vc.load()
        mod = importlib.import_module('contracts.' + pid)
    except ModuleNotFoundError as e:
        if e.name and e.name.startswith('contracts'): mod = None
        else: raise
    except Exception as e:
        mod = None; front_err = f'{type(e).__name__}: {e}'[:300]
    units = [u for u in U.UNITS if tier == 'thorough' or u[4] == 'quick']
    res = U.run_units(units, jobs=6, scale=1.0 if tier == 'quick' else 3.0, budget=420 if tier == 'quick' else 800)
    # undecided obligations get a second, longer try
    th.join(timeout=max(30, (840 if tier == 'quick' else 3000) - (time.time() - t0)))
    rep = box.get('r') or {'status': 'timeout', 'detail': 'replay did not finish', 'fails': [], 'evaluations': 0}
    obls = dis = 0; failed = []; undecided = []; backends = {}; samples = []; solver = 0.0; queries = 0
    trusted = set(); inl = set(); invs = set(); assum = set()
    for name, f, fns, to, ti in units:
        r = res[name]
        solver += r.get('solver_s', 0); queries += r.get('queries', 0)
        trusted |= set(r.get('trusted', [])); inl |= set(r.get('inlined', [])); invs |= set(r.get('invariants', [])); assum |= set(r.get('assumptions', []))
        if r['status'] != 'done': undecided.append({'unit': name, 'status': r['status'], 'detail': r.get('detail', ''), 'at': r.get('tb', '')})
        elif not r['results']: undecided.append({'unit': name, 'status': 'vacuous', 'detail': 'no obligation generated'})
        for (on, st, be, tt, det) in r['results']:
            obls += 1
            if st == 'proved':
                dis += 1; backends[be] = backends.get(be, 0) + 1
                if len(samples) < 6: samples.append({'unit': name, 'obligation': on, 'backend': be, 's': round(tt, 3)})
            elif st == 'refuted': failed.append({'unit': name, 'obligation': on, 'backend': be, 'model': det})
            else: undecided.append({'unit': name, 'obligation': on, 'status': st, 'detail': str(det)[:200]})
    fns = sorted({x for u in units for x in u[2]} | inl)
    kf = known_findings(pid)
    viol = []; known = []
    for f in rep.get('fails', []):
        (known if f['key'] in kf else viol).append(f)
    fail_new = []
    for f in failed:
        k = 'obligation:' + f['unit'] + ':' + f['obligation'].replace(' ', '_')
        (known if k in kf else fail_new).append(dict(f, key=k))
    for k in sorted({f['key'] for f in known}): print(f'KNOWN-FINDING: property={pid} {k} {kf[k]}')
    mech = getattr(mod, 'LEVEL', 'proof') if mod else 'exploration'
    if mech == 'proof' and (undecided or dis < obls or not obls): level = 'other'
    else: level = mech
    cov = {
        'obligations': obls, 'discharged': dis,
        'checker_cmd': f'python3-vt check.py {pid} (VC generator rvc over the syn AST of the current /repo sources; z3 {z3v()}, cvc5 1.1.2, polynomial normal form)',
        'trusted_base': sorted(trusted) + getattr(mod, 'TRUSTED', []) + ['rvc VC generator and its contracts for std/ndarray/rand operations (rvc/builtins_.py)', 'syn 2 parser', 'z3', 'cvc5'],
        'backends': backends, 'solver_s': round(solver, 2), 'solver_queries': queries,
        'functions_under_contract': fns, 'loop_invariants_discharged': sorted(invs),
        'units': {n: {'status': res[n]['status'], 'obligations': len(res[n]['results']), 's': round(res[n].get('time', 0), 1)} for n, *_ in units},
        'undecided': undecided, 'failed': failed, 'samples': samples + rep.get('samples', [])[:3],
        'evaluations': rep.get('evaluations', 0), 'distinct_nontrivial': rep.get('distinct', 0),
        'rule': 'bounded replay of the contracts on the compiled code, never counted as proved: ' + rep.get('rule', 'probes of replay/src'),
        'bounded': {'status': rep.get('status'), 'detail': rep.get('detail', ''), 'probes': rep.get('probes', {})},
        'explanation': 'obligations generated from the current source and discharged for all inputs; units listed under undecided fall back to the bounded replay',
    }
    if front_err: cov['front_end_error'] = front_err
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assum) + GENERAL, 'wall_s': round(time.time() - t0, 1), 'violations': len(viol) + len(fail_new)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print(f'{pid}: {dis}/{obls} obligations discharged, {len(undecided)} undecided, replay {rep.get("status")} {rep.get("evaluations", 0)} evaluations (build {rep.get("build_s")}s), {time.time()-t0:.0f}s')
    for u in undecided[:12]: print('  undecided', json.dumps(u)[:400])
    for u in failed[:12]: print('  FAILED', json.dumps(u)[:600])
    if viol or fail_new:
        rp = os.path.join(ROOT, 'work', f'violation-{pid}.json')
        json.dump({'property': pid, 'seed': seed, 'failing_inputs': viol[:20], 'failed_obligations': fail_new, 'rerun': f'/verif/check.py {pid}', 'verifier': undecided}, open(rp, 'w'), indent=1, default=str)
        for f in viol[:5]: print('  INPUT', json.dumps(f, default=str)[:600])
        print(f'VIOLATION property={pid} replay={rp}' + ('' if viol else ' no-failing-input-found'))
        sys.stdout.flush(); os._exit(1)
    if rep.get('status') not in ('ok',): print(f'  note: replay {rep.get("status")}: {rep.get("detail","")[:600]}')
    sys.stdout.flush(); os._exit(0)

def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception: return '?'

GENERAL = [
    'floating-point arithmetic is treated as exact real arithmetic in proved obligations (NaN, infinities and rounding are covered only by the bounded replay)',
    'machine integers are treated as mathematical integers; usize subtraction below zero is not an obligation unless stated',
    'functions outside the listed ones are used through the contracts named under trusted_base',
]

if __name__ == '__main__': main()
