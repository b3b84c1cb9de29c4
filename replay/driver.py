"""Builds the replay program against /repo's current tree and runs the probes of one property."""
import json, os, subprocess, time

def level(pid):
    return {'D': None, 'K': 'gp', 'N': 'gp', 'G': 'gp', 'L': 'gp', 'Q': 'moe', 'X': 'moe'}.get(pid[0], 'ego')

def build(repo, root, log, pid='S01'):
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=os.path.join(root, 'target/replay'))
    d = os.path.join(root, 'replay')
    lv = [level(pid)] if level(pid) else []
    for feats in (['--features', ','.join(['hooks', *lv])], ['--features', ','.join(lv)] if lv else []):
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '-q', *feats], cwd=d, env=env, capture_output=True, text=True)
        log.append(p.stderr[-1500:])
        if p.returncode == 0: return 'hooks' in ' '.join(feats)
    return None

def run(pid, tier, seed, repo, root):
    log = []
    t = time.time()
    h = build(repo, root, log, pid)
    bt = time.time() - t
    if h is None: return {'status': 'build-failed', 'detail': log[-1], 'fails': [], 'evaluations': 0}
    exe = os.path.join(root, 'target/replay/release/vp-replay')
    scratch = os.path.join(root, 'work', f'scratch-{pid}-{os.getpid()}')
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run([exe, pid, str(seed), tier], capture_output=True, text=True, timeout=300 if tier == 'quick' else 1500, cwd=scratch, env=dict(os.environ, RAYON_NUM_THREADS='4', EGOBOX_LOG='off'))
        out = p.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        p = None
    finally:
        subprocess.run(['rm', '-rf', scratch])
    fails = []; summ = None
    for l in out.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if 'fail' in j: fails.append(j['fail'])
        if 'summary' in j: summ = j['summary']
    r = {'status': 'ok' if summ else 'no-summary', 'detail': '' if summ else (f'exit {p.returncode} {p.stderr[-400:]}' if p else 'timeout'), 'fails': fails,
         'evaluations': summ['evaluations'] if summ else 0, 'distinct': summ['distinct'] if summ else 0, 'probes': summ['probes'] if summ else {},
         'samples': summ['samples'] if summ else [], 'rule': 'generated inputs per probe; distinct counts different inputs', 'build_s': f'{bt:.1f}'}
    if h is False: r['detail'] = 'hooks did not build, probes of private items skipped: ' + log[0][-600:]
    return r
