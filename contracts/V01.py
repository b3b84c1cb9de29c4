"""V01: configurations."""
from rvc.vc import *
from rvc.units import unit
LEVEL = 'other'
I = z3.IntVal
M = 'ego::solver::egor_config'
GP = ['regression_spec', 'correlation_spec', 'kpls_dim', 'n_clusters', 'recombination', 'theta_tuning', 'n_start', 'max_eval']
TOP = ['max_iters', 'n_start', 'n_doe', 'n_cstr', 'cstr_tol', 'doe', 'q_ei', 'q_optmod', 'q_points', 'gp', 'infill_criterion', 'infill_optimizer', 'target', 'outdir',
       'warm_start', 'hot_start', 'xtypes', 'seed', 'trego', 'coego', 'cstr_infill', 'cstr_strategy']
# setter -> (field, how the argument is stored)
SET = {'infill_criterion': ('infill_criterion', None), 'max_iters': ('max_iters', None), 'n_start': ('n_start', None), 'n_doe': ('n_doe', None), 'n_cstr': ('n_cstr', None),
       'cstr_tol': ('cstr_tol', SOME), 'doe': ('doe', SOME), 'qei_strategy': ('q_ei', None), 'q_optmod': ('q_optmod', None), 'q_points': ('q_points', None),
       'infill_optimizer': ('infill_optimizer', None), 'target': ('target', None), 'outdir': ('outdir', SOME), 'warm_start': ('warm_start', None), 'hot_start': ('hot_start', None),
       'seed': ('seed', SOME), 'xtypes': ('xtypes', None), 'cstr_infill': ('cstr_infill', None), 'cstr_strategy': ('cstr_strategy', None)}
UNSET = {'default_doe': 'doe', 'no_outdir': 'outdir'}

def same(a, b):
    """the same value, as a formula"""
    a, b = deref(a), deref(b)
    if a is b: return z3.BoolVal(True)
    if isinstance(a, En) and isinstance(b, En):
        if a.var != b.var or len(a.ps) != len(b.ps): return z3.BoolVal(False)
        return band(*[same(x, y) for x, y in zip(a.ps, b.ps)]) if a.ps else z3.BoolVal(True)
    if isinstance(a, St) and isinstance(b, St) and a.name == b.name: return band(*[same(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Opq) and isinstance(b, Opq): return z3.BoolVal(a.name == b.name)
    if isinstance(a, (z3.ExprRef, int, bool)) and isinstance(b, (z3.ExprRef, int, bool)): return eq(a, b)
    raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

def gpc(v): return St('GpConfig', {f: Opq('old gp ' + f) for f in GP})
def top(v):
    f = {k: Opq('old ' + k) for k in TOP}
    f['gp'] = gpc(v)
    f['trego'] = St('TregoConfig', {k: Opq('old trego ' + k) for k in ('activated', 'n_local_steps', 'd', 'alpha', 'beta', 'gamma', 'sigma0')})
    f['coego'] = St('CoegoConfig', {k: Opq('old coego ' + k) for k in ('activated', 'n_coop')})
    return St('ValidEgorConfig', f)
def frame(p, name, new, old, but=()):
    for k in old.f:
        if k not in but: p.ensure(f'{name}: {k} unchanged', same(new.f[k], old.f[k]))
def copy(s): return St(s.name, {k: copy(x) if isinstance(x, St) else x for k, x in s.f.items()})

@unit('settings', [M + '::EgorConfig::' + s for s in list(SET) + list(UNSET)])
def setters():
    v = V('V01', 'setters'); old = top(v)
    for nm, (fld, how) in SET.items():
        a = Opq('new ' + nm)
        for p in v.call(nm, [St('EgorConfig', {'0': copy(old)}), a], owner='EgorConfig', mod=M):
            new = deref(deref(p.value).f['0'])
            p.ensure(f'{nm} reaches the configuration as given', same(new.f[fld], how(a) if how else a)); frame(p, nm, new, old, (fld,))
    for nm, fld in UNSET.items():
        for p in v.call(nm, [St('EgorConfig', {'0': copy(old)})], owner='EgorConfig', mod=M):
            new = deref(deref(p.value).f['0'])
            p.ensure(f'{nm} clears it', same(new.f[fld], NONE())); frame(p, nm, new, old, (fld,))
    return v

@unit('modes', [M + '::EgorConfig::' + s for s in ('infill_strategy', 'configure_gp', 'trego', 'coego')])
def modes():
    v = V('V01', 'modes'); old = top(v); cfg = lambda: St('EgorConfig', {'0': copy(old)})
    for s, c in (('EI', 'EI'), ('LogEI', 'LOG_EI'), ('WB2', 'WB2'), ('WB2S', 'WB2S')):
        for p in v.call('infill_strategy', [cfg(), En(s)], owner='EgorConfig', mod=M):
            new = deref(deref(p.value).f['0']); got = deref(new.f['infill_criterion'])
            want = {'EI': 'ExpectedImprovement', 'LogEI': 'LogExpectedImprovement', 'WB2': 'WB2Criterion', 'WB2S': 'WB2Criterion'}[s]
            p.ensure(f'strategy {s} selects its criterion', z3.BoolVal(isinstance(got, St) and got.name == want))
            if isinstance(got, St) and got.name == 'WB2Criterion':
                sc = deref(list(got.f.values())[0])
                p.ensure(f'strategy {s} is scaled on demand only', z3.BoolVal(isinstance(sc, En) and sc.var == ('Some' if s == 'WB2' else 'None')))
            frame(p, s, new, old, ('infill_criterion',))
    b = v.bool('b')
    for p in v.call('trego', [cfg(), b], owner='EgorConfig', mod=M):
        new = deref(deref(p.value).f['0'])
        p.ensure('trust-region mode as given', same(new.f['trego'].f['activated'], b)); frame(p, 'trego', new.f['trego'], old.f['trego'], ('activated',)); frame(p, 'trego', new, old, ('trego',))
    n = v.int('n'); v.require(ge(n, 0))
    for st, on in ((En('Disabled'), False), (En('Enabled', [n]), True)):
        for p in v.call('coego', [cfg(), st], owner='EgorConfig', mod=M):
            new = deref(deref(p.value).f['0'])
            p.ensure('cooperative mode as given', same(new.f['coego'].f['activated'], z3.BoolVal(on)))
            if on: p.ensure('number of cooperative components as given', eq(new.f['coego'].f['n_coop'], n))
            frame(p, 'coego', new, old, ('coego',))
    return v

@unit('surrogate settings', [M + '::GpConfig::' + s for s in GP + ['kpls', 'no_kpls']])
def gp():
    v = V('V01', 'gp'); old = gpc(v)
    for nm in GP + ['kpls', 'no_kpls']:
        fld = 'kpls_dim' if 'kpls' in nm else nm
        a = Opq('new ' + nm)
        for p in v.call(nm, [copy(old)] + ([] if nm == 'no_kpls' else [a]), owner='GpConfig', mod=M):
            new = deref(p.value)
            p.ensure(f'{nm} reaches the configuration as given', same(new.f[fld], NONE() if nm == 'no_kpls' else SOME(a) if nm == 'kpls' else a)); frame(p, nm, new, old, (fld,))
    return v

@unit('validation', [M + '::EgorConfig::check'])
def check():
    v = V('V01', 'check')
    nc, nt, kd = v.int('n_cstr'), v.dim('n_tol', 0), v.int('kpls'); v.require(ge(nc, 0)); v.require(ge(kd, 1))
    co = v.bool('coego')
    for tol in (NONE(), SOME(v.arr('tol', [nt]))):
        for kp in (NONE(), SOME(kd)):
            old = top(v); old.f.update({'n_cstr': nc, 'cstr_tol': tol}); old.f['gp'].f['kpls_dim'] = kp; old.f['coego'].f['activated'] = co
            bad = bor(band(gt(nc, 0), bnot(eq(nt, nc))) if tol.var == 'Some' else z3.BoolVal(False), co if kp.var == 'Some' else z3.BoolVal(False))
            for p in v.call('check', [St('EgorConfig', {'0': copy(old)})], owner='EgorConfig', mod=M):
                r = deref(p.value)
                if r.var == 'Ok':
                    p.ensure('an inconsistent configuration is rejected', bnot(bad)); frame(p, 'accepted', deref(r.ps[0]), old, ('cstr_tol',))
                    t = deref(deref(r.ps[0]).f['cstr_tol'])
                    p.ensure('accepted: tolerances given or not', z3.BoolVal(t.var == tol.var))
                    if t.var == tol.var == 'Some':
                        with p:
                            k = p.ix(nt); p.ensure('accepted: tolerances unchanged', band(eq(deref(t.ps[0]).dims[0], nt), eq(deref(t.ps[0]).at(k), deref(tol.ps[0]).at(k))))
                else: p.ensure('every consistent configuration is accepted', bad)
    v.vacuity()
    return v

@unit('checkpoint modes', ['ego::utils::hot_start::HotStartMode::from'])
def hot():
    v = V('V01', 'hot'); n = v.int('n'); v.require(ge(n, 0))
    for p in v.call('from', [NONE()], owner='HotStartMode', mod='ego::utils::hot_start'):
        p.ensure('none disables checkpoints', z3.BoolVal(deref(p.value).var == 'Disabled'))
    for p in v.call('from', [SOME(n)], owner='HotStartMode', mod='ego::utils::hot_start'):
        r = deref(p.value)
        p.ensure('zero enables checkpoints', implies(eq(n, 0), z3.BoolVal(r.var == 'Enabled')))
        p.ensure('another number extends the run by it', implies(bnot(eq(n, 0)), band(z3.BoolVal(r.var == 'ExtendedIters'), eq(r.ps[0], n)) if r.ps else z3.BoolVal(False)))
    v.vacuity()
    return v
