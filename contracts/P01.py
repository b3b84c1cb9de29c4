"""P01: resumed runs."""
from rvc.vc import *
from rvc.units import unit
from .ego import *
LEVEL = 'other'
H = 'ego::utils::hot_start'

@unit('extended budget', [MS + '::EgorState::extend_max_iters', MS + '::EgorState::get_max_iters'])
def extend():
    v = V('P01', 'extend'); s = EgoState(v); S = v.cell(s.st)
    e = v.int('ext'); v.require(ge(e, 0))
    for p in v.call('extend_max_iters', [S, e], owner='EgorState', mod=MS):
        with p:
            t = p.get(S)
            p.ensure('the budget is extended by the requested amount', eq(t.f['max_iters'], add(s.maxit, e)))
            unchanged(p, s, t)
    v.vacuity()
    return v

def unchanged(p, s, t, say='the recorded state is unchanged'):
    p.ensure(say, band(eq(t.f['iter'], s.it), eq(t.f['sigma'], s.sigma), eq(t.f['last_best_iter'], s.lbi), eq(t.f['added'], s.added), eq(t.f['prev_added'], s.padded), eq(t.f['doe_size'], s.doe),
                       eq(t.f['prev_step_ego'], s.ego), eq(t.f['feasibility'], s.feas), eq(t.f['target_cost'], s.target), eq(t.f['infill_value'], s.infill), eq(deref(t.f['best_index']).ps[0], s.best), eq(deref(t.f['prev_best_index']).ps[0], s.prev)))
    with p:
        i, j = p.ix(s.n), p.ix(s.nx); x, y, c = [deref(q) for q in deref(deref(t.f['data']).ps[0]).es]
        p.ensure('the recorded inputs are unchanged', eq(x.at(i, j), s.x.at(i, j)))
        k = p.ix(s.ny); p.ensure('the recorded outputs are unchanged', eq(y.at(i, k), s.y.at(i, k)))

@unit('resumed state', [H + '::HotStartCheckpoint::load', H + '::HotStartCheckpoint::new', MS + '::EgorState::extend_max_iters'])
def load():
    """reading the file gives back what was written (serde round trip, replayed); the state then continues with the requested budget"""
    v = V('P01', 'load'); s = EgoState(v); e = v.int('ext'); v.require(ge(e, 1)); ex = v.bool('exists')
    path = Opq('path', methods={'exists': lambda ip, me, a: ex})
    dir_ = Opq('dir', methods={'join': lambda ip, me, a: path})
    solver = Opq('solver')
    v.ip.specs['fs::read'] = v.ip.specs['std::fs::read'] = lambda ip, a, e: OK(Opq('bytes'))
    v.ip.specs['serde_json::from_slice'] = lambda ip, a, e: OK(Tup([solver, s.st]))
    for mode, add_ in ((En('Disabled'), I(0)), (En('Enabled'), I(0)), (En('ExtendedIters', [e]), e)):
        me = St('HotStartCheckpoint', {'mode': mode, 'frequency': Opq('freq'), 'directory': dir_, 'filename': Opq('filename')})
        for p in v.call('load', [me], owner='HotStartCheckpoint', mod=H):
            with p:
                r = deref(p.value); o = deref(r.ps[0])
                p.ensure('no error', z3.BoolVal(r.var == 'Ok'))
                if o.var == 'None': p.ensure('nothing is resumed only without a checkpoint', bnot(ex)); continue
                p.ensure('a checkpoint is used when there is one', ex)
                t = deref(deref(o.ps[0]).es[1])
                p.ensure('the budget is extended by the requested amount', eq(t.f['max_iters'], add(s.maxit, add_)))
                unchanged(p, s, t)
    v.vacuity()
    return v
