"""F01: probability of feasibility and surrogate constraints."""
from rvc.vc import *
from rvc.units import unit
from .surr import *

unit('normal law', NORMAL_FNS)(lambda: normal_law('F01'))

def pof(k, tol): return ite(lt(VAR(k), EPS), R(0), ncdf(div(sub(tol, MU(k)), sqrt(VAR(k)))))

@unit('single probability', ['ego::utils::cstr_pof::pof', 'ego::utils::cstr_pof::pof_grad'])
def single():
    v = normal(V('F01', 'pof')); nx = v.dim('nx'); x = v.arr('x', [nx], kind='vec'); tol = v.real('tol')
    m = model(v, Z0, nx, True)
    v.require(ge(VAR(Z0), R(0)))
    for p in v.call('pof', [x, m, tol], mod='ego::utils::cstr_pof'):
        with p:
            r = p.value
            p.ensure('normal probability to stay below the tolerance, 0 without variance', eq(r, pof(Z0, tol)))
            p.ensure('between 0 and 1', band(ge(r, R(0)), le(r, R(1))))
    for p in v.call('pof_grad', [x, m, tol], mod='ego::utils::cstr_pof'):
        with p:
            g = p.value; j = p.ix(nx)
            p.ensure('one component per coordinate', eq(g.dims[0], nx))
            d = diff(ncdf(div(sub(tol, MU(Z0)), sqrt(VAR(Z0)))), dleaf(j))
            p.ensure('derivative of the probability', eq(g.at(j), d), extra=[ge(VAR(Z0), EPS), gt(VAR(Z0), R(0))])
            p.ensure('zero without variance', eq(g.at(j), R(0)), extra=[lt(VAR(Z0), EPS)])
    mb = model(v, Z0, nx, False)
    for p in v.call('pof', [x, mb, tol], mod='ego::utils::cstr_pof'):
        with p: p.ensure('zero when the surrogate cannot predict', eq(p.value, R(0)))
    for p in v.call('pof_grad', [x, mb, tol], mod='ego::utils::cstr_pof'):
        with p:
            j = p.ix(nx); p.ensure('zero gradient when the surrogate cannot predict', eq(p.value.at(j), R(0)))
    v.vacuity()
    return v

@unit('joint probability', ['ego::utils::cstr_pof::pofs', 'ego::utils::cstr_pof::pofs_grad', 'ego::utils::cstr_pof::pof', 'ego::utils::cstr_pof::pof_grad'])
def joint():
    v = normal(V('F01', 'pofs')); nx = v.dim('nx'); q = v.dim('q'); x = v.arr('x', [nx], kind='vec'); tol = v.arr('tol', [q], kind='vec')
    ms = Arr([q], lambda k: model(v, k, nx, True), kind='vec')
    v.forall(lambda t: ge(VAR(t), R(0)))
    for p in v.call('pofs', [x, ms, tol], mod='ego::utils::cstr_pof'):
        with p:
            r = p.value; k = p.ix(q)
            spec = mkred('prod', q, lambda k: pof(k, tol.at(k)))
            p.ensure('product of the probabilities', eq(r, spec))
            for pg in v.call('pofs_grad', [x, ms, tol], mod='ego::utils::cstr_pof'):
                with pg:
                    g = pg.value; j = pg.ix(nx)
                    pg.ensure('one component per coordinate', eq(g.dims[0], nx))
                    term = lambda i: ite(lt(VAR(i), EPS), R(0), diff(ncdf(div(sub(tol.at(i), MU(i)), sqrt(VAR(i)))), dleaf(j)))
                    oth = lambda i: mkred('prod', q, lambda k: ite(eq(k, i), R(1), pof(k, tol.at(k))))
                    pg.ensure('product rule', eq(g.at(j), mkred('sum', q, lambda i: mul(term(i), oth(i)))), extra=[])
    v.vacuity()
    return v

# constraint functions given to the inner optimiser
UTB = 'ego::solver::solver_computations::EgorSolver::'
def cstr_case(fn, grad, ok_sigma=None):
    v = V('F01', fn); nx = v.dim('nx'); na = v.dim('na'); x = v.arr('x', [nx], kind='vec'); sc = v.real('scale')
    act = v.arr('active', [na], sort=IS, kind='vec')
    v.require(ge(VAR(Z0), R(0))); v.require(gt(sc, R(0)))
    v.forall(lambda t: band(ge(act.at(t), 0), lt(act.at(t), nx)))
    m = model(v, Z0, nx, True)
    val = div(MU(Z0), sc) if fn == 'mean_cstr' else div(add(MU(Z0), mul(R(3), sqrt(VAR(Z0)))), sc)
    g = v.cell(v.arr('g0', [na], kind='vec'))
    for p in v.call(fn, [m, x, SOME(g) if grad else NONE(), sc, act], owner='EgorSolver', mod='ego::solver::solver_computations'):
        with p:
            p.ensure('mean of the constraint over its scale' if fn == 'mean_cstr' else 'upper trust bound of the constraint over its scale', eq(p.value, val))
            if grad:
                gr = p.get(g); k = p.ix(na)
                p.ensure('one component per active coordinate', eq(gr.dims[0], na))
                d = diff(val, dleaf(act.at(k)))
                extra = [] if fn == 'mean_cstr' else [ge(sqrt(VAR(Z0)), EPS)]
                p.ensure('derivative with respect to the active coordinate', eq(gr.at(k), d), extra=extra)
    v.vacuity()
    return v
for _f in ('mean_cstr', 'upper_trust_bound_cstr'):
    for _g in (True, False):
        unit(f'{_f} {"with" if _g else "without"} gradient', [UTB + _f])(lambda f=_f, g=_g: cstr_case(f, g))
