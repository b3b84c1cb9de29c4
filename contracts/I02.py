"""I02: gradients of the infill criteria."""
from rvc.vc import *
from rvc.units import unit, UNITS
from .surr import *
from . import I01 as _I
UNITS[:] = [u for u in UNITS if u[1].__module__ != 'contracts.I01']
from .I01 import u_of, ei_, h, LIM, tail_lemmas, setup, EI_FNS, WB_FNS

T.DERIV['hlog'] = lambda u: uf('hlog_d', u)
unit('normal law', NORMAL_FNS)(lambda: normal_law('I02'))

def vecs(v, p, nx, g, spec, extra, name):
    j = p.ix(nx)
    p.ensure('one component per coordinate', eq(deref(g).dims[0], nx))
    p.ensure(name, eq(deref(g).at(j), diff(spec, dleaf(j))), extra=extra)

@unit('gradient of the expected improvement', EI_FNS)
def ei_grad():
    v, nx, x, fmin = setup('I02', 'ei'); k = v.real('k'); v.require(gt(k, R(0)))
    v.assume(MATH)
    for w, wv in ((NONE(), R(1)), (SOME(k), k)):
        u, s = u_of(fmin, wv)
        spec = mul(s, add(mul(u, ncdf(u)), npdf(u)))
        for p in v.call('value', [St('ExpectedImprovement', {}), x, model(v, Z0, nx), fmin, w, NONE()], owner='ExpectedImprovement', mod='ego::criteria::ei'):
            with p: p.ensure('value being differentiated', eq(p.value, spec), extra=[ge(VAR(Z0), EPS)])
        for p in v.call('grad', [St('ExpectedImprovement', {}), x, model(v, Z0, nx), fmin, w, NONE()], owner='ExpectedImprovement', mod='ego::criteria::ei'):
            with p:
                g = deref(p.value); fg = Arr(g.dims, lambda j: fold_phi(g.at(j), u))
                vecs(v, p, nx, fg, spec, [ge(VAR(Z0), EPS), gt(sqrt(VAR(Z0)), R(0)), phi_def(u)], 'derivative of the expected improvement')
                j = p.ix(nx); p.ensure('zero where the variance vanishes', eq(p.value.at(j), R(0)), extra=[lt(VAR(Z0), EPS)])
    for p in v.call('grad', [St('ExpectedImprovement', {}), x, model(v, Z0, nx, ok=False), fmin, NONE(), NONE()], owner='ExpectedImprovement', mod='ego::criteria::ei'):
        with p:
            j = p.ix(nx); p.ensure('zero when the surrogate cannot predict', eq(p.value.at(j), R(0)))
    v.vacuity()
    return v

@unit('derivative of the log improvement helper', ['ego::utils::logei_helper::d_log_ei_helper'])
def dhelper():
    v = normal(V('I02', 'dhelper')); u = v.real('u'); v.assume(MATH)
    v.ip.summaries['log_ei_helper'] = lambda ip, a: h(a[0])      # property I01, unit "log improvement helper"
    lem, w = tail_lemmas(u)
    den = add(npdf(u), mul(u, ncdf(u)))
    d = div(ncdf(u), den)
    el = implies(gt(den, R(0)), eq(exp(ln(den)), den))
    for p in v.call('d_log_ei_helper', [u], mod='ego::utils::logei_helper'):
        with p:
            p.ensure('the denominator is positive', gt(den, R(0)))
            p.ensure('derivative of the helper', eq(mul(p.value, den), ncdf(u)), extra=[gt(u, R(-1)), el, gt(den, R(0))])
            e2 = exp(mul(z3.Q(1, 2), mul(u, u))); pi = sqrt(z3.Const('PI', RS))
            tail = lem + [gt(u, LIM), le(u, R(-1)), gt(den, R(0))]
            rules = [(exp(w), div(mul(neg(u), ncdf(u)), npdf(u))), (e2, div(R(1), mul(C1, npdf(u)))), (pi, div(C1, sqrt(R(2)))), (absr(u), neg(u))]
            p.ensure('exponential of half the square', eq(e2, rules[1][1]), extra=tail)
            p.ensure('ratio of the tail', eq(rules[0][0], rules[0][1]), extra=tail)
            p.ensure('square root of pi', eq(pi, rules[2][1]), extra=tail)
            g = canon(lift(p.value))
            for x, y in rules: g = z3.substitute(g, (canon(x), y))
            p.ensure('derivative of the helper in the tail', eq(mul(g, den), ncdf(u)), extra=[gt(u, LIM), le(u, R(-1)), gt(den, R(0)), gt(npdf(u), R(0)), gt(ncdf(u), R(0)), gt(C1, R(0))])
            p.ensure('derivative of the asymptotic form', eq(p.value, sub(neg(u), div(R(2), u))), extra=[le(u, LIM)])
    v.vacuity()
    return v

@unit('gradient of the log expected improvement', ['ego::criteria::ei::LogExpectedImprovement::grad', 'ego::criteria::ei::LogExpectedImprovement::value'])
def logei_grad():
    v, nx, x, fmin = setup('I02', 'logei'); _I.logei(v)
    u, s = u_of(fmin)
    spec = add(uf('hlog', u), ln(s))
    for p in v.call('value', [St('LogExpectedImprovement', {}), x, model(v, Z0, nx), fmin, NONE(), NONE()], owner='LogExpectedImprovement', mod='ego::criteria::ei'):
        with p: p.ensure('value being differentiated', eq(p.value, spec), extra=[ge(VAR(Z0), EPS)])
    for p in v.call('grad', [St('LogExpectedImprovement', {}), x, model(v, Z0, nx), fmin, NONE(), NONE()], owner='LogExpectedImprovement', mod='ego::criteria::ei'):
        with p:
            vecs(v, p, nx, p.value, spec, [ge(VAR(Z0), EPS), gt(sqrt(VAR(Z0)), R(0))], 'derivative of the log expected improvement')
            j = p.ix(nx); p.ensure('constant where the variance vanishes', eq(p.value.at(j), neg(z3.Const('F64_MAX', RS))), extra=[lt(VAR(Z0), EPS)])
    v.vacuity()
    return v

@unit('gradient of the scaled criterion', WB_FNS)
def wb_grad():
    v, nx, x, fmin = setup('I02', 'wb2'); k, sc, s0 = v.real('k'), v.real('sc'), v.real('s0'); v.require(gt(k, R(0)))
    E = z3.Const('ei_val', RS); DE = lambda j: z3.Function('ei_d', IS, RS)(j)      # expected improvement at the point and its derivatives (unit above)
    v.ip.summaries['ego::criteria::ei::ExpectedImprovement::value'] = lambda ip, a: E
    v.ip.summaries['ego::criteria::ei::ExpectedImprovement::grad'] = lambda ip, a: Arr([nx], lambda j: DE(j))
    for own, given, spec in ((NONE(), NONE(), R(1)), (SOME(s0), NONE(), s0), (NONE(), SOME(sc), sc), (SOME(s0), SOME(sc), sc)):
        me = St('WB2Criterion', {'0': own})
        for p in v.call('value', [me, x, model(v, Z0, nx), fmin, SOME(k), given], owner='WB2Criterion', mod='ego::criteria::wb2'):
            with p: p.ensure('value being differentiated', eq(p.value, sub(mul(spec, E), MU(Z0))))
        for p in v.call('grad', [me, x, model(v, Z0, nx), fmin, SOME(k), given], owner='WB2Criterion', mod='ego::criteria::wb2'):
            with p:
                j = p.ix(nx)
                p.ensure('one component per coordinate', eq(p.value.dims[0], nx))
                p.ensure('derivative of the criterion', eq(p.value.at(j), sub(mul(spec, DE(j)), DMU(Z0, j))))
    v.vacuity()
    return v

# infill objective built on an arbitrary criterion IC with derivative DIC, joint probability PF with derivative DPF
IC = z3.Const('crit', RS); DIC = lambda j: z3.Function('crit_d', IS, RS)(j)
PF = z3.Const('pf', RS); DPF = lambda j: z3.Function('pf_d', IS, RS)(j)
LPF = z3.Const('lpf', RS); DLPF = lambda j: z3.Function('lpf_d', IS, RS)(j)
def oleaf(j):
    def leaf(t):
        for c, d in ((IC, DIC), (PF, DPF), (LPF, DLPF)):
            if t.eq(c): return d(j)
    return leaf
OBJ = 'ego::solver::solver_computations::EgorSolver::'

def objective(log, feas):
    v = V('I02', 'objective'); nx, q = v.dim('nx'), v.dim('q', 0); x = v.arr('x', [nx], kind='vec'); tol = v.arr('tol', [q])
    fmin, sc, sic, w = v.real('fmin'), v.real('scale'), v.real('sic'), v.real('w'); v.require(gt(sc, R(0)))
    crit = Opq('criterion', methods={'name': lambda ip, me, a: 'LogEI' if log else 'EI', 'value': lambda ip, me, a: IC, 'grad': lambda ip, me, a: Arr([nx], lambda j: DIC(j))})
    me = St('EgorSolver', {'config': St('ValidEgorConfig', {'infill_criterion': crit})})
    v.ip.summaries.update({'ego::utils::cstr_pof::pofs': lambda ip, a: PF, 'ego::utils::cstr_pof::pofs_grad': lambda ip, a: Arr([nx], lambda j: DPF(j)),
        'ego::utils::cstr_pof::logpofs': lambda ip, a: LPF, 'ego::utils::cstr_pof::logpofs_grad': lambda ip, a: Arr([nx], lambda j: DLPF(j))})
    # without any constraint the joint probability is the constant 1 (contracts of pofs and logpofs)
    v.require(implies(eq(q, Z0), band(eq(PF, R(1)), eq(LPF, R(0))))); v.forall(lambda j: implies(eq(q, Z0), band(eq(DPF(j), R(0)), eq(DLPF(j), R(0)))))
    m = model(v, Z0, nx); ms = Arr([q], lambda k: model(v, k, nx), kind='vec')
    base = neg(div(IC, sc))
    for p in v.call('eval_infill_obj', [me, x, m, fmin, sc, sic, w], owner='EgorSolver', mod='ego::solver::solver_computations'):
        with p: p.ensure('scaled opposite of the criterion', eq(p.value, base))
    for p in v.call('eval_grad_infill_obj', [me, x, m, fmin, sc, sic, w], owner='EgorSolver', mod='ego::solver::solver_computations'):
        with p:
            j = p.ix(nx); p.ensure('one component per coordinate', eq(p.value.dims[0], nx))
            p.ensure('derivative of the objective', eq(p.value.at(j), diff(base, oleaf(j))))
    f = z3.BoolVal(feas)
    val = base if feas else (R(0) if log else R(-1))
    spec = sub(val, LPF) if log else mul(val, PF)
    for p in v.call('eval_infill_obj_with_cstrs', [me, x, m, ms, tol, fmin, sc, sic, f, w], owner='EgorSolver', mod='ego::solver::solver_computations'):
        with p: p.ensure('constrained objective', eq(p.value, spec))
    for p in v.call('eval_grad_infill_obj_with_cstrs', [me, x, m, ms, tol, fmin, sc, sic, f, w], owner='EgorSolver', mod='ego::solver::solver_computations'):
        with p:
            j = p.ix(nx); p.ensure('one component per coordinate', eq(p.value.dims[0], nx))
            p.ensure('derivative of the constrained objective', eq(p.value.at(j), diff(spec, oleaf(j))))
    v.vacuity()
    return v
for _l in (False, True):
    for _f in (False, True):
        unit(f'infill objective ({"log" if _l else "plain"} criterion, {"feasible point known" if _f else "no feasible point yet"})',
             [OBJ + n for n in ('eval_infill_obj', 'eval_grad_infill_obj', 'eval_infill_obj_with_cstrs', 'eval_grad_infill_obj_with_cstrs')])(lambda l=_l, f=_f: objective(l, f))

LT = lambda k: z3.Function('lp', IS, RS)(k)
@unit('log of the joint probability', ['ego::utils::cstr_pof::logpofs', 'ego::utils::cstr_pof::logpofs_grad', 'ego::utils::cstr_pof::logpof_grad'])
def logpofs():
    v = V('I02', 'logpofs'); nx = v.dim('nx'); q = v.dim('q', 0); x = v.arr('x', [nx], kind='vec'); tol = v.arr('tol', [q], kind='vec')
    P = lambda k: z3.Function('pofk', IS, RS)(k); DP = lambda k, j: z3.Function('pofk_d', IS, IS, RS)(k, j)     # probability k and its derivatives (property F01)
    def num(o): return o.fields['k']
    ms = Arr([q], lambda k: Opq('surrogate', fields={'k': k}), kind='vec')
    v.ip.summaries['ego::utils::cstr_pof::pof'] = lambda ip, a: P(num(deref(a[1])))
    v.ip.summaries['ego::utils::cstr_pof::pof_grad'] = lambda ip, a: Arr([nx], lambda j: DP(num(deref(a[1])), j))
    v.forall(lambda t: ge(P(t), EPS))       # above the floor that keeps the logarithm finite
    spec = mkred('sum', q, lambda k: ln(P(k)))
    def leaf(j):
        return lambda t: DP(t.arg(0), j) if z3.is_app(t) and t.decl().name() == 'pofk' else None
    for p in v.call('logpofs', [x, ms, tol], mod='ego::utils::cstr_pof'):
        with p: p.ensure('sum of the logarithms', eq(p.value, spec))
    for p in v.call('logpofs_grad', [x, ms, tol], mod='ego::utils::cstr_pof'):
        with p:
            j = p.ix(nx); p.ensure('one component per coordinate', eq(p.value.dims[0], nx))
            p.ensure('derivative of the log probability', eq(p.value.at(j), diff(spec, leaf(j))))
    v.vacuity()
    return v
