"""I01: values of the infill criteria."""
from rvc.vc import *
from rvc.units import unit
from .surr import *

unit('normal law', NORMAL_FNS)(lambda: normal_law('I01'))

def u_of(fmin, k=None, key=()): 
    s = sqrt(VAR(Z0, *key)) if k is None else mul(k, sqrt(VAR(Z0, *key)))
    return div(sub(fmin, MU(Z0, *key)), s), s
def ei_(fmin, k=None, key=()):
    u, s = u_of(fmin, k, key)
    return ite(lt(VAR(Z0, *key), EPS), R(0), mul(s, add(mul(u, ncdf(u)), npdf(u))))
def h(u): return ln(add(npdf(u), mul(u, ncdf(u))))

EI_FNS = ['ego::criteria::ei::ExpectedImprovement::value', 'ego::criteria::ei::ExpectedImprovement::grad']
WB_FNS = ['ego::criteria::wb2::WB2Criterion::value', 'ego::criteria::wb2::WB2Criterion::grad']

def setup(pid, name):
    v = normal(V(pid, name)); nx = v.dim('nx'); x = v.arr('x', [nx], kind='vec'); fmin = v.real('fmin')
    v.require(ge(VAR(Z0), R(0)))
    return v, nx, x, fmin

@unit('expected improvement', EI_FNS[:1])
def ei_value():
    v, nx, x, fmin = setup('I01', 'ei'); k = v.real('k'); v.require(gt(k, R(0)))
    for w, wv in ((NONE(), R(1)), (SOME(k), k)):
        for p in v.call('value', [St('ExpectedImprovement', {}), x, model(v, Z0, nx), fmin, w, NONE()], owner='ExpectedImprovement', mod='ego::criteria::ei'):
            with p:
                p.ensure('closed form of the expected improvement, 0 without variance', eq(p.value, ei_(fmin, wv)))
                u, sg = u_of(fmin, wv); M = add(mul(u, ncdf(u)), npdf(u))
                p.ensure('never negative', ge(p.value, R(0)), extra=[implies(band(gt(sg, R(0)), gt(M, R(0))), gt(mul(sg, M), R(0)))])
    for p in v.call('value', [St('ExpectedImprovement', {}), x, model(v, Z0, nx, ok=False), fmin, NONE(), NONE()], owner='ExpectedImprovement', mod='ego::criteria::ei'):
        with p: p.ensure('zero when the surrogate cannot predict', eq(p.value, R(0)))
    v.vacuity()
    return v

LIM = R(-10**6)
def tail_lemmas(u):
    """laws used in the tail u <= -1"""
    k = z3.Const('LN_SQRT_2PI', RS); k2 = z3.Const('LN_SQRT_PI_2', RS)
    e = exp(mul(z3.Q(1, 2), mul(u, u)))
    A = mul(mul(e, mul(R(2), ncdf(u))), absr(u))
    w = add(ln(A), k2)
    one = sub(R(1), exp(w))
    return [phi_def(u), exp_inv(mul(z3.Q(1, 2), mul(u, u))), exp_ln(A, k2), eq(mul(R(2), exp(k2)), C1), eq(mul(sqrt(R(2)), sqrt(z3.Const('PI', RS))), C1),
            ln_mul(npdf(u), one), eq(ln(npdf(u)), sub(mul(z3.Q(-1, 2), mul(u, u)), k))], w
def helper(pid):
    v = normal(V(pid, 'helper')); u = v.real('u'); v.assume(MATH)
    lem, w = tail_lemmas(u)
    for p in v.call('log_ei_helper', [u], mod='ego::utils::logei_helper'):
        with p:
            p.ensure('logarithm of phi(u) + u Phi(u)', eq(p.value, h(u)), extra=[gt(u, LIM), gt(u, R(-1))])
            Phi = mul(exp(w), npdf(u))
            p.ensure('correction of the tail', eq(Phi, mul(absr(u), ncdf(u))), extra=lem + [lt(u, R(0))])
            fac = eq(mul(npdf(u), sub(R(1), exp(w))), add(npdf(u), mul(u, ncdf(u))))
            p.ensure('factored form of the tail', fac, extra=[eq(Phi, mul(absr(u), ncdf(u))), lt(u, R(0))])
            p.ensure('logarithm of phi(u) + u Phi(u) in the tail', eq(p.value, h(u)), extra=[gt(u, LIM), le(u, R(-1)), fac, eq(h(u), ln(mul(npdf(u), sub(R(1), exp(w)))))] + lem)
            p.ensure('asymptotic form in the far tail', eq(p.value, sub(ln(npdf(u)), mul(R(2), ln(absr(u))))), extra=[le(u, LIM)] + lem)
    v.vacuity()
    return v
unit('log improvement helper', ['ego::utils::logei_helper::log_ei_helper'])(lambda: helper('I01'))

def logei(v):
    H = lambda ip, a: uf('hlog', a[0])
    v.ip.summaries['log_ei_helper'] = H
    v.ip.summaries['d_log_ei_helper'] = lambda ip, a: uf('hlog_d', a[0])
    return v

@unit('log expected improvement', ['ego::criteria::ei::LogExpectedImprovement::value'])
def logei_value():
    v, nx, x, fmin = setup('I01', 'logei'); logei(v)
    for p in v.call('value', [St('LogExpectedImprovement', {}), x, model(v, Z0, nx), fmin, NONE(), NONE()], owner='LogExpectedImprovement', mod='ego::criteria::ei'):
        with p:
            u, s = u_of(fmin)
            p.ensure('helper plus the logarithm of the deviation', eq(p.value, add(uf('hlog', u), ln(s))), extra=[ge(VAR(Z0), EPS)])
            p.ensure('smallest number without variance', eq(p.value, neg(z3.Const('F64_MAX', RS))), extra=[lt(VAR(Z0), EPS)])
            # with the contract of the helper this is the logarithm of the expected improvement
            p.ensure('logarithm of the expected improvement', eq(p.value, ln(ei_(fmin))), extra=[ge(VAR(Z0), EPS), eq(uf('hlog', u), h(u)), ln_mul(s, add(npdf(u), mul(u, ncdf(u)))), gt(add(npdf(u), mul(u, ncdf(u))), R(0))])
    v.vacuity()
    return v

@unit('scaled criterion', WB_FNS[:1])
def wb_value():
    v, nx, x, fmin = setup('I01', 'wb2'); k, sc, s0 = v.real('k'), v.real('sc'), v.real('s0'); v.require(gt(k, R(0)))
    v.ip.summaries['ego::criteria::ei::ExpectedImprovement::value'] = lambda ip, a: ei_(a[3], [c for c in [deref(a[4])]][0].ps[0] if deref(a[4]).var == 'Some' else R(1))
    for w, wv in ((NONE(), R(1)), (SOME(k), k)):
        for own, given, spec in ((NONE(), NONE(), R(1)), (SOME(s0), NONE(), s0), (NONE(), SOME(sc), sc), (SOME(s0), SOME(sc), sc)):
            for p in v.call('value', [St('WB2Criterion', {'0': own}), x, model(v, Z0, nx), fmin, w, given], owner='WB2Criterion', mod='ego::criteria::wb2'):
                with p: p.ensure('scaled expected improvement minus the predicted mean', eq(p.value, sub(mul(spec, ei_(fmin, wv)), MU(Z0))))
    v.vacuity()
    return v

@unit('scale of the criterion', ['ego::criteria::wb2::compute_wb2s_scale', 'ego::criteria::wb2::WB2Criterion::scaling'])
def wb_scale():
    v = normal(V('I01', 'scale')); nx, n = v.dim('nx'), v.dim('n'); x = v.arr('x', [n, nx]); fmin, k, s0 = v.real('fmin'), v.real('k'), v.real('s0')
    v.require(gt(k, R(0)))
    EI = lambda t: z3.Function('ei', IS, RS)(t)      # expected improvement of row t (unit "expected improvement")
    v.forall(lambda t: ge(EI(t), R(0)))
    def eiv(ip, a):
        w = deref(a[4]); key = rowkey(a[1], None)
        if not (w.var == 'Some' and lift(w.ps[0]).eq(k) and lift(a[3]).eq(fmin)): raise Unsupported('other arguments of the expected improvement')
        return EI(key[0])
    v.ip.summaries['ego::criteria::ei::ExpectedImprovement::value'] = eiv
    m = model(v, Z0, nx)
    for own in (NONE(), SOME(s0)):
        for p in v.call('scaling', [St('WB2Criterion', {'0': own}), x, m, fmin, SOME(k)], owner='WB2Criterion', mod='ego::criteria::wb2'):
            with p:
                if own.var == 'Some': p.ensure('fixed scale', eq(p.value, s0)); continue
                am = list({a.arg(0).sexpr(): a.arg(0) for a in T.apps([canon(lift(p.value))] + list(v.ip.pc), {'ei'}).get('ei', []) if not a.arg(0).sexpr().startswith('bv')}.values())
                if len(am) != 1: raise Unsupported('row used for the scale')
                am = am[0]
                p.ensure('row of largest expected improvement', band(ge(am, 0), lt(am, n), mkred('and', n, lambda t: le(EI(t), EI(am)))))
                p.ensure('recomputed scale', eq(p.value, ite(gt(absr(EI(am)), mul(R(100), EPS)), div(mul(R(100), absr(MU(Z0, am))), EI(am)), R(1))))
    v.vacuity()
    return v

