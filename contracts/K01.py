"""K01: correlation kernels."""
from rvc.vc import *
from rvc.units import unit
from contracts.lib import *

def mk(ow, kind):
    @unit(f'{kind} value', [f'gp::correlation_models::{ow}::value'])
    def u():
        v = V('K01', kind)
        n, nx, h, d, th, w = inputs(v)
        v.forall(lambda t: implies(band(ge(t, 0), lt(t, h)), ge(th.at(t), Z(0))))
        for p in v.call('value', [St(ow, {}), d, th, w], owner=ow, mod='gp::correlation_models'):
            with p:
                a = p.value; i = p.ix(n)
                p.ensure('one value per row', band(eq(a.dims[0], n), eq(a.dims[1], 1)))
                r = a.at(i, Z0)
                spec = closed(kind, d, i, th, w, nx, h)
                p.ensure('closed form', eq(r, spec))
                # bounds are shown on the closed form
                p.ensure('strictly positive', gt(spec, Z(0)), extra=prod_facts(v, kind, d, i, th, w, nx, h))
                p.ensure('at most one', le(spec, Z(1)), extra=prod_facts(v, kind, d, i, th, w, nx, h))
                # symmetry: negated differences give the same value; zero differences give one
                nd = Arr(d.dims, lambda x, y: neg(d.at(x, y)))
                p.ensure('depends on absolute differences only', eq(closed(kind, nd, i, th, w, nx, h), spec))
                zd = Arr(d.dims, lambda x, y: Z(0))
                p.ensure('one at zero difference', eq(closed(kind, zd, i, th, w, nx, h), Z(1)))
                names = decl_deps(r)
                p.ensure('row of the result uses its own row only', row_only(r, 'd', i))
        v.vacuity()
        return v

def prod_facts(v, kind, d, i, th, w, nx, h):
    """for the Matern models: 0 < product of (1 + c v + ..) <= exp(c * sum of v), by induction over both axes"""
    if kind in ('se', 'ae'): return []
    c = sqrt(Z(3)) if kind == 'm32' else sqrt(Z(5))
    vv = lambda j, k: mul(tw(th, w, j, k), absr(d.at(i, j)))
    f = (lambda j, k: add(1, mul(c, vv(j, k)))) if kind == 'm32' else (lambda j, k: add(add(Z(1), mul(c, vv(j, k))), mul(z3.Q(5, 3), mul(vv(j, k), vv(j, k)))))
    j = v.ixfree(nx); k = v.ixfree(h)
    pos = [ge(th.at(k), Z(0))]
    # base inequality of one factor
    u = mul(c, vv(j, k))
    v.ensure('factor is at least one', ge(f(j, k), Z(1)), extra=pos + rng(j, nx) + rng(k, h))
    v.ensure('factor is at most its exponential', le(f(j, k), exp(u)), extra=pos + rng(j, nx) + rng(k, h) + [ge(exp(u), 1 + u + u * u / 2), ge(u, Z(0))] )
    v.ensure('its exponent is not negative', ge(u, Z(0)), extra=pos + rng(j, nx) + rng(k, h))
    # product rule: prod f <= exp(sum g) when 1 <= f <= exp(g); the step is an obligation over abstract values
    if not getattr(v, '_prl', False):
        v._prl = True
        P_, S_, F_, G_ = (fresh(x, RS) for x in ('P', 'S', 'F', 'G'))
        v.ensure('product step', band(ge(mul(P_, F_), Z(1)), le(mul(P_, F_), exp(add(S_, G_)))), extra=[ge(P_, Z(1)), ge(F_, Z(1)), le(P_, exp(S_)), le(F_, exp(G_)), eq(exp(add(S_, G_)), mul(exp(S_), exp(G_)))])
        v.assume('induction over the number of factors: prod f(k) <= exp(sum g(k)) follows from the discharged step "product step"; exp(a+b) = exp(a) exp(b), exp(u) >= 1 + u + u^2/2 for u >= 0')
    P = mkred('prod', nx, lambda j: mkred('prod', h, lambda k: f(j, k)))
    S = mkred('sum', nx, lambda j: mkred('sum', h, lambda k: vv(j, k)))
    e, en = exp(mul(c, S)), exp(neg(mul(c, S)))
    return [ge(P, Z(1)), le(P, e), eq(mul(e, en), Z(1))]


for ow, kind in KERN.items(): mk(ow, kind)
