"""G02: Gaussian process gradients are the derivatives of its predictions."""
from .gpmodel import *
from .surr import rowkey
from rvc.units import unit
LEVEL = 'other'
O = A_ + '::GaussianProcess::'
DV = z3.Function('dvarnormed', IS, IS, RS)

def case(name, which):
    s = Gp('G02', name); v = s.v
    def single(ip, a): r = rowkey(a[1], None)[0]; return Arr([s.nx], lambda j: DV(lift(r), lift(j)))
    v.ip.summaries['predict_var_gradients_single'] = single
    for p in v.call(name, [s.me, s.x], owner='GaussianProcess', mod=A_):
        with p:
            r = deref(p.value); i, j = p.ix(s.n), p.ix(s.nx)
            outs = [deref(t) for t in r.es] if which == 'both' else [r]
            for a, w in zip(outs, ('mean', 'variance') if which == 'both' else (which,)):
                p.ensure('one row per point', eq(a.dims[0], s.n)); p.ensure('one column per coordinate', eq(a.dims[1], s.nx))
                if w == 'mean': p.ensure('gradient of the mean is its derivative in input units', eq(a.at(i, j), diff(s.mu(i), s.leaf(j))))
                else: p.ensure('gradient of the variance at each point', eq(a.at(i, j), DV(i, j)))
    v.vacuity()
    return v
for _n, _w, _h in (('predict_gradients', 'mean', ['predict_jacobian']), ('predict_var_gradients', 'variance', []), ('predict_valvar_gradients', 'both', ['predict_jacobian'])):
    unit(_n, [O + _n] + [O + h for h in _h])(lambda n=_n, w=_w: case(n, w))


@unit('predict_var_gradients_single', [O + 'predict_var_gradients_single'])
def vargrad():
    """the kriging variance s2 (1 - |L^-1 r|^2 + |C^-1 (f - F' R^-1 r)|^2) with R = L L', F' R^-1 F = C C'; trend and correlation functions by their contracts"""
    s = Gp('G02', 'vargrad'); v = s.v; i = v.int('i'); v.require(band(ge(i, 0), lt(i, s.n)))
    v.ip.positive_definite = True       # F' R^-1 F of a fitted model
    S = mkred; Li = inv_tri(v.ip, s.chol, 'Lower'); r = lambda t: CORR(lift(i), lift(t))
    Rinv = lambda t, q: S('sum', s.nt, lambda l: mul(Li(l, t), Li(l, q)))
    RF = lambda t, k: S('sum', s.nt, lambda q: mul(Rinv(t, q), TTRAIN(lift(q), lift(k))))
    B = Arr([s.p, s.p], lambda a, b: S('sum', s.nt, lambda t: mul(TTRAIN(lift(t), lift(a)), RF(t, b))))
    Ci = inv_tri(v.ip, cholesky(v.ip, B), 'Lower')
    Am = lambda k: sub(TREND(lift(i), lift(k)), S('sum', s.nt, lambda t: mul(r(t), RF(t, k))))
    sq = lambda t: mul(t, t)
    var = mul(s.s2, add(sub(R(1), S('sum', s.nt, lambda t: sq(S('sum', s.nt, lambda k: mul(Li(t, k), r(k)))))), S('sum', s.p, lambda q: sq(S('sum', s.p, lambda k: mul(Ci(q, k), Am(k)))))))
    xi = Arr([s.nx], lambda j: s.x.at(i, j))
    for p in v.call('predict_var_gradients_single', [s.me, xi], owner='GaussianProcess', mod=A_):
        with p:
            g = deref(p.value); j = p.ix(s.nx); p.ensure('one derivative per coordinate', eq(g.dims[0], s.nx))
            p.ensure('gradient of the variance is its derivative in input units', eq(g.at(j), diff(var, s.leaf(j))))
    v.vacuity()
    return v
