"""G01: Gaussian process predictions are the kriging equations."""
from .gpmodel import *
from rvc.units import unit
LEVEL = 'other'
O = A_ + '::GaussianProcess::'
HELP = [O + '_compute_correlation', O + '_compute_rt_u']

def case(name, which):
    s = Gp('G01', name); v = s.v
    for p in v.call(name, [s.me, s.x], owner='GaussianProcess', mod=A_):
        with p:
            r = deref(p.value); p.ensure('a prediction is returned', z3.BoolVal(isinstance(r, En) and r.var == 'Ok'))
            r = deref(r.ps[0]); i = p.ix(s.n)
            outs = [deref(t) for t in r.es] if which == 'both' else [r]
            for a, w in zip(outs, ('mean', 'variance') if which == 'both' else (which,)):
                p.ensure('one value per point', eq(a.dims[0], s.n))
                if w == 'mean': p.ensure('mean is trend plus correlation weighted correction in output units', eq(a.at(i), s.mu(i)))
                else:
                    p.ensure('variance is the kriging variance floored at zero', eq(a.at(i), s.var(i)))
                    p.ensure('variance is never negative', ge(a.at(i), R(0)))
    v.vacuity()
    return v
for _n, _w, _h in (('predict', 'mean', HELP[:1]), ('predict_var', 'variance', HELP), ('predict_valvar', 'both', HELP)):
    unit(_n, [O + _n] + _h)(lambda n=_n, w=_w: case(n, w))

@unit('fitted quantities', [A_ + '::reduced_likelihood'])
def fitted():
    """with R = L L' the correlation matrix of the training points, L^-1 F = Q G (orthonormal Q, upper triangular G): trend coefficients G^-1 Q' L^-1 y, weights R^-1 (y - F beta),
    process variance |L^-1 (y - F beta)|^2 / n in output units, likelihood -n (log10 variance + 2/n sum log10 L_ii)"""
    v = V('G01', 'fitted'); n, p_, m = v.dim('n', 2), v.dim('p'), v.dim('pairs')
    fx, rxx, y, ys, nug = v.arr('fx', [n, p_]), v.arr('rxx', [m, I(1)]), v.arr('y', [n, I(1)]), v.arr('ys', [I(1)]), v.real('nugget'); v.require(ge(nug, R(0)))
    di = v.arr('pair', [m, I(2)], sort=IS)
    v.forall(lambda k: band(ge(di.at(k, I(0)), 0), lt(di.at(k, I(0)), di.at(k, I(1))), lt(di.at(k, I(1)), n)))
    dm = St('DiffMatrix', {'d': Opq('d'), 'd_indices': di, 'n_obs': n}); yn = St('NormalizedData', {'data': y, 'mean': v.arr('ym', [I(1)]), 'std': ys})
    v.ip.positive_definite = True       # the correlation matrix is factorised; a failure is returned as an error
    POS = z3.Function('position', IS, IS, IS)      # each pair is listed once (N01)
    v.forall(lambda k: eq(POS(di.at(k, I(0)), di.at(k, I(1))), k))
    for p in v.call('reduced_likelihood', [fx, rxx, dm, yn, nug], mod=A_):
        with p:
            r = deref(p.value)
            if r.var == 'Err': continue           # ill conditioned: no model
            l, q = deref(r.ps[0]).es; q = deref(q); L, ft, G, beta, gamma = [deref(q.f[k]) for k in ('r_chol', 'ft', 'ft_qr_r', 'beta', 'gamma')]
            a, b, c = p.ix(n), p.ix(n), p.ix(p_); S = mkred
            nm = canon(lift(L.at(a, b))).decl().name()
            if nm not in CHOL: raise Unsupported('factor of the correlation matrix')
            A = CHOL[nm]
            p.ensure('the factor has one row per training point', band(eq(L.dims[0], n), eq(L.dims[1], n), eq(A.dims[0], n)))
            p.ensure('the correlation of a point with itself is one plus the nugget', eq(A.at(a, a), add(R(1), nug)))
            k = p.ix(m); x, y_ = di.at(k, I(0)), di.at(k, I(1))
            facts = [band(bnot(eq(x, y_)), eq(POS(x, y_), k))] + [w(k, x, y_) for w in getattr(v.ip, 'writer_facts', [])] + [w(k, y_, x) for w in getattr(v.ip, 'writer_facts', [])]
            p.ensure('correlation of each pair, both ways', band(eq(A.at(x, y_), rxx.at(k, I(0))), eq(A.at(y_, x), rxx.at(k, I(0)))), extra=facts)
            Li = inv_tri(v.ip, L, 'Lower'); F = lambda t, k: S('sum', n, lambda u: mul(Li(t, u), fx.at(u, k))); Y = lambda t: S('sum', n, lambda u: mul(Li(t, u), y.at(u, I(0))))
            p.ensure('trend decorrelated by the factor', band(eq(ft.dims[0], n), eq(ft.dims[1], p_), eq(ft.at(a, c), F(a, c))))
            h = matkey(Arr([n, p_], F)); Q, g = z3.Function('qr_q_' + h, IS, IS, RS), z3.Function('qr_r_' + h, IS, IS, RS)
            Gm = Arr([p_, p_], lambda i, j: ite(le(i, j), g(lift(i), lift(j)), R(0))); Gi = inv_tri(v.ip, Gm, 'Upper')
            p.ensure('factor of the decorrelated trend', eq(G.at(c, c), g(c, c)))
            B = lambda k: S('sum', p_, lambda j: mul(Gi(k, j), S('sum', n, lambda t: mul(Q(t, j), Y(t)))))
            p.ensure('generalised least squares trend coefficients', band(eq(beta.dims[0], p_), eq(beta.at(c, I(0)), B(c))))
            rho = lambda t: sub(Y(t), S('sum', p_, lambda k: mul(F(t, k), B(k))))
            p.ensure('weights are the inverse correlation matrix times the residuals', band(eq(gamma.dims[0], n), eq(gamma.at(a, I(0)), S('sum', n, lambda t: mul(Li(t, a), rho(t))))))
            s2 = div(S('sum', n, lambda t: mul(rho(t), rho(t))), toreal(n))
            p.ensure('process variance in output units', eq(q.f['sigma2'], mul(s2, mul(ys.at(I(0)), ys.at(I(0))))))
            p.ensure('reduced likelihood', eq(l, neg(add(mul(toreal(n), log10(s2)), mul(R(2), S('sum', n, lambda t: log10(L.at(t, t))))))))
    v.vacuity()
    return v
