"""X01: recombination of experts."""
from rvc.vc import *
from rvc.units import unit
from .moe import *
LEVEL = 'other'
O = M + '::GpMixture::'

def spec(recomb, K):
    if recomb == 'hard': return (lambda i: MU(CL(i), i)), (lambda i: VAR(CL(i), i))
    return (lambda i: total(K, lambda k: mul(P(i, k), MU(k, i)))), (lambda i: total(K, lambda k: mul(mul(P(i, k), P(i, k)), VAR(k, i))))

def case(recomb, name, which):
    v, n, nx, K, x, me = mixture('X01', recomb + name, recomb)
    mean, var = spec(recomb, K)
    for p in v.call(name, [me, x], owner='GpMixture', trait='GpSurrogate', mod=M):
        with p:
            r = deref(p.value); p.ensure('a prediction is returned', z3.BoolVal(isinstance(r, En) and r.var == 'Ok'))
            r = deref(r.ps[0]); i = p.ix(n)
            outs = [deref(t) for t in r.es] if which == 'both' else [r]
            for a, s, w in zip(outs, (mean, var) if which == 'both' else ((mean,) if which == 'mean' else (var,)), ('mean', 'variance') if which == 'both' else (which,)):
                p.ensure('one value per point', eq(a.dims[0], n))
                p.ensure(f'{w} of the most probable cluster\'s expert' if recomb == 'hard' else (f'membership weighted sum of expert means' if w == 'mean' else 'squared membership weighted sum of expert variances'), eq(a.at(i), s(i)))
    v.vacuity()
    return v
for _r in ('hard', 'smooth'):
    for _n, _w, _h in (('predict', 'mean', 'predict_'), ('predict_var', 'variance', 'predict_var_'), ('predict_valvar', 'both', 'predict_valvar_')):
        unit(f'{_n}, {_r} recombination', [O + _n, O + _h + _r])(lambda r=_r, n=_n, w=_w: case(r, n, w))

G = 'moe::gaussian_mixture'
LP = z3.Function('logpdf', IS, IS, RS)
def gmx_struct(v, K, nx):
    return St('GaussianMixture', {'weights': v.arr('w', [K]), 'means': v.arr('means', [K, nx]), 'covariances': v.arr('cov', [K, nx, nx]), 'precisions': v.arr('prec', [K, nx, nx]),
                                  'precisions_chol': v.arr('chol', [K, nx, nx]), 'heaviside_factor': v.real('hf'), 'log_det': v.arr('logdet', [K])})
def unwrapped(t):
    t = canon(lift(t)); return t.arg(0) if z3.is_app(t) and t.decl().name() == 'exp' else None
def lns(t):
    out = {}; st = [t]
    while st:
        u = st.pop()
        if not z3.is_app(u): continue
        if u.decl().name() == 'ln': out[u.arg(0).sexpr()] = u.arg(0)
        st.extend(u.children())
    return list(out.values())

@unit('memberships', [G + '::GaussianMixture::predict_probas', G + '::GaussianMixture::compute_log_prob_resp'])
def probas():
    v = V('X01', 'probas'); n, nx, K = v.dim('n'), v.dim('nx'), v.dim('K'); x = v.arr('x', [n, nx]); g = gmx_struct(v, K, nx)
    w = g.f['weights']; v.forall(lambda k: gt(w.at(k), R(0)))
    v.ip.summaries['compute_log_gaussian_prob'] = lambda ip, a: Arr([deref(a[1]).dims[0], K], lambda i, k: LP(rowkey(deref(a[1]), i)[0], k))
    for p in v.call('predict_probas', [g, x], owner='GaussianMixture', mod=G):
        with p:
            r = deref(p.value); i = p.ix(n); k = p.ix(K)
            p.ensure('one row per point', eq(r.dims[0], n)); p.ensure('one membership per cluster', eq(r.dims[1], K))
            v.forall(lambda l: gt(add(LP(i, l), ln(w.at(l))), neg(z3.Const('INF', RS))))          # log densities are numbers
            p.ensure('memberships are positive', gt(r.at(i, k), R(0)))
            if isnum(canon(lift(r.at(i, k)))): p.ensure('memberships sum to one', eq(total(K, lambda l: r.at(i, l)), R(1))); continue
            if unwrapped(r.at(i, k)) is None: raise Unsupported('memberships are not exponentials')
            A = lambda l: unwrapped(r.at(i, l))
            norms = [s for s in lns(A(k)) if not depends(s, k)]
            if len(norms) != 1: raise Unsupported('no normalisation in the memberships')
            s = norms[0]; law = lambda l: implies(gt(s, R(0)), eq(mul(r.at(i, l), s), exp(canon(add(A(l), ln(s))))))     # exp(a) = exp(a - ln s) s
            E = lambda l: exp(canon(add(A(l), ln(s)))); tot = total(K, E); pos = ge(tot, E(k))       # a sum of positive terms is at least one of them
            p.ensure('the normalisation is the sum of the unnormalised memberships', eq(tot, s))
            p.ensure('the normalisation is positive', gt(s, R(0)), extra=[eq(tot, s), pos])
            p.ensure('every membership is normalised', eq(mul(r.at(i, k), s), E(k)), extra=[gt(s, R(0)), law(k)])
            rs = total(K, lambda l: mul(r.at(i, l), s))
            p.ensure('memberships sum to one', eq(total(K, lambda l: r.at(i, l)), R(1)), extra=[gt(s, R(0)), eq(tot, s), eq(rs, tot)])        # equal terms, equal sums
            p.ensure('memberships are at most one', le(r.at(i, k), R(1)), extra=[eq(mul(r.at(i, k), s), E(k)), gt(s, R(0)), eq(tot, s), pos])
    v.vacuity()
    return v

@unit('most probable cluster', [G + '::GaussianMixture::predict_inplace', G + '::GaussianMixture::compute_log_prob_resp'])
def hard():
    v = V('X01', 'hard'); n, nx, K = v.dim('n'), v.dim('nx'), v.dim('K'); x = v.arr('x', [n, nx]); g = gmx_struct(v, K, nx)
    w = g.f['weights']; v.forall(lambda k: gt(w.at(k), R(0)))
    v.ip.summaries['compute_log_prob_resp'] = lambda ip, a: Tup([Arr([n], lambda i: R(0)), Arr([deref(a[1]).dims[0], K], lambda i, k: LP(rowkey(deref(a[1]), i)[0], k))])
    t = v.cell(v.arr('t0', [n], sort=IS))
    for p in v.call('predict_inplace', [g, x, t], owner='GaussianMixture', mod=G):
        with p:
            r = deref(p.get(t)); i = p.ix(n); k = p.ix(K)
            p.ensure('one cluster per point', eq(r.dims[0], n))
            p.ensure('a cluster index', band(ge(r.at(i), 0), lt(r.at(i), K)))
            p.ensure('no other cluster is more probable', ge(exp(LP(i, r.at(i))), exp(LP(i, k))))
    v.vacuity()
    return v
