"""X02: gradients of mixtures."""
from rvc.vc import *
from rvc.units import unit
from .moe import *
LEVEL = 'other'
O = M + '::GpMixture::'

def dleaf2(i, j):
    """derivatives, with respect to coordinate j, of expert predictions and memberships at point i"""
    inner = dleaf(j)
    def leaf(t):
        if z3.is_app(t) and t.decl().name() == 'proba': return DP(t.arg(0), t.arg(1), j)
        return inner(t)
    return leaf

def spec(recomb, K):
    if recomb == 'hard': return (lambda i, j: DMU(CL(i), i, j)), (lambda i, j: DVAR(CL(i), i, j))
    mean = lambda i, k: mul(P(i, k), MU(k, i)); var = lambda i, k: mul(mul(P(i, k), P(i, k)), VAR(k, i))
    return (lambda i, j: total(K, lambda k: diff(mean(i, k), dleaf2(i, j)))), (lambda i, j: total(K, lambda k: diff(var(i, k), dleaf2(i, j))))

def case(recomb, name, which):
    v, n, nx, K, x, me = mixture('X02', recomb + name, recomb)
    mean, var = spec(recomb, K)
    for p in v.call(name, [me, x], owner='GpMixture', trait='GpSurrogateExt', mod=M):
        with p:
            r = deref(p.value); p.ensure('a gradient is returned', z3.BoolVal(isinstance(r, En) and r.var == 'Ok'))
            r = deref(r.ps[0]); i = p.ix(n); j = p.ix(nx)
            outs = [deref(t) for t in r.es] if which == 'both' else [r]
            for a, s, w in zip(outs, (mean, var) if which == 'both' else ((mean,) if which == 'mean' else (var,)), ('mean', 'variance') if which == 'both' else (which,)):
                p.ensure('one row per point', eq(a.dims[0], n)); p.ensure('one column per coordinate', eq(a.dims[1], nx))
                p.ensure(f'gradient of the {w} of the most probable cluster\'s expert' if recomb == 'hard' else f'derivative of the recombined {w}, memberships included', eq(a.at(i, j), s(i, j)))
    v.vacuity()
    return v
for _r in ('hard', 'smooth'):
    for _n, _w, _h in (('predict_gradients', 'mean', 'predict_gradients_'), ('predict_var_gradients', 'variance', 'predict_var_gradients_'), ('predict_valvar_gradients', 'both', 'predict_valvar_gradients_')):
        unit(f'{_n}, {_r} recombination', [O + _n, O + _h + _r])(lambda r=_r, n=_n, w=_w: case(r, n, w))

G = 'moe::gaussian_mixture'
LP = z3.Function('logpdf', IS, IS, RS)
@unit('gradient of the memberships', [G + '::GaussianMixture::predict_single_probas_derivatives', G + '::GaussianMixture::predict_probas_derivatives'])
def dprobas():
    """memberships are exp(l_k) / sum exp(l) (X01), the gradient of the log density l_k being -(x - mean_k) precision_k / heaviside factor"""
    from .X01 import gmx_struct
    v = V('X02', 'dprobas'); n, nx, K = v.dim('n'), v.dim('nx'), v.dim('K'); x = v.arr('x', [n, nx]); g = gmx_struct(v, K, nx); hf = g.f['heaviside_factor']; v.require(gt(hf, R(0)))
    S = lambda i: total(K, lambda l: exp(LP(i, l))); prob = lambda i, k: div(exp(LP(i, k)), S(i))
    v.ip.summaries['predict_probas'] = lambda ip, a: Arr([deref(a[1]).dims[0], K], lambda i, k: prob(rowkey(deref(a[1]), i)[0], k))
    D = lambda i, k, j: mkred('sum', nx, lambda l: mul(sub(x.at(i, l), g.f['means'].at(k, l)), div(g.f['precisions'].at(k, l, j), hf)))
    for p in v.call('predict_probas_derivatives', [g, x], owner='GaussianMixture', mod=G):
        with p:
            r = deref(p.value); i = p.ix(n); k = p.ix(K); j = p.ix(nx)
            p.ensure('one table per point', eq(r.dims[0], n)); p.ensure('one row per cluster', eq(r.dims[1], K)); p.ensure('one column per coordinate', eq(r.dims[2], nx))
            def leaf(t):
                if z3.is_app(t) and t.decl().name() == 'logpdf': return neg(D(t.arg(0), t.arg(1), j))
            pos = ge(S(i), exp(LP(i, k)))
            p.ensure('derivative of the membership', eq(r.at(i, k, j), diff(prob(i, k), leaf)), extra=[pos, gt(S(i), R(0))])
    v.vacuity()
    return v

@unit('gradient of the log density', [G + '::GaussianMixture::compute_log_gaussian_prob', G + '::GaussianMixture::compute_precisions'])
def dlog():
    """with precisions computed from their Cholesky factors, the gradient of the log density is the one assumed for the memberships"""
    from .X01 import gmx_struct
    v = V('X02', 'dlog'); n, nx, K = v.dim('n'), v.dim('nx'), v.dim('K'); x = v.arr('x', [n, nx]); g = gmx_struct(v, K, nx); hf = g.f['heaviside_factor']; v.require(gt(hf, R(0)))
    v.ip.summaries['compute_log_det'] = lambda ip, a: g.f['log_det']
    for p in v.call('compute_precisions', [g.f['precisions_chol']], owner='GaussianMixture', mod=G):
        with p:
            prec = deref(p.value)
            for q in v.call('compute_log_gaussian_prob', [g, x], owner='GaussianMixture', mod=G):
                with q:
                    r = deref(q.value); i = q.ix(n); k = q.ix(K); j = q.ix(nx)
                    q.ensure('one row per point', eq(r.dims[0], n)); q.ensure('one column per cluster', eq(r.dims[1], K))
                    def leaf(t):
                        if z3.is_app(t) and t.decl().name() == 'x': return ite(band(eq(t.arg(0), i), eq(t.arg(1), j)), R(1), R(0))
                    D = mkred('sum', nx, lambda l: mul(sub(x.at(i, l), g.f['means'].at(k, l)), div(prec.at(k, l, j), hf)))
                    f = pow_half(r.at(i, k))
                    q.ensure('gradient of the log density', eq(diff(r.at(i, k), leaf), neg(D)), extra=[eq(mul(mul(f, f), hf), R(1))] if f is not None else [])
    v.vacuity()
    return v
def pow_half(t):
    st = [canon(lift(t))]; seen = set()
    while st:
        u = st.pop()
        if u.get_id() in seen or not z3.is_app(u): continue
        seen.add(u.get_id())
        if 'pow' in u.decl().name() or 'sqrt' in u.decl().name(): return u
        if u.decl().name() in T.REDS: st.append(T.REDS[u.decl().name()].body)
        st.extend(u.children())
