"""L01: sparse Gaussian process predictions follow their equations."""
from .gpmodel import *
from .surr import rowkey
from rvc.units import unit
LEVEL = 'other'
A_ = 'gp::sparse_algorithm'
O = A_ + '::SparseGaussianProcess::'
KER = z3.Function('ker', IS, IS, RS)      # correlation of query point i and inducing point k (symmetric: K01)

def sparse(name):
    v = V('L01', name); n, nx, m, h = v.dim('n'), v.dim('nx'), v.dim('m'), v.dim('h')
    x, z, th, w = v.arr('x', [n, nx]), v.arr('z', [m, nx]), v.arr('theta', [h]), v.arr('w', [nx, h])
    s2, noise = v.real('sigma2'), v.real('noise'); v.require(gt(s2, R(0))); v.require(ge(noise, R(0)))
    vec, inv = v.arr('wvec', [m, I(1)]), v.arr('winv', [m, m])
    def which(a):
        from rvc.loops import same_value
        return 'x' if same_value(a, x) else 'z' if same_value(a, z) else None
    v.ip.summaries['pairwise_differences'] = lambda ip, a: Opq('dx', fields={'a': deref(a[0]), 'b': deref(a[1])})
    def value(ip, me, a):
        from rvc.loops import same_value
        d = deref(a[0])
        if not isinstance(d, Opq) or 'a' not in d.fields: raise Unsupported('correlation of something else')
        if not (same_value(deref(a[1]), th) and same_value(deref(a[2]), w)): raise Unsupported('correlation with other hyperparameters')
        qa, qb = d.fields['a'], d.fields['b']; k = (which(qa), which(qb))
        if k == ('x', 'z'): f = lambda i, j: KER(lift(i), lift(j))
        elif k == ('z', 'x'): f = lambda i, j: KER(lift(j), lift(i))
        else: raise Unsupported('correlation of other points')
        def reshape(ip_, me_, b):
            sh = [lift(deref(q)) for q in deref(b[0]).es]
            ip_.oblige('shape of the correlations', band(eq(sh[0], qa.dims[0]), eq(sh[1], qb.dims[0])), 0)
            return OK(Arr([qa.dims[0], qb.dims[0]], f))
        o = Opq('correlations', methods={'into_shape_with_order': reshape, 'into_shape': reshape, 'to_shape': reshape})
        o.methods['to_owned'] = o.methods['clone'] = lambda ip_, me_, b: o
        return o
    me = St('SparseGaussianProcess', {'corr': Opq('corr', methods={'value': value}), 'method': En('Fitc'), 'theta': th, 'sigma2': s2, 'noise': noise, 'likelihood': v.real('lkh'),
                                      'w_star': w, 'inducings': z, 'w_data': St('WoodburyData', {'vec': vec, 'inv': inv}), 'training_data': Tup([Opq('xt'), Opq('yt')]), 'params': Opq('params')})
    return v, me, x, dict(n=n, m=m, s2=s2, noise=noise, vec=vec, inv=inv)

@unit('mean', [O + 'predict', O + 'compute_k'])
def mean():
    v, me, x, s = sparse('mean')
    for p in v.call('predict', [me, x], owner='SparseGaussianProcess', mod=A_):
        with p:
            r = deref(p.value); p.ensure('a prediction is returned', z3.BoolVal(isinstance(r, En) and r.var == 'Ok')); r = deref(r.ps[0]); i = p.ix(s['n'])
            p.ensure('one value per point', eq(r.dims[0], s['n']))
            p.ensure('kernel to the inducing points times the stored weights', eq(r.at(i), mkred('sum', s['m'], lambda k: mul(mul(s['s2'], KER(i, lift(k))), s['vec'].at(k, I(0))))))
    v.vacuity()
    return v

@unit('variance', [O + 'predict_var', O + 'compute_k'])
def variance():
    v, me, x, s = sparse('variance'); m = s['m']
    for p in v.call('predict_var', [me, x], owner='SparseGaussianProcess', mod=A_):
        with p:
            r = deref(p.value); p.ensure('a prediction is returned', z3.BoolVal(isinstance(r, En) and r.var == 'Ok')); r = deref(r.ps[0]); i = p.ix(s['n'])
            p.ensure('one value per point', eq(r.dims[0], s['n']))
            k = lambda a: mul(s['s2'], KER(i, lift(a)))
            raw = sub(s['s2'], mkred('sum', m, lambda a: mul(mkred('sum', m, lambda b: mul(s['inv'].at(b, a), k(b))), k(a))))
            tiny = z3.Q(1, 10 ** 15)
            p.ensure('prior variance reduced by the inducing point correction, floored, plus the noise', eq(r.at(i), add(ite(lt(raw, tiny), tiny, raw), s['noise'])))
            p.ensure('strictly positive', gt(r.at(i), R(0))); p.ensure('at least the noise', ge(r.at(i), s['noise']))
    v.vacuity()
    return v

@unit('random inducing points', [A_ + '::make_inducings'])
def inducings():
    v = V('L01', 'inducings'); nt, nx = v.dim('nt'), v.dim('nx'); xt = v.arr('xt', [nt, nx]); k = v.int('k'); v.require(ge(k, 0))
    for p in v.call('make_inducings', [k, xt, Opq('rng')], mod=A_):
        with p:
            r = deref(p.value); c = r.dims[0]
            p.ensure('as many as requested, at most the training points', eq(c, ite(lt(k, nt), k, nt))); p.ensure('points of the input space', eq(r.dims[1], nx))
            i, j = p.ix(c), p.ix(c)
            l = p.ix(nx)
            def source(i):
                q = [t for t in T.apps([canon(lift(deref(r.at(i, l))))], {'xt'}).get('xt', []) if t.arg(1).eq(l)]
                if len(q) != 1: raise Unsupported('source of an inducing point')
                return q[0].arg(0)
            a, b = source(i), source(j)
            p.ensure('each is a training input', band(ge(a, 0), lt(a, nt), eq(r.at(i, l), xt.at(a, l))))
            p.ensure('distinct training inputs', implies(bnot(eq(i, j)), bnot(eq(a, b))))
    v.vacuity()
    return v

KMM, KMN = z3.Function('kmm', IS, IS, RS), z3.Function('kmn', IS, IS, RS)    # correlations of inducing points, of inducing and training points
def weights(name):
    """stored weights and likelihood of the sparse posterior: Kmm = U U', V = U^-1 Kmn, A = I + V diag(b) V' = L L', weights U^-T L^-T L^-1 V diag(b) y, correction U^-T (I - L^-T L^-1) U^-1"""
    v = V('L01', name); nt, nx, m, h = v.dim('nt'), v.dim('nx'), v.dim('m'), v.dim('h')
    xt, y, z, th, w = v.arr('xt', [nt, nx]), v.arr('yt', [nt, I(1)]), v.arr('z', [m, nx]), v.arr('theta', [h]), v.arr('w', [nx, h])
    s2, noise, nug = v.real('sigma2'), v.real('noise'), v.real('nugget'); v.require(gt(s2, R(0))); v.require(gt(noise, R(0))); v.require(gt(nug, R(0)))
    v.ip.positive_definite = True
    v.ip.summaries['pairwise_differences'] = lambda ip, a: Opq('dx', fields={'a': deref(a[0]), 'b': deref(a[1])})
    from rvc.loops import same_value
    def value(ip, me, a):
        d = deref(a[0])
        if not isinstance(d, Opq) or 'a' not in d.fields: raise Unsupported('correlation of something else')
        if not (same_value(deref(a[1]), th) and same_value(deref(a[2]), w)): raise Unsupported('correlation with other hyperparameters')
        qa, qb = d.fields['a'], d.fields['b']
        if not same_value(qa, z): raise Unsupported('correlation of other points')
        if same_value(qb, z): f, nb = (lambda i, j: KMM(lift(i), lift(j))), m
        elif same_value(qb, xt): f, nb = (lambda i, j: KMN(lift(i), lift(j))), nt
        else: raise Unsupported('correlation of other points')
        o = Opq('correlations', methods={'into_shape_with_order': lambda ip_, me_, b: OK(Arr([m, nb], f))})
        return o
    me = St('SgpValidParams', {'gp_params': St('GpValidParams', {'corr': Opq('corr', methods={'value': value})}), 'method': En('Fitc')})
    S = mkred; ip = v.ip; delta = lambda i, j: ite(eq(i, j), R(1), R(0))
    U = cholesky(ip, Arr([m, m], lambda i, j: add(mul(s2, KMM(lift(i), lift(j))), mul(delta(i, j), nug)))); Ui = inv_tri(ip, U, 'Lower')
    Vm = lambda i, t: S('sum', m, lambda k: mul(Ui(i, k), mul(s2, KMN(lift(k), lift(t)))))
    if name == 'fitc':
        nu = lambda t: add(sub(s2, S('sum', m, lambda i: mul(Vm(i, t), Vm(i, t)))), noise); b = lambda t: div(R(1), nu(t))
    else: b = lambda t: div(R(1), ite(lt(noise, nug), nug, noise)); nu = None
    VV = (lambda i, j: S('sum', nt, lambda t: mul(mul(Vm(i, t), b(t)), Vm(j, t)))) if nu else lambda i, j: mul(b(I(0)), S('sum', nt, lambda t: mul(Vm(i, t), Vm(j, t))))
    L = cholesky(ip, Arr([m, m], lambda i, j: add(delta(i, j), VV(i, j)))); Li = inv_tri(ip, L, 'Lower')
    c = lambda q: S('sum', m, lambda i: mul(Li(q, i), S('sum', nt, lambda t: mul(mul(Vm(i, t), b(t)), y.at(t, I(0))))))
    LU = lambda q, j: S('sum', m, lambda k: mul(Li(q, k), Ui(k, j)))
    wv = lambda i: S('sum', m, lambda q: mul(LU(q, i), c(q)))
    wi = lambda i, j: sub(S('sum', m, lambda q: mul(Ui(q, i), Ui(q, j))), S('sum', m, lambda q: mul(LU(q, i), LU(q, j))))
    logdet = mul(R(2), S('sum', m, lambda q: ln(L.at(q, q)))); yby = S('sum', nt, lambda t: mul(mul(y.at(t, I(0)), b(t)), y.at(t, I(0)))); cc = S('sum', m, lambda q: mul(c(q), c(q)))
    if name == 'fitc': lk = add(add(S('sum', nt, lambda t: ln(nu(t))), logdet), sub(yby, cc))
    else:
        bb = b(I(0)); trace = S('sum', m, lambda i: VV(i, i))
        lk = add(add(neg(mul(toreal(nt), ln(bb))), logdet), add(sub(yby, cc), sub(mul(mul(toreal(nt), bb), s2), trace)))
    for p in v.call(name, [me, th, s2, noise, w, xt, y, z, nug], owner='SgpValidParams', mod=A_):
        with p:
            r = deref(p.value); l, q = deref(r.es[0]), deref(r.es[1]); vec, inv = deref(q.f['vec']), deref(q.f['inv']); i, j = p.ix(m), p.ix(m)
            p.ensure('one weight per inducing point', band(eq(vec.dims[0], m), eq(vec.dims[1], 1), eq(inv.dims[0], m), eq(inv.dims[1], m)))
            p.ensure('weights of the sparse posterior mean', eq(vec.at(i, I(0)), wv(i)))
            p.ensure('correction of the sparse posterior variance', eq(inv.at(i, j), wi(i, j)))
            p.ensure('marginal likelihood of the sparse model', eq(l, mul(z3.Q(-1, 2), lk)))
    v.vacuity()
    return v
unit('FITC weights', [A_ + '::SgpValidParams::fitc', A_ + '::SgpValidParams::compute_k'])(lambda: weights('fitc'))
unit('VFE weights', [A_ + '::SgpValidParams::vfe', A_ + '::SgpValidParams::compute_k'])(lambda: weights('vfe'))
