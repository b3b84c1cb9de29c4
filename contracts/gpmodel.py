"""A fitted Gaussian process as contract input: any trend, any kernel (through the contracts K01, K02), any fitted quantities."""
from rvc.vc import *
I, R = z3.IntVal, z3.RealVal
A_ = 'gp::algorithm'
# trend function k at point r, correlation of point r and training point t, correlation of points r and s
TREND, CORR, CROSS = z3.Function('trend', IS, IS, RS), z3.Function('corr', IS, IS, RS), z3.Function('cross', IS, IS, RS)

# their derivatives with respect to normalised coordinate j
TTRAIN = z3.Function('trendtrain', IS, IS, RS)      # trend function k at training point t
DTREND, DCORR = z3.Function('dtrend', IS, IS, IS, RS), z3.Function('dcorr', IS, IS, IS, RS)

class Gp:
    def __init__(s, pid, name):
        s.v = v = V(pid, name); s.n, s.nx, s.nt, s.p = v.dim('n'), v.dim('nx'), v.dim('nt'), v.dim('p')
        s.h = v.dim('h')
        s.x = v.arr('x', [s.n, s.nx])
        s.xm, s.xs, s.ym, s.ys = v.arr('xm', [s.nx]), v.arr('xs', [s.nx]), v.arr('ym', [I(1)]), v.arr('ys', [I(1)])
        v.forall(lambda j: implies(band(ge(j, 0), lt(j, s.nx)), gt(s.xs.at(j), R(0)))); v.require(gt(s.ys.at(I(0)), R(0)))
        s.xt = v.arr('xt', [s.nt, s.nx]); s.theta = v.arr('theta', [s.h]); s.w = v.arr('w', [s.nx, s.h])
        s.beta, s.gamma = v.arr('beta', [s.p, I(1)]), v.arr('gamma', [s.nt, I(1)])
        s.chol, s.ft, s.qr, s.s2 = v.arr('rchol', [s.nt, s.nt]), v.arr('ft', [s.nt, s.p]), v.arr('qr', [s.p, s.p]), v.real('sigma2')
        v.require(gt(s.s2, R(0)))
        s.mean, s.corr = Opq('mean', methods=s.mean_methods()), Opq('corr', methods=s.corr_methods())
        v.ip.summaries['pairwise_differences'] = s.pairwise
        s.me = St('GaussianProcess', {
            'theta': s.theta, 'likelihood': v.real('lkh'), 'w_star': s.w,
            'inner_params': St('GpInnerParams', {'sigma2': s.s2, 'beta': s.beta, 'gamma': s.gamma, 'r_chol': s.chol, 'ft': s.ft, 'ft_qr_r': s.qr}),
            'xt_norm': St('NormalizedData', {'data': s.xt, 'mean': s.xm, 'std': s.xs}), 'yt_norm': St('NormalizedData', {'data': v.arr('yt', [s.nt, I(1)]), 'mean': s.ym, 'std': s.ys}),
            'training_data': Tup([Opq('xraw'), Opq('yraw')]), 'params': St('GpValidParams', {'mean': s.mean, 'corr': s.corr})})
    def norm(s, i, j): return div(sub(s.x.at(i, j), s.xm.at(j)), s.xs.at(j))
    def key(s, a, r):
        """the input row whose normalised coordinates are row r of a"""
        a = deref(a); j = fresh('bvx', IS); t = canon(lift(deref(a.at(r, j) if a.rank == 2 else a.at(j))))
        for q in T.apps([t], {'x'}).get('x', []):
            if q.num_args() == 2 and q.arg(1).eq(j) and not depends(q.arg(0), j) and canon(sub(t, s.norm(q.arg(0), j))).eq(canon(lift(R(0)))): return q.arg(0)
        raise Unsupported('not the normalised coordinates of an input row: ' + str(t)[:100])
    def mean_methods(s):
        def value(ip, me, a):
            q = deref(a[0])
            if not isinstance(q, Arr) or q.rank != 2: raise Unsupported('trend of something else')
            if s.same(q, s.xt): return Arr([s.nt, s.p], lambda t, k: TTRAIN(lift(t), lift(k)))
            return Arr([q.dims[0], s.p], lambda i, k: TREND(lift(s.key(q, i)), lift(k)))
        def jacobian(ip, me, a):
            r = s.key(a[0], None); return Arr([s.p, s.nx], lambda k, j: DTREND(lift(r), lift(k), lift(j)))
        return {'value': value, 'jacobian': jacobian}
    def pairwise(s, ip, a): return Opq('dx', fields={'a': deref(a[0]), 'b': deref(a[1])})
    def same(s, a, b):
        from rvc.loops import same_value
        return same_value(deref(a), deref(b))
    def corr_methods(s):
        def value(ip, me, a):
            d, th, w = [deref(q) for q in a]
            if not isinstance(d, Opq) or 'a' not in d.fields: raise Unsupported('correlation of something else')
            if not (s.same(th, s.theta) and s.same(w, s.w)): raise Unsupported('correlation with other hyperparameters')
            qa, qb = d.fields['a'], d.fields['b']
            if s.same(qb, s.xt): f = lambda i, t: CORR(lift(s.key(qa, i)), lift(t))
            else: f = lambda i, t: CROSS(lift(s.key(qa, i)), lift(s.key(qb, t)))
            na, nb = qa.dims[0], qb.dims[0]
            def reshape(ip_, me_, b):
                sh = [lift(deref(q)) for q in deref(b[0]).es]
                ip_.oblige('shape of the correlations', band(eq(sh[0], na), eq(sh[1], nb)), 0)
                return OK(Arr([na, nb], f))
            o = Opq('correlations', methods={'into_shape_with_order': reshape, 'into_shape': reshape, 'to_shape': reshape})
            o.methods['to_owned'] = o.methods['view'] = o.methods['clone'] = lambda ip_, me_, b: o
            return o
        def row(a):
            if not (s.same(a[1], s.xt) and s.same(a[2], s.theta) and s.same(a[3], s.w)): raise Unsupported('correlation with other data')
            return lift(s.key(a[0], None))
        def jacobian(ip, me, a): r = row(a); return Arr([s.nt, s.nx], lambda t, j: DCORR(r, lift(t), lift(j)))
        def valjac(ip, me, a): r = row(a); return Tup([Arr([s.nt, I(1)], lambda t, _: CORR(r, lift(t))), jacobian(ip, me, a)])
        return {'value': value, 'jacobian': jacobian, 'valjac': valjac}
    # specification
    def mu(s, i):
        y = add(mkred('sum', s.p, lambda k: mul(TREND(lift(i), lift(k)), s.beta.at(k, I(0)))), mkred('sum', s.nt, lambda t: mul(CORR(lift(i), lift(t)), s.gamma.at(t, I(0)))))
        return add(mul(y, s.ys.at(I(0))), s.ym.at(I(0)))
    def rt(s, t, i):
        f = inv_tri(s.v.ip, s.chol, 'Lower'); return mkred('sum', s.nt, lambda k: mul(f(t, k), CORR(lift(i), lift(k))))
    def u(s, q, i):
        f = inv_tri(s.v.ip, Arr([s.p, s.p], lambda a, b: s.qr.at(b, a)), 'Lower')
        return mkred('sum', s.p, lambda k: mul(f(q, k), sub(mkred('sum', s.nt, lambda t: mul(s.ft.at(t, k), s.rt(t, i))), TREND(lift(i), lift(k)))))
    def mse(s, i): return mul(s.s2, add(sub(R(1), mkred('sum', s.nt, lambda t: mul(s.rt(t, i), s.rt(t, i)))), mkred('sum', s.p, lambda q: mul(s.u(q, i), s.u(q, i)))))
    def var(s, i): m = s.mse(i); return ite(lt(m, R(0)), R(0), m)
    def leaf(s, j):
        """derivatives with respect to input coordinate j (input units)"""
        def f(t):
            if z3.is_app(t) and t.decl().name() == 'trend': return div(DTREND(*t.children(), lift(j)), s.xs.at(j))
            if z3.is_app(t) and t.decl().name() == 'corr': return div(DCORR(*t.children(), lift(j)), s.xs.at(j))
        return f
from rvc.builtins_ import inv_tri, cholesky, matkey, CHOL
