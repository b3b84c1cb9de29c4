"""G03: starting points of the hyperparameter optimisation."""
from rvc.vc import *
from rvc.units import unit
from .find import *
R, I = z3.RealVal, z3.IntVal
LEVEL = 'other'
M = 'gp::optimization'

@unit('starting points', [M + '::prepare_multistart'])
def starts():
    v = V('G03', 'starts'); ns, d = v.int('n_start'), v.dim('d'); v.require(ge(ns, 0))
    t0 = v.arr('theta0', [d]); lo, hi = v.arr('lo', [d]), v.arr('hi', [d])
    v.forall(lambda i: band(gt(lo.at(i), R(0)), lt(lo.at(i), hi.at(i)), gt(t0.at(i), R(0)), lt(log10(lo.at(i)), log10(hi.at(i)))))
    bounds = Arr([d], lambda i: Tup([lo.at(i), hi.at(i)]), 'vec')
    U = z3.Function('lhs', IS, IS, RS)
    def lhs(ip, a, e):
        lim = deref(a[0])
        def sample(ip_, me, b):
            # contract of the sampling methods (D01)
            v.ip.univ.append(lambda i: TRUE_)
            x = Arr([deref(b[0]), lim.dims[0]], lambda i, j: add(lim.at(j, I(0)), mul(U(i, j), sub(lim.at(j, I(1)), lim.at(j, I(0))))))
            return x
        o = Opq('lhs', methods={'sample': sample}); o.methods['kind'] = o.methods['with_rng'] = lambda ip_, me, b: o
        return o
    TRUE_ = z3.BoolVal(True)
    v.ip.specs['Lhs::new'] = lhs
    for p in v.call('prepare_multistart', [ns, t0, bounds], mod=M):
        with p:
            t, b = [deref(q) for q in p.value.es]; j = p.ix(d); i = p.ix(add(ns, 1))
            p.ensure('the initial guess and one row per start', eq(t.dims[0], add(ns, 1))); p.ensure('one column per component', eq(t.dims[1], d))
            p.ensure('the first start is the initial guess', eq(t.at(I(0), j), log10(t0.at(j))))
            p.ensure('one pair of bounds per component', eq(b.dims[0], d))
            q = deref(b.at(j)); p.ensure('bounds are those given', band(eq(q.es[0], log10(lo.at(j))), eq(q.es[1], log10(hi.at(j)))))
            u = U(sub(i, 1), j)
            p.ensure('random starts are within the bounds', implies(ge(i, 1), band(ge(t.at(i, j), log10(lo.at(j))), le(t.at(i, j), log10(hi.at(j))))), extra=[ge(u, R(0)), le(u, R(1))])
    v.vacuity()
    return v

A_ = 'gp::algorithm'
def training(name, mode, kpls, glob=False):
    """fit with any data; the likelihood, the reduction and the local optimiser are unknown functions (any result)"""
    v = V('G03', name); n, nx = v.dim('n'), v.dim('nx'); x, y = v.arr('x', [n, nx]), v.arr('y', [n])
    dim = v.dim('h') if kpls else nx
    if kpls: v.require(le(dim, nx))
    one = glob
    init = v.arr('init', [I(1) if one else dim]); lo, hi = v.arr('lo', [I(1) if one else dim]), v.arr('hi', [I(1) if one else dim])
    bounds = Arr([I(1) if one else dim], lambda i: Tup([lo.at(i), hi.at(i)]), 'vec')
    na = v.dim('na'); act = v.arr('active', [na], sort=IS, kind='vec')
    v.forall(lambda t: band(ge(act.at(t), 0), lt(act.at(t), dim)))
    tun = {'Fixed': lambda: En('Fixed', [init]), 'Full': lambda: En('Full', [init, bounds], ['init', 'bounds']), 'Partial': lambda: En('Partial', [init, bounds, act], ['init', 'bounds', 'active'])}[mode]()
    m = na if mode == 'Partial' else dim
    ns = v.int('n_start'); v.require(ge(ns, 0))
    seen = v.cell(NONE())
    W = v.arr('w', [nx, dim])
    OPT, VALUE = z3.Function('opt', IS, IS, RS), z3.Function('lkh', IS, RS)
    cnt = [0]
    def freeze(ip, a):
        """the elements as terms of their index (the closures computing them end with the call)"""
        a = deref(a); b = fresh('bvx', IS); ip.pc.append(band(ge(b, 0), lt(b, a.dims[0])))
        e = deref(a.at(b)); ip.pc.pop(); sub_ = lambda t, i: z3.substitute(lift(deref(t)), (b, lift(i)))
        return Arr(a.dims, (lambda i: Tup([sub_(t, i) for t in e.es])) if isinstance(e, Tup) else (lambda i: sub_(e, i)), a.kind)
    def pms(ip, a):
        a = [a[0], freeze(ip, a[1]), freeze(ip, a[2])]
        seen.set(SOME(Tup(a)))
        k = deref(a[1]).dims[0]
        st = z3.Function('start', IS, IS, RS)
        return Tup([Arr([add(ns, 1), k], lambda i, j: ite(eq(i, 0), log10(deref(a[1]).at(j)), st(i, j))), deref(a[2])])
    def opt(ip, a):
        s = deref(a[1]); key = fresh('run', IS)
        return Tup([VALUE(key), Arr([s.dims[0]], lambda j: OPT(key, j))])
    S = v.ip.summaries
    S['prepare_multistart'], S['optimize_params'] = pms, opt
    S['reduced_likelihood'] = lambda ip, a: OK(Tup([Opq('likelihood'), Opq('inner')]))
    v.ip.specs['NormalizedData::new'] = lambda ip, a, e: St('NormalizedData', {'data': v.arr('norm', list(deref(a[0]).dims)), 'mean': Opq('mean'), 'std': Opq('std')})
    v.ip.specs['DiffMatrix::new'] = lambda ip, a, e: St('DiffMatrix', {'d': v.arr('diffs', [v.dim('pairs'), nx]), 'd_indices': Opq('indices'), 'n_obs': n})
    v.ip.specs['PlsRegression::params'] = lambda ip, a, e: Opq('pls', methods={'fit': lambda ip_, me, b: OK(Opq('fitted', methods={'rotations': lambda i2, m2, c: Tup([W, W])}))})
    corr = Opq('corr', methods={'value': lambda ip, me, a: Opq('rxx')}); mean = Opq('mean', methods={'value': lambda ip, me, a: Opq('fx')})
    me = St('GpValidParams', {'theta_tuning': tun, 'mean': mean, 'corr': corr, 'kpls_dim': SOME(dim) if kpls else NONE(), 'n_start': ns, 'max_eval': v.int('max_eval'), 'nugget': v.real('nugget')})
    ds = Opq('dataset', methods={'records': lambda ip, me_, a: x, 'targets': lambda ip, me_, a: y})
    return v, me, ds, dict(dim=dim, nx=nx, init=init, lo=lo, hi=hi, act=act, na=na, seen=seen, m=m, ns=ns)

def fit_case(mode, kpls, glob):
    v, me, ds, s = training('fit' + mode, mode, kpls, glob)
    t0 = lambda i: s['init'].at(I(0) if glob else i)
    for p in v.call('fit', [me, ds], owner='GpValidParams', mod=A_):
        with p:
            r = deref(p.value)
            p.ensure('a model is trained', z3.BoolVal(isinstance(r, En) and r.var == 'Ok')); th = deref(deref(r.ps[0]).f['theta']); i = p.ix(s['dim'])
            p.ensure('one hyperparameter per component', eq(th.dims[0], s['dim']))
            if mode == 'Fixed': p.ensure('fixed hyperparameters are the given ones', eq(th.at(i), t0(i)))
            else:
                if mode == 'Partial':
                    k = p.ix(s['na'])
                    p.v.ip.univ.append(lambda t: implies(band(ge(t, 0), lt(t, s['na'])), bnot(eq(s['act'].at(t), i))))
                    p.ensure('inactive components keep their initial value', eq(th.at(i), t0(i)))
                    p.v.ip.univ.pop()
                q = deref(p.get(s['seen'])); p.ensure('starting points are prepared', z3.BoolVal(q.var == 'Some'))
                st, g, b = [deref(z) for z in deref(q.ps[0]).es]; j = p.ix(s['m']); c = (lambda j: s['act'].at(j)) if mode == 'Partial' else (lambda j: j)
                p.ensure('the requested number of starts', eq(st, s['ns'])); p.ensure('the initial guess is the given one', eq(g.at(j), t0(c(j))))
                e = deref(b.at(j)); z = I(0) if glob else c(j)
                p.ensure('the bounds are the given ones', band(eq(e.es[0], s['lo'].at(z)), eq(e.es[1], s['hi'].at(z))))
    v.vacuity()
    return v
for _m in ('Fixed', 'Full', 'Partial'):
    for _g in (False, True):
        for _k in (False, True):
            unit(f'{_m.lower()} tuning' + (', single value' if _g else '') + (', reduced inputs' if _k else ''), [A_ + '::GpValidParams::fit'])(lambda m=_m, k=_k, g=_g: fit_case(m, k, g))
