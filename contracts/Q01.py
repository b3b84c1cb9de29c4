"""Q01: quality metrics by cross validation."""
from rvc.vc import *
from rvc.units import unit
from .find import *
I, R = z3.IntVal, z3.RealVal
LEVEL = 'other'
M = 'moe::metrics'
# fold f holds out ns(f) points: rows ho(f, i) of the training data (linfa's k-fold split, assumed)
NS, HO = z3.Function('ns', IS, IS), z3.Function('ho', IS, IS, IS)
MU, VA = z3.Function('mu', IS, IS, RS), z3.Function('va', IS, IS, RS)       # prediction at row r by the model trained without fold f

def setup(name, ok=None):
    ok = ok or OK
    v = V('Q01', name); n, d, K = v.dim('n'), v.dim('d'), v.dim('K')
    v.forall(lambda f: ge(NS(f), 1))
    x, y = v.arr('x', [n, d]), v.arr('y', [n])
    def held(f): return Arr([NS(f), d], lambda i, j: x.at(HO(f, i), j)), Arr([NS(f)], lambda i: y.at(HO(f, i)))
    def query(f, a):
        """predictions by model f are asked at rows of the training data"""
        a = deref(a)
        def row(i):
            t = canon(lift(deref(a.at(i, I(0)))))
            if z3.is_app(t) and t.decl().name() == 'x': return t.arg(0)
            raise Unsupported('predicted at another point')
        return a.dims[0], row
    def surrogate(f):
        def val(g): 
            def m(ip, me, a):
                k, row = query(f, a[0]); return Arr([k], lambda i: g(f, row(i)))
            return m
        return Opq('model', fields={'fold': f}, methods={'predict': lambda ip, me, a: ok(val(MU)(ip, me, a)), 'predict_var': lambda ip, me, a: OK(val(VA)(ip, me, a)),
                                     'predict_valvar': lambda ip, me, a: OK(Tup([val(MU)(ip, me, a), val(VA)(ip, me, a)]))})
    def fit(ip, me, a):
        t = deref(a[0])
        if not isinstance(t, Opq) or 'fold' not in t.fields: raise Unsupported('trained on other data')
        return OK(surrogate(t.fields['fold']))
    def fold(ip, ds, a):
        ds = deref(ds); k = deref(a[0])
        if not (same_arr(ds.f['records'], x) and same_arr(ds.f['targets'], y)): raise Unsupported('folds of other data')
        v.folds = k
        def pair_(f):
            hx, hy = held(f)
            return Tup([Opq('train', fields={'fold': f}), Opq('valid', fields={'fold': f}, methods={
                'records': lambda ip, me, a: hx, 'targets': lambda ip, me, a: hy, 'nsamples': lambda ip, me, a: NS(f)})])
        return Opq('folds', methods={'into_iter': lambda ip, me, a: It(k, pair_), 'iter': lambda ip, me, a: It(k, pair_)})
    v.ip.methods_of = getattr(v.ip, 'methods_of', {}); v.ip.methods_of[('Dataset', 'fold')] = fold
    me = Opq('metrics', methods={'training_data': lambda ip, me, a: Tup([x, y]), 'params': lambda ip, me, a: Opq('params', methods={'fit': fit})})
    return v, n, K, x, y, me
def same_arr(a, b):
    from rvc.loops import same_value
    return same_value(deref(a), deref(b))

def total(K, g): return mkred('sum', K, lambda f: mkred('sum', NS(f), lambda i: g(f, HO(f, i))))
def sq(t): return mul(t, t)

@unit('predictive coefficient', [M + '::GpMetrics::q2_k_score'])
def q2():
    v, n, K, x, y, me = setup('q2')
    for p in v.call('q2_k_score', [me, K], owner='GpMetrics', mod=M):
        with p:
            mean = div(mkred('sum', n, lambda i: y.at(i)), toreal(n))
            press = total(K, lambda f, r: sq(sub(y.at(r), MU(f, r)))); tss = total(K, lambda f, r: sq(sub(y.at(r), mean)))
            p.ensure('one minus residual over total sum of squares', eq(p.value, sub(R(1), div(press, tss))))
    v.vacuity()
    return v

@unit('variance adequacy', [M + '::GpMetrics::pva_k_score'])
def pva():
    v, n, K, x, y, me = setup('pva')
    for p in v.call('pva_k_score', [me, K], owner='GpMetrics', mod=M):
        with p:
            s = total(K, lambda f, r: div(sq(sub(y.at(r), MU(f, r))), VA(f, r))); m = mkred('isum', K, NS)
            p.ensure('absolute logarithm of the mean squared standardised residual', eq(p.value, absr(ln(div(s, toreal(m))))))
    v.vacuity()
    return v

PPF = lambda a: uf('nppf', a)                                      # standard normal quantile (statrs, assumed)
ALPHA = lambda i: add(z3.Q(2, 100), mul(div(z3.Q(96, 100), R(19)), toreal(i)))
IAEF, DEL = z3.Function('iaef', IS, RS), z3.Function('delta', IS, IS, RS)

@unit('predictive coefficient of a single process', ['gp::metrics::PredictScore::q2_score'])
def q2g():
    v, n, K, x, y, me = setup('q2g', ok=lambda t: t)
    for p in v.call('q2_score', [me, K], owner='PredictScore', mod='gp::metrics'):
        with p:
            mean = div(mkred('sum', n, lambda i: y.at(i)), toreal(n))
            press = total(K, lambda f, r: sq(sub(y.at(r), MU(f, r)))); tss = total(K, lambda f, r: sq(sub(y.at(r), mean)))
            p.ensure('one minus residual over total sum of squares', eq(p.value, sub(R(1), div(press, tss))))
    v.vacuity()
    return v

@unit('leave one out', [M + '::GpMetrics::q2_score', M + '::GpMetrics::pva_score', M + '::GpMetrics::iae_alpha_score', 'gp::metrics::PredictScore::looq2_score'])
def loo():
    """the leave-one-out scores are the k-fold scores with as many folds as training points"""
    v, n, K, x, y, me = setup('loo')
    S = {k: z3.Function(k, IS, RS) for k in ('q2_k_score', 'pva_k_score', 'iae_alpha_k_score', 'q2k')}
    for k, m in S.items():
        me.methods[k] = (lambda m: lambda ip, me, a: m(deref(a[0])))(m)
    for nm, k in (('q2_score', 'q2_k_score'), ('pva_score', 'pva_k_score'), ('iae_alpha_score', 'iae_alpha_k_score')):
        for p in v.call(nm, [me] + ([NONE()] if 'iae' in nm else []), owner='GpMetrics', mod=M):
            with p: p.ensure(f'{nm}: as many folds as points', eq(p.value, S[k](n)))
    me.methods['q2_score'] = lambda ip, me, a: S['q2k'](deref(a[0]))
    for p in v.call('looq2_score', [me], owner='PredictScore', mod='gp::metrics'):
        with p: p.ensure('looq2_score: as many folds as points', eq(p.value, S['q2k'](n)))
    v.vacuity()
    return v

@unit('interval accuracy on held-out points', [M + '::iae_alpha', M + '::empirical_coverage'])
def iae():
    """the observed coverage of a level is the share of held-out points inside mean +- quantile times sigma, and the score is the mean gap"""
    v = V('Q01', 'iae'); m, q, d = v.dim('m'), v.dim('q'), v.dim('d')
    x, y, al, mu, va = v.arr('x', [m, d]), v.arr('y', [m]), v.arr('al', [q]), v.arr('mu', [m]), v.arr('va', [m])
    v.forall(lambda i: ge(va.at(i), 0))
    model = Opq('model', methods={'predict_valvar': lambda ip, me, a: OK(Tup([mu, va])), 'predict': lambda ip, me, a: OK(mu), 'predict_var': lambda ip, me, a: OK(va)})
    valid = Opq('valid', methods={'records': lambda ip, me, a: x, 'targets': lambda ip, me, a: y, 'nsamples': lambda ip, me, a: m})
    for p in v.call('iae_alpha', [model, valid, al], mod=M):
        with p:
            r = deref(p.value); iae_, de = lift(deref(r.es[0])), deref(r.es[1])
            def cover(k):
                s = lambda i: mul(sqrt(va.at(i)), PPF(sub(R(1), div(al.at(k), R(2)))))
                return div(toreal(mkred('isum', m, lambda i: ite(band(ge(y.at(i), sub(mu.at(i), s(i))), le(y.at(i), add(mu.at(i), s(i)))), I(1), I(0)))), toreal(m))
            k = p.ix(q)
            p.ensure('one coverage per level', eq(de.dims[0], q))
            p.ensure('coverage is the share of held-out points inside the interval', eq(de.at(k), cover(k)))
            p.ensure('mean gap between nominal and observed coverage', eq(iae_, div(mkred('sum', q, lambda k: absr(sub(cover(k), sub(R(1), al.at(k))))), toreal(q))))
    v.vacuity()
    return v

@unit('interval accuracy', [M + '::GpMetrics::iae_alpha_k_score'])
def iaek():
    """the score is the mean over the folds, each from the model trained without it, at the twenty levels from 0.02 to 0.98"""
    v, n, K, x, y, me = setup('iaek')
    def callee(ip, args, *_):
        mo, va, al = [deref(a) for a in args]
        if mo.name != 'model' or va.name != 'valid': raise Unsupported('other data')
        if not mo.fields['fold'].eq(va.fields['fold']): raise Unsupported('held-out data of another fold')
        v.al = al
        return Tup([IAEF(va.fields['fold']), Arr([al.dims[0]], lambda k: DEL(va.fields['fold'], k))])
    v.ip.summaries[M + '::iae_alpha'] = callee
    for p in v.call('iae_alpha_k_score', [me, K, NONE()], owner='GpMetrics', mod=M):
        with p:
            p.ensure('mean over the folds', eq(p.value, div(mkred('sum', K, lambda f: IAEF(f)), toreal(K))))
            k = p.ix(I(20))
            p.ensure('twenty levels', eq(v.al.dims[0], I(20)))
            p.ensure('levels are evenly spread from 0.02 to 0.98', eq(v.al.at(k), ALPHA(k)))
    v.vacuity()
    return v
