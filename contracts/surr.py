"""Surrogates as unknown functions of the input row, with their derivatives; normal law contracts."""
from rvc.vc import *
Z0 = z3.IntVal(0); R = z3.RealVal
EPS = z3.Q(1, 2 ** 52)
MINV = None

def fun(name, *sorts): return lambda *a: z3.Function(name, *([IS] * len(a)), RS)(*[lift(x) for x in a])
MU, VAR, DMU, DVAR = fun('mu'), fun('var'), fun('dmu'), fun('dvar')

def rowkey(a, r):
    """identity of row r of a: the indices of the input row it is"""
    j = fresh('col', IS)
    a = deref(a)
    t = canon(lift(deref(a.at(r, j) if a.rank == 2 else a.at(j))))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() >= 1 and t.arg(t.num_args() - 1).eq(j) and not any(depends(c, j) for c in t.children()[:-1]):
        return t.children()[:-1]
    raise Unsupported(f"surrogate queried at a point that is not an input row: {str(t)[:80]}")

def model(v, k, nx, ok=True, extra=None):
    """surrogate number k: mean mu(k, row), variance var(k, row) and their derivatives; every row of a result depends only on its own row (property G01/X01)"""
    def per(f, a):
        return Arr([a.dims[0]], lambda i: f(k, *rowkey(a, i)))
    def perg(f, a): return Arr([a.dims[0], nx], lambda i, j: f(k, *rowkey(a, i), j))
    def A(a): 
        x = deref(a[0])
        return x
    def res(x): return OK(x) if ok else ERR(Opq('error'))
    ms = {
        'predict': lambda ip, me, a: res(per(MU, A(a))), 'predict_var': lambda ip, me, a: res(per(VAR, A(a))),
        'predict_valvar': lambda ip, me, a: res(Tup([per(MU, A(a)), per(VAR, A(a))])),
        'predict_gradients': lambda ip, me, a: res(perg(DMU, A(a))), 'predict_var_gradients': lambda ip, me, a: res(perg(DVAR, A(a))),
        'predict_valvar_gradients': lambda ip, me, a: res(Tup([perg(DMU, A(a)), perg(DVAR, A(a))]))}
    ms.update(extra or {})
    return Opq('surrogate', methods=ms)

def dleaf(j):
    def leaf(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.decl().name() == 'mu': return DMU(*t.children(), j)
            if t.decl().name() == 'var': return DVAR(*t.children(), j)
        return None
    return leaf

def normal(v):
    """callers of norm_pdf/norm_cdf use their contracts (unit "normal law")"""
    v.ip.summaries['norm_pdf'] = lambda ip, a: npdf(a[0])
    v.ip.summaries['norm_cdf'] = lambda ip, a: ncdf(a[0])
    return v

C1 = z3.Const('SQRT_2PI', RS)
def phi_def(u): return band(eq(mul(npdf(u), C1), exp(mul(z3.Q(-1, 2), mul(u, u)))), gt(C1, R(0)))
def exp_inv(a): return eq(mul(exp(a), exp(neg(a))), R(1))
def ln_mul(a, b): return implies(band(gt(a, R(0)), gt(b, R(0))), eq(ln(mul(a, b)), add(ln(a), ln(b))))
def exp_ln(a, c): return implies(gt(a, R(0)), eq(exp(add(ln(a), c)), mul(a, exp(c))))
def fold_phi(t, u):
    """use phi_def: rewrite exp(-u^2/2) as phi(u) sqrt(2 pi)"""
    t = canon(lift(t)); a = canon(mul(z3.Q(-1, 2), mul(u, u)))
    for e in T.apps([t], {'exp'}).get('exp', []):
        if canon(e.arg(0)).eq(a): t = z3.substitute(t, (e, mul(npdf(u), C1)))
    return canon(t)
MATH = 'laws of exp, ln, phi and Phi over the reals (phi(u) sqrt(2 pi) = exp(-u^2/2), exp(a)exp(-a) = 1, ln(ab) = ln a + ln b, exp(ln a + c) = a exp(c), u Phi(u) + phi(u) > 0)'

def normal_law(pid):
    v = V(pid, 'normal'); x = v.real('x')
    for p in v.call('norm_cdf', [x], mod='ego::utils::misc'):
        with p: p.ensure('norm_cdf is the standard normal distribution function', eq(p.value, ncdf(x)))
    for p in v.call('norm_pdf', [x], mod='ego::utils::misc'):
        with p:
            p.ensure('norm_pdf is the standard normal density', eq(p.value, npdf(x)), extra=[phi_def(x)])
    v.vacuity()
    return v
NORMAL_FNS = ['ego::utils::misc::norm_cdf', 'ego::utils::misc::norm_pdf']
